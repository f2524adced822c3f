package harness

import (
	"syscall"

	"gevsim/core"
	"gevsim/gen/github.com/Allenxuxu/gev"
	"gevsim/gen/github.com/Allenxuxu/gev/eventloop"
	"gevsim/gen/github.com/Allenxuxu/gev/poller"
	"gevsim/kern"
)

func init() { kinds["ctor"] = runCtor }

type echoHandler struct{ closed, opened *int }

func (h echoHandler) OnConnect(*gev.Connection) { *h.opened++ }
func (h echoHandler) OnMessage(c *gev.Connection, ctx interface{}, d []byte) interface{} {
	return append([]byte(nil), d...)
}
func (h echoHandler) OnClose(*gev.Connection) { *h.closed++ }

// ctorRun builds things while resources are refused.
//
// P[0] what to build (0 server, 1 loop, 2 poller, 3 a server on an address in use), P[1] which
// acquisition fails (-1: use the descriptor limit P[2] instead), P[2] errno index or limit,
// P[3] attempts that fail before the good one, P[4] descriptors of the surrounding program.
type ctorRun struct {
	sp             *Spec
	port           int
	closed, opened int
}

func runCtor() {
	sp := w.spec
	w.net = &netWorld{sp: sp, stopAt: -1, loopTask: map[*core.Task]int{}, busy: map[*core.Task]string{}}
	errs := []kern.Errno{syscall.EMFILE, syscall.ENFILE, syscall.ENOMEM, syscall.ENOSPC, syscall.EADDRINUSE, syscall.EACCES}
	what, fail := sp.P[0], sp.P[1]
	x := &ctorRun{sp: sp, port: 1388}
	if sp.Srv.Addr != "" && sp.Srv.Net != "unix" {
		x.port = portOf(sp.Srv.Addr)
	}
	// descriptors of the surrounding program
	keep := int(sp.P[4])
	for i := 0; i < keep; i++ {
		kern.Eventfd(0, 0)
	}
	if what == 3 {
		x.inUse()
		return
	}
	for try := int64(0); try < max(sp.P[3], 1); try++ {
		before := kern.OpenFDs()
		bad := len(kern.BadCloses())
		if fail >= 0 {
			kern.FailAcquisition(int(fail), errs[sp.P[2]])
		} else {
			kern.SetMaxFD(3 + keep + int(sp.P[2]))
		}
		var v any
		var err error
		if !within("builder", 10*core.Sec, func() { v, err = x.build(what) }) {
			viol("ctor", "construction has not returned after 10 s")
			return
		}
		hit := fail < 0 || kern.Acquisitions() > int(fail)
		kern.FailAcquisition(-2, 0)
		kern.SetMaxFD(65536)
		progress()
		if err == nil {
			if v == nil {
				viol("ctor", "construction returned neither a result nor an error")
				return
			}
			// it says it succeeded: it must work
			if fail >= 0 && hit {
				core.Count("probe.ctor_survived")
			} else {
				core.Count("probe.ctor_ok")
			}
			x.use(v, before, "construction succeeded")
			return
		}
		if v != nil {
			viol("ctor", "construction failed with %v and also returned a result", err)
		}
		if hit {
			core.Count("probe.ctor_failed")
		}
		if !x.failed(err, before, bad) {
			return
		}
	}
	// the same must now succeed and work
	before := kern.OpenFDs()
	v, err := x.build(what)
	if sp.Srv.Net == "unix" {
		// not supported: refused, without leaving anything behind
		if err != nil {
			x.failed(err, before, len(kern.BadCloses()))
		}
		return
	}
	if err != nil || v == nil {
		viol("ctor", "after a failed construction another attempt fails with %v although nothing is refused", err)
		return
	}
	x.use(v, before, "after a failed construction")
}

// failed checks that a failed construction left nothing behind.
func (x *ctorRun) failed(err error, before []string, bad int) bool {
	if after := kern.OpenFDs(); !same(after, before) {
		viol("ctor", "a construction that failed with %v left descriptors open: %v", err, after)
		return false
	}
	if len(kern.BadCloses()) != bad {
		viol("ctor", "a construction that failed with %v closed a descriptor twice: %v", err, kern.BadCloses())
		return false
	}
	if x.sp.P[0] != 3 && kern.Listening(x.port) {
		viol("ctor", "after a construction that failed with %v the address is still listening", err)
		return false
	}
	return true
}

func (x *ctorRun) build(what int64) (any, error) {
	sp := x.sp
	switch what {
	case 1:
		l, err := eventloop.New()
		if l == nil {
			return nil, err
		}
		return l, err
	case 2:
		p, err := poller.Create()
		if p == nil {
			return nil, err
		}
		return p, err
	}
	return x.server(sp.Srv.Reuse)
}

func (x *ctorRun) server(reuse bool) (any, error) {
	sp := x.sp
	opts := []gev.Option{gev.NumLoops(sp.Srv.Loops)}
	if sp.Srv.Addr != "" {
		opts = append(opts, gev.Address(sp.Srv.Addr))
	}
	if sp.Srv.Net != "" {
		opts = append(opts, gev.Network(sp.Srv.Net))
	}
	if reuse {
		opts = append(opts, gev.ReusePort(true))
	}
	s, err := gev.NewServer(echoHandler{&x.closed, &x.opened}, opts...)
	if s == nil {
		return nil, err
	}
	return s, err
}

// use checks that the result of a construction works and releases everything at its end.
func (x *ctorRun) use(v any, before []string, when string) {
	switch s := v.(type) {
	case *gev.Server:
		x.useServer(s, when, true)
	case *eventloop.EventLoop:
		t := core.Go2("loop", s.Run)
		ran := 0
		for i := 0; i < 3; i++ {
			s.QueueInLoop(func() { ran++ })
			core.Sleep(5 * ms)
		}
		if !eventually(func() bool { return ran >= 3 }) || ran != 3 {
			viol("ctor", "%s: the loop ran %d of 3 tasks", when, ran)
			return
		}
		var err error
		if !within("stopper", 5*core.Sec, func() { err = s.Stop() }) || err != nil {
			viol("ctor", "%s: the loop cannot be stopped (%v)", when, err)
			return
		}
		if !eventually(t.Done) {
			viol("ctor", "%s: the loop still runs after Stop", when)
			return
		}
	case *poller.Poller:
		if err := s.Close(); err != poller.ErrClosed {
			viol("poller_close", "closing a poller that is not running returned %v", err)
			return
		}
		wakes := 0
		t := core.Go2("poll", func() {
			s.Poll(func(fd int, ev poller.Event) {
				if fd == -1 {
					wakes++
				}
			})
		})
		core.Sleep(5 * ms)
		if err := s.Wake(); err != nil {
			viol("ctor", "%s: waking the poller fails with %v", when, err)
			return
		}
		if !eventually(func() bool { return wakes > 0 }) {
			viol("ctor", "%s: the poller does not wake up", when)
			return
		}
		var err error
		if !within("closer", 5*core.Sec, func() { err = s.Close() }) || err != nil || !eventually(t.Done) {
			viol("ctor", "%s: the poller cannot be closed (%v)", when, err)
			return
		}
	}
	if after := kern.OpenFDs(); !same(after, before) {
		viol("ctor", "%s: at the end descriptors are open: %v, before there were %v", when, after, before)
	}
	if b := kern.BadCloses(); len(b) > 0 {
		viol("bad_close", "%s: close was called on a descriptor that is not open: %v", when, b)
	}
}

// useServer serves a peer per loop, with connections that vanish before they are accepted.
func (x *ctorRun) useServer(s *gev.Server, when string, only bool) {
	n := &netWorld{sp: x.sp, stopAt: -1, loopTask: map[*core.Task]int{}, busy: map[*core.Task]string{}, srv: s, port: x.port}
	w.net = n
	n.start()
	core.Sleep(20 * ms)
	k := max(x.sp.Srv.Loops, 1) + 1
	vanish := func(pm int) {
		kern.SetFaults(kern.Faults{AcceptErr: pm})
		for i := 0; i < 3; i++ {
			kern.Dial(x.port, false, 1<<20, 1<<20, 1<<20)
			core.Sleep(5 * ms)
		}
		kern.FaultsOff()
		core.Sleep(20 * ms)
	}
	if only {
		vanish(200)
	}
	x.serve(k, when)
	if core.Ended() {
		return
	}
	if only {
		vanish(400)
	}
	if !within("stopper", 10*core.Sec, n.stop) || !eventually(func() bool { return n.startRet }) {
		viol("ctor", "%s: the server cannot be stopped", when)
		return
	}
	if !eventually(func() bool { return x.closed == x.opened }) {
		viol("ctor", "%s: %d connections were opened, %d closed at the end", when, x.opened, x.closed)
	}
	if only && kern.Listening(x.port) {
		viol("ctor", "%s: the address is still listening after Stop", when)
	}
}

func (x *ctorRun) serve(k int, when string) {
	for i := 0; i < k; i++ {
		got := 0
		cl := kern.Dial(x.port, false, 1<<20, 1<<20, 1<<20)
		cl.OnConn = func() { cl.Write([]byte("hello")) }
		cl.OnData = func(b []byte) { got += len(b) }
		if !eventually(func() bool { return cl.C.Accepted && got >= 5 }) || got != 5 {
			viol("ctor", "%s: the server does not serve connection %d (accepted: %v, reply: %d of 5 bytes)", when, i, cl.C.Accepted, got)
			return
		}
		if i%2 == 0 {
			cl.Close()
			core.Sleep(5 * ms)
		}
	}
}

// eventually waits for a condition.
func eventually(f func() bool) bool {
	for k := 0; k < 2000; k++ {
		if f() {
			return true
		}
		core.Sleep(5 * ms)
		if core.Ended() {
			return true
		}
	}
	return false
}

// inUse builds a second server on the address of a running one.
func (x *ctorRun) inUse() {
	sp := x.sp
	both := sp.Srv.Reuse
	r2 := both || sp.P[2]&1 != 0 // without the first one sharing it is refused
	v, err := x.server(both)
	if err != nil {
		viol("ctor", "construction fails with %v although nothing is refused", err)
		return
	}
	a := v.(*gev.Server)
	na := &netWorld{sp: sp, stopAt: -1, loopTask: map[*core.Task]int{}, busy: map[*core.Task]string{}, srv: a, port: x.port}
	w.net = na
	if sp.P[1]&1 == 0 {
		na.start()
		core.Sleep(10 * ms)
	}
	before := kern.OpenFDs()
	bad := len(kern.BadCloses())
	v, err = x.server(r2)
	progress()
	if both {
		if err != nil {
			viol("ctor", "a second server with ReusePort on the same address fails with %v", err)
			return
		}
		core.Count("probe.ctor_reuseport")
		b := v.(*gev.Server)
		if !na.started {
			na.start()
			core.Sleep(10 * ms)
		}
		nb := &netWorld{sp: sp, stopAt: -1, loopTask: map[*core.Task]int{}, busy: map[*core.Task]string{}, srv: b, port: x.port}
		w.net = nb
		nb.start()
		core.Sleep(10 * ms)
		x.serve(4, "two servers with ReusePort")
		if core.Ended() {
			return
		}
		within("stopper", 10*core.Sec, nb.stop)
		if !eventually(func() bool { return nb.startRet }) {
			viol("ctor", "one of two servers with ReusePort cannot be stopped")
			return
		}
	} else {
		if err == nil {
			viol("ctor", "a second server on an address in use was created without an error")
			return
		}
		core.Count("probe.ctor_in_use")
		if !x.failed(err, before, bad) {
			return
		}
		if !na.started {
			na.start()
			core.Sleep(10 * ms)
		}
	}
	w.net = na
	x.serve(3, "after another construction on its address")
	if core.Ended() {
		return
	}
	within("stopper", 10*core.Sec, na.stop)
	if !eventually(func() bool { return na.startRet }) {
		viol("ctor", "the server cannot be stopped after another construction on its address")
		return
	}
	before = before[:0]
	for i := 0; i < int(sp.P[4]); i++ {
		before = append(before, kern.OpenFDs()[i])
	}
	if after := kern.OpenFDs(); !same(after, before) {
		viol("ctor", "after all servers were stopped descriptors are open: %v", after)
		return
	}
	v, err = x.server(both)
	if err != nil {
		viol("ctor", "the address cannot be used again after Stop: %v", err)
		return
	}
	x.use(v, before, "a server on an address used before")
}
