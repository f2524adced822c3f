package harness

import (
	"fmt"
	"syscall"

	"gevsim/core"
	"gevsim/gen/github.com/Allenxuxu/gev/poller"
	"gevsim/kern"
)

func init() { kinds["poller"] = runPoller }

type pSock struct {
	id      int
	cl      *kern.Client
	fd      int
	mask    uint32 // directions enabled: 1 read, 2 write
	reg     bool
	consume int // 0 nothing, 1 read all, 2 one read
	events  [3]int64
	gone    bool // descriptor closed
	delAt   int64
	regAt   int64
	maskAt  int64
	oldMask uint32
	busy    bool
	dev     bool
}

// what a device can report
var devMasks = []uint32{0, syscall.EPOLLIN, syscall.EPOLLOUT, syscall.EPOLLIN | syscall.EPOLLOUT, syscall.EPOLLPRI, syscall.EPOLLERR,
	syscall.EPOLLERR | syscall.EPOLLOUT, syscall.EPOLLHUP, syscall.EPOLLHUP | syscall.EPOLLIN, syscall.EPOLLHUP | syscall.EPOLLERR, syscall.EPOLLRDHUP | syscall.EPOLLIN,
	syscall.EPOLLPRI | syscall.EPOLLERR, syscall.EPOLLHUP | syscall.EPOLLOUT}

// runPoller drives poller.Poller directly. Actor ops: add A B, mod A B, del A, data A B, drain A,
// fill A, wake, reset A, half A, eat A B, sleep A, check, inh A B (call B on socket A from the handler).
func runPoller() {
	sp := w.spec
	n := &netWorld{sp: sp, stopAt: -1, loopTask: map[*core.Task]int{}, busy: map[*core.Task]string{}}
	w.net = n
	p, err := poller.Create()
	if err != nil {
		core.Abort("poller.Create: %v", err)
		return
	}
	if sp.P[0] == 1 {
		if e := p.Close(); e != poller.ErrClosed {
			viol("poller_close", "closing a poller that is not running returned %v instead of the documented error", e)
		}
	}
	pollFDs := kern.OpenFDs()
	epfd := kern.FindEpoll()
	kern.KeepReports()
	lfd, _, e := kern.Listen("tcp", nil, 1388, false)
	if e != 0 {
		core.Abort("listen: %v", e)
		return
	}
	socks := map[int]*pSock{}
	var list []*pSock
	for i := range sp.Clients {
		c := &sp.Clients[i]
		if c.Dev {
			fd, e := kern.NewDev()
			if e != 0 {
				core.Abort("dev: %v", e)
				return
			}
			s := &pSock{id: i, fd: fd, dev: true}
			list = append(list, s)
			socks[fd] = s
			continue
		}
		snd := c.Snd
		if snd == 0 {
			snd = 1 << 16
		}
		cl := kern.Dial(1388, false, snd, 1<<16, max(c.Win, 1))
		core.Sleep(ms)
		fd, _, _, e := kern.Accept(lfd, true)
		if e != 0 {
			core.Abort("accept: %v", e)
			return
		}
		cl.SetReading(false)
		s := &pSock{id: i, cl: cl, fd: fd}
		list = append(list, s)
		socks[fd] = s
	}
	crowd := len(list)
	if len(sp.P) > 2 {
		for k := int64(0); k < sp.P[2]; k++ {
			fd, e := kern.NewDev()
			if e != 0 {
				core.Abort("dev: %v", e)
				return
			}
			s := &pSock{id: len(list), fd: fd, dev: true}
			list = append(list, s)
			socks[fd] = s
		}
	}
	kern.SetFaults(sp.Faults)
	var wakes, wakeRuns, lastWakeCall int64
	lastWakeRun := int64(0)
	inHandler := 0
	var inh []func()
	closed := false
	polled := false
	over := false // the actors' time is up: what they still have to do is left out
	buf := make([]byte, 4096)
	apply := func(s *pSock, k string, m int64) {
		var err error
		old := s.mask
		if s.gone || s.busy || over || closed { // calls for one descriptor are not concurrent
			return
		}
		s.busy = true
		defer func() { s.busy = false }()
		switch k {
		case "add":
			if m == 2 {
				err = p.AddWrite(s.fd)
			} else {
				err = p.AddRead(s.fd)
			}
			if s.reg != (err != nil) {
				viol("poller", "registering descriptor %d (registered before: %v) returned %v", s.fd, s.reg, err)
			}
			if err == nil {
				s.reg, s.regAt = true, stamp()
				s.mask = uint32(m)
			}
		case "mod":
			switch m {
			case 1:
				err = p.EnableRead(s.fd)
			case 2:
				err = p.EnableWrite(s.fd)
			default:
				err = p.EnableReadWrite(s.fd)
			}
			if s.reg != (err == nil) {
				viol("poller", "changing descriptor %d (registered: %v) returned %v", s.fd, s.reg, err)
			}
			if err == nil {
				s.mask = uint32(m)
			}
		case "del":
			err = p.Del(s.fd)
			if s.reg != (err == nil) {
				viol("poller", "deleting descriptor %d (registered: %v) returned %v", s.fd, s.reg, err)
			}
			if err == nil {
				s.reg, s.delAt = false, stamp()
				s.mask = 0
			}
		}
		s.oldMask, s.maskAt = old, stamp()
		core.Logf("%s fd %d mask %d = %v", k, s.fd, m, err)
	}
	handler := func(fd int, ev poller.Event) {
		if inHandler > 0 {
			viol("poller", "the handler was called while it was running")
		}
		if closed && polled {
			viol("poller", "the handler was called after polling had returned")
		}
		inHandler++
		defer func() { inHandler-- }()
		core.Point()
		core.Mix(uint64(fd)<<8 ^ uint64(ev))
		if fd == -1 {
			wakeRuns++
			lastWakeRun = stamp()
			l := inh
			inh = nil
			for _, f := range l {
				f()
			}
			return
		}
		s := socks[fd]
		if s == nil {
			viol("poller", "the handler was called for descriptor %d, which was never registered", fd)
			return
		}
		progress()
		core.Logf("handler fd %d events %#x", fd, uint32(ev))
		rep, ok := kern.LastReport(fd)
		if !ok {
			viol("poller", "the handler was called for descriptor %d which the last wait had not reported", fd)
			return
		}
		const in = syscall.EPOLLIN | syscall.EPOLLPRI | syscall.EPOLLRDHUP | syscall.EPOLLHUP | syscall.EPOLLERR
		const out = syscall.EPOLLOUT | syscall.EPOLLERR | syscall.EPOLLHUP
		if ev&poller.EventRead != 0 {
			s.events[0]++
			if rep&in == 0 {
				viol("poller", "descriptor %d was handed over as readable, the kernel reported %#x", fd, rep)
			}
		}
		if ev&poller.EventWrite != 0 {
			s.events[1]++
			if rep&out == 0 {
				viol("poller", "descriptor %d was handed over as writable, the kernel reported %#x", fd, rep)
			}
		}
		if ev&poller.EventErr != 0 {
			s.events[2]++
			if rep&(syscall.EPOLLERR|syscall.EPOLLHUP) == 0 {
				viol("poller", "descriptor %d was handed over with an error, the kernel reported %#x", fd, rep)
			}
		}
		if ev&^(poller.EventRead|poller.EventWrite|poller.EventErr) != 0 {
			viol("poller", "descriptor %d was handed over with unknown events %#x", fd, uint32(ev))
		}
		if ev == 0 {
			viol("poller", "descriptor %d was handed over without any event, the kernel reported %#x", fd, rep)
		}
		switch s.consume {
		case 1:
			if ev&poller.EventRead != 0 && !s.dev {
				for {
					if k, e := kern.Read(fd, buf); k <= 0 || e != 0 {
						break
					}
				}
			}
		case 2:
			if ev&poller.EventRead != 0 && !s.dev {
				kern.Read(fd, buf[:64])
			}
		case 3:
			kern.SetDev(fd, 0)
		}
	}
	poll := core.Go2("poll", func() {
		p.Poll(handler)
		polled = true
	})
	wake := func() {
		wakes++
		c := stamp()
		if err := p.Wake(); err != nil {
			if !closed {
				viol("poller", "Wake returned %v", err)
			}
			return
		}
		lastWakeCall = c
	}
	ended := func() bool {
		if polled && !closed && !core.Ended() {
			viol("poller", "polling returned although the poller has not been closed")
		}
		return polled
	}
	// turn waits until the polling goroutine has had ample opportunity: it has waited many times or it
	// sleeps in a wait. False if it got neither (slow schedule): then there is no verdict.
	turn := func() bool {
		if ended() {
			return false
		}
		from := kern.Waits(epfd)
		end := core.S.Steps + 400_000 + int64(2000*len(list))
		asleep := 0
		for core.S.Steps < end && !core.Ended() {
			core.Sleep(100 * us)
			need := int64(40 + 4*len(list))
			if len(list) > 400 {
				need = 12 // no partial results then
			}
			if kern.Waits(epfd) >= from+need {
				return true
			}
			if poll.IsBlocked() && poll.Why() == "epoll_wait" {
				if asleep++; asleep > 20 {
					return true
				}
			} else {
				asleep = 0
			}
		}
		if ended() {
			return false
		}
		core.Count("probe.poller_no_verdict")
		return false
	}
	check := func() {
		// every ready direction of every registered descriptor must be reported again and again
		core.Sleep(300 * us)
		if !turn() {
			return
		}
		if wakes > 0 && lastWakeRun < lastWakeCall {
			viol("poller", "a wake-up was lost: the handler has not been called for it")
			return
		}
		var before [][3]int64
		for _, s := range list {
			before = append(before, s.events)
			_ = s
		}
		ready := func(s *pSock) (bool, bool, bool) {
			if s.gone || !s.reg {
				return false, false, false
			}
			m := kern.Mask(s.fd)
			r := s.mask&1 != 0 && m&(syscall.EPOLLIN|syscall.EPOLLPRI) != 0
			wr := s.mask&2 != 0 && m&syscall.EPOLLOUT != 0
			er := m&(syscall.EPOLLERR|syscall.EPOLLHUP) != 0
			return r, wr, er
		}
		type rdy struct{ r, w, e bool }
		var st []rdy
		for _, s := range list {
			r, wr, er := ready(s)
			st = append(st, rdy{r, wr, er})
		}
		if !turn() {
			return
		}
		for i, s := range list {
			r, wr, er := ready(s)
			if st[i].r && r && s.events[0] == before[i][0] {
				viol("poller", "descriptor %d stays readable and enabled but is not handed over", s.fd)
			}
			if st[i].w && wr && s.events[1] == before[i][1] {
				viol("poller", "descriptor %d stays writable and enabled but is not handed over", s.fd)
			}
			if st[i].e && er && s.events == before[i] {
				viol("poller", "descriptor %d stays in error but is not handed over", s.fd)
			}
		}
		core.Count("probe.poller_check")
	}
	for k := 0; k < 1000 && !core.Ended(); k++ {
		core.Sleep(50 * us)
		if poll.IsBlocked() {
			break
		}
	}
	var ts []*core.Task
	for ai := range sp.Actors {
		a := &sp.Actors[ai]
		ts = append(ts, core.Go2(fmt.Sprintf("actor%d", ai), func() {
			for _, o := range a.Ops {
				if core.Ended() || over {
					return
				}
				var s *pSock
				if crowd > 0 {
					s = list[int(o.A)%crowd]
				}
				if s != nil && s.dev {
					switch o.K {
					case "data", "fill", "half", "reset", "close", "shut", "drain", "nodrain":
						kern.SetDev(s.fd, devMasks[int(o.C)%len(devMasks)])
						continue
					}
				}
				switch o.K {
				case "add", "mod", "del":
					if s != nil {
						apply(s, o.K, o.B)
					}
				case "inh":
					if s != nil {
						k, m := o.S, o.B
						inh = append(inh, func() { apply(s, k, m) })
						wake()
					}
				case "wake":
					wake()
				case "crowd":
					// many descriptors, ready at once
					o := o
					f := func() {
						if o.B&2 != 0 { // each is ready once
							for _, s := range list[crowd:] {
								s.consume = 3
							}
						}
						for _, s := range list[crowd:] {
							apply(s, "add", 1)
							if o.B&1 == 0 {
								kern.SetDev(s.fd, devMasks[int(o.C)%len(devMasks)])
							}
						}
						if o.B&1 != 0 {
							for _, s := range list[crowd:] {
								kern.SetDev(s.fd, devMasks[int(o.C)%len(devMasks)])
							}
						}
						if o.B&4 != 0 {
							wake()
						}
					}
					if o.B&8 != 0 { // before the next wait
						inh = append(inh, f)
						wake()
					} else {
						f()
					}
				case "uncrowd":
					for _, s := range list[crowd:] {
						if int64(s.id)%o.B == 0 {
							kern.SetDev(s.fd, 0)
						}
					}
				case "data":
					s.cl.Write(make([]byte, max(o.B, 1)))
				case "drain":
					s.cl.SetReading(true)
				case "nodrain":
					s.cl.SetReading(false)
				case "fill":
					for k := 0; k < 64 && !s.gone; k++ {
						if m, e := kern.Write(s.fd, buf); m <= 0 || e != 0 {
							break
						}
					}
				case "eat":
					s.consume = int(o.B)
				case "half":
					s.cl.CloseWrite()
				case "reset":
					s.cl.Reset()
				case "close":
					s.cl.Close()
				case "shut":
					if !s.gone {
						kern.Shutdown(s.fd, syscall.SHUT_WR)
					}
				case "sleep":
					core.Sleep(1 + o.A*us)
				case "check":
					if ai == 0 && len(sp.Actors) == 1 {
						check()
					}
				}
			}
		}))
	}
	for k := 0; k < 3000 && core.S.Steps < 4_000_000; k++ {
		all := true
		for _, t := range ts {
			all = all && t.Done()
		}
		if all {
			break
		}
		core.Sleep(100 * us)
	}
	over = true
	kern.FaultsOff()
	core.Calm()
	core.Sleep(ms)
	for k := 0; ; k++ {
		all := true
		for _, t := range ts {
			all = all && t.Done()
		}
		if all {
			break
		}
		if k == 5000 { // still busy: a slow schedule, no verdict
			core.Count("probe.poller_no_verdict")
			return
		}
		core.Sleep(100 * us)
		if core.Ended() {
			return
		}
	}
	if core.Ended() {
		return
	}
	check()
	if core.Ended() {
		return
	}
	if ended() {
		return
	}
	// the sockets are the harness's own
	bad := len(kern.BadCloses())
	var cerr error
	closed = true
	ok := within("closer", 5*core.Sec, func() { cerr = p.Close() })
	if !ok {
		viol("poller_close", "closing a running poller has not returned after 5 s")
		return
	}
	if cerr != nil {
		viol("poller_close", "closing a running poller returned %v", cerr)
	}
	for k := 0; k < 50 && !polled; k++ {
		core.Sleep(ms)
	}
	if !polled {
		viol("poller_close", "polling has not returned after the poller was closed")
		return
	}
	if sp.P[1] == 1 {
		if e := p.Close(); e != poller.ErrClosed {
			viol("poller_close", "closing a closed poller returned %v instead of the documented error", e)
		}
	}
	for _, s := range list {
		kern.Close(s.fd)
	}
	kern.Close(lfd)
	if fds := kern.OpenFDs(); len(fds) != 0 {
		viol("poller_close", "a closed poller still holds descriptors %v (it had %v)", fds, pollFDs)
	}
	if len(kern.BadCloses()) != bad {
		viol("poller_close", "closing the poller closed a descriptor twice: %v", kern.BadCloses())
	}
}
