package harness

import (
	"gevsim/core"
	"gevsim/kern"
)

// actor performs the operations of one application goroutine.
func (n *netWorld) actor(i int, a *Actor) {
	core.Sleep(a.At * us)
	sender := uint16(2 + i)
	for _, o := range a.Ops {
		if core.Ended() {
			return
		}
		if o.Z > 0 && !n.quiet {
			if n.hold == nil {
				n.hold = map[*core.Task][2]int64{}
			}
			n.hold[core.Cur()] = [2]int64{o.Y, o.Z * us}
		}
		n.actorOp(i, sender, o)
		if o.Z > 0 {
			delete(n.hold, core.Cur())
			core.Unhold()
		}
	}
}

// calling is called right before a call of the API.
func (n *netWorld) calling() {
	if h, ok := n.hold[core.Cur()]; ok && !n.quiet {
		delete(n.hold, core.Cur())
		core.Hold(h[0], h[1])
	}
}

// target waits until the connection of a peer exists (it may have ended already).
func (n *netWorld) target(i int64) *peer {
	p := n.peerAt(i)
	if p == nil {
		return nil
	}
	d := 20 * us
	for k := 0; k < 40 && p.conn == nil; k++ {
		core.Sleep(d)
		d += d / 2
		if d > 20*ms {
			d = 20 * ms
		}
	}
	if p.conn == nil {
		return nil
	}
	return p
}

func (n *netWorld) actorOp(i int, sender uint16, o Op) {
	switch o.K {
	case "sleep":
		core.Sleep(1 + o.A*us)
	case "send": // A peer, B size, C count, S "f" with completion callback
		if p := n.target(o.A); p != nil {
			for k := 0; k < 100 && !p.upgraded() && !p.closeRet; k++ {
				core.Sleep(200 * us)
			}
			for k := int64(0); k < max(o.C, 1); k++ {
				n.send(p, sender, int(o.B), o.S == "f")
			}
		}
	case "bcast": // B size, C count, S "f" with completion callback
		for k := int64(0); k < max(o.C, 1); k++ {
			n.broadcast(sender, int(o.B), o.S == "f")
		}
	case "close":
		if p := n.target(o.A); p != nil {
			n.appClose(p)
		}
	case "shut":
		if p := n.target(o.A); p != nil {
			n.appShut(p)
		}
	case "dead": // wait until the connection has ended
		if p := n.target(o.A); p != nil {
			for k := 0; k < 200 && !p.closeRet; k++ {
				core.Sleep(100 * us)
			}
		}
	case "look": // read-only calls
		if p := n.target(o.A); p != nil {
			n.calling()
			_ = p.c().Connected()
			if a := p.c().PeerAddr(); a != p.kc.Addr() {
				viol("addr", "connection %d reports peer address %q, want %q", p.id, a, p.kc.Addr())
			}
			if g := p.c().WriteBufferLength(); g < 0 {
				viol("gauge", "connection %d reports a write backlog of %d", p.id, g)
			}
			if g := p.c().ReadBufferLength(); g < 0 {
				viol("gauge", "connection %d reports a read backlog of %d", p.id, g)
			}
		}
	case "kv":
		if p := n.target(o.A); p != nil {
			n.kv(p, p.c(), o.B, o.C)
		}
	case "opts":
		_ = n.srv.Options()
	case "counts":
		n.calling()
		for li, l := range n.loops {
			if c := l.ConnectionCount(); c < 0 && n.stopAt < 0 {
				viol("count", "loop %d reports %d connections", li, c)
			}
		}
	case "gauge": // compare the backlog of an idle connection
		n.gaugeProbe(o)
	case "q": // A loop, B count, C nesting
		n.waitLoops()
		for k := int64(0); k < max(o.B, 1); k++ {
			if int(o.A) < len(n.loops) && n.stopAt < 0 {
				n.queueTask(int(o.A), int(o.C), nil)
			}
		}
	case "qslow": // a task that keeps the loop busy for B us
		n.waitLoops()
		if int(o.A) < len(n.loops) && n.stopAt < 0 {
			n.queueTask(int(o.A), 0, func() { core.Sleep(1 + o.B*us) })
		}
	case "after", "every", "tstop":
		n.timerOp(o)
	case "stop":
		n.waitStarted()
		n.stop()
	case "fdmax":
		kern.SetMaxFD(int(o.A))
		core.Count("fault.fd_limit")
	}
}

func (n *netWorld) waitLoops() {
	for k := 0; k < 100 && n.loops == nil; k++ {
		core.Sleep(100 * us)
	}
}

// waitStarted waits until Start has been called.
func (n *netWorld) waitStarted() {
	if d := n.sp.Srv.LateUS*us - core.Now() - 30*us; d > 0 && !n.started {
		core.Sleep(d)
	}
	for k := 0; k < 1000 && !n.started || n.sp.Srv.LateUS > 0 && !n.started; k++ {
		core.Sleep(10 * us)
	}
}

// gaugeProbe waits until the loop of a connection is idle and compares the gauges.
func (n *netWorld) gaugeProbe(o Op) {
	p := n.target(o.A)
	if p == nil {
		return
	}
	for k := 0; k < 50; k++ {
		core.Sleep(1 + o.B*us)
		if !p.open() || p.appShut != 0 {
			return
		}
		t := p.task
		// the loop is idle when it sleeps in epoll_wait with nothing pending
		if t == nil || !t.IsBlocked() || t.Why() != "epoll_wait" || n.pendingSends(p) {
			continue
		}
		core.Count("probe.gauge_checked")
		if p.kc.Srv.WriteTotal < n.accepted(p) {
			core.Count("probe.gauge_backlog")
		}
		// a task may be queued whose wake-up is still on its way: only a difference that stays counts
		for again := 0; ; again++ {
			var m string
			func() {
				defer core.Section()()
				m = n.gaugeDiff(p, "loop idle")
			}()
			if m == "" {
				return
			}
			if again == 3 {
				viol("gauge", "%s", m)
				return
			}
			core.Sleep(25 * ms)
			if !p.open() || p.appShut != 0 || !t.IsBlocked() || t.Why() != "epoll_wait" || n.pendingSends(p) {
				return
			}
		}
	}
}

func (n *netWorld) accepted(p *peer) int64 {
	t := int64(0)
	for _, m := range p.order {
		if m.acc && m.n >= 0 {
			t += int64(m.wire)
		}
	}
	return t
}

// pendingSends tells whether a Send call is in progress.
func (n *netWorld) pendingSends(p *peer) bool {
	for _, m := range p.order {
		if m.ret == 0 && m.kind != 1 {
			return true
		}
	}
	return false
}
