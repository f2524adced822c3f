package harness

import (
	"fmt"
	"sort"

	"gevsim/core"
	"gevsim/gen/github.com/Allenxuxu/gev"
	"gevsim/gen/github.com/Allenxuxu/gev/eventloop"
	"gevsim/kern"
)

func init() { kinds["net"] = runNet }

// runNet is the main world: a server, its peers, application goroutines, then the quiet checks, the
// end of all connections, and Stop.
func runNet() {
	sp := w.spec
	n := newNet(sp)
	if n == nil {
		return
	}
	for i := range sp.Clients {
		n.newPeer(&sp.Clients[i])
	}
	kern.SetFaults(sp.Faults)
	if sp.MaxFD > 0 {
		kern.SetMaxFD(sp.MaxFD)
		core.After(sp.FDTill*us, func() { kern.SetMaxFD(65536) })
	}
	for _, j := range sp.Jumps {
		core.After(j[0]*us, func() { core.JumpWall(j[1] * ms); core.Count("fault.clock_jump") })
	}
	n.start()
	for _, p := range n.peers {
		n.launch(p)
	}
	for i := range sp.Actors {
		a := &sp.Actors[i]
		n.actors = append(n.actors, core.Go2(fmt.Sprintf("actor%d", i), func() { n.actor(i, a) }))
	}
	for i := 0; i < sp.Ghosts; i++ {
		core.Go2(fmt.Sprintf("ghost%d", i), func() { n.ghost(i) })
	}
	if sp.Mate != nil {
		n.mate = newMate(n, sp.Mate)
		core.Go2("mate", n.mate.run)
	}
	n.workload()
	if n.mate != nil {
		n.mate.settle()
	}
	if sp.Hush {
		n.hush()
	}
	if n.stopAt < 0 && n.idle > 0 {
		n.idleChecks()
	}
	n.calm()
	settle(30 * core.Sec)
	core.Logf("--- quiet")
	if n.stopAt < 0 && n.idle == 0 {
		n.sleepCheck("")
	}
	if n.stopAt < 0 && n.idle > 0 {
		core.Sleep(n.idle + idleSlack + 10*ms)
		if n.stopAt < 0 {
			n.idleChecks()
		}
	}
	if n.stopAt < 0 {
		if n.mate.alive() && !core.Ended() {
			n.mate.served("when all was quiet")
		}
		n.quietChecks()
		if !core.Ended() && n.idle == 0 {
			n.probe()
		}
		n.leftovers()
		if !sp.KeepOpen && !core.Ended() {
			n.closeAll()
		}
	}
	if !core.Ended() {
		n.stopChecks()
	}
}

// workload runs until all peers and actors are done or the limit is reached.
func (n *netWorld) workload() {
	limit := n.sp.Limit * ms
	if limit == 0 {
		limit = 5 * core.Sec
	}
	begin := core.Now()
	end := begin + limit
	d := 100 * us
	for core.Now() < end {
		all := n.started
		for _, p := range n.peers {
			if !p.done {
				all = false
			}
		}
		for _, t := range n.actors {
			if !t.Done() {
				all = false
			}
		}
		if all {
			return
		}
		if core.S.Steps > 2_500_000 {
			core.Count("probe.workload_steps")
			return
		}
		core.Sleep(d)
		if d < max(10*ms, (core.Now()-begin)/2000) {
			d += d / 4
		}
	}
	core.Count("probe.workload_limit")
}

// calm ends all faults: from here on nothing is injected and every peer reads.
func (n *netWorld) calm() {
	n.quiet = true
	kern.FaultsOff()
	kern.SetMaxFD(65536)
	core.Calm()
	core.Logf("--- faults off")
	for _, p := range n.peers {
		if p.cl == nil {
			continue
		}
		p.cl.Heal()
		p.cl.Chunk, p.cl.Delay = 0, 0
		p.cl.Widen()
		p.cl.SetReading(true)
	}
}

// hush ends all faults but leaves peers that do not read as they are, and checks that the loops sleep.
func (n *netWorld) hush() {
	kern.FaultsOff()
	kern.SetMaxFD(65536)
	core.Calm()
	core.Logf("--- hush")
	for _, p := range n.peers {
		if p.cl != nil && p.cl.Reading {
			p.cl.Chunk, p.cl.Delay = 0, 0
			p.cl.Widen()
		}
	}
	still := settle(5 * core.Sec)
	blocked := 0
	for _, p := range n.peers {
		if p.open() && p.c().WriteBufferLength() > 0 {
			blocked++
			core.Count("probe.hush_blocked")
			if p.kc.Srv.RcvQueue() > 0 {
				core.Count("probe.hush_blocked_with_input")
			}
		}
	}
	if n.stopAt < 0 {
		for _, p := range n.peers {
			n.served(p, blocked)
			if still {
				n.gone(p)
			}
		}
	}
	if n.stopAt < 0 {
		n.sleepCheck(fmt.Sprintf(" (%d connections have output their peers do not take)", blocked))
	}
}

// gone verifies that a connection ended by the application, a reset or an error is closed whether or not the peer reads.
func (n *netWorld) gone(p *peer) {
	if core.Ended() || p.cl == nil || p.sp.Bad || p.refused || p.nConn == 0 {
		return
	}
	// a peer that closed or half-closed cannot be noticed while output is pending
	why := ""
	switch s := p.kc.Srv; {
	case p.appClose != 0:
		why = "application"
	case s.Dead():
		why = "reset"
	case s.Injected > 0:
		why = "injected error"
	default:
		return
	}
	core.Count("probe.hush_ended")
	n.mustBeClosed(p, why)
}

// served verifies that a connection without pending output is served whatever others do.
func (n *netWorld) served(p *peer, blocked int) {
	if core.Ended() || p.sp.Bad || p.refused || !p.open() || p.appShut != 0 || !p.c().Connected() || p.c().WriteBufferLength() > 0 {
		return
	}
	if blocked > 0 {
		core.Count("probe.hush_served")
	}
	n.inputChecks(p, fmt.Sprintf(" (%d other connections have output their peers do not take)", blocked))
}

// sleepCheck verifies that no loop polls while nothing happens.
func (n *netWorld) sleepCheck(with string) {
	for again := 0; ; again++ {
		a := kern.AllWaits()
		act := w.prog + kern.Activity()
		core.Sleep(20 * ms)
		if n.stopAt >= 0 || core.Ended() {
			return
		}
		if w.prog+kern.Activity() != act {
			if again < 5 {
				continue
			}
			core.Count("probe.sleep_busy")
			return
		}
		core.Count("probe.sleep_checked")
		fds := []int{}
		for fd := range a {
			fds = append(fds, fd)
		}
		sort.Ints(fds)
		may := int64(10)
		if n.sp.Srv.IdleMS > 0 { // (an idle timer looks at its connection when it expires)
			may += 3 * int64(len(n.peers))
		}
		if n.mate != nil && n.mate.sp.IdleMS > 0 {
			may += 3 * int64(len(n.mate.peers))
		}
		many := func(ms int) bool {
			b := kern.AllWaits()
			for _, fd := range fds {
				if d := b[fd] - a[fd]; d > may {
					viol("spin", "the loop of epoll descriptor %d called epoll_wait %d times within %d ms although there was nothing for it to do%s", fd, d, ms, with)
					return true
				}
			}
			return false
		}
		if many(20) {
			return
		}
		core.Sleep(2980 * ms)
		if n.stopAt < 0 && !core.Ended() && w.prog+kern.Activity() == act {
			core.Count("probe.sleep_checked_long")
			many(3000)
		}
		return
	}
}

// open tells whether nothing has ended connection p.
func (p *peer) open() bool {
	return p.cl != nil && p.nConn == 1 && p.nClose == 0 && p.reason() == "" && !p.cl.EOF()
}

func (n *netWorld) quietChecks() {
	for _, p := range n.peers {
		n.quietPeer(p)
		if core.Ended() {
			return
		}
	}
	for i, t := range n.actors {
		if !t.Done() && t.IsBlocked() && t.Why() != "sleep" {
			viol("api_block", "application goroutine %d is still blocked in a call (%s) long after faults stopped", i, t.Why())
		}
	}
	n.checkKV()
	n.checkTasks()
	n.checkCounts()
	n.checkLB()
	n.checkTimers(false)
}

func (n *netWorld) quietPeer(p *peer) {
	if p.cl == nil || p.sp.Bad {
		if p.cl != nil && p.sp.Bad && p.endKind != "" && p.endKind != "vanish" && p.nConn > 0 {
			n.mustBeClosed(p, p.endKind)
		}
		return
	}
	if p.refused {
		return
	}
	id := p.id
	if !p.kc.Accepted {
		if p.kc.Established && !p.kc.Failed && p.endKind == "" {
			viol("accept_dead", "connection %d was never accepted although the server is running and idle", id)
		}
		return
	}
	if p.nConn == 0 && !p.kc.Failed {
		viol("lifecycle", "connection %d was accepted but its connect callback never ran", id)
		return
	}
	if p.nConn == 0 {
		// an injected failure hit it before the callback: only its descriptor matters
		if !p.kc.FDClosed {
			viol("fd_leak", "connection %d failed to be set up and its descriptor is still open", id)
		}
		return
	}
	if m := p.skipped(); m != nil {
		viol("out_order", "message %s of connection %d never arrived although a message sent later did", m.name(), id)
	}
	n.checkFinish(p)
	why := p.reason()
	if why != "" && p.endKind != "vanish" {
		n.mustBeClosed(p, why)
		n.halfChecks(p)
		if (p.endKind == "half" || p.endKind == "close") && p.shutOK && !p.shutPend && p.appClose == 0 && p.kc.Srv.Injected == 0 && p.kc.Srv.EPipe == 0 && !p.kc.Failed && (!p.kc.Srv.Dead() || p.kc.Srv.Aborted()) && n.sp.Srv.IdleMS == 0 {
			core.Count("probe.both_shut")
			n.inputChecks(p, " (the application had shut down its side, then the peer its own)")
		}
		return
	}
	if p.endKind == "vanish" {
		return
	}
	if p.nClose > 0 || p.cl.EOF() {
		if p.nClose > 0 || p.appShut == 0 {
			n.wsEnd(p)
			return
		}
	}
	if p.shutOK && !p.shutPend {
		n.shutChecks(p)
	}
	// the connection is open
	if !p.c().Connected() {
		viol("lifecycle", "connection %d is open but reports not connected", id)
	}
	s := p.kc.Srv
	if p.appShut == 0 || p.shutOK {
		n.inputChecks(p, "")
	}
	if p.appShut == 0 && p.wantCl == nil {
		if m := p.missing(); m != nil {
			viol("out_missing", "message %s (%d bytes) of the open connection %d has not arrived completely long after faults stopped (peer received %d bytes, kernel holds %d, write backlog %d)",
				m.name(), m.wire, id, p.cl.Got, p.cl.Pending(), p.c().WriteBufferLength())
		}
		if i := p.missingPong(); i >= 0 {
			viol("ws_out", "ping %d of connection %d was never answered", i, id)
		}
		if p.hsI < len(p.hsReq) && p.cl.Arrived >= p.hsReq[p.hsI].end {
			viol("hs", "the upgrade request of connection %d was never answered", id)
		}
		if len(p.buf) > 0 && (p.sp.Hs == nil || p.sp.Hs.Bad == "") || (n.sp.Srv.Proto != "ws" && n.sp.Srv.Proto != "pb" && len(p.inner) > 0) {
			viol("out_missing", "the peer of the open connection %d received an incomplete message", id)
		}
	}
	n.gauges(p, "quiet")
	n.wsEnd(p)
	_ = s
}

// inputChecks verifies that everything that arrived was delivered.
func (n *netWorld) inputChecks(p *peer, when string) {
	cl := p.cl
	if cl.InTransit() && p.kc.Srv.RcvRoom() <= 0 || p.kc.Srv.RcvQueue() > 0 {
		viol("in_missing", "connection %d%s: %d received bytes sit in the kernel unread long after faults stopped", p.id, when, p.kc.Srv.RcvQueue())
		return
	}
	switch n.sp.Srv.Proto {
	case "", "raw", "mix":
		if p.got+p.held != cl.Arrived {
			viol("in_missing", "connection %d%s: the peer sent %d bytes, only %d were delivered to the message callback (and %d left by the protocol)", p.id, when, cl.Arrived, p.got, p.held)
		}
	default:
		for p.expI < len(p.exp) && p.exp[p.expI].ctrl {
			p.expI++
		}
		if p.expI < len(p.exp) && p.exp[p.expI].end <= cl.Arrived {
			viol("in_frame", "connection %d%s: message %d (%d payload bytes) arrived completely but was never delivered", p.id, when, p.expI, len(p.exp[p.expI].payload))
		}
	}
}

// mustBeClosed checks a connection that has ended.
func (n *netWorld) mustBeClosed(p *peer, why string) {
	if p.kc.Failed && p.nConn == 0 {
		return
	}
	if p.nClose == 0 {
		if p.kc.Failed && !p.kc.FDClosed && p.endKind == "" && p.appClose == 0 {
			// set up in spite of the failure: it must then be served
			if p.got+p.held == p.cl.Arrived {
				return
			}
		}
		viol("not_noticed", "connection %d ended (%s) but its close callback has not run long after faults stopped", p.id, why)
	}
	if p.conn != nil && p.c().Connected() {
		viol("not_noticed", "connection %d ended (%s) but still reports connected", p.id, why)
	}
	if !p.kc.FDClosed {
		viol("fd_leak", "connection %d ended (%s) but its descriptor is still open", p.id, why)
	}
}

// halfChecks: replies owed to a peer that half-closed.
func (n *netWorld) halfChecks(p *peer) {
	if n.sp.Srv.IdleMS > 0 || p.endKind != "half" || p.appClose != 0 || p.kc.Srv.Injected > 0 || p.kc.Failed || p.appShut != 0 || p.kc.Srv.Dead() && !p.kc.Srv.Aborted() {
		return
	}
	n.inputChecks(p, " (half-closed)")
	for _, m := range p.order {
		if m.kind == 1 && m.acc && !m.got && m.n >= 0 {
			viol("half", "the peer of connection %d half-closed; reply %d (%d bytes) to its data never arrived completely (it received %d bytes in total)", p.id, m.seq, m.wire, p.cl.Got)
			return
		}
	}
	if !p.cl.EOF() {
		viol("half", "the peer of connection %d half-closed and never received end-of-stream", p.id)
	}
}

// shutChecks: the application half-closed and sent nothing afterwards, the peer must see end-of-stream after
// everything sent before.
func (n *netWorld) shutChecks(p *peer) {
	if !p.cl.EOF() {
		viol("half", "the application shut down the write side of the open connection %d; its peer never received end-of-stream", p.id)
		return
	}
	if m := p.missing(); m != nil {
		viol("half", "the application shut down the write side of connection %d; message %s sent before never arrived", p.id, m.name())
	}
}

// checkFinish verifies completion callbacks of accepted messages.
func (n *netWorld) checkFinish(p *peer) {
	if p.nClose > 0 || p.reason() != "" {
		return
	}
	for _, m := range p.order {
		if m.wantF && m.acc && m.fin != 1 {
			viol("finish", "the completion callback of message %s on the open connection %d ran %d times", m.name(), p.id, m.fin)
			return
		}
	}
}

// gauges compares the reported backlogs with the real ones.
func (n *netWorld) gauges(p *peer, when string) {
	if m := n.gaugeDiff(p, when); m != "" {
		viol("gauge", "%s", m)
	}
}

func (n *netWorld) gaugeDiff(p *peer, when string) string {
	acc := n.accepted(p)
	if n.sp.Srv.Proto == "ws" {
		return ""
	}
	back := acc - p.kc.Srv.WriteTotal
	if g := p.c().WriteBufferLength(); g != back {
		return fmt.Sprintf("connection %d (%s): the write backlog is reported as %d, %d accepted bytes have not been handed to the kernel", p.id, when, g, back)
	}
	un := p.kc.Srv.ReadTotal
	switch n.sp.Srv.Proto {
	case "", "raw", "mix":
		un -= p.got
	default:
		last := int64(0)
		for i := 0; i < p.expI; i++ {
			last = p.exp[i].end
		}
		un -= last
	}
	if g := p.c().ReadBufferLength(); g != un {
		return fmt.Sprintf("connection %d (%s): the read backlog is reported as %d, %d received bytes are not consumed", p.id, when, g, un)
	}
	return ""
}

// wsEnd checks the end of a WebSocket connection after a close frame.
func (n *netWorld) wsEnd(p *peer) {
	if n.sp.Srv.Proto != "ws" || p.wantCl == nil || p.endKind != "" || p.appClose != 0 || p.appShut != 0 {
		return
	}
	if len(p.exp) == 0 || p.cl.Arrived < p.exp[len(p.exp)-1].end {
		return
	}
	for _, m := range p.order {
		if m.kind == 1 && m.acc && !m.got && m.n >= 0 {
			viol("ws_close", "the peer of connection %d sent a close frame; %s to an earlier frame never arrived", p.id, m.name())
			return
		}
	}
	if p.closeGot == 0 {
		viol("ws_close", "the close frame of connection %d was never answered (eof=%v reset=%v)", p.id, p.cl.EOF(), p.cl.GotReset())
		return
	}
	if !p.cl.EOF() {
		viol("ws_close", "connection %d: end-of-stream never followed the close frame", p.id)
	}
}

// checkCounts compares loop counts with the open connections.
func (n *netWorld) checkCounts() {
	if n.loops == nil {
		return
	}
	want := make([]int64, len(n.loops))
	for _, p := range n.peers {
		if p.nConn > 0 && p.loop >= 0 && p.nClose == 0 {
			want[p.loop]++
		}
	}
	for i, l := range n.loops {
		if c := l.ConnectionCount(); c != want[i] {
			viol("count", "loop %d reports %d connections, %d of its connections are open", i, c, want[i])
		}
	}
}

// checkLB verifies the placement of connections.
func (n *netWorld) checkLB() {
	if len(n.loops) == 0 {
		return
	}
	byPick := make([]int, len(n.loops))
	for _, i := range n.picks {
		byPick[i]++
	}
	byConn := make([]int, len(n.loops))
	for _, i := range n.connects {
		byConn[i]++
	}
	for i := range byPick {
		if byPick[i] != byConn[i] {
			viol("lb", "the strategy chose loop %d for %d connections but %d were set up there", i, byPick[i], byConn[i])
			return
		}
	}
	n.direct()
	if n.sp.Srv.LB == "lc" {
		return
	}
	// round robin in accept order
	var l []*peer
	for _, p := range n.peers {
		if p.kc != nil && p.kc.Accepted && p.nConn > 0 {
			l = append(l, p)
		}
		if p.kc != nil && p.kc.Failed && p.kc.Accepted && !p.kc.Unreg { // failed between accept and the balancer, or after it
			return
		}
	}
	for i := range l {
		for j := i; j > 0 && l[j].kc.AcceptSeq < l[j-1].kc.AcceptSeq; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
	for i, p := range l {
		if p.loop >= 0 && p.loop != i%len(n.loops) {
			viol("lb", "round robin put the %d-th accepted connection on loop %d of %d", i, p.loop, len(n.loops))
			return
		}
	}
}

// direct uses a balancer without connections.
func (n *netWorld) direct() {
	if n.sp.Srv.Direct == 0 || n.directed || core.Ended() {
		return
	}
	n.directed = true
	core.Count("probe.lb_direct")
	rr := gev.RoundRobin()
	loops := append([]*eventloop.EventLoop(nil), n.loops...)
	for k := 0; k < n.sp.Srv.Direct; k++ {
		if l := rr(loops); l != loops[k%len(loops)] {
			viol("lb", "call %d of a round robin balancer did not choose loop %d of %d", k, k%len(loops), len(loops))
			return
		}
	}
}

// probe checks that the server still accepts and serves a new peer.
func (n *netWorld) probe() {
	sp := &ClSpec{Ops: []Op{{K: "w", A: 700, B: 300}}, Pol: Policy{ReplyPM: 1000, ReplyMax: 200}}
	switch n.sp.Srv.Proto {
	case "rec", "pb":
		sp.Items = []Item{{N: 500, T: "probe"}, {N: 20, T: "x"}}
		sp.Ops[0].A = -1
	case "ws":
		sp.Items = []Item{{K: 2, N: 300, M: 7}, {K: 9, N: 5, M: 9}}
		sp.Ops[0].A = -1
	}
	p := n.newPeer(sp)
	p.pub = true
	n.dial(p)
	for i := 0; i < 200; i++ {
		core.Sleep(10 * ms)
		if p.nConn == 1 && p.sent == len(p.out) && p.got+p.held >= p.cl.Arrived && p.cl.Arrived == int64(p.sent) && p.missing() == nil && p.missingPong() < 0 {
			break
		}
	}
	switch {
	case p.nConn == 0:
		viol("accept_dead", "a new connection made after faults stopped was not served (accepted: %v)", p.kc.Accepted)
	default:
		n.quietPeer(p)
	}
}

func (n *netWorld) leftovers() {}

// closeAll ends every connection from the peer side and checks the release.
func (n *netWorld) closeAll() {
	for _, p := range n.peers {
		if p.cl != nil && !p.cl.Closed() {
			if p.cl.Vanished() {
				continue
			}
			p.end("close")
		}
	}
	settle(10 * core.Sec)
	vanished := 0
	for _, p := range n.peers {
		if p.cl == nil {
			continue
		}
		if p.cl.Vanished() {
			if p.nClose == 0 {
				vanished++
			}
			continue
		}
		if p.nConn > 0 {
			n.mustBeClosed(p, p.reason())
		}
	}
	n.checkCounts()
	if vanished == 0 && !n.mate.alive() {
		if fds := kern.OpenFDs(); !same(fds, n.base) {
			viol("fd_leak", "with no open peers the process holds %v, before the first connection it held %v", fds, n.base)
		}
	}
	n.badCloses()
}

func (n *netWorld) badCloses() {
	if b := kern.BadCloses(); len(b) > n.badBase {
		viol("bad_close", "close was called on a descriptor that is not open: %v", b[n.badBase:])
	}
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// stopChecks stops the server (if nobody has) and checks what must hold afterwards.
func (n *netWorld) stopChecks() {
	if n.stopAt < 0 || !n.startRet {
		if !within("stopper", 10*core.Sec, n.stop) {
			viol("stop", "Stop has not returned after 10 s")
			return
		}
	}
	for i := 0; i < 1000 && (!n.startRet || n.stopRetN < n.stops); i++ {
		core.Sleep(10 * ms)
	}
	if n.stopRetN < n.stops {
		viol("stop", "%d of %d Stop calls have not returned after 10 s", n.stops-n.stopRetN, n.stops)
	}
	if !n.startRet {
		viol("stop", "Start has not returned 10 s after Stop")
		return
	}
	core.Sleep(50 * ms)
	for _, p := range n.peers {
		if p.nConn > 0 && p.nClose != 1 {
			viol("stop_close", "connection %d was open when the server stopped; its close callback ran %d times", p.id, p.nClose)
			return
		}
		if p.conn != nil && p.c().Connected() {
			viol("stop_close", "connection %d reports connected after the server stopped", p.id)
			return
		}
	}
	if kern.Listening(n.port) {
		viol("stop", "port %d still accepts connections after the server stopped", n.port)
	}
	if n.mate.alive() && !core.Ended() {
		n.mate.exercise("after the first server had stopped")
		if !core.Ended() {
			n.mate.stop()
		}
	}
	class := "stop"
	if n.mate != nil {
		class = "mate"
	}
	if fds := kern.OpenFDs(); len(fds) > 0 {
		viol(class, "descriptors still open after the server stopped: %v", fds)
	}
	if b := kern.BadCloses(); len(b) > n.badBase {
		viol(class, "close was called on a descriptor that is not open: %v", b[n.badBase:])
	}
	if b := kern.StaleUses(); len(b) > n.staleBase {
		if class == "stop" {
			class = "stale"
		}
		viol(class, "a descriptor was used that is not open: %v", b[n.staleBase:])
	}
	n.checkTimers(true)
}
