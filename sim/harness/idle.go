package harness

import (
	"gevsim/core"
)

// idleClose is called when the server closes a connection for which there is no other reason than
// the idle timeout.
func (n *netWorld) idleClose(p *peer) {
	now := core.Now()
	s := p.kc.Srv
	last := max(s.ReadAt, p.kc.AcceptAt)
	core.Count("probe.idle_closed")
	if now < last+n.idle-2*ms-n.sp.Sched.StallMax {
		viol("idle_early", "connection %d was closed by the idle timer %dus after bytes were last received (timeout %dus)", p.id, (now-last)/us, n.idle/us)
	}
}

// idleSlack bounds how late the idle timer may act in these runs.
const idleSlack = 100 * ms

// idleChecks verifies that silent connections are gone.
func (n *netWorld) idleChecks() {
	if len(n.sp.Jumps) > 0 {
		return // how long the timeout takes is promised for a steady clock
	}
	slack := int64(idleSlack)
	now := core.Now()
	for _, p := range n.peers {
		if p.cl == nil || p.nConn == 0 || p.reason() != "" {
			continue
		}
		s := p.kc.Srv
		due := max(s.ReadAt, s.WriteAt, p.connAt) + n.idle + slack
		if p.nClose > 0 {
			if p.closeAt > due {
				viol("idle_late", "connection %d was closed by the idle timer %dus after it last received or wrote anything (timeout %dus)", p.id, (p.closeAt-max(s.ReadAt, s.WriteAt, p.connAt))/us, n.idle/us)
			}
			continue
		}
		if p.c().WriteBufferLength() > 0 {
			core.Count("probe.idle_blocked")
		}
		if now > due {
			viol("idle_late", "connection %d has been idle for %dus (timeout %dus) and is still open", p.id, (now-max(s.ReadAt, s.WriteAt, p.connAt))/us, n.idle/us)
		}
	}
}
