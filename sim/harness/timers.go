package harness

import (
	"gevsim/core"
	"gevsim/gen/github.com/RussellLuo/timingwheel"
	stdtime "time"
)

const tick = 1 * ms

// timerSlack bounds how late a task may start in these runs.
const timerSlack = 60 * ms

type timerRec struct {
	id      int
	every   bool
	d       int64
	t0, t1  int64 // around the registration call; t1 < 0 while it is in progress
	t       *timingwheel.Timer
	starts  []int64
	stopAt  int64 // return of a stop call that reported success, -1 none
	stopOK  bool
	stopTry bool
	stopBeg int64
	preRun  bool // registered before Start
}

// timerOp: after/every A=delay us; tstop A=index of the timer.
func (n *netWorld) timerOp(o Op) {
	switch o.K {
	case "after", "every":
		if n.stopAt >= 0 {
			return
		}
		r := &timerRec{id: len(n.timers), every: o.K == "every", d: o.A * us, t1: -1, stopAt: -1}
		n.timers = append(n.timers, r)
		nest := o.B
		f := func() {
			r.starts = append(r.starts, core.Now())
			core.Logf("timer %d runs (%d)", r.id, len(r.starts))
			n.timerEarly(r)
			core.Point()
			if nest > 0 {
				nest--
				n.timerOp(Op{K: "after", A: o.A})
			}
			if o.C > 0 {
				core.Sleep(1 + o.C*us)
			}
		}
		core.Logf("timer %d registered (%s %dus)", r.id, o.K, o.A)
		r.preRun = !n.started
		r.t0 = core.Now()
		n.calling()
		if r.every {
			r.t = n.srv.RunEvery(stdtime.Duration(r.d), f)
		} else {
			r.t = n.srv.RunAfter(stdtime.Duration(r.d), f)
		}
		r.t1 = core.Now()
	case "tstop":
		i := int(o.A)
		if i >= len(n.timers) || n.timers[i].t == nil {
			return
		}
		r := n.timers[i]
		r.stopTry = true
		b := core.Now()
		if r.stopBeg == 0 {
			r.stopBeg = b + 1
		}
		n.calling()
		ok := r.t.Stop()
		core.Logf("timer %d stop = %v", i, ok)
		if ok {
			if r.stopOK && !r.every {
				viol("timer", "stopping timer %d reported success twice", i)
			}
			r.stopOK = true
			if r.stopAt < 0 {
				r.stopAt = core.Now()
			}
		}
	}
}

// timerEarly is evaluated at each start.
func (n *netWorld) timerEarly(r *timerRec) {
	k := int64(len(r.starts))
	now := core.Now()
	if !r.every {
		if k > 1 {
			viol("timer", "a task delayed by %dus ran %d times", r.d/us, k)
			return
		}
		if now < r.t0+r.d-tick && len(n.sp.Jumps) == 0 {
			viol("timer", "a task delayed by %dus ran %dus after its registration began", r.d/us, (now-r.t0)/us)
		}
	} else if now < r.t0+k*r.d-tick && len(n.sp.Jumps) == 0 {
		viol("timer", "run %d of a task with period %dus started %dus after its registration began", k, r.d/us, (now-r.t0)/us)
	}
	end := int64(-1)
	what := ""
	if r.stopOK {
		end, what = r.stopAt, "its stop call reported success"
	}
	if n.stopped && (end < 0 || n.stopDone < end) {
		end, what = n.stopDone, "the server had stopped"
	}
	if end >= 0 && now > end {
		// a run that was already due may still be starting
		due := r.t0 + k*r.d - tick
		if due > end && len(n.sp.Jumps) == 0 || (!r.every && what[0] == 'i') {
			viol("timer", "run %d of a timer (delay %dus) started %dus after %s", k, r.d/us, (now-end)/us, what)
		}
	}
}

// checkTimers verifies that what was due has run.
func (n *netWorld) checkTimers(afterStop bool) {
	now := core.Now()
	for _, r := range n.timers {
		if r.t1 < 0 {
			viol("timer", "registering a timer has not returned")
			continue
		}
		end := now
		if r.stopTry && r.stopBeg-1 < end {
			end = r.stopBeg - 1
		}
		if n.stopAt >= 0 && n.stopAt < end {
			end = n.stopAt
		}
		want := int64(0)
		if !r.every {
			if max(r.t1+r.d, n.startAt) <= end-timerSlack {
				want = 1
			}
		} else if d := end - timerSlack - r.t1; d > 0 && end-timerSlack >= n.startAt {
			want = d / r.d
		}
		got := int64(0)
		last := int64(0)
		for _, s := range r.starts {
			if s <= end {
				got++
				last = s
			}
		}
		if got < want {
			viol("timer", "timer %d (every=%v, %dus) should have run %d times by now, it ran %d times (last %dus ago)", r.id, r.every, r.d/us, want, got, (now-last)/us)
			return
		}
	}
}
