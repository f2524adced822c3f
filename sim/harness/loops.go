package harness

import (
	"fmt"

	"gevsim/core"
	"gevsim/gen/github.com/Allenxuxu/gev/eventloop"
	"gevsim/kern"
)

func init() { kinds["loops"] = runLoops }

// runLoops drives event loops directly: many goroutines queue tasks.
func runLoops() {
	sp := w.spec
	n := &netWorld{sp: sp, loopTask: map[*core.Task]int{}, busy: map[*core.Task]string{}, stopAt: -1}
	w.net = n
	if sp.Srv.TaskQ > 0 {
		eventloop.DefaultTaskQueueSize = sp.Srv.TaskQ
	}
	kern.SetFaults(sp.Faults)
	runs := make([]*core.Task, sp.Srv.Loops)
	for i := 0; i < sp.Srv.Loops; i++ {
		l, err := eventloop.New()
		if err != nil {
			core.Abort("eventloop.New: %v", err)
			return
		}
		n.loops = append(n.loops, l)
	}
	for i, l := range n.loops {
		t := core.Go2(fmt.Sprintf("loop%d", i), l.Run)
		n.loopTask[t] = i
		runs[i] = t
	}
	for i := range sp.Actors {
		a := &sp.Actors[i]
		n.actors = append(n.actors, core.Go2(fmt.Sprintf("actor%d", i), func() { n.actor(i, a) }))
	}
	n.workload()
	n.calm()
	settle(5 * core.Sec)
	for i, t := range n.actors {
		if !t.Done() && t.IsBlocked() && t.Why() != "sleep" {
			viol("api_block", "application goroutine %d is still blocked in QueueInLoop (%s)", i, t.Why())
		}
	}
	n.checkTasks()
	n.sleepCheck("")
	// a sleeping loop is woken by a single task
	for i := range n.loops {
		n.queueTask(i, 0, nil)
	}
	core.Sleep(50 * ms)
	n.checkTasks()
	if core.Ended() {
		return
	}
	for i, l := range n.loops {
		var err error
		if !within("stopper", 5*core.Sec, func() { err = l.Stop() }) {
			viol("stop", "stopping loop %d has not returned after 5 s", i)
			return
		}
		if err != nil {
			viol("stop", "stopping the running loop %d returned %v", i, err)
		}
		for k := 0; k < 100 && !runs[i].Done(); k++ {
			core.Sleep(ms)
		}
		if !runs[i].Done() {
			viol("stop", "loop %d still runs after it was stopped", i)
			return
		}
	}
	if fds := kern.OpenFDs(); len(fds) > 0 {
		viol("stop", "descriptors still open after all loops were stopped: %v", fds)
	}
	n.badCloses()
}
