package harness

import (
	"fmt"
	"runtime/debug"
	"strings"

	"gevsim/core"
	"gevsim/kern"
)

// w is the state of the current run.
var w *world

type world struct {
	spec    *Spec
	aim     map[string]bool
	anom    map[string]int64
	anomMsg map[string]string
	stampN  int64
	prog    int64 // bumped whenever something observable happens
	net     *netWorld
	rng     *core.Rng // for application decisions fixed by the spec
}

func stamp() int64 { w.stampN++; return w.stampN }
func progress()    { w.prog++ }

// viol reports a violation of a class; classes the property does not depend on are only counted.
func viol(class, format string, a ...any) {
	if core.S == nil || core.Killing() || core.Ended() {
		return
	}
	if !w.aim[class] && !w.aim["*"] {
		w.anom[class]++
		if w.anomMsg[class] == "" {
			w.anomMsg[class] = fmt.Sprintf(format, a...)
			core.Logf("ANOMALY %s: %s", class, w.anomMsg[class])
		}
		return
	}
	core.FailNow(class, format, a...)
}

// Exec performs one run.
func Exec(sp *Spec, replay bool, devs []core.Dev, trace bool) *Result {
	w = &world{spec: sp, aim: map[string]bool{}, anom: map[string]int64{}, anomMsg: map[string]string{}}
	for _, c := range Classes(sp.Prop) {
		w.aim[c] = true
	}
	if sp.Of != "" {
		for _, c := range Classes(sp.Of) {
			w.aim[c] = true
		}
	}
	w.rng = core.NewRng(sp.Seed ^ 0x5eed)
	root, ok := kinds[sp.Kind]
	if !ok {
		panic("unknown kind " + sp.Kind)
	}
	cfg := core.Config{Seed: sp.Seed, Sched: sp.Sched, Replay: replay, Devs: devs, MaxSteps: sp.MaxSteps, Trace: trace, NumCPU: sp.NumCPU}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 12_000_000
	}
	s := core.Run(cfg, func() {
		core.OnPoolMisuse = func(what string) { viol("pool", "%s", what) }
		core.S.DepRaces = sp.DepRaces
		core.Progress(kern.Activity)
		if sp.Races {
			core.EnableRaces()
		}
		root()
		if sp.Races {
			a, l := core.Races()
			core.CountN("probe.race_accesses", a)
			core.CountN("probe.race_locations", l)
		}
		core.End("done")
	})
	r := &Result{Why: s.EndWhy(), Hash: s.Hash(), IL: s.ILHash(), Steps: s.Steps, Switches: s.Switches, Decs: s.Decisions, Preempts: s.Preempts,
		Stalls: s.Stalls, Events: s.Events, SimNS: s.Now(), Devs: s.Devs, Counters: s.Counters, Anomaly: w.anom, AnomMsg: w.anomMsg, Trace: s.Trace()}
	switch {
	case s.Fail != nil:
		r.Class, r.Msg = s.Fail.Class, s.Fail.Msg
		if r.Class == "crash" && !w.aim["crash"] {
			r.Anomaly["crash"]++
			r.AnomMsg["crash"] = r.Msg
			r.Class, r.Msg = "", ""
		}
	case s.EndWhy() == "maxsteps":
		r.Class, r.Msg = "hang", "the run did not finish within the step limit: "+runnableTasks(s)
	case s.EndWhy() == "deadlock":
		r.Class, r.Msg = "hang", "everything is blocked: "+runnableTasks(s)
	}
	if r.Class == "hang" && !w.aim["hang"] {
		r.Anomaly["hang"]++
		r.AnomMsg["hang"] = r.Msg
		r.Class, r.Msg = "", ""
	}
	w = nil
	return r
}

func runnableTasks(s *core.Sim) string {
	var l []string
	for _, t := range s.Alive() {
		l = append(l, fmt.Sprintf("%d:%s(%s)", t.ID, t.Name, t.Why()))
		if len(l) > 12 {
			break
		}
	}
	return strings.Join(l, " ")
}

func init() { debug.SetGCPercent(400) }

var kinds = map[string]func(){}

// ---- shared helpers ----

const (
	us = core.US
	ms = core.MS
)

// within runs f in a task and waits up to d of virtual time; false if it has not returned.
func within(name string, d int64, f func()) bool {
	t := core.Go2(name, f)
	end := core.Now() + d
	step := 50 * us
	for !t.Done() {
		if core.Now() >= end {
			return false
		}
		core.Sleep(step)
		if step < 5*ms {
			step *= 2
		}
	}
	core.Join(t)
	return true
}

// settle lets the system run without faults until nothing observable happens any more.
func settle(max int64) bool {
	end := core.Now() + max
	last := int64(-1)
	quiet := 0
	for core.Now() < end {
		core.Sleep(20 * ms)
		p := w.prog + kern.Activity()
		if p == last && !inTransit() {
			quiet++
			if quiet >= 6 {
				return true
			}
		} else {
			quiet = 0
		}
		last = p
	}
	return false
}

func inTransit() bool {
	for _, c := range kern.Conns() {
		if c.Cl.InTransit() && !c.Srv.Dead() && !c.Srv.Closed() && !c.Cl.Vanished() && c.Srv.RcvRoom() > 0 {
			return true
		}
	}
	return false
}

func mix(a, b, c, d uint64) uint64 {
	h := a*0x9e3779b97f4a7c15 + b
	h ^= h >> 29
	h = h*0xbf58476d1ce4e5b9 + c
	h ^= h >> 32
	h = h*0x94d049bb133111eb + d
	h ^= h >> 31
	return h * 0x9e3779b97f4a7c15
}

// patAt is byte i of the stream identified by base.
func patAt(base uint64, i int64) byte {
	return byte(base>>((uint(i)&7)*8)) + byte(i>>3)*7 + byte(i>>11)*31 + byte(i>>19)*17
}

func fillPat(p []byte, base uint64, off int64) {
	for i := range p {
		p[i] = patAt(base, off+int64(i))
	}
}

// checkPat returns the index of the first wrong byte or -1.
func checkPat(p []byte, base uint64, off int64) int {
	for i := range p {
		if p[i] != patAt(base, off+int64(i)) {
			return i
		}
	}
	return -1
}
