package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"time"

	"gevsim/core"
	"gevsim/harness"
	"gevsim/kern"
)

func clone(s *harness.Spec) *harness.Spec {
	b, _ := json.Marshal(s)
	c := &harness.Spec{}
	_ = json.Unmarshal(b, c)
	return c
}

// cmdMin minimises a replay file: min -in F -out G -secs N.
func cmdMin(args []string) int {
	fs := flag.NewFlagSet("min", flag.ExitOnError)
	in := fs.String("in", "", "replay file")
	out := fs.String("out", "", "result")
	secs := fs.Float64("secs", 20, "time limit")
	fs.Parse(args)
	r, err := loadReplay(*in)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	m := &minimiser{class: r.Class, end: time.Now().Add(time.Duration(*secs * 0.6 * float64(time.Second)))}
	res := r.exec(false)
	if res.Class != r.Class {
		fmt.Fprintf(os.Stderr, "not reproducible: class %q instead of %q\n", res.Class, r.Class)
		return 3
	}
	m.spec, m.res = r.Spec, res
	if r.Class != "hang" {
		m.reduceSpec()
		m.end = time.Now().Add(time.Duration(*secs * 0.4 * float64(time.Second)))
		m.reduceDevs()
	}
	o := *r
	o.Spec, o.ByReplay, o.Devs = m.spec, m.byReplay, m.devs
	final := o.exec(false)
	o.Class, o.Message, o.Hash = final.Class, final.Msg, hashStr(final.Hash)
	if final.Class != r.Class {
		return 3
	}
	o.Note = fmt.Sprintf("minimised: %d runs, %d clients, %d application goroutines, %d deviations from the default schedule, %d statements", m.tries, len(m.spec.Clients), len(m.spec.Actors), len(m.devs), final.Steps)
	b, _ := json.MarshalIndent(&o, "", " ")
	if err := os.WriteFile(*out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return 0
}

type minimiser struct {
	class    string
	end      time.Time
	spec     *harness.Spec
	res      *harness.Result
	devs     []core.Dev
	byReplay bool
	tries    int
}

func (m *minimiser) over() bool { return time.Now().After(m.end) }

// try tests a candidate with its own seed and a few others.
func (m *minimiser) try(c *harness.Spec, seeds int) bool {
	for i := 0; i < seeds && !m.over(); i++ {
		d := clone(c)
		if i > 0 {
			d.Seed = c.Seed + uint64(i)*0x9e3779b97f4a7c15 | 1
		}
		m.tries++
		r := harness.Exec(d, false, nil, false)
		if r.Class == m.class {
			m.spec, m.res = d, r
			return true
		}
	}
	return false
}

func (m *minimiser) reduceSpec() {
	for round := 0; round < 4 && !m.over(); round++ {
		before := size(m.spec)
		// whole actors and clients
		for i := len(m.spec.Actors) - 1; i >= 0 && !m.over(); i-- {
			if i >= len(m.spec.Actors) {
				continue
			}
			c := clone(m.spec)
			c.Actors = append(c.Actors[:i], c.Actors[i+1:]...)
			m.try(c, 6)
		}
		for i := len(m.spec.Clients) - 1; i >= 0 && !m.over(); i-- {
			if i == len(m.spec.Clients)-1 {
				c := clone(m.spec)
				c.Clients = c.Clients[:i]
				if m.try(c, 6) {
					continue
				}
			}
			c := clone(m.spec)
			old := c.Clients[i]
			c.Clients[i] = harness.ClSpec{At: old.At}
			m.try(c, 6)
		}
		// faults
		for _, f := range faultFields(&m.spec.Faults) {
			if *f(&m.spec.Faults) == 0 || m.over() {
				continue
			}
			c := clone(m.spec)
			*f(&c.Faults) = 0
			m.try(c, 6)
		}
		if m.spec.Sched.StallPM > 0 {
			c := clone(m.spec)
			c.Sched.StallPM, c.Sched.StallMax = 0, 0
			m.try(c, 6)
		}
		if m.spec.Srv.Loops > 1 {
			c := clone(m.spec)
			c.Srv.Loops = 1
			m.try(c, 6)
		}
		for _, f := range []func(*harness.Spec){
			func(s *harness.Spec) { s.Srv.Packet = 0 }, func(s *harness.Spec) { s.Srv.UserB = 0 }, func(s *harness.Spec) { s.Srv.TaskQ = 0 },
			func(s *harness.Spec) { s.MaxFD = 0 }, func(s *harness.Spec) { s.Srv.Reuse = false }, func(s *harness.Spec) { s.Srv.Addr, s.Srv.Net = "", "" },
			func(s *harness.Spec) { s.NumCPU = 1 },
		} {
			c := clone(m.spec)
			f(c)
			if size(c) != size(m.spec) && !m.over() {
				m.try(c, 4)
			}
		}
		// single operations
		for i := range m.spec.Actors {
			for k := len(m.spec.Actors[i].Ops) - 1; k >= 0 && !m.over(); k-- {
				c := clone(m.spec)
				c.Actors[i].Ops = append(c.Actors[i].Ops[:k], c.Actors[i].Ops[k+1:]...)
				m.try(c, 4)
			}
		}
		for i := range m.spec.Clients {
			for k := len(m.spec.Clients[i].Ops) - 1; k >= 0 && !m.over(); k-- {
				c := clone(m.spec)
				c.Clients[i].Ops = append(c.Clients[i].Ops[:k], c.Clients[i].Ops[k+1:]...)
				m.try(c, 4)
			}
			for k := len(m.spec.Clients[i].Items) - 1; k >= 0 && !m.over(); k-- {
				c := clone(m.spec)
				c.Clients[i].Items = append(c.Clients[i].Items[:k], c.Clients[i].Items[k+1:]...)
				m.try(c, 4)
			}
			for _, f := range []func(*harness.ClSpec){
				func(s *harness.ClSpec) { s.Pol = harness.Policy{} }, func(s *harness.ClSpec) { s.Pol.OnConn = nil }, func(s *harness.ClSpec) { s.Pol.Acts = nil },
				func(s *harness.ClSpec) { s.Pol.SendPM = 0 }, func(s *harness.ClSpec) { s.Pol.ReplyPM = 0 }, func(s *harness.ClSpec) { s.Pol.SlowPM, s.Pol.SlowUS = 0, 0 },
				func(s *harness.ClSpec) { s.Pol.InClose = 0 },
				func(s *harness.ClSpec) { s.Chunk, s.Delay = 0, 0 }, func(s *harness.ClSpec) { s.Snd, s.Win = 0, 0 }, func(s *harness.ClSpec) { s.Rcv = 0 }, func(s *harness.ClSpec) { s.V6 = false },
			} {
				c := clone(m.spec)
				f(&c.Clients[i])
				if size(c) != size(m.spec) && !m.over() {
					m.try(c, 4)
				}
			}
		}
		if size(m.spec) == before {
			break
		}
	}
}

func size(s *harness.Spec) string {
	c := clone(s)
	c.Seed = 0
	b, _ := json.Marshal(c)
	return string(b)
}

func faultFields(_ *kern.Faults) []func(*kern.Faults) *int {
	return []func(*kern.Faults) *int{
		func(f *kern.Faults) *int { return &f.ShortRead }, func(f *kern.Faults) *int { return &f.ReadAgain }, func(f *kern.Faults) *int { return &f.ShortWrite },
		func(f *kern.Faults) *int { return &f.WriteAgain }, func(f *kern.Faults) *int { return &f.ReadErr }, func(f *kern.Faults) *int { return &f.WriteErr },
		func(f *kern.Faults) *int { return &f.EINTR }, func(f *kern.Faults) *int { return &f.EpollPartial }, func(f *kern.Faults) *int { return &f.EpollOrder },
		func(f *kern.Faults) *int { return &f.Spurious }, func(f *kern.Faults) *int { return &f.Coalesce }, func(f *kern.Faults) *int { return &f.Latency },
		func(f *kern.Faults) *int { return &f.AcceptErr }, func(f *kern.Faults) *int { return &f.NonblockErr }, func(f *kern.Faults) *int { return &f.CtlAddErr },
	}
}

// reduceDevs removes deviations from the recorded schedule (delta debugging).
func (m *minimiser) reduceDevs() {
	devs := m.res.Devs
	exec := func(d []core.Dev) *harness.Result {
		m.tries++
		return harness.Exec(clone(m.spec), true, d, false)
	}
	r := exec(devs)
	if r.Class != m.class {
		return // keep the seed
	}
	m.byReplay = true
	m.devs = devs
	if len(devs) > 20000 {
		return
	}
	n := 2
	for len(m.devs) > 0 && !m.over() {
		k := (len(m.devs) + n - 1) / n
		cut := false
		for i := 0; i < len(m.devs) && !m.over(); i += k {
			j := min(i+k, len(m.devs))
			c := append(append([]core.Dev(nil), m.devs[:i]...), m.devs[j:]...)
			if r := exec(c); r.Class == m.class {
				m.devs = c
				cut = true
				break
			}
		}
		if cut {
			n = max(n-1, 2)
			continue
		}
		if k == 1 {
			break
		}
		n = min(n*2, len(m.devs))
	}
}
