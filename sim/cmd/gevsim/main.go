// gevsim runs the simulator: seeded search, minimisation, replay.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"gevsim/core"
	"gevsim/harness"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gevsim check|replay|run|worker ...")
		os.Exit(2)
	}
	debug.SetMaxStack(256 << 20)
	cmd, args := os.Args[1], os.Args[2:]
	switch cmd {
	case "check":
		os.Exit(cmdCheck(args))
	case "worker":
		os.Exit(cmdWorker(args))
	case "replay":
		os.Exit(cmdReplay(args))
	case "exec":
		os.Exit(cmdExec(args))
	case "min":
		os.Exit(cmdMin(args))
	case "run":
		os.Exit(cmdRun(args))
	}
	fmt.Fprintln(os.Stderr, "unknown command", cmd)
	os.Exit(2)
}

// cmdRun is for development: run seeds in this process and summarise.
func cmdRun(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fs.String("p", "C01", "property")
	from := fs.Uint64("from", 0, "first seed")
	n := fs.Int("n", 100, "number of runs")
	secs := fs.Float64("secs", 0, "time limit")
	trace := fs.Bool("trace", false, "print trace of failing runs")
	max := fs.Int("max", 5, "stop after this many failures")
	all := fs.Bool("all", false, "print every run")
	logAll := fs.Bool("log", false, "print every run's specification and log")
	fs.IntVar(&harness.ScalePM, "scale", harness.ScalePM, "share of large runs, per mille")
	fs.Parse(args)
	start := time.Now()
	counters := map[string]int64{}
	anom := map[string]int64{}
	anomMsg := map[string]string{}
	classes := map[string]int{}
	fails, runs := 0, 0
	var steps, sim int64
	var slow time.Duration
	var slowSeed uint64
	uniq := map[uint64]bool{}
	for i := 0; i < *n; i++ {
		if *secs > 0 && time.Since(start).Seconds() > *secs {
			break
		}
		seed := *from + uint64(i)
		t0 := time.Now()
		sp := harness.Generate(*prop, seed)
		r := harness.Exec(sp, false, nil, false)
		if d := time.Since(t0); d > slow {
			slow, slowSeed = d, seed
		}
		runs++
		steps += r.Steps
		sim += r.SimNS / 1000
		uniq[r.IL] = true
		for k, v := range r.Counters {
			counters[k] += v
		}
		for k, v := range r.Anomaly {
			anom[k] += v
			if anomMsg[k] == "" {
				anomMsg[k] = fmt.Sprintf("seed %d: %s", seed, r.AnomMsg[k])
			}
		}
		if *all {
			fmt.Printf("seed %d: %s steps=%d sim=%.1fms devs=%d hash=%x %v\n", seed, r.Why, r.Steps, float64(r.SimNS)/1e6, len(r.Devs), r.Hash, time.Since(t0))
		}
		if *logAll && r.Class == "" {
			b, _ := json.Marshal(sp)
			fmt.Println(string(b))
			r := harness.Exec(harness.Generate(*prop, seed), false, nil, true)
			fmt.Println(strings.Join(r.Trace, "\n"))
		}
		if r.Class != "" {
			fails++
			classes[r.Class]++
			if fails <= *max {
				fmt.Printf("FAIL seed %d class %s: %s\n", seed, r.Class, r.Msg)
				if *trace {
					b, _ := json.Marshal(sp)
					fmt.Println(string(b))
					r = harness.Exec(harness.Generate(*prop, seed), false, nil, true)
					fmt.Println(strings.Join(r.Trace, "\n"))
				}
			}
		}
	}
	if f := os.Getenv("GEVCOV"); f != "" {
		b, _ := json.Marshal(core.CovHits[:])
		os.WriteFile(f, b, 0o644)
	}
	el := time.Since(start)
	fmt.Printf("%d runs, %d failing %v, %.1f runs/s, %d interleavings, avg steps %d, sim %.1fs, slowest %v (seed %d)\n", runs, fails, classes, float64(runs)/el.Seconds(), len(uniq), steps/int64(runs), float64(sim)/1e6, slow, slowSeed)
	pm(counters)
	for k, v := range anom {
		fmt.Printf("anomaly %s: %d (%s)\n", k, v, anomMsg[k])
	}
	if fails > 0 {
		return 1
	}
	return 0
}

func pm(m map[string]int64) {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("  %s=%d", k, m[k])
	}
	fmt.Println()
}

// Replay is a replay file.
type Replay struct {
	Property string        `json:"property"`
	Class    string        `json:"class"`
	Message  string        `json:"message"`
	Seed     uint64        `json:"seed"`            // run number from which it was found
	Hash     string        `json:"hash"`            // event-log hash of the run
	ByReplay bool          `json:"by_replay"`       // true: schedule and faults are exactly Devs; false: drawn from spec.seed
	Fatal    bool          `json:"fatal,omitempty"` // the run ends the process or does not end
	Note     string        `json:"note,omitempty"`
	Spec     *harness.Spec `json:"spec"`
	Devs     []core.Dev    `json:"deviations,omitempty"`
}

func loadReplay(f string) (*Replay, error) {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil, err
	}
	r := &Replay{}
	if err := json.Unmarshal(b, r); err != nil {
		return nil, err
	}
	return r, nil
}

func (r *Replay) exec(trace bool) *harness.Result {
	return harness.Exec(r.Spec, r.ByReplay, r.Devs, trace)
}

func cmdReplay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	trace := fs.Bool("trace", false, "print the trace")
	fs.Parse(args)
	r, err := loadReplay(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	res := r.exec(*trace)
	if *trace {
		fmt.Println(strings.Join(res.Trace, "\n"))
	}
	h := fmt.Sprintf("%016x", res.Hash)
	fmt.Printf("class=%q hash=%s (recorded class=%q hash=%s)\n%s\n", res.Class, h, r.Class, r.Hash, res.Msg)
	if res.Class == "" {
		fmt.Println("the violation did not reproduce")
		return 0
	}
	if r.Hash != "" && h != r.Hash {
		fmt.Println("the run differs from the recorded one")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, fs.Arg(0))
	return 1
}
