package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"

	"gevsim/harness"
)

// Found is a violating run as a worker reports it.
type Found struct {
	Seed  uint64 `json:"seed"`
	Class string `json:"class"`
	Msg   string `json:"msg"`
	Hash  string `json:"hash"`
	Steps int64  `json:"steps"`
}

// Sample is an ordinary run written out for the evidence.
type Sample struct {
	Seed     uint64           `json:"seed"`
	Kind     string           `json:"kind"`
	Loops    int              `json:"loops"`
	Proto    string           `json:"proto,omitempty"`
	Peers    int              `json:"peers"`
	Actors   int              `json:"application_goroutines"`
	Sched    any              `json:"scheduler"`
	Steps    int64            `json:"statements"`
	Switches int64            `json:"task_switches"`
	Preempts int64            `json:"preemptions"`
	Stalls   int64            `json:"stalls"`
	SimMS    float64          `json:"simulated_ms"`
	Devs     int              `json:"recorded_decisions"`
	Hash     string           `json:"event_log_hash"`
	Counters map[string]int64 `json:"faults_and_probes"`
}

// Tally is what a worker did.
type Tally struct {
	Runs     int64             `json:"runs"`
	NonTriv  int64             `json:"nontrivial"`
	Steps    int64             `json:"steps"`
	Switches int64             `json:"switches"`
	Preempts int64             `json:"preempts"`
	Stalls   int64             `json:"stalls"`
	Decs     int64             `json:"decisions"`
	Events   int64             `json:"events"`
	SimUS    int64             `json:"sim_us"`
	Counters map[string]int64  `json:"counters"`
	Anomaly  map[string]int64  `json:"anomaly"`
	AnomMsg  map[string]string `json:"anom_msg"`
	Aborts   int64             `json:"aborts"`
	AbortMsg string            `json:"abort_msg"`
	Samples  []Sample          `json:"samples"`
	Checks   []Found           `json:"checks"` // runs whose hash is to be confirmed in another process
}

func newTally() *Tally {
	return &Tally{Counters: map[string]int64{}, Anomaly: map[string]int64{}, AnomMsg: map[string]string{}}
}

func (t *Tally) add(o *Tally) {
	t.Runs += o.Runs
	t.NonTriv += o.NonTriv
	t.Steps += o.Steps
	t.Switches += o.Switches
	t.Preempts += o.Preempts
	t.Stalls += o.Stalls
	t.Decs += o.Decs
	t.Events += o.Events
	t.SimUS += o.SimUS
	t.Aborts += o.Aborts
	if t.AbortMsg == "" {
		t.AbortMsg = o.AbortMsg
	}
	for k, v := range o.Counters {
		t.Counters[k] += v
	}
	for k, v := range o.Anomaly {
		t.Anomaly[k] += v
		if t.AnomMsg[k] == "" {
			t.AnomMsg[k] = o.AnomMsg[k]
		}
	}
	t.Samples = append(t.Samples, o.Samples...)
	t.Checks = append(t.Checks, o.Checks...)
}

func hashStr(h uint64) string { return fmt.Sprintf("%016x", h) }

// cmdWorker searches seeds base+first, base+first+step, ... until the time is over, or until told on
// standard input to stop. Lines on standard output: "S seed" before each run, "V json" for a violation,
// "R json" at the end. Hashes go to a file.
func cmdWorker(args []string) int {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("p", "", "property")
	base := fs.Uint64("base", 0, "base seed")
	first := fs.Uint64("first", 0, "first index")
	step := fs.Uint64("step", 1, "index step")
	secs := fs.Float64("secs", 10, "time limit")
	maxRuns := fs.Int64("runs", 0, "run limit")
	hashes := fs.String("hashes", "", "file for hashes")
	knownF := fs.String("known", "", "known-findings file")
	fs.Parse(args)
	known, _ := loadFindings(*knownF)
	out := bufio.NewWriter(os.Stdout)
	stop := make(chan bool, 1)
	go func() {
		b := make([]byte, 1)
		_, _ = os.Stdin.Read(b)
		stop <- true
	}()
	t := newTally()
	hs := map[uint64]bool{}
	ils := map[uint64]bool{}
	end := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	found := 0
	seen := map[string]int{}
loop:
	for i := *first; time.Now().Before(end); i += *step {
		select {
		case <-stop:
			break loop
		default:
		}
		if *maxRuns > 0 && t.Runs >= *maxRuns {
			break
		}
		seed := *base + i
		fmt.Fprintf(out, "S %d\n", seed)
		out.Flush()
		sp := harness.Generate(*prop, seed)
		r := harness.Exec(sp, false, nil, false)
		t.Runs++
		if r.Class == "abort" {
			t.Aborts++
			t.AbortMsg = fmt.Sprintf("seed %d: %s", seed, r.Msg)
			continue
		}
		faults := false
		for k, v := range r.Counters {
			t.Counters[k] += v
			if strings.HasPrefix(k, "fault.") {
				faults = true
			}
		}
		if len(r.Devs) > 0 || faults {
			if !hs[r.Hash] {
				t.NonTriv++
			}
			hs[r.Hash] = true
			ils[r.IL] = true
		}
		t.Steps += r.Steps
		t.Switches += r.Switches
		t.Preempts += r.Preempts
		t.Stalls += r.Stalls
		t.Decs += r.Decs
		t.Events += r.Events
		t.SimUS += r.SimNS / 1000
		for k, v := range r.Anomaly {
			t.Anomaly[k] += v
			if t.AnomMsg[k] == "" {
				t.AnomMsg[k] = fmt.Sprintf("seed %d: %s", seed, r.AnomMsg[k])
			}
		}
		if t.Runs == 2 || t.Runs == 17 || t.Runs == 80 {
			if len(t.Samples) < 1 && len(r.Devs) > 0 {
				t.Samples = append(t.Samples, Sample{Seed: seed, Kind: sp.Kind, Loops: sp.Srv.Loops, Proto: sp.Srv.Proto, Peers: len(sp.Clients), Actors: len(sp.Actors), Sched: sp.Sched,
					Steps: r.Steps, Switches: r.Switches, Preempts: r.Preempts, Stalls: r.Stalls, SimMS: float64(r.SimNS) / 1e6, Devs: len(r.Devs), Hash: hashStr(r.Hash), Counters: r.Counters})
			}
		}
		if t.Runs == 3 || t.Runs == 10 || t.Runs == 50 || t.Runs == 200 || t.Runs == 1000 || t.Runs == 5000 {
			t.Checks = append(t.Checks, Found{Seed: seed, Class: r.Class, Hash: hashStr(r.Hash), Steps: r.Steps})
		}
		if r.Class != "" {
			key := r.Class
			listed := false
			for i, k := range known {
				if k.prop == *prop && k.class == r.Class && k.re.MatchString(r.Msg) {
					key, listed = fmt.Sprint("known", i), true
				}
			}
			if seen[key]++; seen[key] <= 3 {
				b, _ := json.Marshal(Found{Seed: seed, Class: r.Class, Msg: r.Msg, Hash: hashStr(r.Hash), Steps: r.Steps})
				fmt.Fprintf(out, "V %s\n", b)
				out.Flush()
			}
			if !listed {
				if found++; found >= 200 {
					break
				}
			}
		}
	}
	if *hashes != "" {
		if f, err := os.Create(*hashes); err == nil {
			b := bufio.NewWriter(f)
			for h := range hs {
				fmt.Fprintf(b, "h%016x\n", h)
			}
			for h := range ils {
				fmt.Fprintf(b, "i%016x\n", h)
			}
			b.Flush()
			f.Close()
		}
	}
	b, _ := json.Marshal(t)
	fmt.Fprintf(out, "R %s\n", b)
	out.Flush()
	return 0
}

// cmdExec runs seeds once and prints their hashes: exec PROP SEED...
func cmdExec(args []string) int {
	for _, a := range args[1:] {
		seed, err := strconv.ParseUint(a, 10, 64)
		if err != nil {
			return 2
		}
		fmt.Printf("B %d\n", seed)
		r := harness.Exec(harness.Generate(args[0], seed), false, nil, false)
		b, _ := json.Marshal(Found{Seed: seed, Class: r.Class, Msg: r.Msg, Hash: hashStr(r.Hash), Steps: r.Steps})
		fmt.Printf("E %s\n", b)
	}
	return 0
}
