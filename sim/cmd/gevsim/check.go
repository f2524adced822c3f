package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"gevsim/harness"
)

// runLimit is the wall-clock limit for one run; ordinary runs take milliseconds.
const runLimit = 60 * time.Second

type proc struct {
	mu    sync.Mutex
	cmd   *exec.Cmd
	in    io.WriteCloser
	seed  uint64
	since time.Time
	tally *Tally
	err   bytes.Buffer
	hung  bool
	done  bool
}

// finding is an entry of the known-findings file.
type finding struct {
	prop, class string
	re          *regexp.Regexp
	what        string
}

// loadFindings reads lines "finding: property=ID class=CLASS match=/REGEXP/ what fails". Lines
// starting "fixed:" are a record only.
func loadFindings(file string) ([]finding, error) {
	b, err := os.ReadFile(file)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var out []finding
	re := regexp.MustCompile(`^finding: property=(\S+) class=(\S+) match=/(.*)/ (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		m := re.FindStringSubmatch(l)
		if m == nil {
			return nil, fmt.Errorf("bad line in %s: %s", file, l)
		}
		r, err := regexp.Compile(m[3])
		if err != nil {
			return nil, err
		}
		out = append(out, finding{m[1], m[2], r, m[4]})
	}
	return out, nil
}

func mix64(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

// subproc runs this binary once more with a time limit.
func subproc(limit time.Duration, args ...string) (string, string, error) {
	self, _ := os.Executable()
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := exec.CommandContext(ctx, self, args...)
	var out, errb bytes.Buffer
	c.Stdout, c.Stderr = &out, &errb
	err := c.Run()
	if ctx.Err() != nil {
		err = ctx.Err()
	}
	return out.String(), errb.String(), err
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("p", "", "property")
	tier := fs.String("tier", "quick", "quick or thorough")
	dir := fs.String("verif", "/verif", "directory of evidence and output")
	secs := fs.Float64("secs", 0, "search time")
	fs.Parse(args)
	start := time.Now()
	if !harness.Known(*prop) {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 2
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	search := *secs
	if search == 0 {
		search = 40
		if *tier == "thorough" {
			search = 600
		}
	}
	base := mix64(uint64(seed)) >> 16 << 12 // leaves room for indices
	known, err := loadFindings(filepath.Join(*dir, "known_findings.txt"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	tmp, err := os.MkdirTemp("", "gevsim")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	fmt.Printf("property %s, tier %s, VERIF_SEED %d, base seed %d, search %.0f s\n", *prop, *tier, seed, base, search)

	nw := runtime.NumCPU()
	if nw > 16 {
		nw = 16
	}
	self, _ := os.Executable()
	ps := make([]*proc, nw)
	var found []Found
	knownN := map[string]int{}
	var fmu sync.Mutex
	var stopOnce sync.Once
	stopAll := func() {
		stopOnce.Do(func() {
			time.AfterFunc(1500*time.Millisecond, func() {
				for _, p := range ps {
					if p != nil {
						p.in.Close()
					}
				}
			})
		})
	}
	add := func(f Found) {
		fmu.Lock()
		defer fmu.Unlock()
		for _, k := range known {
			if k.prop == *prop && k.class == f.Class && k.re.MatchString(f.Msg) {
				knownN[k.what]++
				return
			}
		}
		found = append(found, f)
		stopAll()
	}
	var wg sync.WaitGroup
	searchStart := time.Now()
	for i := range ps {
		p := &proc{since: time.Now()}
		p.cmd = exec.Command(self, "worker", "-p", *prop, "-base", fmt.Sprint(base), "-first", fmt.Sprint(i), "-step", fmt.Sprint(nw),
			"-secs", fmt.Sprint(search), "-hashes", filepath.Join(tmp, fmt.Sprintf("h%d", i)), "-known", filepath.Join(*dir, "known_findings.txt"))
		p.cmd.Stderr = &p.err
		out, err := p.cmd.StdoutPipe()
		if err == nil {
			p.in, err = p.cmd.StdinPipe()
		}
		if err == nil {
			err = p.cmd.Start()
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		ps[i] = p
		wg.Add(1)
		go func() {
			defer wg.Done()
			sc := bufio.NewScanner(out)
			sc.Buffer(nil, 64<<20)
			for sc.Scan() {
				l := sc.Text()
				if len(l) < 2 {
					continue
				}
				p.mu.Lock()
				p.since = time.Now()
				switch l[:2] {
				case "S ":
					p.seed, _ = strconv.ParseUint(l[2:], 10, 64)
				case "V ":
					var f Found
					if json.Unmarshal([]byte(l[2:]), &f) == nil {
						add(f)
					}
				case "R ":
					t := newTally()
					if json.Unmarshal([]byte(l[2:]), t) == nil {
						p.tally = t
					}
				}
				p.mu.Unlock()
			}
			_ = p.cmd.Wait()
			p.mu.Lock()
			p.done = true
			p.mu.Unlock()
		}()
	}
	quit := make(chan bool)
	go func() {
		for {
			select {
			case <-quit:
				return
			case <-time.After(time.Second):
			}
			for _, p := range ps {
				p.mu.Lock()
				if !p.done && time.Since(p.since) > runLimit {
					p.hung = true
					_ = p.cmd.Process.Kill()
				}
				p.mu.Unlock()
			}
		}
	}()
	wg.Wait()
	close(quit)
	searchTime := time.Since(searchStart)

	total := newTally()
	var trouble []string
	for i, p := range ps {
		if p.tally != nil {
			total.add(p.tally)
			continue
		}
		// the worker died or was killed: the run it had announced is to blame if it does so again
		what, msg := "crash", "the run ends the process"
		if p.hung {
			what, msg = "hang", fmt.Sprintf("the run does not end within %v", runLimit)
		}
		tail := p.err.String()
		_, errs, err := subproc(runLimit, "exec", *prop, fmt.Sprint(p.seed))
		if err == nil {
			trouble = append(trouble, fmt.Sprintf("worker %d ended in seed %d (%s), which does not repeat: %s", i, p.seed, what, cut(tail, 400)))
			continue
		}
		if errs != "" {
			tail = errs
		}
		found = append(found, Found{Seed: p.seed, Class: what, Msg: msg + ": " + cut(tail, 600), Steps: -1})
	}
	for what, n := range knownN {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d runs)\n", *prop, what, n)
	}

	// the same seeds in another process
	confirmed, mismatch := 0, []string{}
	if n := len(total.Checks); n > 0 {
		if n > 48 {
			n = 48
		}
		sort.Slice(total.Checks, func(i, j int) bool { return total.Checks[i].Seed < total.Checks[j].Seed })
		want := map[uint64]string{}
		as := []string{"exec", *prop}
		for i := 0; i < n; i++ {
			f := total.Checks[i*len(total.Checks)/n]
			want[f.Seed] = f.Hash
			as = append(as, fmt.Sprint(f.Seed))
		}
		out, errs, err := subproc(5*time.Minute, as...)
		if err != nil {
			trouble = append(trouble, "repeating runs: "+err.Error()+" "+cut(errs, 300))
		}
		for _, l := range strings.Split(out, "\n") {
			var f Found
			if strings.HasPrefix(l, "E ") && json.Unmarshal([]byte(l[2:]), &f) == nil {
				if f.Hash == want[f.Seed] {
					confirmed++
				} else {
					mismatch = append(mismatch, fmt.Sprintf("seed %d: %s and %s", f.Seed, want[f.Seed], f.Hash))
				}
			}
		}
	}

	code := 0
	replay := ""
	var best Found
	if len(found) > 0 {
		sort.SliceStable(found, func(i, j int) bool {
			a, b := found[i], found[j]
			if (a.Class == "hang") != (b.Class == "hang") {
				return b.Class == "hang"
			}
			if (a.Steps < 0) != (b.Steps < 0) {
				return b.Steps < 0
			}
			if a.Steps != b.Steps {
				return a.Steps < b.Steps
			}
			return a.Seed < b.Seed
		})
		tries := 0
		for _, f := range found {
			if tries++; tries > 5 {
				break
			}
			file, err := writeReplay(*prop, f, *dir, tmp, *tier)
			if err != nil {
				trouble = append(trouble, err.Error())
				continue
			}
			best, replay, code = f, file, 1
			break
		}
		if code == 0 {
			trouble = append(trouble, "no violating run could be reproduced")
		}
	}
	if code == 0 && len(mismatch) > 0 {
		trouble = append(trouble, "runs differ between processes: "+strings.Join(mismatch, "; "))
	}
	if total.Runs == 0 && code == 0 {
		trouble = append(trouble, "no run was made")
	}
	if total.Aborts*20 > total.Runs && code == 0 {
		trouble = append(trouble, fmt.Sprintf("%d of %d runs were aborted: %s", total.Aborts, total.Runs, total.AbortMsg))
	}
	hs, ils := mergeHashes(tmp, nw)
	ev := evidence(*prop, *tier, seed, base, total, hs, ils, searchTime, confirmed, len(mismatch), known, knownN)
	if code == 1 {
		ev["violations"] = 1
		ev["violation"] = map[string]any{"class": best.Class, "message": best.Msg, "seed": best.Seed, "replay": replay}
	}
	if len(trouble) > 0 {
		ev["trouble"] = trouble
	}
	ev["wall_s"] = round(time.Since(start).Seconds())
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(*dir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*dir, "evidence", *prop+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		if code == 0 {
			code = 2
		}
	}
	fmt.Printf("%d runs, %d interleavings, %.0f s simulated, %.0f runs/s, %d repeated identically in another process\n", total.Runs, len(ils), float64(total.SimUS)/1e6, float64(total.Runs)/searchTime.Seconds(), confirmed)
	for k, v := range total.Anomaly {
		fmt.Printf("note: %d runs observed %s, which belongs to another property (%s)\n", v, k, cut(total.AnomMsg[k], 160))
	}
	if code == 1 {
		fmt.Printf("class %s, seed %d: %s\n", best.Class, best.Seed, best.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, replay)
		return 1
	}
	if len(trouble) > 0 {
		for _, t := range trouble {
			fmt.Fprintln(os.Stderr, "error:", t)
		}
		return 2
	}
	fmt.Printf("property %s held on everything explored\n", *prop)
	return code
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func round(x float64) float64 { return float64(int64(x*1000+0.5)) / 1000 }

// writeReplay minimises a violating run and verifies the result in a fresh process.
func writeReplay(prop string, f Found, dir, tmp, tier string) (string, error) {
	out := filepath.Join(dir, "out")
	if err := os.MkdirAll(out, 0o755); err != nil {
		return "", err
	}
	file := filepath.Join(out, fmt.Sprintf("%s-%d.json", prop, f.Seed))
	r := &Replay{Property: prop, Class: f.Class, Message: f.Msg, Seed: f.Seed, Hash: f.Hash, Spec: harness.Generate(prop, f.Seed)}
	if f.Steps < 0 {
		r.Fatal, r.Hash = true, ""
	}
	b, _ := json.MarshalIndent(r, "", " ")
	if err := os.WriteFile(file, b, 0o644); err != nil {
		return "", err
	}
	if r.Fatal {
		return file, nil
	}
	secs := "25"
	if tier == "thorough" {
		secs = "90"
	}
	mf := filepath.Join(tmp, "min.json")
	_ = os.Remove(mf)
	if _, _, err := subproc(3*time.Minute, "min", "-in", file, "-out", mf, "-secs", secs); err == nil && verify(mf) {
		if b, err := os.ReadFile(mf); err == nil {
			if err := os.WriteFile(file, b, 0o644); err != nil {
				return "", err
			}
			return file, nil
		}
	}
	if !verify(file) {
		return "", fmt.Errorf("seed %d (class %s) does not reproduce in a fresh process", f.Seed, f.Class)
	}
	return file, nil
}

// verify replays a file in a fresh process.
func verify(file string) bool {
	out, _, err := subproc(2*runLimit, "replay", file)
	if e, ok := err.(*exec.ExitError); !ok || e.ExitCode() != 1 {
		return false
	}
	return strings.Contains(out, "VIOLATION property=") && !strings.Contains(out, "differs from")
}

func mergeHashes(tmp string, n int) (map[string]bool, map[string]bool) {
	hs, ils := map[string]bool{}, map[string]bool{}
	for i := 0; i < n; i++ {
		f, err := os.Open(filepath.Join(tmp, fmt.Sprintf("h%d", i)))
		if err != nil {
			continue
		}
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			l := sc.Text()
			if l[0] == 'h' {
				hs[l[1:]] = true
			} else {
				ils[l[1:]] = true
			}
		}
		f.Close()
	}
	return hs, ils
}

func evidence(prop, tier string, seed int64, base uint64, t *Tally, hs, ils map[string]bool, d time.Duration, confirmed, mismatch int, known []finding, knownN map[string]int) map[string]any {
	faults, probes := map[string]int64{}, map[string]int64{}
	for k, v := range t.Counters {
		switch {
		case strings.HasPrefix(k, "fault."):
			faults[k[6:]] = v
		case strings.HasPrefix(k, "probe."):
			probes[k[6:]] = v
		default:
			probes[k] = v
		}
	}
	faults["task stalled"] = t.Stalls
	faults["preemption between two statements"] = t.Preempts
	h := d.Hours()
	if len(t.Samples) > 4 {
		t.Samples = t.Samples[:4]
	}
	samples := []any{}
	for _, s := range t.Samples {
		samples = append(samples, s)
	}
	cov := map[string]any{
		"evaluations":         t.Runs,
		"distinct_nontrivial": len(hs),
		"rule": "One evaluation is one simulated execution of the real gev code, generated from one seed: a server configuration, peers and application goroutines with their operations, a scheduler, and a fault mix. " +
			"It is non-trivial if the scheduler took at least one decision off the default schedule or at least one fault was injected; it is distinct by the hash of its complete event log (every task switch, system call with result, callback and fault).",
		"samples":                             samples,
		"distinct_interleavings":              len(ils),
		"interleaving_measure":                "hash of the sequence of task switches with the statement at which each happened",
		"runs_per_hour":                       int64(float64(t.Runs) / h),
		"seeds_per_hour":                      int64(float64(t.Runs) / h),
		"first_seed":                          base,
		"simulated_seconds":                   round(float64(t.SimUS) / 1e6),
		"statements_executed":                 t.Steps,
		"task_switches":                       t.Switches,
		"scheduler_decisions":                 t.Decs,
		"events_logged":                       t.Events,
		"faults_injected":                     faults,
		"probes":                              probes,
		"repeated_in_other_process":           confirmed,
		"repeats_that_differed":               mismatch,
		"aborted_runs":                        t.Aborts,
		"violations_of_other_properties_seen": t.Anomaly,
		"real_code":                           harness.RealCode(),
		"simulated":                           harness.Simulated(),
	}
	var kf []string
	for k, n := range knownN {
		kf = append(kf, fmt.Sprintf("%s (%d runs)", k, n))
	}
	if len(kf) > 0 {
		cov["known_findings_seen"] = kf
	}
	return map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "violations": 0,
		"assumptions": harness.Assumptions(),
	}
}
