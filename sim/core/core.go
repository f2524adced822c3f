// Package core is the deterministic scheduler: coroutine tasks, a virtual clock, an event heap and
// the single source of decisions. Exactly one run is active per process at a time.
package core

import (
	"container/heap"
	"fmt"
	"iter"
	"runtime"
	"sort"
	"strings"
)

// Duration is virtual nanoseconds.
type Duration = int64

const (
	US  int64 = 1000
	MS  int64 = 1000 * US
	Sec int64 = 1000 * MS
)

type taskState int

const (
	runnable taskState = iota
	blocked
	done
)

type yieldKind int

const (
	ykNone    yieldKind = iota
	ykForced            // only to let due events run; not a decision
	ykPreempt           // decision, default: continue
	ykBlock             // decision, default: FIFO
)

// Task is one simulated goroutine.
type Task struct {
	ID   int
	Name string
	Tag  any // free for the harness

	next  func() (struct{}, bool)
	stop  func()
	yield func(struct{}) bool

	state      taskState
	steps      int64 // statements executed so far, plus one per blocking suspension
	readySeq   int64
	stallUntil int64
	prio       int64
	why        string
	sinceBlock int64 // steps at the last blocking suspension
	onSince    int64 // steps when it was last switched in
	ranAt      int64 // total steps when it was last switched out
	spin       int   // consecutive fruitless polls
	gosched    int   // consecutive Gosched calls
	dec        int64 // statements left until the next scheduling decision
	holdAt     int64 // Hold: step and time
	holdFor    int64
	plan       []Dev // replay: remaining scheduling deviations of this task
	noPre      int   // inside a section that is treated as atomic
	vc         vclock
	hslot      int
}

// Dev is one recorded deviation from the default behaviour.
type Dev struct {
	// scheduling: Task >= 0; at its local step Step (Nth decision there) switch to To, stall for D.
	Task int   `json:"t,omitempty"`
	Step int64 `json:"s,omitempty"`
	To   int   `json:"to,omitempty"`
	D    int64 `json:"d,omitempty"`
	// choice: stream and ordinal got value V.
	Stream string `json:"c,omitempty"`
	N      int64  `json:"n,omitempty"`
	V      int64  `json:"v,omitempty"`
}

type event struct {
	at  int64
	seq int64
	fn  func()
	pos int
}
type evHeap []*event

func (h evHeap) Len() int { return len(h) }
func (h evHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || (h[i].at == h[j].at && h[i].seq < h[j].seq)
}
func (h evHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].pos = i; h[j].pos = j }
func (h *evHeap) Push(x any)   { e := x.(*event); e.pos = len(*h); *h = append(*h, e) }
func (h *evHeap) Pop() any {
	o := *h
	e := o[len(o)-1]
	o[len(o)-1] = nil
	*h = o[:len(o)-1]
	e.pos = -1
	return e
}

// Event handle.
type Event struct {
	e *event
	s *Sim
}

// Cancel removes the event; false if it already ran or was cancelled.
func (e Event) Cancel() bool {
	if e.e == nil || e.e.pos < 0 || e.s != S {
		return false
	}
	heap.Remove(&e.s.q, e.e.pos)
	return true
}

// Sched configures how the scheduler explores.
type Sched struct {
	Mode      int   `json:"mode"`              // 0 random walk, 1 PCT-like priorities, 2 run-to-block
	Preempt   int   `json:"preempt,omitempty"` // mean statements between preemptions in random walk
	Changes   int   `json:"changes,omitempty"` // PCT: number of priority change points
	Horizon   int64 `json:"horizon,omitempty"` // PCT: expected run length in statements
	StallPM   int   `json:"stall,omitempty"`   // per mille of decisions that stall the task
	StallMax  int64 `json:"stallmax,omitempty"`
	StallTill int64 `json:"stalltill,omitempty"` // no stalls or preemption noise after this virtual time
}

// Failure is what a run ended with.
type Failure struct {
	Class string
	Msg   string
}

// Sim is one run.
type Sim struct {
	now   int64
	seq   int64
	q     evHeap
	tasks []*Task
	act   []*Task // tasks that are not done
	last  *Task
	cur   *Task

	rng    rng
	sched  Sched
	replay bool
	choice map[string]map[int64]int64
	chN    map[string]int64
	Devs   []Dev
	devBy  map[int][]Dev

	Steps     int64 // total statements
	Decisions int64
	Switches  int64
	Preempts  int64
	Stalls    int64
	Events    int64
	hash      uint64
	ilHash    uint64
	killing   bool
	ended     bool
	endWhy    string
	Fail      *Failure
	maxSteps  int64
	hardSteps int64
	progress  func() int64
	lastProg  int64
	readySeq  int64
	pctPoints []int64
	pctLow    int64
	prev      *Task // task whose yield the next pick decides
	prevWhy   yieldKind
	toPlan    int   // replay: planned successor, -1 none
	seg       int64 // budget at segment start
	yk        yieldKind
	trace     []string
	Counters  map[string]int64
	wallOff   int64
	MonoBase  int64
	NumCPU    int
	CostStmt  int64
	TraceAll  bool
	hb        *hbState
	DepRaces  bool // preempt inside the sections of dependencies that are otherwise atomic
}

// S is the active run.
var S *Sim

// budget counts down statements until the scheduler regains control.
var budget int64 = 1 << 62

// KillSentinel unwinds tasks at the end of a run.
type killSentinel struct{}

// WallBase is the wall clock at virtual time zero (2024-03-01T00:00:00Z).
const WallBase int64 = 1709251200 * Sec

type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *rng) n(n int64) int64 {
	if n <= 1 {
		return 0
	}
	return int64(r.next() % uint64(n))
}

// Rng is a public deterministic generator used for workload generation.
type Rng struct{ r rng }

func NewRng(seed uint64) *Rng {
	// neighbouring seeds must not give shifted copies of one stream
	h := rng{seed}
	return &Rng{rng{h.next() ^ h.next()<<7}}
}
func (r *Rng) U64() uint64 { return r.r.next() }
func (r *Rng) N(n int) int { return int(r.r.n(int64(n))) }
func (r *Rng) I64(n int64) int64 {
	return r.r.n(n)
}

// Between returns a value in [a,b].
func (r *Rng) Between(a, b int) int {
	if b <= a {
		return a
	}
	return a + r.N(b-a+1)
}
func (r *Rng) P(permille int) bool { return r.N(1000) < permille }
func (r *Rng) Pick(xs ...int) int  { return xs[r.N(len(xs))] }

// Skewed returns a value in [0,n) biased to small values.
func (r *Rng) Skewed(n int) int {
	if n <= 1 {
		return 0
	}
	m := 1
	for m < n && r.N(2) == 0 {
		m *= 4
	}
	if m > n {
		m = n
	}
	if m < 2 {
		m = 2
	}
	return r.N(m) % n
}

// Config starts a run.
type Config struct {
	Seed     uint64
	Sched    Sched
	Replay   bool
	Devs     []Dev
	MaxSteps int64
	Trace    bool
	NumCPU   int
}

var resets []func()

// RegisterReset is called by generated packages in initialisation order.
func RegisterReset(f func()) { resets = append(resets, f) }

// OnReset registers package state of the simulator itself.
func OnReset(f func()) { resets = append(resets, f) }

// Run executes root as task 0 under the given configuration and returns the finished run.
func Run(cfg Config, root func()) *Sim {
	s := &Sim{rng: rng{cfg.Seed ^ 0xabcdef12345}, sched: cfg.Sched, replay: cfg.Replay, maxSteps: cfg.MaxSteps,
		choice: map[string]map[int64]int64{}, chN: map[string]int64{}, Counters: map[string]int64{}, NumCPU: cfg.NumCPU, CostStmt: 10, toPlan: -1}
	s.hash = 14695981039346656037
	s.ilHash = 14695981039346656037
	s.rng.next()
	if s.maxSteps == 0 {
		s.maxSteps = 20_000_000
	}
	s.hardSteps = 10 * s.maxSteps
	if s.NumCPU == 0 {
		s.NumCPU = 4
	}
	s.devBy = map[int][]Dev{}
	if cfg.Replay {
		for _, d := range cfg.Devs {
			if d.Stream != "" {
				m := s.choice[d.Stream]
				if m == nil {
					m = map[int64]int64{}
					s.choice[d.Stream] = m
				}
				m[d.N] = d.V
			} else {
				s.devBy[d.Task] = append(s.devBy[d.Task], d)
			}
		}
		for k := range s.devBy {
			l := s.devBy[k]
			sort.SliceStable(l, func(i, j int) bool { return l[i].Step < l[j].Step })
		}
	} else if s.sched.Mode == 1 {
		h := s.sched.Horizon
		if h == 0 {
			h = 50000
		}
		for i := 0; i < s.sched.Changes; i++ {
			s.pctPoints = append(s.pctPoints, s.rng.n(h))
		}
		sort.Slice(s.pctPoints, func(i, j int) bool { return s.pctPoints[i] < s.pctPoints[j] })
	}
	S = s
	HB = false
	s.TraceAll = cfg.Trace
	budget = 1 << 62
	for _, f := range resets {
		f()
	}
	Go2("main", root)
	s.loop()
	s.kill()
	budget = 1 << 62
	return s
}

// End finishes the run (from any context).
func End(why string) {
	S.ended = true
	S.endWhy = why
	if S.cur != nil {
		S.retime()
	}
}

// Progress registers a measure of progress: a run that reaches its step limit while the measure still
// grows is given more.
func Progress(f func() int64) { S.progress = f }

// moving extends the step limit while there is progress.
func (s *Sim) moving() bool {
	if s.progress == nil || s.Steps > s.hardSteps {
		return false
	}
	p := s.progress()
	if p == s.lastProg {
		return false
	}
	s.lastProg = p
	s.maxSteps = s.Steps + 4_000_000
	s.Counters["probe.step_limit_extended"]++
	return true
}

// Ended reports whether End was called.
func Ended() bool { return S.ended }

// Abort ends the run because the simulator cannot model what the code asked for.
func Abort(format string, a ...any) {
	FailNow("abort", format, a...)
	if S.cur != nil {
		Park("abort")
	}
}

func nop() {}

// Section marks the rest of the calling function as atomic with respect to preemption (used for
// dependencies outside the repository): defer core.Section()().
func Section() func() {
	s := S
	if s == nil || s.cur == nil || s.DepRaces || s.killing {
		return nop
	}
	t := s.cur
	t.noPre++
	return func() { t.noPre-- }
}

// FailNow records a violation and ends the run. The first one wins.
func FailNow(class, format string, a ...any) {
	if S.killing || S.ended {
		return
	}
	if S.Fail == nil {
		S.Fail = &Failure{class, fmt.Sprintf(format, a...)}
		Logf("FAIL %s: %s", class, S.Fail.Msg)
	}
	End("fail")
}

// Now is the virtual time since start.
func Now() int64 {
	if S.cur != nil {
		return S.now + (S.seg-budget)*S.CostStmt
	}
	return S.now
}

// flush folds the statements executed in the current segment into the clock.
func (s *Sim) flush() {
	if s.cur == nil {
		return
	}
	used := s.seg - budget
	s.now += used * s.CostStmt
	s.Steps += used
	s.cur.steps += used
	s.cur.dec -= used
	s.seg = budget
}

// WallNow is the wall clock in ns since the Unix epoch.
func WallNow() int64 { return WallBase + S.wallOff + Now() }

// JumpWall moves the wall clock (not the monotonic clock).
func JumpWall(d int64) { S.wallOff += d; Logf("wall clock jump %d", d) }

// Count bumps a named counter (fault firings, probes).
func Count(name string) { S.Counters[name]++ }

// CountN adds to a counter.
func CountN(name string, n int64) { S.Counters[name] += n }

func fnv(h uint64, v uint64) uint64 {
	h ^= v
	h *= 1099511628211
	h ^= h >> 29
	return h
}

// Mix folds a value into the event-log hash.
func Mix(v uint64) { S.hash = fnv(S.hash, v) }

// MixS folds a string into the event-log hash.
func MixS(v string) {
	h := S.hash
	for i := 0; i < len(v); i++ {
		h = (h ^ uint64(v[i])) * 1099511628211
	}
	S.hash = h
}

// Hash is the rolling hash of everything that happened.
func (s *Sim) Hash() uint64 { return s.hash }

// ILHash identifies the interleaving (sequence of task switches and their places).
func (s *Sim) ILHash() uint64 { return s.ilHash }

// EndWhy tells why the run ended.
func (s *Sim) EndWhy() string { return s.endWhy }

// Now of a finished run.
func (s *Sim) Now() int64 { return s.now }

// Logf adds a line to the trace if tracing; it never influences the run.
func Logf(format string, a ...any) {
	if S == nil || !S.TraceAll {
		return
	}
	who := "-"
	if S.cur != nil {
		who = fmt.Sprintf("%d:%s", S.cur.ID, S.cur.Name)
	}
	S.trace = append(S.trace, fmt.Sprintf("%12.3fus [%s] ", float64(Now())/1000, who)+fmt.Sprintf(format, a...))
}

// Tracing tells whether a trace is being recorded.
func Tracing() bool { return S != nil && S.TraceAll }

// Trace returns the recorded lines.
func (s *Sim) Trace() []string { return s.trace }

// At schedules fn at absolute virtual time at.
func At(at int64, fn func()) Event {
	if n := Now(); at < n {
		at = n
	}
	S.seq++
	e := &event{at: at, seq: S.seq, fn: fn}
	heap.Push(&S.q, e)
	if S.cur != nil && e.pos == 0 {
		S.retime()
	}
	return Event{e, S}
}

// After schedules fn after d.
func After(d int64, fn func()) Event { return At(Now()+d, fn) }

// Cur is the running task (nil in event context).
func Cur() *Task {
	if S == nil {
		return nil
	}
	return S.cur
}

// Go starts a task (rewritten go statements call it).
func Go(f func()) { Go2("", f) }

// Go2 starts a named task.
func Go2(name string, f func()) *Task {
	s := S
	if s == nil {
		panic("core: go statement outside a run")
	}
	if s.killing {
		return nil
	}
	t := &Task{ID: len(s.tasks), Name: name}
	if t.Name == "" {
		t.Name = "go"
	}
	s.readySeq++
	t.readySeq = s.readySeq
	if s.sched.Mode == 1 {
		t.prio = 1 + s.rng.n(1<<40)
	}
	t.plan = s.devBy[t.ID]
	if HB {
		hbFork(t)
	}
	s.tasks = append(s.tasks, t)
	s.act = append(s.act, t)
	t.next, t.stop = iter.Pull(func(yield func(struct{}) bool) {
		t.yield = yield
		defer func() {
			r := recover()
			t.state = done
			if HB {
				hbDone(t)
			}
			if r == nil {
				return
			}
			if _, ok := r.(killSentinel); ok {
				return
			}
			if s.killing {
				return
			}
			buf := make([]byte, 16384)
			buf = buf[:runtime.Stack(buf, false)]
			FailNow("crash", "panic in task %d (%s): %v\n%s", t.ID, t.Name, r, trimStack(string(buf)))
		}()
		f()
	})
	return t
}

// Recovered wraps recover() in rewritten code so that the kill sentinel is never swallowed.
func Recovered(r any) any {
	if _, ok := r.(killSentinel); ok {
		panic(r)
	}
	return r
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "\t") {
			if i := strings.LastIndex(l, "/gen/"); i >= 0 {
				l = "  " + l[i+5:]
				if j := strings.Index(l, " +0x"); j > 0 {
					l = l[:j]
				}
				out = append(out, l)
			}
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Y is the preemption point inserted before every statement of the code under test.
func Y() {
	budget--
	if budget < 0 {
		slow()
	}
}

// CovHits counts executions of statements in a coverage build (development).
var CovHits [20000]int64

// Cov counts an execution of statement i.
func Cov(i int) { CovHits[i]++ }

// Point is a preemption point inside simulated primitives.
func Point() {
	budget--
	if budget < 0 {
		slow()
	}
}

func slow() {
	s := S
	if s == nil || s.cur == nil {
		budget = 1 << 62
		return
	}
	if s.killing {
		panic(killSentinel{})
	}
	t := s.cur
	s.flush()
	if t.dec <= 0 && t.noPre == 0 {
		s.yk = ykPreempt
	} else {
		s.yk = ykForced
	}
	t.suspend()
}

// retime recomputes the segment budget after the clock or the event heap changed inside a task.
func (s *Sim) retime() {
	t := s.cur
	if t == nil {
		return
	}
	s.flush()
	b := t.dec - 1
	if t.noPre > 0 && b < 64 {
		b = 64
	}
	if len(s.q) > 0 {
		// yield at the first statement at which the event is due
		u := (s.q[0].at-s.now+s.CostStmt-1)/s.CostStmt - 1
		if u < b {
			b = u
		}
	}
	if b < 0 {
		b = 0
	}
	if s.ended {
		b = 0
	}
	budget = b
	s.seg = b
}

func (t *Task) suspend() {
	if !t.yield(struct{}{}) || S.killing {
		panic(killSentinel{})
	}
}

// Killing tells whether the run is being torn down.
func Killing() bool { return S != nil && S.killing }

// CheckKill panics with the sentinel during teardown.
func CheckKill() {
	if S != nil && S.killing {
		panic(killSentinel{})
	}
}

// Park blocks the current task until Ready is called on it.
func Park(why string) {
	s := S
	if s.killing {
		panic(killSentinel{})
	}
	t := s.cur
	if t == nil {
		panic("core: blocking operation outside a task: " + why)
	}
	s.flush()
	t.steps++
	t.dec--
	t.state = blocked
	t.why = why
	s.yk = ykBlock
	t.suspend()
}

// Ready makes a parked task runnable.
func Ready(t *Task) {
	s := S
	if t.state != blocked {
		return
	}
	t.state = runnable
	s.readySeq++
	t.readySeq = s.readySeq
	if s.sched.Mode == 1 && !s.replay && s.cur != nil && t.prio > s.cur.prio && s.cur.dec > 1 {
		s.flush()
		s.cur.dec = 1
		s.retime()
	}
}

// Alive lists the tasks that had not returned when the run ended.
func (s *Sim) Alive() []*Task { return s.act }

// IsBlocked tells whether the task is parked (not runnable, not done).
func (t *Task) IsBlocked() bool { return t.state == blocked }

// Done tells whether the task has returned.
func (t *Task) Done() bool { return t.state == done }

// Stalled tells whether the task is being held by an injected stall.
func (t *Task) Stalled() bool { return t.stallUntil > Now() }

// Why is the reason the task is parked for.
func (t *Task) Why() string { return t.why }

// Tasks of the run.
func Tasks() []*Task { return S.tasks }

// Sleep blocks the current task for d.
func Sleep(d int64) {
	Point()
	if S.killing {
		panic(killSentinel{})
	}
	if d <= 0 {
		return
	}
	t := S.cur
	After(d, func() { Ready(t) })
	Park("sleep")
}

// Gosched lets everybody else go first.
func Gosched() {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	if s.killing {
		panic(killSentinel{})
	}
	t := s.cur
	s.flush()
	s.now += 200
	t.steps++
	t.dec--
	t.gosched++
	if t.gosched > 8 && !s.othersRunnable(t) {
		// pure spinning: nothing can change before the next event or the end of a stall
		if n := s.nextTime(); n > s.now {
			s.now = n
		}
	}
	s.readySeq++
	t.readySeq = s.readySeq
	if s.sched.Mode == 1 {
		s.pctLow--
		t.prio = s.pctLow
	}
	s.yk = ykBlock
	t.why = "gosched"
	t.suspend()
}

func (s *Sim) othersRunnable(t *Task) bool {
	for _, x := range s.act {
		if x != t && x.state == runnable && x.stallUntil <= s.now {
			return true
		}
	}
	return false
}

func (s *Sim) nextTime() int64 {
	next := int64(-1)
	if len(s.q) > 0 {
		next = s.q[0].at
	}
	for _, x := range s.act {
		if x.state == runnable && x.stallUntil > s.now && (next < 0 || x.stallUntil < next) {
			next = x.stallUntil
		}
	}
	return next
}

// Cost charges virtual time to the current operation.
func Cost(d int64) {
	s := S
	if s.cur == nil {
		return
	}
	s.flush()
	s.now += d
	s.retime()
}

// FruitlessPoll is called by non-blocking waits that found nothing new; when the task keeps spinning
// the clock is moved on in growing steps.
func FruitlessPoll() {
	s := S
	t := s.cur
	if t == nil {
		return
	}
	t.spin++
	if t.spin > 16 {
		d := 50 * US
		if t.spin > 64 {
			d = 500 * US
		}
		if t.spin > 512 {
			d = 5 * MS
		}
		now := Now()
		if len(s.q) > 0 && s.q[0].at > now && s.q[0].at-now < d {
			d = s.q[0].at - now
		}
		Count("probe.spin")
		After(d, func() { Ready(t) })
		Park("spin")
	}
}

// Productive resets the spin detectors of the current task.
func Productive() {
	if S.cur != nil {
		S.cur.spin = 0
		S.cur.gosched = 0
	}
}

// Choose asks for a decision in [0,n) on a stream; 0 is the default. weight is the per-mille
// probability of a non-default answer in search mode.
func Choose(stream string, permille int, n int64) int64 {
	if n <= 1 {
		return 0
	}
	s := S
	k := s.chN[stream]
	s.chN[stream] = k + 1
	if s.replay {
		if m := s.choice[stream]; m != nil {
			v := m[k]
			if v >= n {
				v = n - 1
			}
			if v != 0 {
				s.hash = fnv(s.hash, uint64(v)+77)
			}
			return v
		}
		return 0
	}
	if permille <= 0 {
		return 0
	}
	if permille < 1000 && s.rng.n(1000) >= int64(permille) {
		return 0
	}
	var v int64
	if permille >= 1000 {
		v = s.rng.n(n)
	} else {
		v = 1 + s.rng.n(n-1)
	}
	if v != 0 {
		s.Devs = append(s.Devs, Dev{Task: -1, Stream: stream, N: k, V: v})
		s.hash = fnv(s.hash, uint64(v)+77)
	}
	return v
}

// Flip is a yes/no decision.
func Flip(stream string, permille int) bool { return Choose(stream, permille, 2) == 1 }

func (s *Sim) loop() {
	var cont *Task
	for !s.ended {
		// run all events that are due
		for len(s.q) > 0 && s.q[0].at <= s.now {
			e := heap.Pop(&s.q).(*event)
			s.Events++
			s.hash = fnv(s.hash, uint64(e.seq)<<1|1)
			s.runEvent(e.fn)
			if s.ended {
				return
			}
		}
		if cont != nil {
			t := cont
			cont = nil
			s.dispatch(t, false)
			cont = s.after(t)
			continue
		}
		t := s.pick()
		if t == nil {
			next := s.nextTime()
			if next < 0 {
				s.ended = true
				s.endWhy = "deadlock"
				return
			}
			if next > s.now {
				s.now = next
			}
			continue
		}
		if t != s.last {
			if s.last != nil {
				s.last.ranAt = s.Steps
			}
			t.onSince = t.steps
			s.Switches++
			s.hash = fnv(s.hash, uint64(t.ID)<<32^uint64(t.steps))
			s.ilHash = fnv(s.ilHash, uint64(t.ID)<<40^uint64(t.steps))
			s.last = t
		}
		s.dispatch(t, true)
		cont = s.after(t)
		if s.Steps > s.maxSteps && !s.ended && !s.moving() {
			s.ended = true
			s.endWhy = "maxsteps"
		}
	}
}

// after handles the yield of t; it returns t if t must simply continue.
func (s *Sim) after(t *Task) *Task {
	if t.state == done {
		s.flushDone(t)
		s.prev = t
		s.prevWhy = ykBlock
		s.yielded(t)
		return nil
	}
	if s.ended {
		return nil
	}
	if s.yk == ykForced {
		return t
	}
	if s.yk == ykBlock {
		t.sinceBlock = t.steps
	}
	s.prev = t
	s.prevWhy = s.yk
	s.yielded(t)
	return nil
}

func (s *Sim) flushDone(t *Task) {
	for i, x := range s.act {
		if x == t {
			s.act = append(s.act[:i], s.act[i+1:]...)
			break
		}
	}
}

// dispatch runs t until it yields.
func (s *Sim) dispatch(t *Task, decide bool) {
	if decide {
		t.dec = s.drawBudget(t)
		if t.holdFor > 0 && t.dec > t.holdAt-t.steps {
			t.dec = max(t.holdAt-t.steps, 1)
		}
	}
	s.cur = t
	s.seg = 0
	budget = 0
	s.retime()
	if _, ok := t.next(); !ok {
		t.state = done
	}
	s.flush()
	if t.state == done {
		t.steps++ // so that this decision differs from one at its last statement
	}
	s.cur = nil
	budget = 1 << 62
}

// slice is how many statements a task may run before everybody else gets a turn.
const slice = 1 << 15

// pctFair is how many statements a task may run without blocking in priority mode.
const pctFair = 1 << 16

func (s *Sim) drawBudget(t *Task) int64 {
	const long = 1 << 20
	if t.steps-t.onSince >= slice {
		t.onSince = t.steps
	}
	left := slice - (t.steps - t.onSince)
	if s.replay {
		for len(t.plan) > 0 && t.plan[0].Step <= t.steps {
			t.plan = t.plan[1:]
		}
		if len(t.plan) > 0 {
			return t.plan[0].Step - t.steps
		}
		return long
	}
	if s.calm() {
		return left
	}
	switch s.sched.Mode {
	case 1:
		for len(s.pctPoints) > 0 && s.pctPoints[0] <= s.Steps {
			s.pctPoints = s.pctPoints[1:]
			s.pctLow--
			t.prio = s.pctLow
		}
		// fairness: a task that never blocks eventually yields to everybody else
		left := pctFair - (t.steps - t.sinceBlock)
		if left <= 0 {
			s.pctLow--
			t.prio = s.pctLow
			t.sinceBlock = t.steps
			left = pctFair
		}
		if len(s.pctPoints) > 0 && s.pctPoints[0]-s.Steps < left {
			left = s.pctPoints[0] - s.Steps
		}
		return left
	case 2:
		return left
	}
	m := int64(s.sched.Preempt)
	if m <= 0 {
		m = 200
	}
	switch s.rng.n(8) {
	case 0:
		return 1 + s.rng.n(3)
	case 1:
		return 1 + s.rng.n(m*8)
	default:
		return 1 + s.rng.n(m*2)
	}
}

func (s *Sim) calm() bool { return s.sched.StallTill > 0 && s.now > s.sched.StallTill }

// Calm ends scheduling noise from now on (the fault-free phase of a run).
func Calm() {
	S.sched.StallTill = 1
	for _, t := range S.act {
		t.stallUntil = 0
	}
}

// yielded takes the stall decision for t and, in replay, looks up what was planned here.
func (s *Sim) yielded(t *Task) {
	s.toPlan = -1
	if s.replay {
		for len(t.plan) > 0 && t.plan[0].Step < t.steps {
			t.plan = t.plan[1:]
		}
		for len(t.plan) > 0 && t.plan[0].Step == t.steps {
			d := t.plan[0]
			t.plan = t.plan[1:]
			if d.D > 0 {
				s.stall(t, d.D)
			} else {
				s.toPlan = d.To
			}
		}
		return
	}
	if t.holdFor > 0 && t.state == runnable && t.steps >= t.holdAt {
		d := t.holdFor
		t.holdFor = 0
		if !s.calm() {
			s.Devs = append(s.Devs, Dev{Task: t.ID, Step: t.steps, D: d})
			s.stall(t, d)
			Count("fault.held")
			return
		}
	}
	if s.sched.StallPM > 0 && !s.calm() && t.state == runnable && s.rng.n(1000) < int64(s.sched.StallPM) {
		m := s.sched.StallMax
		if m == 0 {
			m = 5 * MS
		}
		d := 1 + s.rng.n(m)
		if s.rng.n(4) != 0 {
			d = 1 + d/(1+s.rng.n(1000))
		}
		s.Devs = append(s.Devs, Dev{Task: t.ID, Step: t.steps, D: d})
		s.stall(t, d)
	}
}

func (s *Sim) stall(t *Task, d int64) {
	t.stallUntil = s.now + d
	s.Stalls++
	s.hash = fnv(s.hash, 991^uint64(d))
	if s.TraceAll {
		Logf("stall task %d:%s for %dus", t.ID, t.Name, d/1000)
	}
}

// Hold makes the current task stop for d once it has executed k more statements (a recorded scheduling
// decision, like every stall).
func Hold(k, d int64) {
	s := S
	if s == nil || s.cur == nil || s.replay || s.calm() || d <= 0 {
		return
	}
	s.flush()
	t := s.cur
	t.holdAt, t.holdFor = t.steps+k, d
	if t.dec > k {
		t.dec = k
	}
	s.retime()
}

// Unhold cancels a Hold of the current task which has not come into effect.
func Unhold() {
	if S != nil && S.cur != nil {
		S.cur.holdFor = 0
	}
}

// pick chooses the next task to run; nil if none can run now.
func (s *Sim) pick() *Task {
	var fifo *Task
	n := 0
	for _, t := range s.act {
		if t.state != runnable || t.stallUntil > s.now {
			continue
		}
		n++
		if fifo == nil || t.readySeq < fifo.readySeq {
			fifo = t
		}
	}
	if n == 0 {
		return nil
	}
	prev := s.prev
	s.prev = nil
	if prev == nil {
		return fifo
	}
	def := fifo
	if s.prevWhy == ykPreempt && prev.state == runnable && prev.stallUntil <= s.now {
		def = prev
	}
	s.Decisions++
	if s.replay {
		if s.toPlan >= 0 {
			for _, t := range s.act {
				if t.ID == s.toPlan && t.state == runnable && t.stallUntil <= s.now {
					if t != def {
						s.Preempts++
					}
					return t
				}
			}
		}
		return def
	}
	t := def
	switch {
	case def == prev && prev.steps-prev.onSince >= slice:
		for _, x := range s.act {
			if x != prev && x.state == runnable && x.stallUntil <= s.now && (t == prev || x.ranAt < t.ranAt) {
				t = x
			}
		}
	case s.calm() || s.sched.Mode == 2:
	case s.sched.Mode == 1:
		t = nil
		for _, x := range s.act {
			if x.state == runnable && x.stallUntil <= s.now && (t == nil || x.prio > t.prio) {
				t = x
			}
		}
	default:
		k := s.rng.n(int64(n))
		for _, x := range s.act {
			if x.state == runnable && x.stallUntil <= s.now {
				if k == 0 {
					t = x
					break
				}
				k--
			}
		}
	}
	if t != def {
		s.Preempts++
		s.Devs = append(s.Devs, Dev{Task: prev.ID, Step: prev.steps, To: t.ID})
	}
	return t
}

func (s *Sim) runEvent(fn func()) {
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 16384)
			buf = buf[:runtime.Stack(buf, false)]
			panic(fmt.Sprintf("simulator: panic in event: %v\n%s", r, buf))
		}
	}()
	fn()
}

// kill unwinds every task that is still alive.
func (s *Sim) kill() {
	s.killing = true
	for _, t := range s.tasks {
		if t.state != done {
			s.cur = t
			budget = 1 << 62
			t.stop()
			t.state = done
		}
		t.next, t.stop, t.yield = nil, nil, nil
	}
	s.cur = nil
	s.q = nil
}
