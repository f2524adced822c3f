package core

import "unsafe"

// Happens-before tracking: vector clocks per simulated goroutine, one clock per synchronisation
// object, and the last accesses of every instrumented memory location. Two accesses of one location
// by different goroutines, at least one of them a write and not both atomic, that are not ordered
// by the synchronisation the code performs are a data race - whether or not the schedule of this run
// put them next to each other.

// HB switches the tracking on for the current run.
var HB bool

type vclock []uint32

type acc struct {
	t   int // the clock's slot
	id  int // the task
	c   uint32
	at  bool // atomic
	pos string
}

type cell struct {
	w    acc // last write; c == 0: none
	aw   acc // last atomic write
	r    []acc
	race bool
}

type hbState struct {
	sync  map[unsafe.Pointer]vclock // keys keep the objects alive, so addresses are never reused
	mem   map[unsafe.Pointer]*cell
	slots []slotState
	free  []int // slots of finished tasks, oldest first
	Reads int64
}

// A slot is a position in the clocks. Tasks that have finished hand theirs on when there are many:
// their accesses then count as ordered before those of the next task in the slot (races may be
// missed, never invented).
type slotState struct{ last uint32 }

const freshSlots = 40

func (v *vclock) grow(n int) {
	if len(*v) < n {
		if cap(*v) < n {
			w := make(vclock, n, n+8)
			copy(w, *v)
			*v = w
			return
		}
		k := len(*v)
		*v = (*v)[:n]
		clear((*v)[k:])
	}
}

func (v *vclock) join(o vclock) {
	v.grow(len(o))
	w := (*v)[:len(o)]
	for i, c := range o {
		if c > w[i] {
			w[i] = c
		}
	}
}

func (t *Task) clock() *vclock {
	if t.hslot == 0 {
		h := S.hb
		if len(h.slots) >= freshSlots && len(h.free) > 0 {
			t.hslot = h.free[0] + 1
			h.free = h.free[1:]
		} else {
			h.slots = append(h.slots, slotState{})
			t.hslot = len(h.slots)
		}
		i := t.hslot - 1
		t.vc.grow(i + 1)
		t.vc[i] = h.slots[i].last + 1
	}
	return &t.vc
}

func (t *Task) tick() { t.vc[t.hslot-1]++ }

// hbDone frees the slot of a task that has finished.
func hbDone(t *Task) {
	if HB && S != nil && S.hb != nil && t.hslot != 0 {
		i := t.hslot - 1
		S.hb.slots[i].last = t.vc[i]
		S.hb.free = append(S.hb.free, i)
	}
}

func hbOn() bool { return HB && S != nil && S.hb != nil && S.cur != nil && !S.killing }

// EnableRaces starts happens-before tracking for the current run.
func EnableRaces() {
	HB = true
	S.hb = &hbState{sync: map[unsafe.Pointer]vclock{}, mem: map[unsafe.Pointer]*cell{}}
}

// hbFork orders everything the creator did before everything the new task does.
func hbFork(t *Task) {
	if !hbOn() {
		return
	}
	p := S.cur
	t.vc = append(vclock(nil), *p.clock()...)
	t.clock()
	p.tick()
}

// Join orders everything a finished task did before what the current task does from now on.
func Join(t *Task) {
	if hbOn() {
		S.cur.clock().join(t.vc)
	}
}

// Rel publishes what the current task did so far at a synchronisation object.
func Rel(p unsafe.Pointer) {
	if !hbOn() {
		return
	}
	t := S.cur
	v := S.hb.sync[p]
	v.join(*t.clock())
	S.hb.sync[p] = v
	t.tick()
}

// RelSet is Rel of an operation that replaces what was published before (an atomic store).
func RelSet(p unsafe.Pointer) {
	if !hbOn() {
		return
	}
	t := S.cur
	S.hb.sync[p] = append(S.hb.sync[p][:0], *t.clock()...)
	t.tick()
}

// Acq orders what was published at p before what the current task does from now on.
func Acq(p unsafe.Pointer) {
	if !hbOn() {
		return
	}
	if v := S.hb.sync[p]; v != nil {
		S.cur.clock().join(v)
	}
}

// AcqFor is Acq on behalf of a task that has just been created from an event.
func AcqFor(t *Task, p unsafe.Pointer) {
	if !HB || S == nil || S.hb == nil || t == nil {
		return
	}
	if v := S.hb.sync[p]; v != nil {
		t.clock().join(v)
	}
}

// Move hands what is published at a over to b (from event context).
func Move(a, b unsafe.Pointer) {
	if !HB || S == nil || S.hb == nil {
		return
	}
	if v := S.hb.sync[a]; v != nil {
		w := S.hb.sync[b]
		w.join(v)
		S.hb.sync[b] = w
	}
}

// RR records a read of *p.
func RR[T any](p *T, pos string) *T {
	if HB {
		access(unsafe.Pointer(p), false, false, pos)
	}
	return p
}

// RW records a write of *p.
func RW[T any](p *T, pos string) {
	if HB {
		access(unsafe.Pointer(p), true, false, pos)
	}
}

// RMap records an access of the map at p.
func RMap(p unsafe.Pointer, write bool, pos string) {
	if HB {
		access(p, write, false, pos)
	}
}

// RBuf records an access of a whole byte slice, represented by its first byte.
func RBuf(b []byte, write bool, pos string) {
	if HB && len(b) > 0 {
		access(unsafe.Pointer(&b[0]), write, false, pos)
	}
}

// Atomic records an atomic access of *p and its synchronisation: kind 0 load, 1 store, 2 read-modify-write.
func Atomic(p unsafe.Pointer, kind int) {
	if !HB {
		return
	}
	switch kind {
	case 0:
		Acq(p)
		access(p, false, true, "atomic")
	case 1:
		access(p, true, true, "atomic")
		RelSet(p)
	default:
		Acq(p)
		access(p, true, true, "atomic")
		Rel(p)
	}
}

func access(p unsafe.Pointer, write, atomic bool, pos string) {
	if !hbOn() || p == nil {
		return
	}
	h := S.hb
	h.Reads++
	t := S.cur
	vc := *t.clock()
	x := h.mem[p]
	if x == nil {
		x = &cell{}
		h.mem[p] = x
	}
	me := t.hslot - 1
	before := func(a acc) bool { return a.c == 0 || a.t == me || a.t < len(vc) && vc[a.t] >= a.c }
	bad := func(a acc, what string) {
		if x.race {
			return
		}
		x.race = true
		does := "read"
		if write {
			does = "write"
		}
		FailNow("race", "data race: task %d (%s) %ss at %s what task %d (%s) %s at %s, and nothing orders the two",
			t.ID, t.Name, does, where(pos), a.id, S.tasks[a.id].Name, what, where(a.pos))
	}
	if !before(x.w) {
		bad(x.w, "wrote")
	}
	if !atomic && !before(x.aw) {
		bad(x.aw, "atomically wrote")
	}
	now := acc{me, t.ID, vc[me], atomic, pos}
	if write {
		for _, r := range x.r {
			if !(atomic && r.at) && !before(r) {
				bad(r, "read")
			}
		}
		if atomic {
			x.aw = now
		} else {
			x.w, x.aw, x.r = now, acc{}, x.r[:0]
		}
		return
	}
	for i := range x.r {
		if x.r[i].t == me && x.r[i].at == atomic {
			x.r[i] = now
			return
		}
	}
	x.r = append(x.r, now)
}

func where(pos string) string {
	if pos == "" {
		return "?"
	}
	return pos
}

// Races reports how many accesses were checked and how many locations they touched.
func Races() (accesses, locations int64) {
	if S == nil || S.hb == nil {
		return
	}
	return S.hb.Reads, int64(len(S.hb.mem))
}
