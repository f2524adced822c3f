// Package time replaces the standard package in simulated code: same value types, virtual clock.
package time

import (
	"gevsim/chans"
	"gevsim/core"
	stdtime "time"
	"unsafe"
)

type Time = stdtime.Time
type Duration = stdtime.Duration

type rawTime struct {
	wall uint64
	ext  int64
	loc  *stdtime.Location
}

const (
	hasMonotonic = 1 << 63
	wallToInt    = (1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400
	unixToInt    = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
)

var zero = stdtime.Unix(0, 0).Local()

// Now returns the simulated wall clock with a simulated monotonic reading.
func Now() Time {
	core.Point()
	return NowRaw()
}

// NowRaw is Now without a preemption point.
func NowRaw() Time {
	w, m := core.WallBase, int64(0)
	if core.S != nil { // not while packages are initialised
		w, m = core.WallNow(), core.Now()
	}
	sec := w/1e9 + unixToInt - wallToInt
	rt := rawTime{wall: hasMonotonic | uint64(sec)<<30 | uint64(w%1e9), ext: m + 1e9, loc: nil}
	return *(*Time)(unsafe.Pointer(&rt)) // (UTC; In would drop the monotonic reading)
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration)      { core.Sleep(int64(d)) }

type Timer struct {
	C  *chans.Chan[Time]
	ev core.Event
	f  func()
}

func (t *Timer) fire() {
	if t.f != nil {
		core.AcqFor(core.Go2("timer", t.f), unsafe.Pointer(t))
		return
	}
	t.C.TrySendEvent(NowRaw(), unsafe.Pointer(t))
}
func pos(d Duration) int64 {
	if d < 0 {
		return 0
	}
	return int64(d)
}
func NewTimer(d Duration) *Timer {
	core.Point()
	t := &Timer{C: chans.Make[Time](1)}
	core.Rel(unsafe.Pointer(t))
	t.ev = core.After(pos(d), t.fire)
	return t
}
func AfterFunc(d Duration, f func()) *Timer {
	core.Point()
	t := &Timer{f: f}
	core.Rel(unsafe.Pointer(t))
	t.ev = core.After(pos(d), t.fire)
	return t
}
func (t *Timer) Stop() bool {
	core.Point()
	if core.Killing() {
		return false
	}
	return t.ev.Cancel()
}
func (t *Timer) Reset(d Duration) bool {
	core.Point()
	core.Rel(unsafe.Pointer(t))
	r := t.ev.Cancel()
	t.ev = core.After(pos(d), t.fire)
	return r
}
func After(d Duration) *chans.Chan[Time] { return NewTimer(d).C }

type Ticker struct {
	C    *chans.Chan[Time]
	d    int64
	ev   core.Event
	dead bool
}

func (t *Ticker) fire() {
	if t.dead {
		return
	}
	t.C.TrySendEvent(NowRaw(), unsafe.Pointer(t))
	t.ev = core.After(t.d, t.fire)
}
func NewTicker(d Duration) *Ticker {
	core.Point()
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{C: chans.Make[Time](1), d: int64(d)}
	t.ev = core.After(t.d, t.fire)
	return t
}
func (t *Ticker) Stop() {
	t.dead = true
	if !core.Killing() {
		t.ev.Cancel()
	}
}
func (t *Ticker) Reset(d Duration) {
	t.ev.Cancel()
	t.dead = false
	t.d = int64(d)
	t.ev = core.After(t.d, t.fire)
}
func Tick(d Duration) *chans.Chan[Time] {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
