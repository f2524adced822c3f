// Package sync replaces the standard package in simulated code.
package sync

import (
	"gevsim/core"
	"reflect"
	stdsync "sync"
	"unsafe"
)

func rel[T any](p *T) {
	if core.HB {
		core.Rel(unsafe.Pointer(p))
	}
}
func acq[T any](p *T) {
	if core.HB {
		core.Acq(unsafe.Pointer(p))
	}
}

type Locker = stdsync.Locker

// Mutex is a fair-choice mutex: on unlock the next owner competes.
type Mutex struct {
	locked bool
	q      []*core.Task
}

func (m *Mutex) Lock() {
	core.Point()
	for m.locked {
		if core.Killing() {
			core.CheckKill()
		}
		m.q = append(m.q, core.Cur())
		core.Park("mutex")
	}
	m.locked = true
	acq(m)
}
func (m *Mutex) TryLock() bool {
	core.Point()
	if m.locked {
		return false
	}
	m.locked = true
	acq(m)
	return true
}
func (m *Mutex) Unlock() {
	if core.Killing() {
		m.locked = false
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	rel(m)
	m.locked = false
	q := m.q
	m.q = nil
	for _, t := range q {
		core.Ready(t)
	}
	core.Point()
}

// RWMutex prefers waiting writers like the standard one.
type RWMutex struct {
	w     bool
	r     int
	wwait int
	q     []*core.Task
}

func (m *RWMutex) wait(why string) {
	m.q = append(m.q, core.Cur())
	core.Park(why)
}
func (m *RWMutex) wakeAll() {
	q := m.q
	m.q = nil
	for _, t := range q {
		core.Ready(t)
	}
}
func (m *RWMutex) Lock() {
	core.Point()
	core.CheckKill()
	m.wwait++
	for m.w || m.r > 0 {
		m.wait("rwmutex lock")
	}
	m.wwait--
	m.w = true
	acq(&m.w)
	acq(&m.r)
}
func (m *RWMutex) Unlock() {
	if core.Killing() {
		return
	}
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	rel(&m.w)
	m.w = false
	m.wakeAll()
	core.Point()
}
func (m *RWMutex) RLock() {
	core.Point()
	core.CheckKill()
	for m.w || m.wwait > 0 {
		m.wait("rwmutex rlock")
	}
	m.r++
	acq(&m.w)
}
func (m *RWMutex) RUnlock() {
	if core.Killing() {
		return
	}
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	rel(&m.r)
	m.r--
	m.wakeAll()
	core.Point()
}
func (m *RWMutex) TryLock() bool {
	core.Point()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	acq(&m.w)
	acq(&m.r)
	return true
}
func (m *RWMutex) TryRLock() bool {
	core.Point()
	if m.w || m.wwait > 0 {
		return false
	}
	m.r++
	acq(&m.w)
	return true
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup counts.
type WaitGroup struct {
	n int
	q []*core.Task
}

func (w *WaitGroup) Add(d int) {
	core.Point()
	if core.Killing() {
		return
	}
	if d < 0 {
		rel(w)
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		q := w.q
		w.q = nil
		for _, t := range q {
			core.Ready(t)
		}
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	core.Go(func() { defer w.Done(); f() })
}
func (w *WaitGroup) Wait() {
	core.Point()
	core.CheckKill()
	for w.n > 0 {
		w.q = append(w.q, core.Cur())
		core.Park("waitgroup")
	}
	acq(w)
}

// Once runs a function once.
type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	core.Point()
	if o.done {
		acq(o)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { rel(o); o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// Cond is a condition variable.
type Cond struct {
	L Locker
	q []*core.Task
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	t := core.Cur()
	c.q = append(c.q, t)
	c.L.Unlock()
	for c.has(t) {
		core.Park("cond")
	}
	acq(c)
	c.L.Lock()
}
func (c *Cond) has(t *core.Task) bool {
	for _, x := range c.q {
		if x == t {
			return true
		}
	}
	return false
}
func (c *Cond) Signal() {
	core.Point()
	rel(c)
	if len(c.q) > 0 {
		t := c.q[0]
		c.q = c.q[1:]
		core.Ready(t)
	}
}
func (c *Cond) Broadcast() {
	core.Point()
	rel(c)
	q := c.q
	c.q = nil
	for _, t := range q {
		core.Ready(t)
	}
}

// Pool hands out the most recently returned object first (so that misuse of returned objects shows),
// dropping objects at the simulator's discretion.
type Pool struct {
	New func() any
	q   []any
}

func (p *Pool) Get() any {
	core.Point()
	if core.S != nil && len(p.q) > 0 && !core.Flip("pool.miss", 50) {
		x := p.q[len(p.q)-1]
		p.q = p.q[:len(p.q)-1]
		if b := poolBytes(x); !poisoned(b) {
			core.PoolMisuse("a buffer was written to while it was in a pool")
		}
		if core.HB {
			core.Acq(dataPtr(x))
		}
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	core.Point()
	if x == nil || core.Killing() || core.S == nil {
		return
	}
	if core.HB {
		core.Rel(dataPtr(x))
	}
	b := poolBytes(x)
	for i := len(p.q) - 1; i >= 0 && i >= len(p.q)-64; i-- {
		o := poolBytes(p.q[i])
		if len(b) > 0 && len(o) > 0 && &b[0] == &o[0] || len(b) == 0 && reflect.TypeOf(x).Kind() == reflect.Pointer && p.q[i] == x {
			core.PoolMisuse("an object was put into a pool which already contains it")
			return
		}
	}
	poison(b)
	p.q = append(p.q, x)
}

// poolBytes is the memory of a pooled buffer of bytes, nil for anything else.
func poolBytes(x any) []byte {
	switch v := x.(type) {
	case []byte:
		return v[:cap(v)]
	case *[]byte:
		return (*v)[:cap(*v)]
	}
	if v := reflect.ValueOf(x); v.Kind() == reflect.Pointer && v.Elem().Kind() == reflect.Struct && v.Elem().Type().Name() == "RingBuffer" {
		if f := v.Elem().FieldByName("buf"); f.IsValid() && f.Kind() == reflect.Slice && f.Type().Elem().Kind() == reflect.Uint8 && f.Cap() > 0 {
			return unsafe.Slice((*byte)(f.UnsafePointer()), f.Cap())
		}
	}
	return nil
}

// Nobody may rely on the content of a buffer in a pool, and nobody may write to it.
func poison(b []byte) { each(b, func(p *byte) bool { *p = 0xdb; return true }) }

func poisoned(b []byte) bool { return each(b, func(p *byte) bool { return *p == 0xdb }) }

func each(b []byte, f func(*byte) bool) bool {
	for i := 0; i < len(b); i++ {
		if i == 4096 && len(b) > 8192 {
			i = len(b) - 4096
		}
		if !f(&b[i]) {
			return false
		}
	}
	return true
}

// dataPtr is the object an interface value refers to.
func dataPtr(x any) unsafe.Pointer { return (*[2]unsafe.Pointer)(unsafe.Pointer(&x))[1] }

// Map is a concurrent map.
type Map struct {
	keys []any
	m    map[any]any
}

func (m *Map) Load(k any) (any, bool) { core.Point(); acq(m); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any) {
	core.Point()
	acq(m)
	rel(m)
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	core.Point()
	acq(m)
	rel(m)
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.Store(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	core.Point()
	acq(m)
	rel(m)
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}
func (m *Map) Swap(k, v any) (any, bool) {
	core.Point()
	acq(m)
	rel(m)
	o, ok := m.m[k]
	m.Store(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	core.Point()
	acq(m)
	rel(m)
	if x, ok := m.m[k]; ok && x == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	core.Point()
	acq(m)
	rel(m)
	if x, ok := m.m[k]; ok && x == o {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Delete(k any) { core.Point(); rel(m); m.del(k) }
func (m *Map) Clear()       { core.Point(); rel(m); m.m = nil; m.keys = nil }
func (m *Map) del(k any) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
}
func (m *Map) Range(f func(k, v any) bool) {
	for _, k := range append([]any(nil), m.keys...) {
		core.Point()
		acq(m)
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}
