// Package chans implements Go channels and select on simulated tasks.
package chans

import (
	"gevsim/core"
	"unsafe"
)

// happens-before: a send is ordered before the receive that takes its value, a close before the
// receives that report it, and a receive before the completion of the send it makes room for.
func (c *Chan[T]) sending() {
	if core.HB {
		core.Rel(unsafe.Pointer(&c.buf))
	}
}
func (c *Chan[T]) sent() {
	if core.HB {
		core.Acq(unsafe.Pointer(&c.recvq))
	}
}
func (c *Chan[T]) receiving() {
	if core.HB {
		core.Rel(unsafe.Pointer(&c.recvq))
	}
}
func (c *Chan[T]) received() {
	if core.HB {
		core.Acq(unsafe.Pointer(&c.buf))
	}
}

type waiter[T any] struct {
	t    *core.Task
	val  T
	ok   bool
	done bool
	sel  *selState
	idx  int
}
type selState struct {
	fired bool
	idx   int
}

// Chan is a channel.
type Chan[T any] struct {
	buf    []T
	cap    int
	closed bool
	recvq  []*waiter[T]
	sendq  []*waiter[T]
}

// Make is make(chan T, n).
func Make[T any](n int) *Chan[T] {
	if n < 0 {
		panic("makechan: size out of range")
	}
	return &Chan[T]{cap: n}
}

func (w *waiter[T]) claim() bool {
	if w.sel != nil {
		if w.sel.fired {
			return false
		}
		w.sel.fired = true
		w.sel.idx = w.idx
	}
	return true
}

func popw[T any](q *[]*waiter[T]) *waiter[T] {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.claim() {
			return w
		}
	}
	return nil
}

func (c *Chan[T]) trySend(v T) bool {
	if c.closed {
		panic("send on closed channel")
	}
	if w := popw(&c.recvq); w != nil {
		w.val, w.ok, w.done = v, true, true
		core.Ready(w.t)
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

func (c *Chan[T]) tryRecv() (v T, ok, done bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = append([]T(nil), c.buf[1:]...)
		if w := popw(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			w.ok, w.done = true, true
			core.Ready(w.t)
		}
		return v, true, true
	}
	if w := popw(&c.sendq); w != nil {
		w.ok, w.done = true, true
		core.Ready(w.t)
		return w.val, true, true
	}
	if c.closed {
		return v, false, true
	}
	return
}

// Send is c <- v.
func (c *Chan[T]) Send(v T) {
	core.Point()
	core.CheckKill()
	if c == nil {
		for {
			core.Park("send on nil channel")
		}
	}
	c.sending()
	if c.trySend(v) {
		c.sent()
		return
	}
	w := &waiter[T]{t: core.Cur(), val: v}
	c.sendq = append(c.sendq, w)
	for !w.done {
		core.Park("chan send")
	}
	c.sent()
	if !w.ok {
		panic("send on closed channel")
	}
}

// TrySendEvent delivers from event context without blocking (timers); it is ordered after what was
// published at by.
func (c *Chan[T]) TrySendEvent(v T, by unsafe.Pointer) bool {
	if c.closed {
		return false
	}
	core.Move(by, unsafe.Pointer(&c.buf))
	return c.trySend(v)
}

// Recv is <-c.
func (c *Chan[T]) Recv() T { v, _ := c.Recv2(); return v }

// Recv2 is v, ok := <-c.
func (c *Chan[T]) Recv2() (T, bool) {
	core.Point()
	core.CheckKill()
	if c == nil {
		for {
			core.Park("receive from nil channel")
		}
	}
	c.receiving()
	if v, ok, done := c.tryRecv(); done {
		c.received()
		return v, ok
	}
	w := &waiter[T]{t: core.Cur()}
	c.recvq = append(c.recvq, w)
	for !w.done {
		core.Park("chan receive")
	}
	c.received()
	return w.val, w.ok
}

// Close is close(c).
func (c *Chan[T]) Close() {
	core.Point()
	if core.Killing() {
		return
	}
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.sending()
	c.closed = true
	for {
		w := popw(&c.recvq)
		if w == nil {
			break
		}
		w.done = true
		core.Ready(w.t)
	}
	for {
		w := popw(&c.sendq)
		if w == nil {
			break
		}
		w.done = true
		core.Ready(w.t)
	}
}

// Len is len(c).
func (c *Chan[T]) Len() int {
	if c == nil {
		return 0
	}
	return len(c.buf)
}

// Cap is cap(c).
func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.cap
}

// Case is one select case.
type Case interface {
	try() bool
	enqueue(s *selState, i int)
	finish()
	leave()
}

// RecvC is a receive case.
type RecvC[T any] struct {
	c  *Chan[T]
	w  *waiter[T]
	V  T
	OK bool
}

func RecvCase[T any](c *Chan[T]) *RecvC[T] { return &RecvC[T]{c: c} }
func (r *RecvC[T]) try() bool {
	if r.c == nil {
		return false
	}
	v, ok, done := r.c.tryRecv()
	if done {
		r.c.receiving()
		r.c.received()
		r.V, r.OK = v, ok
	}
	return done
}
func (r *RecvC[T]) enqueue(s *selState, i int) {
	if r.c == nil {
		return
	}
	r.c.receiving()
	r.w = &waiter[T]{t: core.Cur(), sel: s, idx: i}
	r.c.recvq = append(r.c.recvq, r.w)
}
func (r *RecvC[T]) finish() { r.c.received(); r.V, r.OK = r.w.val, r.w.ok }
func (r *RecvC[T]) leave() {
	if r.w != nil {
		r.c.recvq = drop(r.c.recvq, r.w)
	}
}

// SendC is a send case.
type SendC[T any] struct {
	c *Chan[T]
	w *waiter[T]
	v T
}

func SendCase[T any](c *Chan[T], v T) *SendC[T] { return &SendC[T]{c: c, v: v} }
func (r *SendC[T]) try() bool {
	if r.c == nil {
		return false
	}
	if !r.c.closed && len(r.c.buf) >= r.c.cap && len(r.c.recvq) == 0 {
		return false
	}
	r.c.sending()
	if !r.c.trySend(r.v) {
		return false
	}
	r.c.sent()
	return true
}
func (r *SendC[T]) enqueue(s *selState, i int) {
	if r.c == nil {
		return
	}
	r.c.sending()
	r.w = &waiter[T]{t: core.Cur(), sel: s, idx: i, val: r.v}
	r.c.sendq = append(r.c.sendq, r.w)
}
func (r *SendC[T]) finish() {
	if !r.w.ok {
		panic("send on closed channel")
	}
	r.c.sent()
}
func (r *SendC[T]) leave() {
	if r.w != nil {
		r.c.sendq = drop(r.c.sendq, r.w)
	}
}

func drop[T any](q []*waiter[T], w *waiter[T]) []*waiter[T] {
	for i, x := range q {
		if x == w {
			return append(q[:i:i], q[i+1:]...)
		}
	}
	return q
}

// Select is the select statement; it returns the index of the case taken, -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	core.Point()
	core.CheckKill()
	n := len(cases)
	start := 0
	if n > 1 {
		start = int(core.Choose("select", 500, int64(n)))
	}
	for k := 0; k < n; k++ {
		i := (start + k) % n
		if cases[i].try() {
			return i
		}
	}
	if hasDefault {
		return -1
	}
	s := &selState{}
	for i, c := range cases {
		c.enqueue(s, i)
	}
	for !s.fired {
		core.Park("select")
	}
	for i, c := range cases {
		if i != s.idx {
			c.leave()
		}
	}
	cases[s.idx].finish()
	return s.idx
}
