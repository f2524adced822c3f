// Package context replaces the standard package: the same interface on simulated channels and clock.
package context

import (
	std "context"
	"gevsim/chans"
	"gevsim/over/sync"
	"gevsim/over/time"
)

var (
	Canceled         = std.Canceled
	DeadlineExceeded = std.DeadlineExceeded
)

type Context interface {
	Deadline() (deadline time.Time, ok bool)
	Done() *chans.Chan[struct{}]
	Err() error
	Value(key any) any
}

type CancelFunc func()

type emptyCtx struct{}

func (emptyCtx) Deadline() (t time.Time, ok bool) { return }
func (emptyCtx) Done() *chans.Chan[struct{}]      { return nil }
func (emptyCtx) Err() error                       { return nil }
func (emptyCtx) Value(any) any                    { return nil }

func Background() Context { return emptyCtx{} }
func TODO() Context       { return emptyCtx{} }

type valueCtx struct {
	Context
	k, v any
}

func (c valueCtx) Value(k any) any {
	if k == c.k {
		return c.v
	}
	return c.Context.Value(k)
}

func WithValue(p Context, k, v any) Context { return valueCtx{p, k, v} }

type cancelCtx struct {
	parent   Context
	mu       sync.Mutex
	done     *chans.Chan[struct{}]
	err      error
	kids     map[*cancelCtx]bool
	order    []*cancelCtx
	dl       time.Time
	hasDL    bool
	timer    *time.Timer
	parentCC *cancelCtx
}

func (c *cancelCtx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.dl, true
	}
	return c.parent.Deadline()
}
func (c *cancelCtx) Done() *chans.Chan[struct{}] { return c.done }
func (c *cancelCtx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

type ccKey struct{}

func (c *cancelCtx) Value(k any) any {
	if _, ok := k.(ccKey); ok {
		return c
	}
	return c.parent.Value(k)
}

func (c *cancelCtx) cancel(err error) {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	c.err = err
	c.done.Close()
	kids := c.order
	c.order, c.kids = nil, nil
	t := c.timer
	c.mu.Unlock()
	if t != nil {
		t.Stop()
	}
	for _, k := range kids {
		k.cancel(err)
	}
	if p := c.parentCC; p != nil {
		p.mu.Lock()
		if p.kids != nil {
			delete(p.kids, c)
			for i, k := range p.order {
				if k == c {
					p.order = append(append([]*cancelCtx(nil), p.order[:i]...), p.order[i+1:]...)
					break
				}
			}
		}
		p.mu.Unlock()
	}
}

func newCancel(parent Context) *cancelCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cancelCtx{parent: parent, done: chans.Make[struct{}](0)}
	if p, ok := parent.Value(ccKey{}).(*cancelCtx); ok {
		p.mu.Lock()
		err := p.err
		if err == nil {
			if p.kids == nil {
				p.kids = map[*cancelCtx]bool{}
			}
			p.kids[c] = true
			p.order = append(p.order, c)
			c.parentCC = p
		}
		p.mu.Unlock()
		if err != nil {
			c.cancel(err)
		}
	}
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCancel(parent)
	return c, func() { c.cancel(Canceled) }
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	c := newCancel(parent)
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		return c, func() { c.cancel(Canceled) }
	}
	c.mu.Lock()
	c.dl, c.hasDL = d, true
	dead := c.err != nil
	c.mu.Unlock()
	if dur := time.Until(d); dur <= 0 {
		c.cancel(DeadlineExceeded)
	} else if !dead {
		t := time.AfterFunc(dur, func() { c.cancel(DeadlineExceeded) })
		c.mu.Lock()
		c.timer = t
		stop := c.err != nil
		c.mu.Unlock()
		if stop {
			t.Stop()
		}
	}
	return c, func() { c.cancel(Canceled) }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, time.Now().Add(d))
}
