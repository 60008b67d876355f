// Package vcontext mirrors context on the controlled scheduler and clock.
package vcontext

import (
	rc "context"
	"sync"
	rt "time"

	"MODULE/zzverif/vs"
)

func Background() rc.Context { return rc.Background() }
func TODO() rc.Context       { return rc.TODO() }

type key struct{}

type cctx struct {
	parent   rc.Context
	mu       sync.Mutex
	done     chan struct{}
	err      error
	cause    error
	kids     []*cctx
	afters   []*after
	deadline rt.Time
	hasDL    bool
	timer    *vs.Timer0
}

type after struct {
	f    func()
	dead bool
}

func (c *cctx) Deadline() (rt.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}

func (c *cctx) Done() <-chan struct{} { return c.done }

func (c *cctx) Err() error {
	vs.P()
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

func (c *cctx) Value(k any) any {
	if _, ok := k.(key); ok {
		return c
	}
	return c.parent.Value(k)
}

func (c *cctx) cancel(err, cause error) {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	close(c.done)
	kids, afters := c.kids, c.afters
	c.kids, c.afters = nil, nil
	t := c.timer
	c.timer = nil
	c.mu.Unlock()
	if t != nil {
		vs.StopTimer(t)
	}
	for _, k := range kids {
		k.cancel(err, cause)
	}
	for _, a := range afters {
		if !a.dead {
			a.dead = true
			vs.Go(a.f)
		}
	}
}

func find(parent rc.Context) *cctx {
	p, _ := parent.Value(key{}).(*cctx)
	return p
}

func newCtx(parent rc.Context) *cctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cctx{parent: parent, done: make(chan struct{})}
	if p := find(parent); p != nil {
		p.mu.Lock()
		if p.err != nil {
			err, cause := p.err, p.cause
			p.mu.Unlock()
			c.cancel(err, cause)
		} else {
			p.kids = append(p.kids, c)
			p.mu.Unlock()
		}
	} else if d := parent.Done(); d != nil {
		select {
		case <-d:
			c.cancel(parent.Err(), rc.Cause(parent))
		default:
			vs.Go(func() {
				vs.Recv(d)
				c.cancel(parent.Err(), rc.Cause(parent))
			})
		}
	}
	return c
}

func WithCancel(parent rc.Context) (rc.Context, rc.CancelFunc) {
	c := newCtx(parent)
	return c, func() { vs.P(); c.cancel(rc.Canceled, nil) }
}

func WithCancelCause(parent rc.Context) (rc.Context, rc.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) { vs.P(); c.cancel(rc.Canceled, cause) }
}

func WithTimeout(parent rc.Context, d rt.Duration) (rc.Context, rc.CancelFunc) {
	return WithDeadline(parent, vs.Peek().Add(d))
}

func WithTimeoutCause(parent rc.Context, d rt.Duration, cause error) (rc.Context, rc.CancelFunc) {
	return WithDeadlineCause(parent, vs.Peek().Add(d), cause)
}

func WithDeadline(parent rc.Context, dl rt.Time) (rc.Context, rc.CancelFunc) {
	return WithDeadlineCause(parent, dl, nil)
}

func WithDeadlineCause(parent rc.Context, dl rt.Time, cause error) (rc.Context, rc.CancelFunc) {
	c := newCtx(parent)
	if cur, ok := parent.Deadline(); !ok || dl.Before(cur) {
		c.deadline, c.hasDL = dl, true
		d := dl.Sub(vs.Peek())
		if d <= 0 {
			c.cancel(rc.DeadlineExceeded, cause)
		} else {
			c.mu.Lock()
			if c.err == nil {
				c.timer = vs.StartTimer(d, 0, nil, func() { c.cancel(rc.DeadlineExceeded, cause) })
			}
			c.mu.Unlock()
		}
	}
	return c, func() { vs.P(); c.cancel(rc.Canceled, nil) }
}

func WithoutCancel(parent rc.Context) rc.Context { return without{parent} }

type without struct{ p rc.Context }

func (without) Deadline() (t rt.Time, ok bool) { return }
func (without) Done() <-chan struct{}          { return nil }
func (without) Err() error                     { return nil }
func (w without) Value(k any) any {
	if _, ok := k.(key); ok {
		return nil
	}
	return w.p.Value(k)
}

func Cause(c rc.Context) error {
	if p := find(c); p != nil {
		p.mu.Lock()
		defer p.mu.Unlock()
		return p.cause
	}
	return rc.Cause(c)
}

func AfterFunc(ctx rc.Context, f func()) func() bool {
	p := find(ctx)
	a := &after{f: f}
	if p == nil {
		return func() bool { return true }
	}
	p.mu.Lock()
	if p.err != nil {
		p.mu.Unlock()
		a.dead = true
		vs.Go(f)
	} else {
		p.afters = append(p.afters, a)
		p.mu.Unlock()
	}
	return func() bool {
		p.mu.Lock()
		defer p.mu.Unlock()
		r := !a.dead
		a.dead = true
		return r
	}
}
