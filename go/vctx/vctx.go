// Package vctx replaces package context under the controlled scheduler:
// deadlines run on virtual time.
package vctx

import (
	"context"
	"sync"
	"time"

	"verif.local/mbv/vsched"
	"verif.local/mbv/vtime"
)

// Re-exported types.
type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

// Re-exported errors.
var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

// Background is context.Background.
func Background() Context { return context.Background() }

// TODO is context.TODO.
func TODO() Context { return context.TODO() }

// WithValue is context.WithValue.
func WithValue(p Context, k, v any) Context { return context.WithValue(p, k, v) }

// WithoutCancel is context.WithoutCancel.
func WithoutCancel(p Context) Context { return context.WithoutCancel(p) }

// vctx is a context that can be cancelled; everything but its deadline is that of package context.
type vctx struct {
	Context    // the parent
	mu         sync.Mutex
	done       chan struct{}
	err, cause error
	kids       []*vctx
	fns        []*func()
	at         time.Time
	timed      bool
	tm         *vsched.Timer
}

type keyT struct{}

func (c *vctx) Value(k any) any {
	if _, ok := k.(keyT); ok {
		return c
	}
	return c.Context.Value(k)
}

func (c *vctx) Done() <-chan struct{} { return c.done }

func (c *vctx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

func (c *vctx) Deadline() (time.Time, bool) {
	if c.timed {
		return c.at, true
	}
	return c.Context.Deadline()
}

// AfterFunc lets the contexts of package context be children.
func (c *vctx) AfterFunc(f func()) func() bool {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		f()
		return func() bool { return false }
	}
	p := &f
	c.fns = append(c.fns, p)
	c.mu.Unlock()
	return func() bool {
		c.mu.Lock()
		defer c.mu.Unlock()
		for i, x := range c.fns {
			if x == p {
				c.fns = append(c.fns[:i:i], c.fns[i+1:]...)
				return true
			}
		}
		return false
	}
}

func (c *vctx) cancel(err, cause error) {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	close(c.done)
	kids, fns := c.kids, c.fns
	c.kids, c.fns = nil, nil
	c.mu.Unlock()
	for _, k := range kids {
		k.cancel(err, cause)
	}
	for _, f := range fns {
		(*f)()
	}
	if c.tm != nil {
		c.tm.Stop()
	}
	if p := parent(c.Context); p != nil {
		p.mu.Lock()
		for i, k := range p.kids {
			if k == c {
				p.kids = append(p.kids[:i:i], p.kids[i+1:]...)
				break
			}
		}
		p.mu.Unlock()
	}
}

// parent finds the vctx whose end is that of p.
func parent(p Context) *vctx {
	if v, ok := p.Value(keyT{}).(*vctx); ok && p.Done() == v.Done() {
		return v
	}
	return nil
}

func derive(p Context) *vctx {
	if p == nil {
		panic("cannot create context from nil parent")
	}
	c := &vctx{Context: p, done: make(chan struct{})}
	switch v := parent(p); {
	case v != nil:
		v.mu.Lock()
		if v.err != nil {
			v.mu.Unlock()
			c.cancel(v.err, v.cause)
		} else {
			v.kids = append(v.kids, c)
			v.mu.Unlock()
		}
	case p.Done() != nil:
		if p.Err() != nil {
			c.cancel(p.Err(), context.Cause(p))
			break
		}
		// a foreign kind of context
		vsched.GoDaemon(func() {
			vsched.Wait(func() bool { return c.Err() != nil || p.Err() != nil }, "context")
			c.cancel(p.Err(), context.Cause(p))
		})
	}
	return c
}

// Cause is context.Cause.
func Cause(c Context) error {
	if v := parent(c); v != nil {
		v.mu.Lock()
		defer v.mu.Unlock()
		return v.cause
	}
	return context.Cause(c)
}

// WithCancel is context.WithCancel with a scheduling point before cancelling.
func WithCancel(p Context) (Context, CancelFunc) {
	if !vsched.Active() {
		return context.WithCancel(p)
	}
	c := derive(p)
	return c, func() { vsched.Yield(); c.cancel(Canceled, nil) }
}

// WithCancelCause is context.WithCancelCause.
func WithCancelCause(p Context) (Context, CancelCauseFunc) {
	if !vsched.Active() {
		return context.WithCancelCause(p)
	}
	c := derive(p)
	return c, func(e error) { vsched.Yield(); c.cancel(Canceled, e) }
}

func timeout(p Context, d time.Duration, cause error) (Context, CancelFunc) {
	at := vtime.Now().Add(d)
	c := derive(p)
	if cur, ok := p.Deadline(); !ok || at.Before(cur) {
		c.at, c.timed = at, true
		if d <= 0 {
			c.cancel(DeadlineExceeded, cause)
		} else {
			c.tm = vsched.AddTimer(int64(d), func() { c.cancel(DeadlineExceeded, cause) })
		}
	}
	return c, func() { vsched.Yield(); c.cancel(Canceled, nil) }
}

// WithTimeout is context.WithTimeout on virtual time.
func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) {
	if !vsched.Active() {
		return context.WithTimeout(p, d)
	}
	return timeout(p, d, nil)
}

// WithDeadline is context.WithDeadline on virtual time.
func WithDeadline(p Context, at time.Time) (Context, CancelFunc) {
	if !vsched.Active() {
		return context.WithDeadline(p, at)
	}
	return timeout(p, at.Sub(vtime.Now()), nil)
}

// WithTimeoutCause is context.WithTimeoutCause.
func WithTimeoutCause(p Context, d time.Duration, cause error) (Context, CancelFunc) {
	if !vsched.Active() {
		return context.WithTimeoutCause(p, d, cause)
	}
	return timeout(p, d, cause)
}

// WithDeadlineCause is context.WithDeadlineCause.
func WithDeadlineCause(p Context, at time.Time, cause error) (Context, CancelFunc) {
	if !vsched.Active() {
		return context.WithDeadlineCause(p, at, cause)
	}
	return timeout(p, at.Sub(vtime.Now()), cause)
}

// Manual is a context with the deadline at that ends (as expired, or cancelled) when told so.
func Manual(p Context, at time.Time) (c Context, end func(expired bool)) {
	v := derive(p)
	v.at, v.timed = at, true
	return v, func(expired bool) {
		vsched.Yield()
		if expired {
			v.cancel(DeadlineExceeded, nil)
		} else {
			v.cancel(Canceled, nil)
		}
	}
}

// AfterFunc is context.AfterFunc.
func AfterFunc(c Context, f func()) func() bool {
	if !vsched.Active() {
		return context.AfterFunc(c, f)
	}
	stopped, started := false, false
	vsched.GoDaemon(func() {
		for {
			if stopped {
				return
			}
			if c.Err() != nil {
				break
			}
			vsched.Wait(func() bool { return stopped || c.Err() != nil }, "AfterFunc")
		}
		started = true
		f()
	})
	return func() bool {
		was := !stopped && !started
		stopped = true
		return was
	}
}
