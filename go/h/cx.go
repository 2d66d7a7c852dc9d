package h

import (
	"context"
	"errors"
	"io"
	"sync"
	"time"

	"verif.local/mbv/vctx"
	"verif.local/mbv/vsched"
	"verif.local/mbv/vtime"
)

// Kinds of contexts.
const (
	CxPlain   = iota // can be cancelled
	CxChild          // a child, by way of a value context
	CxFar            // has a deadline, is cancelled before it
	CxExpires        // ends by its deadline
	CxCause          // cancelled with a cause
	CxCustom         // a type of its own, with an error of its own
	CxKinds
	CxNever = CxKinds // never ends (Cancel must not be called)
)

// ErrCustom is the error of a context of kind CxCustom.
var ErrCustom = errors.New("custom end")

type custom struct {
	context.Context
	mu   sync.Mutex
	done chan struct{}
	err  error
}

func (c *custom) Done() <-chan struct{} { return c.done }

func (c *custom) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

func (c *custom) end() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.err == nil {
		c.err = ErrCustom
		close(c.done)
	}
}

const cxTime = 100 * time.Hour

// Cx is a context whose end is recorded: "cx" before it can end, "cxe" when it has ended.
type Cx struct {
	context.Context
	t      *T
	C      int
	cancel func()
	wait   time.Time
}

// NewCx makes the context number c.
func NewCx(t *T, c, kind int) *Cx {
	x := &Cx{t: t, C: c}
	switch kind {
	case CxNever:
		x.Context, x.cancel = context.Background(), func() { panic("a context that never ends") }
		return x
	case CxCustom:
		y := &custom{Context: context.Background(), done: make(chan struct{})}
		x.Context, x.cancel = y, func() {
			if !t.nat {
				vsched.Yield()
			}
			y.end()
		}
		return x
	}
	if t.nat {
		x.Context, x.cancel = context.WithCancel(context.Background())
		switch kind {
		case CxFar, CxExpires:
			x.Context, x.cancel = context.WithTimeout(context.Background(), cxTime)
		case CxCause:
			ctx, f := context.WithCancelCause(context.Background())
			x.Context, x.cancel = ctx, func() { f(io.EOF) }
		}
	} else if kind == CxCause {
		ctx, f := vctx.WithCancelCause(context.Background())
		x.Context, x.cancel = ctx, func() { f(io.EOF) }
	} else if kind == CxFar || kind == CxExpires {
		at := vtime.Now().Add(cxTime)
		ctx, end := vctx.Manual(context.Background(), at)
		x.Context, x.cancel = ctx, func() { end(kind == CxExpires) }
		if kind == CxExpires {
			x.wait = at
		}
	} else {
		ctx, f := vctx.WithCancel(context.Background())
		x.Context, x.cancel = ctx, f
	}
	if kind == CxChild {
		type key struct{}
		x.Context, _ = vctx.WithCancel(context.WithValue(x.Context, key{}, 1))
	}
	return x
}

// Cancel ends the context.
func (x *Cx) Cancel() {
	if !x.wait.IsZero() {
		if d := vtime.Until(x.wait) - time.Microsecond; d > 0 {
			vtime.Sleep(d)
		}
	}
	x.t.Log("cx", "c", x.C)
	if !x.wait.IsZero() {
		vtime.Sleep(time.Microsecond)
	}
	x.cancel()
	x.t.Log("cxe", "c", x.C)
}

// Now is the (virtual) time in milliseconds.
func (t *T) Now() int {
	if t.nat {
		return 0
	}
	return int(vsched.Now() / 1e6)
}

// Sleep takes long (in virtual time).
func (t *T) Sleep(d time.Duration) {
	if t.nat {
		if d > time.Millisecond {
			d = time.Millisecond
		}
		time.Sleep(d)
		return
	}
	vsched.Sleep(int64(d))
}
