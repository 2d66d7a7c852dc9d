// Package ants stands in for github.com/panjf2000/ants/v2 under the controlled
// scheduler: same observable behaviour (capacity, blocking, panic handling).
package ants

import (
	"errors"
	"fmt"
	"time"

	"verif.local/mbv/vsched"
)

// Errors of the package.
var (
	ErrInvalidPoolExpiry   = errors.New("invalid expiry for pool")
	ErrPoolClosed          = errors.New("this pool has been closed")
	ErrPoolOverload        = errors.New("too many goroutines blocked on submit or Nonblocking is set")
	ErrInvalidPreAllocSize = errors.New("can not set up a negative capacity under PreAlloc mode")
	ErrLackPoolFunc        = errors.New("must provide function for pool")
)

// Logger of the package.
type Logger interface {
	Printf(format string, args ...interface{})
}

// Options of a pool.
type Options struct {
	ExpiryDuration   time.Duration
	PreAlloc         bool
	MaxBlockingTasks int
	Nonblocking      bool
	PanicHandler     func(interface{})
	Logger           Logger
	DisablePurge     bool
}

// Option sets an option.
type Option func(*Options)

func WithOptions(o Options) Option                { return func(p *Options) { *p = o } }
func WithExpiryDuration(d time.Duration) Option   { return func(p *Options) { p.ExpiryDuration = d } }
func WithPreAlloc(b bool) Option                  { return func(p *Options) { p.PreAlloc = b } }
func WithMaxBlockingTasks(n int) Option           { return func(p *Options) { p.MaxBlockingTasks = n } }
func WithNonblocking(b bool) Option               { return func(p *Options) { p.Nonblocking = b } }
func WithPanicHandler(f func(interface{})) Option { return func(p *Options) { p.PanicHandler = f } }
func WithLogger(l Logger) Option                  { return func(p *Options) { p.Logger = l } }
func WithDisablePurge(b bool) Option              { return func(p *Options) { p.DisablePurge = b } }

// Pool runs submitted tasks.
type Pool struct {
	cap     int
	running int
	blocked int
	closed  bool
	o       Options
}

var pools []*Pool

func init() {
	vsched.OnReset(func() {
		for _, p := range pools {
			p.running, p.blocked, p.closed = 0, 0, false
		}
	})
}

// NewPool makes a pool.
func NewPool(size int, options ...Option) (*Pool, error) {
	p := &Pool{cap: size}
	for _, f := range options {
		f(&p.o)
	}
	if size <= 0 {
		p.cap = -1
	}
	if p.o.ExpiryDuration < 0 {
		return nil, ErrInvalidPoolExpiry
	}
	if p.o.PreAlloc && p.cap == -1 {
		return nil, ErrInvalidPreAllocSize
	}
	if !vsched.Active() {
		pools = append(pools, p)
	}
	return p, nil
}

// Submit runs task in a pool goroutine.
func (p *Pool) Submit(task func()) error {
	if !vsched.Active() {
		go p.run(task)
		return nil
	}
	vsched.Yield()
	if p.closed {
		return ErrPoolClosed
	}
	if p.cap > 0 && p.running >= p.cap {
		if p.o.Nonblocking || (p.o.MaxBlockingTasks > 0 && p.blocked >= p.o.MaxBlockingTasks) {
			return ErrPoolOverload
		}
		p.blocked++
		vsched.Wait(func() bool { return p.running < p.cap }, "ants.Submit")
		p.blocked--
	}
	p.running++
	vsched.Go(func() {
		defer func() { p.running-- }()
		p.run(task)
	})
	return nil
}

func (p *Pool) run(task func()) {
	defer func() {
		if e := recover(); e != nil {
			if p.o.PanicHandler != nil {
				p.o.PanicHandler(e)
			} else if p.o.Logger != nil {
				p.o.Logger.Printf("worker exits from a panic: %v\n", e)
			} else {
				_ = fmt.Sprint(e)
			}
		}
	}()
	task()
}

func (p *Pool) Running() int { return p.running }
func (p *Pool) Cap() int     { return p.cap }
func (p *Pool) Free() int {
	if p.cap < 0 {
		return -1
	}
	return p.cap - p.running
}
func (p *Pool) Waiting() int { return p.blocked }
func (p *Pool) Tune(n int) {
	if n > 0 && p.cap > 0 {
		p.cap = n
	}
}
func (p *Pool) IsClosed() bool { return p.closed }
func (p *Pool) Release()       { p.closed = true }
func (p *Pool) Reboot()        { p.closed = false }

var defaultPool = &Pool{cap: 1<<31 - 1}

func init() { pools = append(pools, defaultPool) }

func Submit(task func()) error { return defaultPool.Submit(task) }
func Running() int             { return defaultPool.Running() }
func Cap() int                 { return defaultPool.Cap() }
func Free() int                { return defaultPool.Free() }
func Release()                 { defaultPool.Release() }
func Reboot()                  { defaultPool.Reboot() }
