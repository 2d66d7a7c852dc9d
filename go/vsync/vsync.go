// Package vsync replaces package sync under the controlled scheduler.
package vsync

import (
	"runtime"
	"sync"

	"verif.local/mbv/vsched"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex replaces sync.Mutex.
type Mutex struct {
	held bool
	n    sync.Mutex
}

// Lock locks m.
func (m *Mutex) Lock() {
	if !vsched.Active() {
		m.n.Lock()
		return
	}
	vsched.Wait(func() bool { return !m.held }, "mutex")
	m.held = true
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	if !vsched.Active() {
		return m.n.TryLock()
	}
	vsched.Yield()
	if m.held {
		return false
	}
	m.held = true
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	if !vsched.Active() {
		m.n.Unlock()
		return
	}
	if !m.held {
		if vsched.Aborting() {
			return
		}
		vsched.Fatal("sync: unlock of unlocked mutex")
	}
	m.held = false
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	w, r, ww int
	n        sync.RWMutex
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	if !vsched.Active() {
		m.n.Lock()
		return
	}
	vsched.Yield()
	if m.w == 0 && m.r == 0 {
		m.w = 1
		return
	}
	m.ww++
	defer func() { m.ww-- }()
	vsched.Wait(func() bool { return m.w == 0 && m.r == 0 }, "rwmutex.Lock")
	m.w = 1
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	if !vsched.Active() {
		return m.n.TryLock()
	}
	vsched.Yield()
	if m.w != 0 || m.r != 0 {
		return false
	}
	m.w = 1
	return true
}

// Unlock unlocks a write lock.
func (m *RWMutex) Unlock() {
	if !vsched.Active() {
		m.n.Unlock()
		return
	}
	if m.w != 1 {
		if vsched.Aborting() {
			return
		}
		vsched.Fatal("sync: Unlock of unlocked RWMutex")
	}
	m.w = 0
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	if !vsched.Active() {
		m.n.RLock()
		return
	}
	vsched.Wait(func() bool { return m.w == 0 && m.ww == 0 }, "rwmutex.RLock")
	m.r++
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	if !vsched.Active() {
		return m.n.TryRLock()
	}
	vsched.Yield()
	if m.w != 0 || m.ww != 0 {
		return false
	}
	m.r++
	return true
}

// RUnlock undoes RLock.
func (m *RWMutex) RUnlock() {
	if !vsched.Active() {
		m.n.RUnlock()
		return
	}
	if m.r <= 0 {
		if vsched.Aborting() {
			return
		}
		vsched.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for the read side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	c int
	n sync.WaitGroup
}

// Add adds delta.
func (wg *WaitGroup) Add(delta int) {
	if !vsched.Active() {
		wg.n.Add(delta)
		return
	}
	vsched.Yield()
	if wg.c+delta < 0 {
		if vsched.Aborting() {
			return
		}
		panic("sync: negative WaitGroup counter")
	}
	wg.c += delta
}

// Done is Add(-1).
func (wg *WaitGroup) Done() { wg.Add(-1) }

// Wait waits for zero.
func (wg *WaitGroup) Wait() {
	if !vsched.Active() {
		wg.n.Wait()
		return
	}
	vsched.Wait(func() bool { return wg.c == 0 }, "waitgroup")
}

// Go runs f in a goroutine counted by wg.
func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	vsched.Go(func() {
		defer wg.Done()
		f()
	})
}

// Once replaces sync.Once.
type Once struct {
	done    bool
	running bool
	n       sync.Once
}

// Do runs f once.
func (o *Once) Do(f func()) {
	if !vsched.Active() {
		o.n.Do(f)
		return
	}
	vsched.Yield()
	if o.done {
		return
	}
	vsched.Wait(func() bool { return !o.running }, "once")
	if o.done {
		return
	}
	o.running = true
	defer func() {
		o.done = true
		o.running = false
	}()
	f()
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

// Cond replaces sync.Cond.
type Cond struct {
	L Locker
	q []*bool
	n *sync.Cond
}

// NewCond returns a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l, n: sync.NewCond(l)} }

// Wait waits for a signal.
func (c *Cond) Wait() {
	if !vsched.Active() {
		if c.n == nil {
			c.n = sync.NewCond(c.L)
		}
		c.n.Wait()
		return
	}
	w := new(bool)
	c.q = append(c.q, w)
	c.L.Unlock()
	vsched.Wait(func() bool { return *w }, "cond")
	c.L.Lock()
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	if !vsched.Active() {
		if c.n != nil {
			c.n.Signal()
		}
		return
	}
	vsched.Yield()
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	if !vsched.Active() {
		if c.n != nil {
			c.n.Broadcast()
		}
		return
	}
	vsched.Yield()
	for _, w := range c.q {
		*w = true
	}
	c.q = nil
}

// Pool replaces sync.Pool; Get may return any pooled object (or, by choice, a
// new one, as a garbage collection could have emptied the pool).
type Pool struct {
	New   func() any
	items []any
	n     sync.Pool
}

// Get takes an object.
func (p *Pool) Get() any {
	if !vsched.Active() {
		if v := p.n.Get(); v != nil {
			return v
		}
		if p.New != nil {
			return p.New()
		}
		return nil
	}
	vsched.Yield()
	if n := len(p.items); n > 0 {
		i := vsched.Choose(n + 1) // 0: last object
		if i < n {
			i = n - 1 - i
			v := p.items[i]
			p.items = append(p.items[:i:i], p.items[i+1:]...)
			return v
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put returns an object.
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	if !vsched.Active() {
		p.n.Put(x)
		return
	}
	vsched.Yield()
	if len(p.items) == 0 {
		vsched.OnEnd(p, func() { p.items = nil })
	}
	p.items = append(p.items, x)
}

// Map replaces sync.Map (each operation is one atomic step).
type Map struct {
	m    map[any]any
	keys []any
	mu   sync.Mutex
}

func (m *Map) enter() func() {
	if vsched.Active() {
		vsched.Yield()
		return func() {}
	}
	m.mu.Lock()
	return m.mu.Unlock
}

func (m *Map) set(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
}

// Load reads a key.
func (m *Map) Load(k any) (any, bool) {
	defer m.enter()()
	v, ok := m.m[k]
	return v, ok
}

// Store writes a key.
func (m *Map) Store(k, v any) {
	defer m.enter()()
	m.set(k, v)
}

// Clear empties the map.
func (m *Map) Clear() {
	defer m.enter()()
	m.m, m.keys = nil, nil
}

// LoadOrStore is sync.Map.LoadOrStore.
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	defer m.enter()()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.set(k, v)
	return v, false
}

// LoadAndDelete is sync.Map.LoadAndDelete.
func (m *Map) LoadAndDelete(k any) (any, bool) {
	defer m.enter()()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}

// Delete removes a key.
func (m *Map) Delete(k any) {
	defer m.enter()()
	m.del(k)
}

// Swap is sync.Map.Swap.
func (m *Map) Swap(k, v any) (any, bool) {
	defer m.enter()()
	x, ok := m.m[k]
	m.set(k, v)
	return x, ok
}

// CompareAndSwap is sync.Map.CompareAndSwap.
func (m *Map) CompareAndSwap(k, o, n any) bool {
	defer m.enter()()
	if x, ok := m.m[k]; ok && x == o {
		m.set(k, n)
		return true
	}
	return false
}

// CompareAndDelete is sync.Map.CompareAndDelete.
func (m *Map) CompareAndDelete(k, o any) bool {
	defer m.enter()()
	if x, ok := m.m[k]; ok && x == o {
		m.del(k)
		return true
	}
	return false
}

// Range iterates; entries may change while it runs.
func (m *Map) Range(f func(k, v any) bool) {
	u := m.enter()
	ks := append([]any(nil), m.keys...)
	u()
	for _, k := range ks {
		u := m.enter()
		v, ok := m.m[k]
		u()
		if ok && !f(k, v) {
			return
		}
	}
}

var _ = runtime.Gosched
