// Package vsched is a controlled scheduler for real Go code. The instrumenter
// (cmd/instr) rewrites goroutine starts, channel operations, sync, sync/atomic,
// time and context uses of the code under test to call it. While a Run is
// active exactly one goroutine executes at a time and every scheduling
// decision is taken by a Strategy, so executions can be enumerated, sampled
// and replayed. Without an active Run everything falls through to native Go.
package vsched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
)

// G is a controlled goroutine.
type G struct {
	ID       int
	wake     chan struct{}
	exited   chan struct{}
	ready    func() bool // nil: runnable
	why      string
	done     bool
	timer    bool  // fires at deadline; enabled only when earliest
	daemon   bool  // does not keep the run alive
	deadline int64 // virtual ns
	tseq     int
	sel      *selState
	fn       func()
	prio     int
}

// Kind tells a Strategy what a choice is about.
type Kind int

// Kinds of choice.
const (
	KSched Kind = iota
	KSelect
	KData
)

// Strategy takes all decisions of a run.
type Strategy interface {
	// Pick chooses among enabled goroutines (non-empty); cur is the index of
	// the running goroutine in enabled or -1.
	Pick(enabled []*G, cur int) int
	// Choose picks in [0,n) for a non-scheduling choice.
	Choose(n int, k Kind) int
}

// Outcome of a run.
type Outcome struct {
	Status  string // done, stuck, crash, steps
	Blocked []string
	Crash   string
	Stack   string
	Steps   int
	Choices []int32
}

// Run is one controlled execution.
type Run struct {
	gs         []*G
	cur        *G
	strat      Strategy
	steps      int
	maxSteps   int
	aborting   bool
	stopped    bool
	over       chan struct{}
	out        Outcome
	nextID     int
	chans      map[uintptr]*chst
	now        int64
	tseq       int
	anytime    bool
	cleanup    map[any]func()
	enabled    []*G
	abortSteps int
	choices    []int32
}

// R is the active run, nil when none.
var R *Run

// Active reports whether a controlled run is in progress.
func Active() bool { return R != nil }

// Config of a run.
type Config struct {
	Strat        Strategy
	MaxSteps     int
	TimerAnytime bool
}

// Exec runs body under the scheduler and returns the outcome.
func Exec(c Config, body func()) Outcome {
	if R != nil {
		panic("vsched: nested Exec")
	}
	if c.MaxSteps == 0 {
		c.MaxSteps = 200000
	}
	r := &Run{strat: c.Strat, maxSteps: c.MaxSteps, over: make(chan struct{}, 1), chans: map[uintptr]*chst{}, anytime: c.TimerAnytime, cleanup: map[any]func(){}}
	for _, f := range resets {
		f()
	}
	R = r
	g := r.newG(body)
	r.cur = g
	g.wake <- struct{}{}
	<-r.over
	// abort whatever is left
	r.aborting = true
	for i := 0; i < len(r.gs); i++ {
		g := r.gs[i]
		if !g.done {
			r.cur = g
			r.abortSteps = 0
			g.wake <- struct{}{}
			<-g.exited
		}
	}
	for _, f := range r.cleanup {
		f()
	}
	R = nil
	r.out.Steps = r.steps
	r.out.Choices = r.choices
	return r.out
}

func (r *Run) newG(fn func()) *G {
	g := &G{ID: r.nextID, wake: make(chan struct{}, 1), exited: make(chan struct{}), fn: fn}
	r.nextID++
	r.gs = append(r.gs, g)
	go r.gmain(g)
	return g
}

func (r *Run) gmain(g *G) {
	normal := false
	defer func() {
		if !normal {
			if e := recover(); e != nil && !r.aborting {
				r.out.Crash = fmt.Sprint(e)
				r.out.Stack = string(debug.Stack())
				g.done = true
				close(g.exited)
				r.stop("crash")
				return
			}
		}
		g.done = true
		close(g.exited)
		if r.aborting || r.stopped {
			return
		}
		r.remove(g)
		r.exitSwitch()
	}()
	<-g.wake
	if r.aborting {
		normal = true
		return
	}
	g.fn()
	normal = true
}

func (r *Run) remove(g *G) {
	for i, x := range r.gs {
		if x == g {
			r.gs = append(r.gs[:i], r.gs[i+1:]...)
			return
		}
	}
}

func (r *Run) stop(status string) {
	r.stopped = true
	r.out.Status = status
	r.over <- struct{}{}
}

// exitSwitch hands control to another goroutine after the current one ended.
func (r *Run) exitSwitch() {
	next := r.pick(nil)
	if next == nil {
		r.finish()
		return
	}
	r.cur = next
	next.wake <- struct{}{}
}

func (r *Run) finish() {
	st := "done"
	for _, g := range r.gs {
		if !g.done && !g.daemon {
			st = "stuck"
			r.out.Blocked = append(r.out.Blocked, fmt.Sprintf("g%d:%s", g.ID, g.why))
		}
	}
	sort.Strings(r.out.Blocked)
	r.stop(st)
}

// pick returns the next goroutine, nil when nothing can run.
func (r *Run) pick(cur *G) *G {
	en := r.enabled[:0]
	var t *G
	ci := -1
	live := false
	for _, g := range r.gs {
		if g.done {
			continue
		}
		if !g.daemon {
			live = true
		}
		if g.timer {
			if g.ready != nil && g.ready() { // stopped timer: let it exit
				en = append(en, g)
				continue
			}
			if t == nil || g.deadline < t.deadline || (g.deadline == t.deadline && g.tseq < t.tseq) {
				t = g
			}
			continue
		}
		if g.ready == nil || g.ready() {
			if g == cur {
				ci = len(en)
			}
			en = append(en, g)
		}
	}
	if !live {
		return nil
	}
	if t != nil && (r.anytime || len(en) == 0) {
		en = append(en, t)
	}
	r.enabled = en
	if len(en) == 0 {
		return nil
	}
	var g *G
	if len(en) == 1 {
		g = en[0]
	} else {
		i := r.strat.Pick(en, ci)
		r.choices = append(r.choices, int32(i))
		g = en[i]
	}
	if g == t && g.timer {
		if g.deadline > r.now {
			r.now = g.deadline
		}
		g.timer = false
		g.ready = nil
	}
	return g
}

// LoopYield is the scheduling point at the start of a loop body.
func LoopYield() {
	if r := R; r != nil {
		r.park(nil, "loop")
	}
}

var resets []func()

// OnReset registers f to run before every controlled run.
func OnReset(f func()) { resets = append(resets, f) }

// Zero makes *p, declared without a value, start every run with the value it
// has when the first run starts (package init functions may have set it).
func Zero[T any](p *T) {
	var v T
	known := false
	OnReset(func() {
		if !known {
			v, known = *p, true
		}
		*p = v
	})
}

// Restore makes *p start every run with the (shallow) value it has now.
func Restore[T any](p *T) {
	v := *p
	OnReset(func() { *p = v })
}

// MIter iterates over a map in a controlled order.
type MIter[K comparable, V any] struct {
	K    K
	V    V
	m    map[K]V
	keys []K
	i    int
}

// MapIter starts an iteration.
func MapIter[K comparable, V any](m map[K]V) (*MIter[K, V], K, V) {
	var k K
	var v V
	return &MIter[K, V]{m: m, keys: MapKeys(m)}, k, v
}

// Next advances to the next entry still present.
func (it *MIter[K, V]) Next() bool {
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		if v, ok := it.m[k]; ok {
			it.K, it.V = k, v
			return true
		}
	}
	return false
}

// park blocks the current goroutine until ready (nil: just a yield point).
func (r *Run) park(ready func() bool, why string) {
	if r.aborting {
		r.abortSteps++
		if ready != nil || r.abortSteps > 10000 {
			runtime.Goexit()
		}
		return
	}
	g := r.cur
	g.ready = ready
	g.why = why
	r.steps++
	if r.steps > r.maxSteps {
		r.stop("steps")
		<-g.wake
		runtime.Goexit()
	}
	next := r.pick(g)
	if next == g {
		g.ready = nil
		return
	}
	if next == nil {
		r.finish()
	} else {
		r.cur = next
		next.wake <- struct{}{}
	}
	<-g.wake
	if r.aborting {
		runtime.Goexit()
	}
	g.ready = nil
}

// Yield is a scheduling point.
func Yield() {
	if r := R; r != nil {
		r.park(nil, "yield")
	}
}

// Wait blocks until cond holds (controlled runs only).
func Wait(cond func() bool, why string) {
	r := R
	if r.aborting {
		if !cond() {
			runtime.Goexit()
		}
		return
	}
	r.park(nil, why)
	for !cond() {
		r.park(cond, why)
	}
}

// Go starts f as a controlled goroutine.
func Go(f func()) {
	r := R
	if r == nil {
		go f()
		return
	}
	if r.aborting {
		return
	}
	r.newG(f)
	r.park(nil, "go")
}

// Choose makes a data choice in [0,n); 0 when no run is active.
func Choose(n int) int {
	r := R
	if r == nil || n <= 1 || r.aborting {
		return 0
	}
	return r.choose(n, KData)
}

func (r *Run) choose(n int, k Kind) int {
	i := r.strat.Choose(n, k)
	r.choices = append(r.choices, int32(i))
	return i
}

// OnEnd registers a cleanup keyed by k, executed when the run ends.
func OnEnd(k any, f func()) {
	if f == nil {
		delete(R.cleanup, k)
	} else {
		R.cleanup[k] = f
	}
}

// Aborting reports whether the run is being torn down.
func Aborting() bool { return R != nil && R.aborting }

// CurID returns the id of the running goroutine (-1 outside a run).
func CurID() int {
	if R == nil {
		return -1
	}
	return R.cur.ID
}

// Now is the virtual time in ns.
func Now() int64 {
	if R == nil {
		return 0
	}
	return R.now
}

// Sleep blocks for d virtual ns.
func Sleep(d int64) {
	r := R
	if r.aborting {
		runtime.Goexit()
	}
	if d <= 0 {
		r.park(nil, "sleep0")
		return
	}
	g := r.cur
	g.timer = true
	g.deadline = r.now + d
	r.tseq++
	g.tseq = r.tseq
	r.park(never, "sleep")
}

func never() bool { return false }

// Timer is a virtual timer.
type Timer struct {
	g       *G
	stopped bool
	fired   bool
}

// AddTimer calls f in its own goroutine after d virtual ns.
func AddTimer(d int64, f func()) *Timer {
	r := R
	t := &Timer{}
	if r.aborting {
		return t
	}
	t.g = r.newG(func() {
		if t.stopped {
			return
		}
		t.fired = true
		f()
	})
	t.g.daemon = true
	t.g.timer = true
	t.g.deadline = r.now + d
	t.g.ready = func() bool { return t.stopped }
	r.tseq++
	t.g.tseq = r.tseq
	return t
}

// Stop cancels the timer; true if it had not fired.
func (t *Timer) Stop() bool {
	was := !t.stopped && !t.fired
	t.stopped = true
	return was
}

// Gosched replaces runtime.Gosched.
func Gosched() {
	if R != nil {
		R.park(nil, "gosched")
		return
	}
	runtime.Gosched()
}

// Block replaces select{}.
func Block() {
	if R != nil {
		R.park(never, "block forever")
		runtime.Goexit()
	}
	select {}
}

// SortKeys orders map keys deterministically and rotates them by a choice.
func SortKeys[K comparable](ks []K) []K {
	if len(ks) < 2 {
		return ks
	}
	ss := make([]string, len(ks))
	idx := make([]int, len(ks))
	for i, k := range ks {
		ss[i] = fmt.Sprintf("%T|%v", k, k)
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return ss[idx[a]] < ss[idx[b]] })
	out := make([]K, 0, len(ks))
	off := 0
	if R != nil && !R.aborting {
		off = R.choose(len(ks), KData)
	}
	for i := range idx {
		out = append(out, ks[idx[(i+off)%len(idx)]])
	}
	return out
}

// MapKeys returns the keys of m in a controlled order.
func MapKeys[K comparable, V any](m map[K]V) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if R == nil {
		return ks
	}
	return SortKeys(ks)
}

// BlockedString joins the blocked list.
func (o Outcome) BlockedString() string { return strings.Join(o.Blocked, ",") }

// Fatal ends the run like a fatal runtime error (cannot be recovered).
func Fatal(msg string) {
	r := R
	if r == nil {
		panic(msg)
	}
	if r.aborting {
		runtime.Goexit()
	}
	r.out.Crash = "fatal error: " + msg
	r.out.Stack = string(debug.Stack())
	g := r.cur
	r.stop("crash")
	<-g.wake
	runtime.Goexit()
}

// GoDaemon starts a goroutine that does not keep the run alive.
func GoDaemon(f func()) {
	r := R
	if r == nil {
		go f()
		return
	}
	if r.aborting {
		return
	}
	g := r.newG(f)
	g.daemon = true
}

// Drain empties a channel.
func Drain[T any](ch chan T) {
	if R == nil {
		for {
			select {
			case <-ch:
			default:
				return
			}
		}
	}
	c := stOf(R, ch)
	c.buf = nil
}
