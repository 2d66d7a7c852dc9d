package vsched

import (
	"fmt"
	"reflect"
	"runtime"
	"unsafe"
)

// chst is the simulated state of a channel during a run.
type chst struct {
	ref    any
	cap    int
	buf    []any
	closed bool
	poll   func(*chst) // import values/closing done by uncontrolled code
	name   string
}

// selCase is one alternative of a select (plain operations have one).
type selCase struct {
	ch   *chst // nil: nil channel
	send bool
	v    any
}

type selState struct {
	cases     []selCase
	completed int // -1: pending
	v         any
	ok        bool
}

func chptr[T any](ch chan T) uintptr { return *(*uintptr)(unsafe.Pointer(&ch)) }

func (r *Run) state(p uintptr, ref any, cp int, poll func(*chst)) *chst {
	if p == 0 {
		return nil
	}
	c := r.chans[p]
	if c == nil {
		c = &chst{ref: ref, cap: cp, poll: poll, name: fmt.Sprintf("ch%d(cap %d)", len(r.chans), cp)}
		r.chans[p] = c
	}
	c.sync()
	return c
}

func (c *chst) sync() {
	if !c.closed {
		c.poll(c)
	}
}

func stOf[T any](r *Run, ch chan T) *chst {
	return r.state(chptr(ch), ch, cap(ch), func(c *chst) {
		for {
			select {
			case v, ok := <-ch:
				if !ok {
					c.closed = true
					return
				}
				c.buf = append(c.buf, v)
			default:
				return
			}
		}
	})
}

func bidiR[T any](ch <-chan T) chan T { return *(*chan T)(unsafe.Pointer(&ch)) }
func bidiS[T any](ch chan<- T) chan T { return *(*chan T)(unsafe.Pointer(&ch)) }

// offering finds a parked goroutine offering the given direction on c.
func (r *Run) offering(c *chst, send bool) (*G, int) {
	for _, g := range r.gs {
		if g == r.cur || g.done || g.sel == nil || g.sel.completed >= 0 {
			continue
		}
		for i, k := range g.sel.cases {
			if k.ch == c && k.send == send {
				return g, i
			}
		}
	}
	return nil, 0
}

func (r *Run) caseReady(k *selCase) bool {
	c := k.ch
	if c == nil {
		return false
	}
	c.sync()
	if k.send {
		if c.closed || len(c.buf) < c.cap {
			return true
		}
		if c.cap == 0 {
			g, _ := r.offering(c, false)
			return g != nil
		}
		return false
	}
	if len(c.buf) > 0 || c.closed {
		return true
	}
	if c.cap == 0 {
		g, _ := r.offering(c, true)
		return g != nil
	}
	return false
}

// perform executes a ready case for the current goroutine.
func (r *Run) perform(k *selCase) (v any, ok bool) {
	c := k.ch
	if k.send {
		if c.closed {
			panic("send on closed channel")
		}
		if c.cap > 0 {
			c.buf = append(c.buf, k.v)
			return nil, true
		}
		g, i := r.offering(c, false)
		g.sel.v, g.sel.ok, g.sel.completed = k.v, true, i
		return nil, true
	}
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = c.buf[1:]
		return v, true
	}
	if c.closed {
		return nil, false
	}
	g, i := r.offering(c, true)
	v = g.sel.cases[i].v
	g.sel.completed = i
	return v, true
}

func (s *selState) why() string {
	out := ""
	for _, k := range s.cases {
		if out != "" {
			out += "|"
		}
		d := "recv"
		if k.send {
			d = "send"
		}
		n := "nil"
		if k.ch != nil {
			n = fmt.Sprintf("cap%d", k.ch.cap)
		}
		out += d + " " + n
	}
	return out
}

// doSelect runs a select; idx -1 means default.
func (r *Run) doSelect(s *selState, hasDefault bool) int {
	if r.aborting {
		for i := range s.cases {
			if r.caseReady(&s.cases[i]) && !(s.cases[i].send && s.cases[i].ch.closed) {
				if s.cases[i].ch.cap == 0 && !s.cases[i].ch.closed {
					continue
				}
				s.v, s.ok = r.perform(&s.cases[i])
				return i
			}
		}
		if hasDefault {
			return -1
		}
		runtime.Goexit()
	}
	r.park(nil, "select")
	g := r.cur
	for {
		var rdy []int
		for i := range s.cases {
			if r.caseReady(&s.cases[i]) {
				rdy = append(rdy, i)
			}
		}
		if len(rdy) > 0 {
			i := rdy[0]
			if len(rdy) > 1 {
				i = rdy[r.choose(len(rdy), KSelect)]
			}
			s.v, s.ok = r.perform(&s.cases[i])
			return i
		}
		if hasDefault {
			return -1
		}
		s.completed = -1
		g.sel = s
		r.park(func() bool {
			if s.completed >= 0 {
				return true
			}
			for i := range s.cases {
				if g.caseReadyFor(r, &s.cases[i]) {
					return true
				}
			}
			return false
		}, s.why())
		g.sel = nil
		if s.completed >= 0 {
			return s.completed
		}
	}
}

// caseReadyFor evaluates readiness from the point of view of a parked g
// (rendezvous with parked partners is completed by the arriving side, so only
// buffers and closing matter; a partner that parked simultaneously is found
// by the arriving side).
func (g *G) caseReadyFor(r *Run, k *selCase) bool {
	c := k.ch
	if c == nil {
		return false
	}
	c.sync()
	if k.send {
		return c.closed || len(c.buf) < c.cap
	}
	return len(c.buf) > 0 || c.closed
}

// Send returns a function sending on ch (split so that operand evaluation and
// conversion happen exactly as in a send statement).
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		r := R
		if r == nil {
			ch <- v
			return
		}
		s := &selState{cases: []selCase{{ch: stOf(r, bidiS(ch)), send: true, v: v}}, completed: -1}
		r.doSelect(s, false)
	}
}

func unbox[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

// Recv receives from ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 receives from ch with the ok flag.
func Recv2[T any](ch <-chan T) (T, bool) {
	r := R
	if r == nil {
		v, ok := <-ch
		return v, ok
	}
	s := &selState{cases: []selCase{{ch: stOf(r, bidiR(ch))}}, completed: -1}
	r.doSelect(s, false)
	return unbox[T](s.v), s.ok
}

// RangeInit supports rewriting of range loops over channels.
func RangeInit[T any](ch <-chan T) (<-chan T, T) {
	var z T
	return ch, z
}

// Close closes ch.
func Close[T any](ch chan<- T) {
	r := R
	if r == nil {
		close(ch)
		return
	}
	if !r.aborting {
		r.park(nil, "close")
	}
	c := stOf(r, bidiS(ch))
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		if r.aborting {
			return
		}
		panic("close of closed channel")
	}
	c.closed = true
	// parked senders on a closed channel panic when they resume; parked
	// receivers become ready through their predicates
}

// Len is len(ch).
func Len(ch any) int {
	rv := reflect.ValueOf(ch)
	r := R
	if r == nil {
		return rv.Len()
	}
	if rv.IsNil() {
		return 0
	}
	if c := r.chans[rv.Pointer()]; c != nil {
		c.sync()
		return len(c.buf)
	}
	return rv.Len()
}

// Select is a rewritten select statement.
type Select struct {
	s    selState
	nat  []reflect.SelectCase
	def  bool
	run  *Run
	set  []func(any, bool)
	setR []func(reflect.Value, bool)
}

// NewSelect starts a select.
func NewSelect(hasDefault bool) *Select { return &Select{def: hasDefault, run: R} }

// RecvCase holds the result of a receive alternative.
type RecvCase[T any] struct {
	V  T
	Ok bool
}

// AddRecv adds a receive alternative.
func AddRecv[T any](s *Select, ch <-chan T) *RecvCase[T] {
	rc := &RecvCase[T]{}
	if s.run == nil {
		s.nat = append(s.nat, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(ch)})
		s.setR = append(s.setR, func(v reflect.Value, ok bool) {
			if ok {
				rc.V, _ = v.Interface().(T)
			}
			rc.Ok = ok
		})
		return rc
	}
	s.s.cases = append(s.s.cases, selCase{ch: stOf(s.run, bidiR(ch))})
	s.set = append(s.set, func(v any, ok bool) { rc.V, rc.Ok = unbox[T](v), ok })
	return rc
}

// AddSend adds a send alternative.
func AddSend[T any](s *Select, ch chan<- T) func(T) {
	return func(v T) {
		if s.run == nil {
			s.nat = append(s.nat, reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(ch), Send: reflect.ValueOf(&v).Elem()})
			s.setR = append(s.setR, func(reflect.Value, bool) {})
			return
		}
		s.s.cases = append(s.s.cases, selCase{ch: stOf(s.run, bidiS(ch)), send: true, v: v})
		s.set = append(s.set, func(any, bool) {})
	}
}

// Do executes the select and returns the chosen case (-1: default).
func (s *Select) Do() int {
	if s.run == nil {
		cases := s.nat
		if s.def {
			cases = append(cases, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(cases)
		if s.def && i == len(cases)-1 {
			return -1
		}
		if cases[i].Dir == reflect.SelectRecv {
			s.setR[i](v, ok)
		}
		return i
	}
	s.s.completed = -1
	i := s.run.doSelect(&s.s, s.def)
	if i >= 0 && !s.s.cases[i].send {
		s.set[i](s.s.v, s.s.ok)
	}
	return i
}
