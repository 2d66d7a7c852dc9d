// strd drives xstream.
package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"time"

	"github.com/chenquan/go-pkg/xstream"
	"verif.local/mbv/h"
	"verif.local/mbv/vsched"
	"verif.local/mbv/vsync"
)

// ---- elements: int, nil, []any, *xstream.Stream

// enc renders an element; streams are consumed by it.
func enc(x any) map[string]any {
	switch v := x.(type) {
	case nil:
		return map[string]any{"k": "n", "v": 0, "m": []any{}}
	case []any:
		return map[string]any{"k": "l", "v": 0, "m": encs(v)}
	case *xstream.Stream:
		var xs []any
		for y := range v.Chan() {
			xs = append(xs, y)
		}
		return map[string]any{"k": "s", "v": 0, "m": encs(xs)}
	default:
		if n, ok := unrep(x); ok {
			return map[string]any{"k": "i", "v": n, "m": []any{}}
		}
		return map[string]any{"k": "?", "v": 0, "m": []any{}}
	}
}

func encs(xs []any) []any {
	r := make([]any, len(xs))
	for i, x := range xs {
		r[i] = enc(x)
	}
	return r
}

const nilKey = -999

// key is the integer key of an element under a key function.
func key(f string, x any) int {
	switch v := x.(type) {
	case nil, *xstream.Stream:
	case []any:
		n := len(v)
		switch f {
		case "mod2":
			return n % 2
		case "mod3":
			return n % 3
		case "const":
			return 0
		}
		return n
	default:
		n, _ := unrep(x)
		switch f {
		case "mod2":
			return ((n % 2) + 2) % 2
		case "mod3":
			return ((n % 3) + 3) % 3
		case "const":
			return 0
		case "nilodd":
			if n%2 != 0 {
				return nilKey
			}
		}
		return n
	}
	if f == "const" {
		return 0
	}
	return nilKey
}

type mixKey struct {
	n int
	s string
}

func keyFn(f string) xstream.KeyFunc {
	return func(x any) any {
		return keyOf(f, key(f, x))
	}
}

// keyOf is the key for the integer key k.
func keyOf(f string, k int) any {
	switch {
	case k == nilKey:
		return nil
	case f == "str":
		return "k" + strconv.Itoa(k)
	case f == "mixed":
		switch k & 7 {
		case 0:
			return strconv.Itoa(k)
		case 1:
			return mixKey{k, ""}
		case 2:
			return [1]int{k}
		case 3:
			return float64(k)
		case 4:
			return int64(k)
		}
	case f == "zeros": // zero values of different types
		if k >= 0 && k < len(zeroKeys) {
			return zeroKeys[k]
		}
	case f == "twins": // of different types, but alike
		switch v := k >> 3; k & 7 {
		case 0:
			return v
		case 1:
			return int64(v)
		case 2:
			return float64(v)
		case 3:
			return strconv.Itoa(v)
		case 4:
			return int32(v)
		case 5:
			return myInt(v)
		case 6:
			return [1]int{v}
		case 7:
			return [1]any{v}
		}
	}
	return k
}

type myInt int

var zeroKeys = []any{0, "", false, 0.0, mixKey{}, [0]int{}, (*int)(nil), int64(0), struct{}{}, error((*myErr)(nil))}

type myErr struct{}

func (*myErr) Error() string { return "" }

func unkey(f string, k any) int {
	if f == "zeros" {
		for n, z := range zeroKeys {
			if z == k {
				return n
			}
		}
	}
	if f == "twins" {
		switch v := k.(type) {
		case nil:
			return nilKey
		case int:
			return v << 3
		case int64:
			return int(v)<<3 | 1
		case float64:
			return int(v)<<3 | 2
		case string:
			if n, err := strconv.Atoi(v); err == nil {
				return n<<3 | 3
			}
		case int32:
			return int(v)<<3 | 4
		case myInt:
			return int(v)<<3 | 5
		case [1]int:
			return v[0]<<3 | 6
		case [1]any:
			if n, ok := v[0].(int); ok {
				return n<<3 | 7
			}
		}
		return -99999
	}
	switch v := k.(type) {
	case nil:
		return nilKey
	case int:
		return v
	case string:
		if len(v) > 0 && v[0] == 'k' {
			v = v[1:]
		}
		n, err := strconv.Atoi(v)
		if err == nil {
			return n
		}
	case mixKey:
		return v.n
	case [1]int:
		return v[0]
	case float64:
		return int(v)
	case int64:
		return int(v)
	}
	return -99999
}

// ---- pipelines

type stage struct {
	Op string `json:"op"`
	N  int    `json:"n"` // capped for the record; the real size is n
	F  string `json:"f"`
	n  int
}

func mapFn(f string) func(x any) any {
	return func(x any) any {
		switch v := x.(type) {
		case nil:
		default:
			n, _ := unrep(x)
			if f == "nilodd" && n%2 != 0 {
				return nil
			}
			return rep(n%2 == 0, n+10)
		case []any:
			return len(v)
		case *xstream.Stream:
			xs := []any{}
			for y := range v.Chan() {
				xs = append(xs, y)
			}
			return xs
		}
		if f == "nilodd" {
			return 5
		}
		return nil
	}
}

func apply(t *h.T, k int, g stage, s *xstream.Stream) *xstream.Stream {
	switch g.Op {
	case "distinct":
		return s.Distinct(keyFn(g.F))
	case "buffer":
		return s.Buffer(g.n)
	case "split":
		return s.Split(g.n)
	case "splits":
		return s.SplitSteam(g.n)
	case "sort":
		return s.Sort(func(a, b any) bool { return key(g.F, a) < key(g.F, b) })
	case "reverse":
		return s.Reverse()
	case "tail":
		return s.Tail(g.n)
	case "skip":
		return s.Skip(g.n)
	case "limit":
		return s.Limit(g.n)
	case "merge":
		return s.Merge()
	case "group":
		return s.Group(keyFn(g.F))
	case "peek":
		return s.Peek(func(x any) { t.Log("pk", "k", k, "x", enc(x)) })
	case "map":
		return s.Map(mapFn(g.F))
	case "filter":
		return s.Filter(func(x any) bool { return key(g.F, x) >= g.n })
	case "range":
		return xstream.Range(s.Chan())
	case "from":
		return xstream.From(func(c chan<- any) {
			for x := range s.Chan() {
				c <- x
			}
		})
	}
	panic("unknown stage " + g.Op)
}

func source(t *h.T, kind string, n int, xs []any) *xstream.Stream {
	switch kind {
	case "of":
		return xstream.Of(xs...)
	case "empty":
		return xstream.Empty()
	case "from":
		return xstream.From(func(c chan<- any) {
			t.Log("gs")
			for _, x := range xs {
				c <- x
			}
			t.Log("ge")
		})
	default:
		c := make(chan any, n)
		t.Go(func() {
			t.Log("gs")
			for _, x := range xs {
				c <- x
			}
			close(c)
			t.Log("ge")
		})
		return xstream.Range(c)
	}
}

func ret(t *h.T, kv ...any) {
	m := map[string]any{"n": 0, "b": false, "x": enc(nil), "err": "", "xs": []any{}, "g": []any{}}
	for i := 0; i+1 < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	var a []any
	for _, k := range h.Keys(m) {
		a = append(a, k, m[k])
	}
	t.Log("ret", a...)
}

func errText(e error) string {
	if e == nil {
		return ""
	}
	if e == xstream.ErrNoElement {
		return "none"
	}
	return "other"
}

func groups(f string, m map[any][]any) []any {
	var ks []int
	by := map[int][]any{}
	for k, xs := range m {
		n := unkey(f, k)
		if keyOf(f, n) != k { // some other key
			n = -99999
		}
		ks = append(ks, n)
		by[n] = xs
	}
	sort.Ints(ks)
	r := []any{}
	for _, k := range ks {
		r = append(r, map[string]any{"k": k, "xs": encs(by[k])})
	}
	return r
}

func finish(t *h.T, g stage, s *xstream.Stream) {
	switch g.Op {
	case "list": // the elements are examined only after the end of the stream
		var xs []any
		for x := range s.Chan() {
			xs = append(xs, x)
		}
		ret(t, "xs", encs(xs))
	case "collect":
		var xs []any
		s.Collection(xstream.CollectorFunc(func(c <-chan any) {
			for x := range c {
				xs = append(xs, x)
			}
		}))
		ret(t, "xs", encs(xs))
	case "count":
		ret(t, "n", s.Count())
	case "done":
		s.Done()
		ret(t)
	case "foreach":
		s.Foreach(func(x any) { t.Log("pr", "x", enc(x)) })
		ret(t)
	case "ordered":
		s.ForeachOrdered(func(x any) { t.Log("pr", "x", enc(x)) })
		ret(t)
	case "any", "all":
		f := func(x any) bool {
			t.Log("pr", "x", enc(x))
			return key(g.F, x) >= g.n
		}
		if g.Op == "any" {
			ret(t, "b", s.AnyMach(f))
		} else {
			ret(t, "b", s.AllMach(f))
		}
	case "first":
		x, err := s.FindFirst()
		ret(t, "x", enc(x), "err", errText(err))
	case "last":
		x, err := s.FindLast()
		ret(t, "x", enc(x), "err", errText(err))
	case "groupby":
		gr := xstream.GroupBy(keyFn(g.F))
		s.Collection(gr)
		a := groups(g.F, gr.Map())
		b := groups(g.F, gr.Map())
		ret(t, "g", a, "b", fmt.Sprint(a) == fmt.Sprint(b))
	}
}

func size(r *vsched.Rand, n int) int {
	return h.Pick(r, []int{0, 1, 1, 2, 2, 3, 3, 4, n - 1, n, n, n + 1, n + 5, 1 << 40, math.MaxInt, math.MaxInt32, math.MaxInt - 1})
}

func cap32(n int) int {
	if n > 1000000000 {
		return 1000000000
	}
	if n < -1000000000 {
		return -1000000000
	}
	return n
}

var keyFns = []string{"id", "mod2", "mod3", "const", "nilodd", "str", "mixed", "twins", "zeros"}

func seqGen(fam string, i int, r *vsched.Rand) h.Scenario {
	n := r.N(8)
	if r.N(6) == 0 {
		n = r.N(30)
	}
	if i%40 == 7 || fam == "term" && i%30 == 7 {
		n = h.Pick(r, []int{100, 129, 200, 255, 256, 257, 258, 300, 513, 600, 1025})
	}
	big := n > 7
	huge := n > 30
	var xs []any
	hi := h.Pick(r, []int{2, 4, 10, 40})
	if big {
		hi = 40
	}
	lists := r.N(4) == 0
	rich := r.N(2) == 0
	if huge {
		hi, lists = 4000, false
	}
	for k := 0; k < n; k++ {
		switch {
		case r.N(8) == 0:
			xs = append(xs, nil)
		case lists && r.N(3) == 0:
			var l []any
			for j := r.N(4); j > 0; j-- {
				l = append(l, rep(rich, r.N(5)))
			}
			xs = append(xs, append([]any{}, l...))
		case rich && r.N(8) == 0:
			xs = append(xs, rep(true, zeroInt+r.N(len(h.Zeros))))
		default:
			xs = append(xs, rep(rich, r.N(hi+1)-hi/4))
		}
	}
	kind := h.Pick(r, []string{"of", "of", "from", "range"})
	if n == 0 && r.N(3) == 0 {
		kind = "empty"
	}
	buf := r.N(3)
	var gs []stage
	add := func(op string, n int, f string) { gs = append(gs, stage{op, cap32(n), f, n}) }
	ops := []string{"distinct", "buffer", "split", "splits", "sort", "reverse", "tail", "skip", "limit", "merge", "group", "peek", "map", "filter", "range", "from"}
	streams, sorted, grouped, stop := false, 0, 0, false
	depth := 1 + r.N(4)
	if r.N(10) == 0 {
		depth = 0
	}
	if fam == "term" {
		depth = r.N(2)
		ops = []string{"buffer", "range", "from", "skip"}
	}
	for k := 0; k < depth && !stop; k++ {
		op := ops[r.N(len(ops))]
		if k == 0 && fam == "seq" {
			op = ops[i%len(ops)]
		}
		if huge && (op == "sort" || op == "group" || op == "merge") {
			op = h.Pick(r, []string{"tail", "skip", "limit", "reverse", "distinct", "split", "splits"})
		}
		if streams {
			op = h.Pick(r, []string{"open", "open", "tail", "skip", "limit", "reverse", "buffer"})
		}
		f := h.Pick(r, keyFns)
		switch op {
		case "distinct":
			if lists && (f == "id" || f == "str" || f == "mixed" || f == "twins" || f == "zeros") {
				f = "mod3"
			}
			add(op, 0, f)
		case "sort":
			// ties and groups multiply the outcomes: little of it in one chain
			if big || sorted+grouped > 0 {
				if lists || grouped > 0 {
					add("buffer", 0, "")
					continue
				}
				f = "id"
			}
			sorted++
			add(op, 0, f)
		case "group":
			if grouped+sorted > 0 {
				add("buffer", 2, "")
				continue
			}
			grouped++
			add(op, 0, h.Pick(r, []string{"mod2", "mod3", "const"}))
		case "buffer":
			add(op, h.Pick(r, []int{-1, 0, 1, 2, 5, 100}), "")
		case "split", "splits", "tail", "skip", "limit":
			z := size(r, n)
			if huge && r.N(2) == 0 {
				z = h.Pick(r, []int{3, 7, 64, 100, 127, 128, 129, 200, 255, 256, 257, 258, 300, 511, 512, 513, n - 2, n - 256, n / 2})
				if z < 1 {
					z = 1
				}
			}
			if r.N(12) == 0 {
				z = h.Pick(r, []int{0, -1, -1, -2, math.MinInt})
			}
			if z < 1 && op[0] == 's' && op[1] == 'p' || z < 0 {
				if r.N(3) == 0 { // invalid sizes, not too often
					stop = true
				} else {
					z = 1
				}
			}
			add(op, z, "")
			if op == "splits" {
				streams = true
			}
		case "map":
			add(op, 0, h.Pick(r, []string{"inc", "nilodd"}))
		case "open":
			add("map", 0, "inc")
			streams = false
			lists = true
		case "filter":
			add(op, h.Pick(r, []int{-999, 0, 1, 2, 3}), f)
		default:
			add(op, 0, "")
		}
		if op == "split" || op == "merge" || op == "group" {
			lists = true
		}
	}
	terms := []string{"list", "list", "collect", "count", "foreach", "last"}
	if fam == "term" {
		terms = []string{"count", "foreach", "ordered", "any", "all", "first", "last", "groupby", "list"}
	}
	op := terms[r.N(len(terms))]
	if fam == "term" {
		op = terms[i%len(terms)]
	}
	if streams {
		op = h.Pick(r, []string{"list", "list", "count", "last"})
	}
	z := h.Pick(r, []int{-999, 0, 1, 2, 3, 10, 50})
	term := stage{op, z, h.Pick(r, keyFns), z}
	name := fmt.Sprint(kind, shows(xs))
	for _, g := range gs {
		name += fmt.Sprint(" ", g.Op, "(", g.n, g.F, ")")
	}
	name += fmt.Sprint(" ", term.Op, "(", term.n, term.F, ")")
	if gs == nil {
		gs = []stage{}
	}
	return h.Scenario{Name: name, Head: map[string]any{"src": encs(xs), "stages": gs, "term": term, "gen": kind == "from" || kind == "range"}, NoDFS: true, Run: func(t *h.T) {
		s := source(t, kind, buf, xs)
		for k, g := range gs {
			var nx *xstream.Stream
			func() {
				defer func() {
					if e := recover(); e != nil {
						if s, ok := e.(string); !ok || s == "" {
							t.Log("oops", "msg", fmt.Sprint(e))
						}
						t.Log("pan", "k", k+1)
					}
				}()
				nx = apply(t, k+1, g, s)
			}()
			if nx == nil {
				s.Done()
				return
			}
			s = nx
		}
		finish(t, term, s)
	}}
}

// ---- parallel stages

func walkGen(fam string, i int, r *vsched.Rand) h.Scenario {
	op := []string{"walk", "map", "filter", "flatmap", "parallel"}[i%5]
	n := r.N(7)
	if r.N(4) == 0 {
		n = 7 + r.N(6)
	}
	type opt struct {
		name string
		n    int
		o    []xstream.Option
	}
	os := []opt{
		{"unset", 1, nil},
		{"0", 1, []xstream.Option{xstream.WithWorkSize(0)}},
		{"-3", 1, []xstream.Option{xstream.WithWorkSize(-3)}},
		{"1", 1, []xstream.Option{xstream.WithWorkSize(1)}},
		{"2", 2, []xstream.Option{xstream.WithWorkSize(2)}},
		{"2", 2, []xstream.Option{xstream.WithWorkSize(2)}},
		{"3", 3, []xstream.Option{xstream.WithWorkSize(3)}},
		{"3", 3, []xstream.Option{xstream.WithWorkSize(3)}},
		{"4", 4, []xstream.Option{xstream.WithWorkSize(4)}},
		{"6", 6, []xstream.Option{xstream.WithWorkSize(6)}},
		{"2,7", 7, []xstream.Option{xstream.WithWorkSize(2), xstream.WithWorkSize(7)}},
		{"3,-1", 1, []xstream.Option{xstream.WithWorkSize(3), xstream.WithWorkSize(-1)}},
		{"16", 16, []xstream.Option{xstream.WithWorkSize(16)}},
		{"5,2", 2, []xstream.Option{xstream.WithWorkSize(5), xstream.WithWorkSize(2)}},
		{"2,0", 1, []xstream.Option{xstream.WithWorkSize(2), xstream.WithWorkSize(0)}},
		{"zero options", 1, []xstream.Option{xstream.WithOption(&xstream.Options{})}},
		{"2,zero options", 1, []xstream.Option{xstream.WithWorkSize(2), xstream.WithOption(&xstream.Options{})}},
	}
	o := os[r.N(len(os))]
	// ids are distinct; 0 stands for nil
	var xs []any
	var calls []int
	id := 0
	rich := r.N(2) == 0
	slow := r.N(4) == 0
	if i%16 == 3 { // many elements, more workers
		n = h.Pick(r, []int{40, 70, 130, 300})
		os = append(os, opt{"17", 17, []xstream.Option{xstream.WithWorkSize(17)}}, opt{"40", 40, []xstream.Option{xstream.WithWorkSize(40)}},
			opt{"300", 300, []xstream.Option{xstream.WithWorkSize(300)}}, opt{"1000", 1000, []xstream.Option{xstream.WithWorkSize(1000)}})
		o = os[len(os)-1-r.N(8)]
	}
	member := func() any {
		id++
		if r.N(8) == 0 {
			calls = append(calls, 0)
			return nil
		}
		if rich && r.N(5) == 0 && id < len(h.Zeros) {
			calls = append(calls, zeroInt+id)
			return rep(true, zeroInt+id)
		}
		calls = append(calls, id)
		return rep(rich, id)
	}
	for k := 0; k < n; k++ {
		if op == "flatmap" {
			switch r.N(3) {
			case 0:
				l := []any{}
				for j := r.N(4); j > 0; j-- {
					l = append(l, member())
				}
				xs = append(xs, l)
				continue
			case 1:
				if r.N(2) == 0 {
					xs = append(xs, nil)
					continue
				}
			}
			x := member()
			if x == nil {
				calls = calls[:len(calls)-1]
			}
			xs = append(xs, x)
			continue
		}
		xs = append(xs, member())
	}
	emits := r.N(3)
	nilOut := r.N(4) == 0
	kind := h.Pick(r, []string{"of", "from", "range"})
	pause := r.N(2) == 0
	name := fmt.Sprint(op, " workers ", o.name, " ", kind, shows(xs), " emits ", emits, " slow ", slow)
	num := number
	if calls == nil {
		calls = []int{}
	}
	return h.Scenario{Name: name, Head: map[string]any{"calls": calls, "n0": o.n, "op": op}, NoDFS: n > 20, Run: func(t *h.T) {
		s := xstream.Empty()
		if kind != "range" && (len(xs) > 0 || kind != "of") {
			s = source(&h.T{}, kind, 1, xs) // generator events are not recorded here
		} else if kind == "range" {
			c := make(chan any, 1)
			t.Go(func() {
				for _, x := range xs {
					c <- x
				}
				close(c)
			})
			s = xstream.Range(c)
		}
		var out *xstream.Stream
		mid := func() {
			if pause {
				t.Pause()
			}
			if slow {
				t.Sleep(2 * time.Hour)
			}
		}
		switch op {
		case "walk":
			out = s.Walk(func(x any, pipe chan<- any) {
				t.Log("fb", "x", num(x))
				mid()
				for j := 0; j < emits; j++ {
					v := num(x)*10 + j
					if nilOut {
						t.Log("em", "x", num(x), "v", 0)
						pipe <- nil
						continue
					}
					t.Log("em", "x", num(x), "v", v)
					pipe <- rep(rich, v)
				}
				mid()
				t.Log("fe", "x", num(x))
			}, o.o...)
		case "map", "flatmap":
			fn := func(x any) any {
				t.Log("fb", "x", num(x))
				mid()
				v := num(x) * 10
				if nilOut {
					v = 0
				}
				t.Log("em", "x", num(x), "v", v)
				t.Log("fe", "x", num(x))
				if nilOut {
					return nil
				}
				return rep(rich, v)
			}
			if op == "map" {
				out = s.Map(fn, o.o...)
			} else {
				out = s.FlatMap(fn, o.o...)
			}
		case "filter":
			out = s.Filter(func(x any) bool {
				t.Log("fb", "x", num(x))
				mid()
				ok := num(x)%3 != emits%3
				if ok {
					t.Log("em", "x", num(x), "v", num(x))
				}
				t.Log("fe", "x", num(x))
				return ok
			}, o.o...)
		case "parallel":
			s.ParallelFinish(func(x any) {
				t.Log("fb", "x", num(x))
				mid()
				t.Log("fe", "x", num(x))
			}, o.o...)
			t.Log("oend")
			return
		}
		for v := range out.Chan() {
			t.Log("out", "v", num(v))
			if slow {
				t.Sleep(3 * time.Hour)
			}
		}
		t.Log("oend")
	}}
}

// ---- concat and copy

// base is the number before those of the elements of input k.
func base(k int) int {
	if k < 8 {
		return 1000 * (k + 1)
	}
	return 10000 + 1000*k
}

// values are n elements of input k; 0 stands for nil.
func values(r *vsched.Rand, k, n int) []int {
	vs := []int{}
	nils, quota := r.N(2) == 0, 3
	for j := 1; j <= n; j++ {
		if nils && quota > 0 && r.N(4) == 0 && k < 4 { // elements that are alike multiply the explanations
			quota--
			vs = append(vs, 0)
			continue
		}
		if nils && r.N(4) == 0 && k < 4 && j < 4 {
			vs = append(vs, zeroInt+3*k+j-1)
			continue
		}
		vs = append(vs, base(k)+j)
	}
	return vs
}

func anys(rich bool, vs []int) []any {
	var xs []any
	for _, v := range vs {
		if v == 0 {
			xs = append(xs, nil)
		} else {
			xs = append(xs, rep(rich, v))
		}
	}
	return xs
}

// shows describes elements.
func shows(xs []any) string {
	s := ""
	for _, x := range xs {
		switch v := x.(type) {
		case nil:
			s += " nil"
		case []any:
			s += " [" + shows(v) + "]"
		case *xstream.Stream:
			s += " stream"
		default:
			s += fmt.Sprintf(" %T:%d", x, number(x))
		}
		if len(s) > 400 {
			return s + "..."
		}
	}
	return s
}

func joinGen(fam string, i int, r *vsched.Rand) h.Scenario {
	if fam == "copy" {
		return copyGen(i, r)
	}
	n := 1 + r.N(4)
	many := i%20 == 9
	if many {
		n = h.Pick(r, []int{8, 17, 34, 65, 130})
	}
	rich, slow := r.N(2) == 0, r.N(4) == 0
	lens := make([]int, n)
	kinds := make([]string, n)
	bufs := make([]int, n)
	for k := range lens {
		lens[k] = r.N(5)
		bufs[k] = h.Pick(r, []int{0, 1, 1, 4, 20})
		if r.N(10) == 0 {
			lens[k] = 5 + r.N(12)
			if r.N(8) == 0 {
				lens[k] = h.Pick(r, []int{70, 130, 257})
			}
		}
		kinds[k] = h.Pick(r, []string{"of", "from", "from", "range"})
		if r.N(8) == 0 {
			kinds[k], lens[k] = "empty", 0
		}
	}
	// a generator that waits for an element of another stream to come out
	dep, on := -1, -1
	if n > 1 && (r.N(3) == 0 || many && r.N(2) == 0) {
		dep = r.N(n)
		on = (dep + 1 + r.N(n-1)) % n
		kinds[dep] = "from"
		if lens[on] == 0 {
			lens[on] = 1
			if kinds[on] == "empty" {
				kinds[on] = "of"
			}
		}
	}
	method := r.N(2) == 0
	srcs := make([][]int, n)
	for k := range srcs {
		srcs[k] = values(r, k, lens[k])
	}
	told1 := 0 // the element the dependent generator waits for
	if on >= 0 {
		told1 = base(on) + 1
		srcs[on][0] = told1
	}
	name := fmt.Sprint("concat ", kinds, srcs, " dep ", dep, " on ", on, " method ", method, " rich ", rich, " slow ", slow)
	return h.Scenario{NoDFS: many, Name: name, Head: map[string]any{"srcs": srcs, "op": "concat", "names": 0}, Run: func(t *h.T) {
		seen, told := make(chan struct{}), false
		ss := make([]*xstream.Stream, n)
		for k := range ss {
			k := k
			xs := anys(rich, srcs[k])
			switch kinds[k] {
			case "empty":
				ss[k] = xstream.Empty()
			case "of":
				ss[k] = xstream.Of(xs...)
			case "from":
				ss[k] = xstream.From(func(c chan<- any) {
					if k == dep {
						<-seen
					}
					for _, x := range xs {
						if slow {
							t.Sleep(2 * time.Hour)
						}
						c <- x
					}
					t.Log("se", "s", k+1)
				})
			default:
				c := make(chan any, bufs[k])
				t.Go(func() {
					for _, x := range xs {
						c <- x
					}
					t.Log("se", "s", k+1)
					close(c)
				})
				ss[k] = xstream.Range(c)
			}
			if kinds[k] == "of" || kinds[k] == "empty" {
				t.Log("se", "s", k+1)
			}
		}
		var out *xstream.Stream
		if method {
			out = ss[0].Concat(ss[1:]...)
		} else {
			out = xstream.Concat(ss[0], ss[1:]...)
		}
		for v := range out.Chan() {
			x := number(v)
			if on >= 0 && x == told1 && !told {
				close(seen)
				told = true
			}
			t.Log("out", "c", 1, "v", x)
			if slow {
				t.Sleep(3 * time.Hour)
			}
		}
		t.Log("oend", "c", 1)
	}}
}

func copyGen(i int, r *vsched.Rand) h.Scenario {
	n := r.N(4)
	if r.N(6) == 0 {
		n = 4 + r.N(3)
	}
	if i%23 == 0 {
		n = 0
	}
	many := i%20 == 9
	if many {
		n = h.Pick(r, []int{9, 17, 33})
	}
	rich, slow := r.N(2) == 0, r.N(4) == 0
	l := r.N(6)
	if r.N(4) == 0 {
		l = 6 + r.N(15)
		if r.N(6) == 0 && !many {
			l = h.Pick(r, []int{70, 130, 257})
		}
	}
	bufs := make([]int, n)
	early := make([]bool, n)
	same := h.Pick(r, []int{-1, -1, 0, 1, 3, 4, 8, 9, 16})
	for k := range bufs {
		bufs[k] = h.Pick(r, []int{0, 0, 1, 1, 2, 5, 20})
		if same >= 0 && r.N(4) > 0 {
			bufs[k] = same
		}
		early[k] = r.N(6) == 0
	}
	src := values(r, 0, l)
	kind := h.Pick(r, []string{"of", "from"})
	label := func(k int) string { return fmt.Sprint("copy", k) }
	if r.N(2) == 0 {
		ls := []string{"", "a", "A", "0", " ", "é", "copy", "a\x00", "世界"}
		label = func(k int) string {
			if k < len(ls) {
				return ls[k]
			}
			return fmt.Sprint(k)
		}
	}
	return h.Scenario{NoDFS: many, Name: fmt.Sprint("copy ", bufs, " rich ", rich, " slow ", slow, " early ", early, " of ", src, " ", kind), Head: map[string]any{"srcs": [][]int{src}, "op": "copy", "names": n}, Run: func(t *h.T) {
		xs := anys(rich, src)
		var s *xstream.Stream
		srcEnd := make(chan struct{})
		if kind == "of" {
			s = xstream.Of(xs...)
			t.Log("se", "s", 1)
			close(srcEnd)
		} else {
			s = xstream.From(func(c chan<- any) {
				for _, x := range xs {
					c <- x
				}
				t.Log("se", "s", 1)
				close(srcEnd)
			})
		}
		p := map[string]int{}
		for k, b := range bufs {
			p[label(k)] = b
		}
		m := s.Copy(p)
		if len(m) != n {
			t.Log("oops", "n", len(m))
		}
		var fs []func()
		for k := range bufs {
			k := k
			c := m[label(k)]
			if c == nil {
				t.Log("oops", "n", k)
				continue
			}
			fs = append(fs, func() {
				if early[k] {
					// answered early: the rest is discarded
					v, err := c.FindFirst()
					if err != nil {
						t.Log("oend", "c", k+1)
					} else {
						t.Log("out", "c", k+1, "v", number(v))
						t.Log("stop", "c", k+1)
					}
					return
				}
				for v := range c.Chan() {
					t.Log("out", "c", k+1, "v", number(v))
					if slow && k%2 == 0 {
						t.Sleep(3 * time.Hour)
					}
				}
				t.Log("oend", "c", k+1)
			})
		}
		t.Par(fs...)
		<-srcEnd // whatever the copies are used for, the source is read to its end
	}}
}

// ---- life cycle

type pipe struct {
	src    int // number of elements
	stages []stage
	term   stage
}

func (p pipe) String() string {
	s := fmt.Sprint(p.src)
	for _, g := range p.stages {
		s += fmt.Sprint(" ", g.Op, g.n)
	}
	return s + " " + p.term.Op + fmt.Sprint(p.term.n)
}

type life struct {
	t    *h.T
	mu   vsync.Mutex
	gens int
	done chan int
	slow bool
	nils bool // some elements are nil
}

func (l *life) gen(n int, from bool) *xstream.Stream {
	l.mu.Lock()
	l.gens++
	id := l.gens
	l.mu.Unlock()
	nils := l.nils
	body := func(c chan<- any) {
		l.t.Log("gs", "g", id)
		for j := 1; j <= n; j++ {
			if l.slow {
				l.t.Sleep(time.Hour)
			}
			if nils && (j+id)%3 == 0 {
				c <- nil
				continue
			}
			c <- j
		}
		l.t.Log("ge", "g", id)
		l.done <- id
	}
	if from {
		return xstream.From(body)
	}
	c := make(chan any)
	l.t.Go(func() { body(c); close(c) })
	return xstream.Range(c)
}

func (l *life) open(p pipe, rnd *vsched.Rand) *xstream.Stream {
	s := l.gen(p.src, true)
	for _, g := range p.stages {
		switch g.Op {
		case "walk":
			s = s.Walk(func(x any, c chan<- any) { c <- x; c <- x }, xstream.WithWorkSize(g.n))
		case "pmap":
			s = s.Map(func(x any) any { return x }, xstream.WithWorkSize(g.n))
		case "none":
			s = s.Filter(func(x any) bool { return false }, xstream.WithWorkSize(g.n))
		case "flat":
			s = s.FlatMap(func(x any) any { return x }, xstream.WithWorkSize(g.n))
		case "concat":
			s = s.Concat(l.gen(g.n, true), l.gen(1, false), xstream.Empty())
		default:
			s = apply(l.t, 0, g, s)
		}
	}
	return s
}

func (l *life) close(id int, p pipe, s *xstream.Stream) {
	t := l.t
	t.Log("cs", "c", id)
	match := func(x any) bool { k, ok := x.(int); return ok && k >= p.term.n }
	miss := func(x any) bool { return !match(x) }
	switch p.term.Op {
	case "list":
		for range s.Chan() {
			if l.slow {
				t.Sleep(time.Hour)
			}
		}
	case "count":
		s.Count()
	case "done":
		s.Done()
	case "foreach":
		s.Foreach(func(any) {})
	case "ordered":
		s.ForeachOrdered(func(any) {})
	case "any":
		s.AnyMach(match)
	case "all":
		s.AllMach(miss)
	case "first":
		s.FindFirst()
	case "last":
		s.FindLast()
	case "groupby":
		g := xstream.GroupBy(keyFn("mod2"))
		s.Collection(g)
		g.Map()
	case "parallel":
		s.ParallelFinish(func(any) {}, xstream.WithWorkSize(p.term.n))
	case "copy":
		m := s.Copy(map[string]int{"a": p.term.n, "b": 0})
		t.Par(func() { m["a"].Count() }, func() { m["b"].FindFirst() })
	}
	t.Log("ce", "c", id)
}

func lifeGen(fam string, i int, r *vsched.Rand) h.Scenario {
	ops := []string{"distinct", "buffer", "split", "splits", "sort", "reverse", "tail", "skip", "limit", "merge", "group", "peek", "map", "filter", "from", "walk", "pmap", "none", "flat", "concat", "limit", "tail", "skip"}
	terms := []string{"list", "count", "done", "foreach", "ordered", "any", "all", "first", "last", "groupby", "parallel", "copy", "first", "any", "all"}
	mk := func(k int) pipe {
		p := pipe{src: r.N(6)}
		if r.N(5) == 0 {
			p.src = h.Pick(r, []int{9, 17, 20, 34, 70, 130})
		}
		streams := false
		for d := r.N(4); d > 0; d-- {
			op := ops[r.N(len(ops))]
			if d == 1 && i < 4*len(ops) {
				op = ops[i%len(ops)]
			}
			g := stage{Op: op, F: "mod2"}
			switch op {
			case "split", "splits":
				g.n = h.Pick(r, []int{1, 2, 5, math.MaxInt})
				if op == "splits" {
					streams = true
				}
			case "tail", "skip", "limit":
				g.n = h.Pick(r, []int{0, 0, 1, 1, 2, 3, p.src, p.src + 1, math.MaxInt})
			case "walk", "pmap", "none", "flat":
				g.n = h.Pick(r, []int{0, 1, 2, 3})
			case "filter":
				g.F, g.n = "id", h.Pick(r, []int{1, 3, 100})
			default:
				g.n = r.N(3)
				if op == "buffer" && r.N(3) == 0 {
					g.n = h.Pick(r, []int{17, 20, 40, 64})
					p.src += r.N(2) * 70
				}
			}
			p.stages = append(p.stages, g)
			if streams {
				break
			}
		}
		op := terms[r.N(len(terms))]
		if i < 4*len(terms) {
			op = terms[i%len(terms)]
		}
		if op == "groupby" && streams {
			op = "list"
		}
		p.term = stage{Op: op, n: h.Pick(r, []int{0, 1, 2, 100})}
		if i%12 == 5 { // a buffer that is full when its reader stops caring
			p.src = 90 + r.N(60)
			p.stages = []stage{{Op: "buffer", n: h.Pick(r, []int{1, 2, 17, 33, 64})}}
			if r.N(2) == 0 {
				p.stages = append(p.stages, stage{Op: h.Pick(r, []string{"limit", "limit", "tail", "skip"}), n: r.N(3)})
			} else {
				p.term = stage{Op: h.Pick(r, []string{"any", "all", "first"}), n: r.N(3)}
			}
		}
		return p
	}
	crowd := fam == "crowd"
	var ps []pipe
	np := 1
	switch {
	case crowd:
		np = 200
	case r.N(4) == 0:
		np = 2 + r.N(2)
	}
	for k := 0; k < np; k++ {
		if crowd {
			ps = append(ps, pipe{src: 2, stages: []stage{{Op: h.Pick(r, []string{"map", "buffer", "peek"})}}, term: stage{Op: h.Pick(r, []string{"count", "first", "done"})}})
			continue
		}
		ps = append(ps, mk(k))
	}
	slow := !crowd && r.N(4) == 0
	nils := r.N(3) == 0
	name := fmt.Sprint(np, " pipelines slow ", slow, " nils ", nils, " ")
	if np < 5 {
		name += fmt.Sprint(ps)
	}
	return h.Scenario{Name: name, NoDFS: crowd, MaxSteps: 2000000, Head: map[string]any{"cons": np}, Run: func(t *h.T) {
		l := &life{t: t, done: make(chan int, 100000), slow: slow, nils: nils}
		if crowd {
			if t.Native() { // as many as a machine may have
				var more []pipe
				for len(more) < 15000 {
					more = append(more, ps...)
				}
				all := make([]*xstream.Stream, len(more))
				tt := l.t
				l.t = &h.T{}
				for k, p := range more {
					all[k] = l.open(p, nil)
				}
				for k, p := range more {
					l.close(k+1, p, all[k])
				}
				for k := 0; k < l.gens; k++ {
					<-l.done
				}
				l.t, l.gens = tt, 0
			}
			ss := make([]*xstream.Stream, np)
			for k, p := range ps {
				ss[k] = l.open(p, nil)
			}
			for k, p := range ps {
				l.close(k+1, p, ss[k])
			}
		} else {
			var fs []func()
			for k, p := range ps {
				k, p := k, p
				fs = append(fs, func() { l.close(k+1, p, l.open(p, nil)) })
			}
			t.Par(fs...)
		}
		for k := 0; k < l.gens; k++ {
			<-l.done
		}
		t.Log("gens", "n", l.gens)
	}}
}

func main() {
	h.Main(h.Driver{Name: "str", Gen: func(fam string, i int, r *vsched.Rand) h.Scenario {
		switch fam {
		case "seq", "term":
			return seqGen(fam, i, r)
		case "walk":
			return walkGen(fam, i, r)
		case "concat", "copy":
			return joinGen(fam, i, r)
		case "long", "long-term", "long-par", "long-join", "long-life":
			return longGen(fam, i, r)
		}
		return lifeGen(fam, i, r)
	}, Count: func(fam, tier string) int {
		switch fam {
		case "seq":
			return h.By(tier, 4000, 40000)
		case "term":
			return h.By(tier, 1800, 18000)
		case "long":
			return h.By(tier, 240, 4000)
		case "long-term", "long-par", "long-join", "long-life":
			return h.By(tier, 120, 2000)
		case "walk":
			return h.By(tier, 240, 2400)
		case "crowd":
			return h.By(tier, 8, 8)
		case "life":
			return h.By(tier, 400, 4000)
		}
		return h.By(tier, 160, 1600)
	}})
}
