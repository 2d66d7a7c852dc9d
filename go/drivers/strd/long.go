package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"sync/atomic"

	"github.com/chenquan/go-pkg/xstream"
	"verif.local/mbv/h"
	"verif.local/mbv/vsched"
)

// Long streams: elements are those of an arithmetic progression, and so is the
// result of every stage used here; only the progressions are recorded.  They run
// natively.

// lrep is the element for v: nil0 makes 0 nil.
func lrep(rich, nil0 bool, v int) any {
	if nil0 && v == 0 {
		return nil
	}
	if rich && v%7 == 3 {
		return strconv.Itoa(v)
	}
	if rich && v%7 == 5 {
		return float64(v)
	}
	return v
}

func lnum(x any) int {
	switch v := x.(type) {
	case nil:
		return 0
	case int:
		return v
	case float64:
		return int(v)
	case string:
		n, err := strconv.Atoi(v)
		if err == nil {
			return n
		}
	}
	return -12345
}

func chunkAP(xs []any) *h.AP {
	p := &h.AP{}
	for _, x := range xs {
		p.Add(lnum(x))
	}
	return p
}

func longGen(fam string, i int, r *vsched.Rand) h.Scenario {
	n := h.Pick(r, []int{600, 1000, 1024, 1025, 3000, 4096, 4097, 10000, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 131073, 150000})
	start := h.Pick(r, []int{0, 1})
	rich, nil0 := r.N(2) == 0, r.N(2) == 0
	kind := h.Pick(r, []string{"of", "from", "range"})
	var gs []stage
	add := func(op string, k int) { gs = append(gs, stage{op, cap32(k), "", k}) }
	ops := []string{"buffer", "tail", "skip", "limit", "reverse", "sort", "peek", "distinct", "keep"}
	var terms []string
	switch fam {
	case "long":
		terms = []string{"list", "split", "splits", "merge", "group", "list", "list"}
	case "long-term":
		terms = []string{"count", "foreach", "ordered", "any", "all", "first", "last", "groupby"}
	case "long-par":
		terms = []string{"list", "list", "parallel"}
	case "long-join":
		terms = []string{"copy", "copyseq", "concat"}
	case "long-life":
		terms = []string{"first", "any", "all", "done", "count", "list"}
	}
	k := func() int {
		return max(0, h.Pick(r, []int{0, 1, 2, 100, 255, 256, 257, 512, 1000, 1024, 4096, 10000, 32767, 32768, 65535, 65536, n - 1, n, n + 1, n / 2, n - 100, n - 1000, 1 << 31, 1 << 32, 1<<32 + 5, 1<<40 + 1, math.MaxInt, math.MaxInt32}))
	}
	depth := r.N(3)
	if fam == "long" {
		depth = 1 + r.N(2)
	}
	for d := 0; d < depth; d++ {
		op := h.Pick(r, ops)
		if fam == "long" && d == 0 && i%3 != 2 {
			op = ops[i/3%len(ops)]
		}
		if fam == "long-life" {
			op = h.Pick(r, []string{"buffer", "tail", "skip", "limit", "limit", "tail", "skip", "none"})
		}
		switch op {
		case "buffer":
			add(op, h.Pick(r, []int{0, 1, 64, 100, 1024, 5000, 100000}))
		case "distinct":
			add(op, h.Pick(r, []int{1, 2, 100, 1000, 65536, 70000, 200000}))
		case "keep":
			add(op, 2+r.N(4))
		case "tail", "skip", "limit":
			add(op, k())
		default:
			add(op, 0)
		}
	}
	if fam == "long-par" {
		add(h.Pick(r, []string{"map", "filter", "walk", "flatmap"}), h.Pick(r, []int{1, 1, 1, 2, 8, 100}))
	}
	tk := 0
	op := terms[i%len(terms)]
	switch op {
	case "split", "splits":
		tk = h.Pick(r, []int{n / 100, n / 7, n/2 + 1, n - 1, n, n + 1, 1 << 32, math.MaxInt, 1000, 1024, 4096, 65536})
		if tk < n/200+1 {
			tk = n/200 + 1
		}
	case "group", "groupby":
		tk = 2 + r.N(4)
	case "any", "all":
		tk = h.Pick(r, []int{0, 1, 1000, n / 2, n - 1, n, n + 100, 66000})
	case "parallel":
		tk = h.Pick(r, []int{1, 2, 8, 100})
	case "copy":
		tk = h.Pick(r, []int{0, 1, 16, 1000, 100000})
	}
	term := stage{op, cap32(tk), "", tk}
	if gs == nil {
		gs = []stage{}
	}
	name := fmt.Sprint("long ", n, " from ", start, " rich ", rich, " nil ", nil0, " ", kind)
	for _, g := range gs {
		name += fmt.Sprint(" ", g.Op, "(", g.n, ")")
	}
	name += fmt.Sprint(" ", term.Op, "(", term.n, ")")
	for _, g := range gs {
		if g.Op == "flatmap" && nil0 {
			nil0 = false
		}
	}
	return h.Scenario{Name: name, Once: true, Head: map[string]any{"first": start, "count": n, "stages": gs, "term": term}, Run: func(t *h.T) {
		var done int32
		xs := make([]any, n)
		for j := range xs {
			xs[j] = lrep(rich, nil0, start+j)
		}
		var s *xstream.Stream
		fin := make(chan int, 1)
		switch kind {
		case "of":
			s = xstream.Of(xs...)
			fin <- 1
		case "from":
			s = xstream.From(func(c chan<- any) {
				for _, x := range xs {
					c <- x
				}
				fin <- 1
			})
		default:
			c := make(chan any, 10)
			t.Go(func() {
				for _, x := range xs {
					c <- x
				}
				close(c)
				fin <- 1
			})
			s = xstream.Range(c)
		}
		peeks := map[int]*h.AP{}
		shuffled := false
		for q, g := range gs {
			g := g
			switch g.Op {
			case "tail", "skip", "limit", "buffer", "reverse":
				s = apply(t, q+1, g, s)
			case "sort":
				s = s.Sort(func(a, b any) bool { return lnum(a) < lnum(b) })
				shuffled = false
			case "peek":
				p := &h.AP{}
				peeks[q+1] = p
				s = s.Peek(func(x any) { p.Add(lnum(x)) })
			case "distinct": // the first n of the residues
				s = s.Distinct(func(x any) any { return lnum(x) % g.n })
			case "keep":
				s = s.Filter(func(x any) bool { return lnum(x)%g.n == 0 })
			case "none":
				s = s.Filter(func(x any) bool { return false })
			case "map":
				s = s.Map(func(x any) any { return x }, xstream.WithWorkSize(g.n))
			case "filter":
				s = s.Filter(func(x any) bool { return true }, xstream.WithWorkSize(g.n))
			case "walk":
				s = s.Walk(func(x any, c chan<- any) { c <- x }, xstream.WithWorkSize(g.n))
			case "flatmap":
				s = s.FlatMap(func(x any) any { return x }, xstream.WithWorkSize(g.n))
			}
			switch g.Op {
			case "map", "filter", "walk", "flatmap":
				shuffled = shuffled || g.n > 1
			}
		}
		var aps []*h.AP // in order of the stream
		cnt, ok := 0, false
		res, msg := 0, ""
		out := &h.AP{}
		read := func(s *xstream.Stream) *h.AP {
			if !shuffled {
				p := &h.AP{}
				for x := range s.Chan() {
					p.Add(lnum(x))
				}
				return p
			}
			var vs []int
			for x := range s.Chan() {
				vs = append(vs, lnum(x))
			}
			return h.APOf(vs, true)
		}
		match := func(x any) bool { out.Add(lnum(x)); return lnum(x) >= term.n }
		switch op {
		case "list":
			aps = append(aps, read(s))
		case "split":
			for x := range s.Split(tk).Chan() {
				aps = append(aps, chunkAP(x.([]any)))
			}
		case "splits":
			for x := range s.SplitSteam(tk).Chan() {
				aps = append(aps, read(x.(*xstream.Stream)))
			}
		case "merge":
			for x := range s.Merge().Chan() {
				aps = append(aps, chunkAP(x.([]any)))
			}
		case "group":
			for x := range s.Group(func(x any) any { return lnum(x) % tk }).Chan() {
				aps = append(aps, chunkAP(x.([]any)))
			}
			sort.Slice(aps, func(i, j int) bool { return aps[i].A%tk < aps[j].A%tk })
		case "groupby":
			g := xstream.GroupBy(func(x any) any { return lnum(x) % tk })
			s.Collection(g)
			m := g.Map()
			for q := 0; q < tk; q++ {
				if xs, ok := m[q]; ok {
					aps = append(aps, chunkAP(xs))
				}
			}
			if len(m) != len(aps) {
				aps = nil
			}
		case "count":
			cnt = s.Count()
		case "done":
			s.Done()
		case "foreach":
			s.Foreach(func(x any) { out.Add(lnum(x)) })
		case "ordered":
			s.ForeachOrdered(func(x any) { out.Add(lnum(x)) })
		case "any":
			ok = s.AnyMach(match)
		case "all":
			ok = s.AllMach(func(x any) bool { return !match(x) })
		case "first", "last":
			var x any
			var err error
			if op == "first" {
				x, err = s.FindFirst()
			} else {
				x, err = s.FindLast()
			}
			res, msg = lnum(x), errText(err)
		case "parallel":
			ch := make(chan int, n)
			s.ParallelFinish(func(x any) { ch <- lnum(x) }, xstream.WithWorkSize(tk))
			close(ch)
			var vs []int
			for v := range ch {
				vs = append(vs, v)
			}
			out = h.APOf(vs, tk > 1 || shuffled)
		case "copy":
			m := s.Copy(map[string]int{"a": tk, "b": 0, "": 5})
			rs := make([]*h.AP, 3)
			t.Par(func() { rs[0] = read(m["a"]) }, func() { rs[1] = read(m["b"]) }, func() { rs[2] = read(m[""]) })
			aps = rs
		case "copyseq": // one after the other: the buffers can hold all
			m := s.Copy(map[string]int{"a": n, "b": n + 1, "c": 2 * n})
			for _, c := range []string{"b", "c", "a"} {
				aps = append(aps, read(m[c]))
			}
		case "concat": // with a stream of negative numbers
			neg := xstream.From(func(c chan<- any) {
				for j := 1; j <= n; j++ {
					c <- -j
				}
			})
			a, b := &h.AP{}, &h.AP{}
			for x := range s.Concat(neg).Chan() {
				if v := lnum(x); v < 0 {
					b.Add(v)
				} else {
					a.Add(v)
				}
			}
			aps = append(aps, a, b)
		}
		<-fin // the source has been drained
		_ = atomic.AddInt32(&done, 1)
		rec := []any{}
		for _, p := range aps {
			rec = append(rec, p.Rec())
		}
		pk := []any{}
		for q := range gs {
			if p := peeks[q+1]; p != nil {
				m := p.Rec()
				m["k"] = q + 1
				pk = append(pk, m)
			}
		}
		t.Log("ret", "aps", rec, "n", cnt, "b", ok, "x", res, "err", msg, "calls", out.Rec(), "pk", pk)
	}}
}
