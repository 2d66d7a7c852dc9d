// mapd drives the concurrent maps of xsync.
package main

import (
	"fmt"
	"strings"
	"sync"

	"github.com/chenquan/go-pkg/xsync"
	"verif.local/mbv/h"
	"verif.local/mbv/vsched"
)

// op is one client operation.
type op struct {
	m    string
	k    int
	stop int // Range: stop after this many callbacks (-1: never)
	pan  bool
	null int  // the value stored or computed is nil
	in   []op // executed inside the callback (Range) or by it
}

func (o op) String() string {
	s := fmt.Sprintf("%s(%d)", o.m, o.k)
	if o.m == "Range" {
		s = fmt.Sprintf("Range[%d]", o.stop)
	}
	if o.pan {
		s += "!"
	}
	if o.null > 0 {
		s += fmt.Sprint("nil", o.null)
	}
	if len(o.in) > 0 {
		s += "{" + progString(o.in) + "}"
	}
	return s
}

func (o op) val(v int) int {
	switch {
	case o.null == 1:
		return 0
	case o.null >= 100: // the same value again and again
		return o.null - 100
	case o.null > 1:
		return h.ZeroBase + o.null - 2
	}
	return v
}

func progString(p []op) string {
	var ss []string
	for _, o := range p {
		ss = append(ss, o.String())
	}
	return strings.Join(ss, " ")
}

type client struct {
	t    *h.T
	m    *xsync.Map
	mix  h.Mix
	keys []interface{}
	idx  map[interface{}]int
}

// vi is the number of a result (-1: nothing there).
func (c *client) vi(v interface{}, ok bool) int {
	if v == nil && !ok {
		return -1
	}
	return c.mix.Num(v)
}

func (c *client) ki(k interface{}) int {
	if i, ok := c.idx[k]; ok {
		return i
	}
	return -2
}

func (c *client) do(o op) {
	t, m := c.t, c.m
	key := c.keys[max(o.k, 0)]
	switch o.m {
	case "Load":
		id := t.Call("Load", "k", o.k)
		v, ok := m.Load(key)
		t.Log("ret", "id", id, "v", c.vi(v, ok), "ok", ok)
	case "Store":
		id := t.ID()
		t.Log("call", "id", id, "m", "Store", "k", o.k, "v", o.val(id*10))
		m.Store(key, c.mix.Val(o.val(id*10)))
		t.Log("ret", "id", id)
	case "LoadOrStore":
		id := t.ID()
		t.Log("call", "id", id, "m", "LoadOrStore", "k", o.k, "v", o.val(id*10))
		v, ok := m.LoadOrStore(key, c.mix.Val(o.val(id*10)))
		t.Log("ret", "id", id, "v", c.mix.Num(v), "ok", ok)
	case "LoadAndDelete":
		id := t.Call("LoadAndDelete", "k", o.k)
		v, ok := m.LoadAndDelete(key)
		t.Log("ret", "id", id, "v", c.vi(v, ok), "ok", ok)
	case "Delete":
		id := t.Call("Delete", "k", o.k)
		m.Delete(key)
		t.Log("ret", "id", id)
	case "Clear":
		id := t.Call("Clear")
		m.Clear()
		t.Log("ret", "id", id)
	case "CIA", "CIP":
		id := t.Call(o.m, "k", o.k)
		n := 0
		func() {
			defer func() {
				if e := recover(); e != nil {
					if e != "boom" {
						panic(e)
					}
					t.Log("pan", "id", id)
				}
			}()
			cb := func(k interface{}, old int) interface{} {
				n++
				r := o.val(id*10 + n%10)
				if o.pan {
					t.Log("cb", "id", id, "k", c.ki(k), "v", old, "r", -3)
					panic("boom")
				}
				t.Log("cb", "id", id, "k", c.ki(k), "v", old, "r", r)
				for _, x := range o.in {
					c.do(x)
				}
				return c.mix.Val(r)
			}
			var v interface{}
			var ok bool
			if o.m == "CIA" {
				v, ok = m.ComputeIfAbsent(key, func(k interface{}) interface{} { return cb(k, -1) })
			} else {
				v, ok = m.ComputeIfPresent(key, func(k, value interface{}) interface{} { return cb(k, c.mix.Num(value)) })
			}
			t.Log("ret", "id", id, "v", c.vi(v, ok || o.m == "CIA"), "ok", ok)
		}()
	case "Range":
		id := t.Call("Range")
		n := 0
		m.Range(func(k, v interface{}) bool {
			n++
			cont := o.stop < 0 || n < o.stop
			t.Log("rcb", "id", id, "k", c.ki(k), "v", c.mix.Num(v), "r", cont)
			for _, x := range o.in {
				y := x
				if y.k < 0 {
					y.k = c.ki(k)
				}
				c.do(y)
			}
			return cont
		})
		t.Log("ret", "id", id)
	}
}

func (c *client) prog(p []op) {
	for _, o := range p {
		c.do(o)
	}
}

// tails: what the clients do at the end, one after another. The second kind
// writes before it reads, while the parts of the map are as the run left them.
const (
	readTail = iota
	writeTail
)

func tail(kind, keys int) (p []op) {
	if kind == writeTail {
		p = append(p, o("Store", 0))
	}
	for k := 0; k < keys; k++ {
		p = append(p, o("Load", k))
	}
	if kind == writeTail {
		for k := 1; k < keys; k++ {
			p = append(p, o("Store", k))
		}
		p = append(p, o("Range", 0))
		for k := 0; k < keys; k++ {
			p = append(p, o("Load", k))
		}
		return p
	}
	return append(p, o("Range", 0))
}

func scenario(setup []op, threads [][]op, keys int, mix h.Mix, off int, end ...int) h.Scenario {
	name := "setup: " + progString(setup)
	for _, p := range threads {
		name += " | " + progString(p)
	}
	return h.Scenario{Name: name, Head: map[string]any{"nk": keys}, Once: len(threads) == 0, Run: func(t *h.T) {
		c := &client{t: t, m: &xsync.Map{}, mix: mix, keys: mix.Keys(keys, off), idx: map[interface{}]int{}}
		for i, k := range c.keys {
			c.idx[k] = i
		}
		c.prog(setup)
		if len(threads) == 0 {
			return
		}
		var wg sync.WaitGroup
		for _, p := range threads {
			p := p
			wg.Add(1)
			t.Go(func() {
				defer wg.Done()
				c.prog(p)
			})
		}
		wg.Wait()
		kind := readTail
		if len(end) > 0 {
			kind = end[0]
		}
		c.prog(tail(kind, keys))
	}}
}

func o(m string, k int) op { return op{m: m, k: k, stop: -1} }

// canonical setups reaching every internal state of the entry of key 0:
// absent, clean, dirty only, deleted in the clean part, expunged, re-used.
var setups = [][]op{
	{},
	{o("Store", 0)},
	{o("Store", 0), o("Load", 0)},
	{o("Store", 0), o("Range", 0)},
	{o("Store", 0), o("Range", 0), o("Delete", 0)},
	{o("Store", 0), o("Range", 0), o("Delete", 0), o("Store", 1)},
	{o("Store", 0), o("Range", 0), o("Store", 1)},
	{o("Store", 1), o("Range", 0), o("Store", 0)},
	{o("Store", 0), o("Store", 1), o("Range", 0), o("Delete", 0), o("Store", 2)},
	{o("Store", 0), o("Range", 0), o("Delete", 0), o("Store", 1), o("Store", 0)},
	{o("Store", 1), o("Store", 2), o("Range", 0), o("Delete", 1), o("Store", 0)},
	{o("Store", 0), o("Range", 0), o("Delete", 0), o("Store", 1), o("Range", 0)},
}

func shapes(keys int) (r [][]op) {
	for _, p := range h.Shapes(keys) {
		q := []op{}
		for _, x := range p {
			q = append(q, o(x[0].(string), int(x[1].(float64))))
		}
		r = append(r, q)
	}
	return r
}

// shapePairs: every shape, every operation of as, in parallel with every one of bs.
func shapePairs(fam string, keys int) (ss, as, bs [][]op) {
	var a, b []op
	ss, a, b = shapeOps(fam, keys)
	for _, x := range a {
		as = append(as, []op{x})
	}
	for _, x := range b {
		bs = append(bs, []op{x})
	}
	return
}

func shapeOps(fam string, keys int) (ss [][]op, as, bs []op) {
	ss = shapes(keys)
	on := func(k int, ms ...string) (r []op) {
		for _, m := range ms {
			r = append(r, o(m, k))
		}
		return r
	}
	switch fam {
	case "basic-shapes":
		as = on(0, "Load", "Store", "LoadOrStore", "LoadAndDelete", "Clear")
		bs = append(append(as, on(1, "Load", "Store", "LoadOrStore", "LoadAndDelete")...), o("Range", 0), o("Store", keys))
	case "compute-shapes":
		as = on(0, "CIA", "CIP")
		bs = append(append(as, on(0, "Load", "Store", "LoadOrStore", "LoadAndDelete", "Clear", "Range")...), on(1, "Load", "Store", "LoadAndDelete", "CIA")...)
		bs = append(bs, o("Store", keys))
	case "range-shapes":
		as = on(0, "Range")
		for k := 0; k < keys; k++ {
			bs = append(bs, on(k, "Store", "LoadOrStore", "LoadAndDelete", "CIA", "CIP")...)
		}
		bs = append(bs, o("Load", 0), o("Clear", 0), o("Range", 0), o("Store", keys), o("CIA", keys))
	}
	return
}

// clearPairs: two operations on different keys.
func clearPairs(keys int) (r [][]op) {
	for a := 0; a < keys; a++ {
		for b := 0; b < keys; b++ {
			if a != b {
				for _, m := range []string{"Load", "Store", "LoadAndDelete"} {
					r = append(r, []op{o(m, a), o("Load", b)})
				}
			}
		}
	}
	return r
}

// duos: one operation against two in a row, where the map ends up in a state
// that only writes after it tell from a sound one.
var duoSetups = [][]op{
	{o("Store", 0), o("Range", 0)},
	{o("Store", 0), o("Store", 1), o("Range", 0)},
	{o("Store", 0), o("Range", 0), o("Store", 1)},
	{o("Store", 0), o("Range", 0), o("Delete", 0)},
}

func duos(fam string) (as []op, bs [][]op) {
	as = []op{o("LoadAndDelete", 0), o("Store", 0), o("LoadOrStore", 0)}
	if fam == "compute-duos" {
		as = []op{o("CIA", 0), o("CIP", 0)}
	}
	ms := []op{o("LoadAndDelete", 0), o("Store", 0), o("LoadOrStore", 0), o("CIP", 0), o("Store", 2), o("Range", 0), o("Clear", 0), o("LoadAndDelete", 1), o("Load", 1)}
	for _, x := range ms {
		for _, y := range ms {
			bs = append(bs, []op{x, y})
		}
	}
	return
}

var basicOps = []string{"Load", "Store", "LoadOrStore", "LoadAndDelete", "Delete", "Clear"}
var compOps = []string{"CIA", "CIP"}

func pick(r *vsched.Rand, ss []string) string { return ss[r.N(len(ss))] }

// mix makes some of the values nil.
func mix(r *vsched.Rand, p []op) {
	for i := range p {
		if r.N(4) == 0 {
			p[i].null = 1 + r.N(len(h.Zeros))
			if r.N(2) == 0 {
				p[i].null = 1
			} else if r.N(3) == 0 {
				p[i].null = 107 + 10*r.N(2)
			}
		}
	}
}

// many works on maps with many keys.
func many(r *vsched.Rand, concurrent bool) h.Scenario {
	keys := []int{20, 33, 70, 130, 200}[r.N(5)]
	if concurrent {
		keys = []int{12, 20, 40}[r.N(3)]
	}
	var p []op
	// the keys get in, in several rounds of different kind
	for lo := 0; lo < keys; {
		hi := lo + 1 + r.N(keys)
		if r.N(3) == 0 || hi > keys {
			hi = keys
		}
		for k := lo; k < hi; k++ {
			p = append(p, o([]string{"Store", "Store", "LoadOrStore", "CIA"}[r.N(4)], k))
		}
		lo = hi
		switch r.N(5) {
		case 0:
			p = append(p, o("Range", 0))
		case 2: // as many misses as it takes
			for k := 0; k < hi+2; k++ {
				p = append(p, o("Load", k%keys))
			}
			for k := 0; k < hi; k += 1 + r.N(5) {
				p = append(p, o([]string{"Store", "Delete", "LoadAndDelete", "CIP"}[r.N(4)], k))
			}
			for k := 0; k < hi; k += 1 + r.N(3) {
				p = append(p, o("Load", k))
			}
		case 1:
			for k := r.N(3); k < hi; k += 1 + r.N(3) {
				p = append(p, o([]string{"Load", "Load", "Delete", "CIP"}[r.N(4)], k))
			}
		}
	}
	all := []string{"Load", "Store", "LoadOrStore", "LoadAndDelete", "Delete", "CIA", "CIP", "Range"}
	for n := r.N(keys); n > 0; n-- {
		x := o(all[r.N(len(all)-1)], r.N(keys))
		p = append(p, x)
	}
	if r.N(3) > 0 {
		p = append(p, o("Range", 0))
		for n := r.N(keys); n > 0; n-- {
			p = append(p, o(all[r.N(len(all)-1)], r.N(keys)))
		}
	}
	if !concurrent {
		x := op{m: "Range", stop: -1}
		switch r.N(3) {
		case 0:
			x.stop = 1 + r.N(keys)
		case 1:
			x.in = []op{{m: []string{"Load", "Delete", "Store", "CIP"}[r.N(4)], k: -1, stop: -1}}
			if r.N(2) == 0 {
				x.in[0].k = r.N(keys)
			}
		}
		p = append(p, x)
		for k := 0; k < keys; k++ {
			p = append(p, o("Load", k))
		}
		p = append(p, o("Range", 0), o("Clear", 0), o("Range", 0), o("Store", r.N(keys)), o("Load", r.N(keys)), o("Range", 0))
		return scenario(p, nil, keys, h.Mix{}, 0)
	}
	th := [][]op{{{m: "Range", stop: -1}}, nil}
	for j := 1; j < 2; j++ {
		for n := 2 + r.N(4); n > 0; n-- {
			th[j] = append(th[j], o(all[r.N(len(all))], r.N(keys)))
		}
	}
	return scenario(p, th, keys, h.Mix{}, 0)
}

func gen(fam string, i int, r *vsched.Rand) h.Scenario {
	switch fam {
	case "basic-pairs", "compute-pairs":
		// exhaustive: setup x operation pair (second may be on key 1)
		var as, bs []op
		if fam == "basic-pairs" {
			for _, m := range basicOps {
				as = append(as, o(m, 0))
			}
			bs = as
		} else {
			for _, m := range compOps {
				as = append(as, o(m, 0))
			}
			bs = append([]op{}, as...)
			for _, m := range basicOps {
				bs = append(bs, o(m, 0))
			}
		}
		bs = append(append([]op{}, bs...), o("Store", 2), o("Range", 0))
		s := setups[i%len(setups)]
		i /= len(setups)
		a := as[i%len(as)]
		i /= len(as)
		b := bs[i%len(bs)]
		return scenario(s, [][]op{{a}, {b}}, 3, h.Mix{}, 0, writeTail)
	case "basic-duos", "compute-duos":
		as, bs := duos(fam)
		s := duoSetups[i%len(duoSetups)]
		i /= len(duoSetups)
		return scenario(s, [][]op{{as[i%len(as)]}, bs[i/len(as)]}, 3, h.Mix{}, 0, writeTail)
	case "basic-shapes", "compute-shapes", "range-shapes":
		keys := 2
		ss, as, bs := shapePairs(fam, keys)
		if n := len(ss) * len(as) * len(bs); i >= n {
			i, keys = i-n, 3
			ss, as, bs = shapePairs(fam, keys)
		}
		s := ss[i%len(ss)]
		i /= len(ss)
		return scenario(s, [][]op{as[i%len(as)], bs[i/len(as)]}, keys+1, h.Mix{}, 0)
	case "clear-shapes": // Clear is one step for whoever looks at several keys
		keys := 2
		ss, bs := shapes(keys), clearPairs(keys)
		if n := len(ss) * len(bs); i >= n {
			i, keys = i-n, 3
			ss, bs = shapes(keys), clearPairs(keys)
		}
		return scenario(ss[i%len(ss)], [][]op{{o("Clear", 0)}, bs[i/len(ss)]}, keys+1, h.Mix{}, 0)
	case "many":
		return many(r, false)
	case "many-conc":
		return many(r, true)
	case "many-race": // clients working on a large map
		keys := []int{20, 70, 150, 260}[i%4]
		var p []op
		for k := 0; k < keys; k++ {
			p = append(p, o("Store", k))
		}
		if r.N(3) > 0 {
			for k := 0; k < keys+2; k++ {
				p = append(p, o("Load", k%keys))
			}
		}
		var th [][]op
		for j := 0; j < 3; j++ {
			var q []op
			for n := 20; n > 0; n-- {
				q = append(q, o([]string{"Store", "LoadOrStore", "Load", "Load", "Delete", "CIA", "CIP"}[r.N(7)], r.N(keys+60)))
			}
			th = append(th, q)
		}
		return scenario(p, th, keys+60, h.Mix{}, 0)
	case "seq": // sequential programs
		keys := 1 + r.N(4)
		var p []op
		all := append(append([]string{"Range"}, basicOps...), compOps...)
		for n := 6 + r.N(30); n > 0; n-- {
			x := op{m: pick(r, all), k: r.N(keys), stop: -1}
			if x.m == "Clear" && r.N(3) > 0 {
				x.m = "Store"
			}
			if x.m == "Range" && r.N(2) == 0 {
				x.stop = 1 + r.N(3)
			}
			if (x.m == "CIA" || x.m == "CIP") && r.N(6) == 0 {
				x.pan = true
			}
			p = append(p, x)
		}
		for k := 0; k < keys; k++ {
			p = append(p, o("Load", k))
		}
		mix(r, p)
		return scenario(p, nil, keys, h.Mix{Rich: r.N(3) > 0}, r.N(24))
	}
	// random concurrent programs
	keys := 1 + r.N(3)
	var setup []op
	if r.N(3) > 0 {
		for _, x := range setups[r.N(len(setups))] {
			x.k %= keys
			setup = append(setup, x)
		}
	}
	for n := r.N(4); n > 0; n-- {
		m := pick(r, []string{"Store", "Load", "Delete", "Range", "Store", "LoadOrStore"})
		setup = append(setup, o(m, r.N(keys)))
	}
	ops := basicOps
	switch fam {
	case "compute":
		ops = append(append([]string{}, basicOps...), "CIA", "CIP", "CIA", "CIP", "CIP")
	case "range":
		ops = append(append([]string{}, basicOps...), "CIA", "CIP", "Store", "Delete")
	}
	nt := 2 + r.N(2)
	var th [][]op
	for j := 0; j < nt; j++ {
		var p []op
		max := 3
		if nt == 3 {
			max = 2
		}
		for n := 1 + r.N(max); n > 0; n-- {
			x := o(pick(r, ops), r.N(keys))
			if x.m == "Clear" && r.N(2) > 0 {
				x.m = "Store"
			}
			if (x.m == "CIA" || x.m == "CIP") && fam == "compute" && r.N(8) == 0 {
				x.pan = true
			}
			p = append(p, x)
		}
		if fam == "compute" && j == 0 {
			p[0] = o(pick(r, compOps), r.N(keys))
		}
		if fam == "range" && j == 0 {
			x := op{m: "Range", stop: -1}
			if r.N(4) == 0 {
				x.stop = 1 + r.N(2)
			}
			if r.N(3) == 0 {
				for n := 1 + r.N(2); n > 0; n-- {
					y := o(pick(r, []string{"Load", "Store", "Delete", "LoadOrStore", "Range", "Store", "CIP"}), r.N(keys))
					if r.N(2) == 0 {
						y.k = -1
					}
					x.in = append(x.in, y)
				}
			}
			p[0] = x
		}
		th = append(th, p)
	}
	if r.N(3) == 0 {
		mix(r, setup)
		for _, p := range th {
			mix(r, p)
		}
	}
	return scenario(setup, th, keys, h.Mix{Rich: r.N(2) == 0}, r.N(24), r.N(2))
}

func count(fam, tier string) int {
	q := tier != "thorough"
	f := func(a, b int) int {
		if q {
			return a
		}
		return b
	}
	switch fam {
	case "basic-pairs":
		return len(setups) * len(basicOps) * (len(basicOps) + 2)
	case "compute-pairs":
		return len(setups) * len(compOps) * (len(basicOps) + len(compOps) + 2)
	case "basic-shapes", "compute-shapes", "range-shapes":
		n := 0
		for k := 2; k <= f(2, 3); k++ {
			ss, as, bs := shapePairs(fam, k)
			n += len(ss) * len(as) * len(bs)
		}
		return n
	case "basic-duos", "compute-duos":
		as, bs := duos(fam)
		return len(duoSetups) * len(as) * len(bs)
	case "clear-shapes":
		n := 0
		for k := 2; k <= f(2, 3); k++ {
			n += len(shapes(k)) * len(clearPairs(k))
		}
		return n
	case "seq":
		return f(400, 4000)
	case "many":
		return f(40, 300)
	case "many-conc", "many-race":
		return f(24, 200)
	}
	return f(240, 2400)
}

func main() { h.Main(h.Driver{Name: "map", Count: count, Gen: gen}) }
