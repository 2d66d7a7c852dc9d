// sharedd drives the sharded map of xsync.
package main

import (
	"fmt"
	"strings"

	"github.com/chenquan/go-pkg/xsync"
	"verif.local/mbv/h"
	"verif.local/mbv/vsched"
)

type op struct {
	m    string
	k    int
	ks   []int // MStore
	stop int
	null int
	in   []op
}

func (o op) String() string {
	s := fmt.Sprintf("%s(%d)", o.m, o.k)
	switch o.m {
	case "MStore":
		s = fmt.Sprintf("MStore%v", o.ks)
	case "Range":
		s = fmt.Sprintf("Range[%d]", o.stop)
	case "MClear":
		s = "Clear"
	}
	if o.null > 0 {
		s += fmt.Sprint("nil", o.null)
	}
	if len(o.in) > 0 {
		s += "{" + str(o.in) + "}"
	}
	return s
}

func str(p []op) string {
	var ss []string
	for _, o := range p {
		ss = append(ss, o.String())
	}
	return strings.Join(ss, " ")
}

type client struct {
	t      *h.T
	m      *xsync.SharedMap
	keys   []string
	idx    map[string]int
	probes int
	mix    h.Mix
}

func (c *client) vi(v interface{}, ok bool) int {
	if v == nil && !ok {
		return -1
	}
	return c.mix.Num(v)
}

func (o op) val(v int) int {
	switch {
	case o.null == 1:
		return 0
	case o.null >= 100: // the same value again and again
		return o.null - 100
	case o.null > 1:
		return h.ZeroBase + o.null - 2
	}
	return v
}

func (c *client) ki(k interface{}) int {
	if s, ok := k.(string); ok {
		if i, ok := c.idx[s]; ok {
			return i
		}
	}
	return -2
}

func (c *client) do(o op) {
	t, m := c.t, c.m
	key := c.keys[o.k]
	switch o.m {
	case "Load":
		id := t.Call("Load", "k", o.k)
		v, ok := m.Load(key)
		t.Log("ret", "id", id, "v", c.vi(v, ok), "ok", ok)
	case "Has":
		id := t.Call("Has", "k", o.k)
		ok := m.Has(key)
		t.Log("ret", "id", id, "ok", ok)
	case "Store":
		id := t.ID()
		t.Log("call", "id", id, "m", "Store", "k", o.k, "v", o.val(id*1000))
		m.Store(key, c.mix.Val(o.val(id*1000)))
		t.Log("ret", "id", id)
	case "LoadOrStore":
		id := t.ID()
		t.Log("call", "id", id, "m", "LOS", "k", o.k, "v", o.val(id*1000))
		ok := m.LoadOrStore(key, c.mix.Val(o.val(id*1000)))
		t.Log("ret", "id", id, "ok", ok)
	case "Delete":
		id := t.Call("Delete", "k", o.k)
		m.Delete(key)
		t.Log("ret", "id", id)
	case "MClear":
		id := t.Call("MClear")
		m.Clear()
		t.Log("ret", "id", id)
	case "MStore":
		id := t.ID()
		d := map[string]interface{}{}
		vs := make([]int, len(c.keys))
		for n, k := range o.ks {
			vs[k] = id*1000 + k
			if o.null > 0 && n%2 == 0 {
				vs[k] = o.val(0)
			}
			d[c.keys[k]] = c.mix.Val(vs[k])
		}
		ks := append([]int{}, o.ks...)
		t.Log("call", "id", id, "m", "MStore", "vs", vs, "ks", ks)
		m.MStore(d)
		t.Log("ret", "id", id)
	case "CIA":
		id := t.Call("CIA", "k", o.k)
		n := 0
		v, ok := m.ComputeIfAbsent(key, func(k string) interface{} {
			n++
			r := o.val(id*1000 + 500 + n)
			t.Log("cb", "id", id, "k", c.ki(k), "v", -1, "r", r)
			return c.mix.Val(r)
		})
		t.Log("ret", "id", id, "v", c.mix.Num(v), "ok", ok)
	case "CIP":
		id := t.Call("CIP", "k", o.k)
		n := 0
		v, ok := m.ComputeIfPresent(key, func(k string, old interface{}) interface{} {
			n++
			r := o.val(id*1000 + 500 + n)
			t.Log("cb", "id", id, "k", c.ki(k), "v", c.mix.Num(old), "r", r)
			return c.mix.Val(r)
		})
		t.Log("ret", "id", id, "v", c.vi(v, ok), "ok", ok)
	case "Range":
		id := t.Call("Range")
		n := 0
		m.Range(func(k, v interface{}) bool {
			n++
			cont := o.stop < 0 || n < o.stop
			t.Log("rcb", "id", id, "k", c.ki(k), "v", c.mix.Num(v), "r", cont)
			for _, x := range o.in {
				c.do(x)
			}
			return cont
		})
		t.Log("ret", "id", id)
	case "Shard":
		// where does the key live, and nowhere else
		id := t.Call("Load", "k", o.k)
		sh := m.GetShard(key)
		v, ok := sh.Load(key)
		t.Log("ret", "id", id, "v", c.vi(v, ok), "ok", ok)
		same := m.GetShard(key) == sh
		elsewhere := false
		for _, k2 := range c.keys {
			if s2 := m.GetShard(k2); s2 != sh {
				if _, ok := s2.Load(key); ok {
					elsewhere = true
				}
			}
		}
		for i := 0; i < c.probes; i++ {
			if s2 := m.GetShard(fmt.Sprint("probe", i)); s2 != sh {
				if _, ok := s2.Load(key); ok {
					elsewhere = true
				}
			}
		}
		t.Log("shard", "k", o.k, "same", same, "elsewhere", elsewhere)
	}
}

func (c *client) prog(p []op) {
	for _, o := range p {
		c.do(o)
	}
}

var pool = []string{"", "a", "b", "k1", "k2", "héé", "世界", "\x00", "aa", "zz", "key-with-a-longer-name", "0", "\xff\xfe", "A", "ab", "ba"}

// keys that a shortcut may confuse: long ones that differ at one end only, colliding hashes, blanks and case
var odd = []string{
	strings.Repeat("p", 40) + "1", strings.Repeat("p", 40) + "2", "1" + strings.Repeat("p", 40), "2" + strings.Repeat("p", 40),
	strings.Repeat("key/", 30), strings.Repeat("key/", 30) + " ", strings.Repeat("世", 200), strings.Repeat("世", 199) + "界",
	strings.Repeat("x", 5000), strings.Repeat("x", 4999) + "y", "creamwove", "quists", "costarring", "liquid", "a ", " a", "\ta", "a\x00", "a\x00b",
	"K1", "1", "01", "1.0", "-1", "true", "nil", "<nil>", "\u00e9", "e\u0301", "\ufeffa", "k1\n",
}

var ops = []string{"Load", "Has", "Store", "LoadOrStore", "Delete", "CIA", "CIP", "MStore", "Range", "MClear"}

func rnd(r *vsched.Rand, keys int, nils bool) op {
	x := op{m: h.Pick(r, ops), k: r.N(keys), stop: -1}
	if r.N(6) == 0 {
		x.null = 1 + r.N(len(h.Zeros))
	} else if r.N(4) == 0 {
		x.null = 107 + 10*r.N(2)
	}
	if nils && r.N(3) > 0 {
		x.null = 1
	}
	if x.m == "MClear" && r.N(2) == 0 {
		x.m = "Store"
	}
	if x.m == "Range" && r.N(3) == 0 {
		x.stop = 1 + r.N(3)
	}
	if x.m == "MStore" {
		for k := 0; k < keys; k++ {
			if r.N(2) == 0 {
				x.ks = append(x.ks, k)
			}
		}
	}
	return x
}

func gen(fam string, i int, r *vsched.Rand) h.Scenario {
	size := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100, 0}[i%18]
	if fam == "conc" {
		size = []int{1, 2, 3, 4}[i%4]
		if i%16 == 15 {
			size = []int{64, 100, 256}[i/16%3]
		}
	}
	nk := 1 + r.N(4)
	if fam == "seq" {
		nk = 2 + r.N(8)
	}
	perm := append([]string{}, pool...)
	if fam == "many" {
		nk = []int{17, 40, 80, 150, 300}[i%5]
		size = []int{1, 2, 7, 32, 0, 300, 1000}[i%7]
		for len(perm) < nk {
			perm = append(perm, fmt.Sprintf("%016x", r.U64())[:1+r.N(16)]+fmt.Sprint("-", len(perm)))
		}
	}
	if fam != "many" && r.N(2) == 0 {
		perm = append([]string{}, odd...)
		if r.N(2) == 0 {
			// neighbours in the list are alike
			j := r.N(len(odd) - 3)
			perm = append([]string{}, odd[j:j+4]...)
			if nk > 4 {
				nk = 4
			}
		}
	} else if fam == "many" {
		copy(perm[len(pool):], odd)
	}
	for j := range perm {
		k := j + r.N(len(perm)-j)
		perm[j], perm[k] = perm[k], perm[j]
	}
	keys := perm[:nk]
	probes := 3
	if fam == "seq" {
		probes = 40
	}
	nils := r.N(5) == 0
	var setup []op
	var th [][]op
	if fam == "many" {
		all := op{m: "MStore"}
		for k := 0; k < nk; k++ {
			if r.N(8) > 0 {
				all.ks = append(all.ks, k)
			}
		}
		setup = append(setup, all, op{m: "Range", stop: -1})
		for n := 10 + r.N(30); n > 0; n-- {
			setup = append(setup, rnd(r, nk, nils))
		}
	} else if fam == "seq" {
		for n := 5 + r.N(25); n > 0; n-- {
			setup = append(setup, rnd(r, nk, nils))
		}
	} else {
		for n := r.N(5); n > 0; n-- {
			setup = append(setup, rnd(r, nk, nils))
		}
		nt := 2 + r.N(2)
		for j := 0; j < nt; j++ {
			var p []op
			for n := 1 + r.N(4-nt+1); n > 0; n-- {
				p = append(p, rnd(r, nk, nils))
			}
			th = append(th, p)
		}
	}
	mix := h.Mix{Rich: r.N(2) == 0}
	name := fmt.Sprintf("shards %d keys %.200q setup: %s", size, keys, str(setup))
	for _, p := range th {
		name += " | " + str(p)
	}
	return h.Scenario{Name: name, Head: map[string]any{"nk": nk}, Once: len(th) == 0, MaxSteps: 2000000, Run: func(t *h.T) {
		var m *xsync.SharedMap
		if size == 0 {
			m = xsync.NewSharedMap()
		} else {
			m = xsync.NewSharedMap(xsync.WithShardBlockSize(size))
		}
		c := &client{t: t, m: m, keys: keys, idx: map[string]int{}, probes: probes, mix: mix}
		for i, k := range keys {
			c.idx[k] = i
		}
		c.prog(setup)
		if len(th) > 0 {
			var fs []func()
			for _, p := range th {
				p := p
				fs = append(fs, func() { c.prog(p) })
			}
			t.Par(fs...)
		}
		for k := range keys {
			c.do(op{m: "Load", k: k})
			if k%(1+len(keys)/16) == 0 {
				c.do(op{m: "Shard", k: k})
			}
		}
		c.do(op{m: "Range", stop: -1})
		if len(th) == 0 {
			c.do(op{m: "Range", stop: 1})
			c.do(op{m: "Range", stop: 2})
		}
	}}
}

func main() {
	h.Main(h.Driver{Name: "shared", Gen: gen, Count: func(fam, tier string) int {
		if fam == "many" {
			return h.By(tier, 35, 350)
		}
		if fam == "seq" {
			return h.By(tier, 600, 6000)
		}
		return h.By(tier, 400, 4000)
	}})
}
