// poold drives the byte-slice pool.
package main

import (
	"fmt"
	"sort"
	"strings"
	"unsafe"

	"github.com/chenquan/go-pkg/xbytes"
	"verif.local/mbv/h"
	"verif.local/mbv/vsched"
)

// op: M (malloc size,cap), S (MallocSize), F (free the i-th own buffer),
// X (free foreign memory: cut of size from..to..cap), R (re-slice an own buffer
// before freeing it)
type op struct {
	m    string
	a, b int
}

func (o op) String() string { return fmt.Sprintf("%s(%d,%d)", o.m, o.a, o.b) }

func str(p []op) string {
	var ss []string
	for _, o := range p {
		ss = append(ss, o.String())
	}
	return strings.Join(ss, " ")
}

type own struct {
	id  int
	buf []byte
}

type client struct {
	t    *h.T
	own  []own
	keep [][]byte
}

func addr(b []byte) (uint64, uint64) {
	p := uint64(uintptr(unsafe.Pointer(unsafe.SliceData(b))))
	if cap(b) == 0 {
		return 0, 0
	}
	return p, p + uint64(cap(b))
}

func fill(b []byte, id int) {
	b = b[:cap(b)]
	for i := range b {
		b[i] = byte(id)
	}
}

func intact(b []byte, id int) bool {
	for _, x := range b[:cap(b)] {
		if x != byte(id) {
			return false
		}
	}
	return true
}

func (c *client) do(o op) {
	t := c.t
	switch o.m {
	case "M", "S":
		want := o.b
		if o.m == "S" {
			want = o.a
		}
		id := t.Call("Malloc", "size", o.a, "cap", want)
		var b []byte
		if o.m == "S" {
			b = xbytes.MallocSize(o.a)
		} else {
			b = xbytes.Malloc(o.a, o.b)
		}
		lo, hi := addr(b)
		t.Log("ret", "id", id, "len", len(b), "cap", cap(b), "lo", lo, "hi", hi)
		fill(b, id)
		c.own = append(c.own, own{id, b})
		c.keep = append(c.keep, b)
	case "F", "R":
		if len(c.own) == 0 {
			return
		}
		i := o.a % len(c.own)
		w := c.own[i]
		c.own = append(append([]own{}, c.own[:i]...), c.own[i+1:]...)
		if !intact(w.buf, w.id) {
			t.Log("corrupt", "id", w.id)
		}
		b := w.buf
		if o.m == "R" { // give back only part of it
			b = b[:cap(b)]
			k := 0
			if len(b) > 0 {
				k = o.b % (len(b) + 1)
			}
			b = b[k:]
		}
		t.Log("free", "id", w.id)
		xbytes.Free(b)
		t.Log("freed")
	case "X":
		raw := make([]byte, o.a, o.a+o.b)
		c.keep = append(c.keep, raw)
		t.Log("free", "id", 0)
		xbytes.Free(raw)
		t.Log("freed")
	}
}

func (c *client) prog(p []op) {
	for _, o := range p {
		c.do(o)
	}
}

func (c *client) finish() {
	for _, w := range c.own {
		if !intact(w.buf, w.id) {
			c.t.Log("corrupt", "id", w.id)
		}
	}
}

func gen(fam string, i int, r *vsched.Rand) h.Scenario {
	sizes := []int{0, 1, 2, 3, 4, 8, 16}
	if fam == "seq" {
		sizes = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 131073, 200000, 1 << 20}
	}
	k := 1 + r.N(3)
	var use []int
	for j := 0; j < k; j++ {
		use = append(use, h.Pick(r, sizes))
	}
	if fam == "seq" && i%40 == 7 {
		use = []int{h.Pick(r, []int{1 << 21, 1<<21 + 1, 3000000, 5 << 20}), 100}
	}
	rnd := func() op {
		switch r.N(9) {
		case 0, 1, 2:
			return op{"M", h.Pick(r, use), h.Pick(r, use)}
		case 3:
			return op{"S", h.Pick(r, use), 0}
		case 4, 5, 6:
			return op{"F", r.N(4), 0}
		case 7:
			return op{"R", r.N(4), 1 + r.N(4)}
		}
		return op{"X", h.Pick(r, use), r.N(4)}
	}
	var setup []op
	n := r.N(5)
	if fam == "seq" {
		n = 5 + r.N(30)
	}
	for ; n > 0; n-- {
		setup = append(setup, rnd())
	}
	var th [][]op
	if fam != "seq" {
		nt := 2 + r.N(3)
		for j := 0; j < nt; j++ {
			var p []op
			max := 5
			if nt > 2 {
				max = 4
			}
			for n := 1 + r.N(max); n > 0; n-- {
				p = append(p, rnd())
			}
			th = append(th, p)
		}
	}
	name := "setup: " + str(setup)
	for _, p := range th {
		name += " | " + str(p)
	}
	return h.Scenario{Name: name, Once: fam == "seq", Run: func(t *h.T) {
		c := &client{t: t}
		c.prog(setup)
		cs := []*client{c}
		var fs []func()
		for _, p := range th {
			p := p
			d := &client{t: t}
			cs = append(cs, d)
			fs = append(fs, func() { d.prog(p) })
		}
		t.Par(fs...)
		c.prog([]op{{"M", use[0], 0}, {"M", use[0], 0}, {"M", use[0], 0}})
		for _, d := range cs {
			d.finish()
		}
		// addresses -> ranks (order and equality is all that matters)
		m := map[uint64]int{}
		var as []uint64
		t.Rewrite(func(e map[string]any) {
			for _, f := range []string{"lo", "hi"} {
				if a, ok := e[f].(uint64); ok {
					if _, ok := m[a]; !ok {
						m[a] = 0
						as = append(as, a)
					}
				}
			}
		})
		sort.Slice(as, func(i, j int) bool { return as[i] < as[j] })
		for i, a := range as {
			m[a] = i
		}
		t.Rewrite(func(e map[string]any) {
			for _, f := range []string{"lo", "hi"} {
				if a, ok := e[f].(uint64); ok {
					e[f] = m[a]
				}
			}
		})
		for _, d := range cs {
			d.keep = nil
		}
	}}
}

func main() {
	h.Main(h.Driver{Name: "pool", Gen: gen, Count: func(fam, tier string) int { return h.By(tier, 300, 3000) }})
}
