// objd drives the small concurrent objects: spin lock, write-once value and
// channel, ring.
package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/chenquan/go-pkg/xonce"
	"github.com/chenquan/go-pkg/xring"
	"github.com/chenquan/go-pkg/xsync"
	"verif.local/mbv/h"
	"verif.local/mbv/vsched"
)

func names(setup []string, th [][]string) string {
	s := "setup: " + strings.Join(setup, " ")
	for _, p := range th {
		s += " | " + strings.Join(p, " ")
	}
	return s
}

func par(t *h.T, th [][]string, do func(i int, p []string)) {
	var fs []func()
	for i, p := range th {
		i, p := i, p
		fs = append(fs, func() { do(i, p) })
	}
	t.Par(fs...)
}

// ---- spin lock ----

// shared is protected by the lock (race runs check the protection).
type shared struct{ n, m int }

func lockProg(t *h.T, l *xsync.Spinlock, p []string, sh *shared) {
	for _, o := range p {
		switch o {
		case "L": // lock, work, unlock
			id := t.Call("Lock")
			l.Lock()
			t.Log("ret", "id", id, "ok", true)
			sh.n++
			t.Pause()
			sh.m++
			u := t.Call("Unlock")
			l.Unlock()
			t.Log("ret", "id", u, "ok", true)
		case "T":
			id := t.Call("TryLock")
			ok := l.TryLock()
			t.Log("ret", "id", id, "ok", ok)
			if ok {
				sh.n++
				t.Pause()
				sh.m++
				u := t.Call("Unlock")
				l.Unlock()
				t.Log("ret", "id", u, "ok", true)
			}
		case "t": // fails on a lock held throughout
			id := t.Call("TryLock")
			ok := l.TryLock()
			t.Log("ret", "id", id, "ok", ok)
		}
	}
}

// lockLong: callers wait for a lock that stays held for long.
func lockLong(i int) h.Scenario {
	return h.Scenario{Name: "held for long", Run: func(t *h.T) {
		l := &xsync.Spinlock{}
		sh := &shared{}
		id := t.Call("Lock")
		l.Lock()
		t.Log("ret", "id", id, "ok", true)
		var fs []func()
		for j := 0; j <= i; j++ {
			fs = append(fs, func() { lockProg(t, l, []string{"L"}, sh) })
		}
		fs = append(fs, func() {
			time.Sleep(time.Second)
			lockProg(t, l, []string{"t"}, sh)
			u := t.Call("Unlock")
			l.Unlock()
			t.Log("ret", "id", u, "ok", true)
		})
		t.Par(fs...)
	}}
}

func genLock(fam string, i int, r *vsched.Rand) h.Scenario {
	nt := 2 + r.N(3)
	var th [][]string
	for j := 0; j < nt; j++ {
		var p []string
		for n := 1 + r.N(3); n > 0; n-- {
			p = append(p, h.Pick(r, []string{"L", "T"}))
		}
		th = append(th, p)
	}
	if fam == "lock-long" {
		return lockLong(i)
	}
	held := i%3 == 0 // the main goroutine holds the lock while others try it
	pre := i%3 == 1  // Lock waits for a lock taken before
	name := names(nil, th)
	if held {
		th = [][]string{{"t"}, {"t", "t"}}
		name = "held" + names(nil, th)
	}
	if pre {
		name = "pre-held" + name
	}
	return h.Scenario{Name: name, Run: func(t *h.T) {
		l := &xsync.Spinlock{}
		sh := &shared{}
		if held {
			id := t.Call("Lock")
			l.Lock()
			t.Log("ret", "id", id, "ok", true)
			par(t, th, func(i int, p []string) { lockProg(t, l, p, sh) })
			u := t.Call("Unlock")
			l.Unlock()
			t.Log("ret", "id", u, "ok", true)
			lockProg(t, l, []string{"T", "L"}, sh)
			return
		}
		if pre {
			id := t.Call("TryLock")
			ok := l.TryLock()
			t.Log("ret", "id", id, "ok", ok)
			var fs []func()
			for _, p := range th {
				p := p
				fs = append(fs, func() { lockProg(t, l, p, sh) })
			}
			fs = append(fs, func() {
				t.Pause()
				u := t.Call("Unlock")
				l.Unlock()
				t.Log("ret", "id", u, "ok", true)
			})
			t.Par(fs...)
		} else {
			par(t, th, func(i int, p []string) { lockProg(t, l, p, sh) })
		}
		if sh.n != sh.m {
			t.Log("torn")
		}
		lockProg(t, l, []string{"T", "L"}, sh)
	}}
}

// ---- write-once value and channel ----

// id of a write -> the number of its value; some are zero values, each at most once.
func num(zeros, id int) int {
	if zeros > 0 && id%2 == 0 {
		return h.ZeroBase + (id/2+zeros)%len(h.Zeros)
	}
	return id * 10
}

var rich = h.Mix{Rich: true}

func got(v interface{}) int {
	if v == nil {
		return -1
	}
	return rich.Num(v)
}

func genValue(i int, r *vsched.Rand) h.Scenario {
	nt := 2 + r.N(3)
	same := r.N(3) == 0
	zeros := r.N(2) * r.N(len(h.Zeros)+1)
	ty0 := r.N(3)
	var th [][]string
	for j := 0; j < nt; j++ {
		var p []string
		for n := 1 + r.N(3); n > 0; n-- {
			p = append(p, h.Pick(r, []string{"W", "R", "R"}))
		}
		th = append(th, p)
	}
	return h.Scenario{Name: fmt.Sprint("value same type ", same, " zeros ", zeros, ty0, " ", names(nil, th)), Run: func(t *h.T) {
		v := xonce.NewValue()
		prog := func(i int, p []string) {
			for _, o := range p {
				if o == "W" {
					id := t.ID()
					n := num(zeros, id+ty0)
					if same {
						n = id * 90
					}
					t.Log("call", "id", id, "m", "Write", "v", n)
					ok := v.Write(rich.Val(n))
					t.Log("ret", "id", id, "ok", ok, "v", 0)
				} else {
					id := t.Call("Read", "v", 0)
					x := v.Value()
					t.Log("ret", "id", id, "v", got(x), "ok", true)
				}
			}
		}
		prog(0, []string{"R"})
		par(t, th, prog)
		prog(0, []string{"R", "W", "W", "R"})
	}}
}

func genChan(i int, r *vsched.Rand) h.Scenario {
	nt := 2 + r.N(3)
	var th [][]string
	w := 0
	for j := 0; j < nt; j++ {
		var p []string
		for n := 1 + r.N(2); n > 0; n-- {
			o := h.Pick(r, []string{"W", "R"})
			if o == "W" {
				w++
			}
			p = append(p, o)
		}
		th = append(th, p)
	}
	th = append(th, []string{"W"})
	ty0 := r.N(3)
	zeros := r.N(2) * r.N(len(h.Zeros)+1)
	return h.Scenario{Name: fmt.Sprint("chan ", zeros, ty0, " ", names(nil, th)), Run: func(t *h.T) {
		c := xonce.NewChan()
		prog := func(i int, p []string) {
			for _, o := range p {
				if o == "W" {
					id := t.ID()
					n := num(zeros, id+ty0)
					t.Log("call", "id", id, "m", "Write", "v", n)
					ok := c.Write(rich.Val(n))
					t.Log("ret", "id", id, "ok", ok, "v", 0)
				} else {
					id := t.Call("Recv", "v", 0)
					x, ok := <-c.Chan()
					t.Log("ret", "id", id, "v", got(x), "ok", ok)
				}
			}
		}
		par(t, th, prog)
		prog(0, []string{"W", "R", "R"})
	}}
}

// ---- ring ----

func genRing(fam string, i int, r *vsched.Rand) h.Scenario {
	n := 1 + r.N(4)
	var setup []string
	var th [][]string
	if fam == "ring-long" { // counters that overflow show after many Adds
		n = []int{3, 5, 7, 10, 100, 255, 256, 257, 1000}[i%9]
		for k := 8 + r.N(6); k > 0; k-- {
			setup = append(setup, h.Pick(r, []string{"M", "M", "A", "T"}))
		}
		setup = append(setup, "M", "T", "A", "T")
		if i%2 == 1 {
			// up to and a little beyond powers of two and multiples of the capacity
			setup = nil
			for k := 0; k < 11; k++ {
				setup = append(setup, "P", "T", "A", "T")
			}
		}
	} else if fam == "ring-seq" {
		n = 1 + i%9
		for k := 2*n + 4 + r.N(20); k > 0; k-- {
			setup = append(setup, h.Pick(r, []string{"A", "A", "A", "T"}))
		}
	} else {
		for k := r.N(2*n + 2); k > 0; k-- {
			setup = append(setup, "A")
		}
		nt := 2 + r.N(3)
		for j := 0; j < nt; j++ {
			var p []string
			for k := 1 + r.N(3); k > 0; k-- {
				p = append(p, h.Pick(r, []string{"A", "A", "T"}))
			}
			th = append(th, p)
		}
	}
	return h.Scenario{Name: fmt.Sprint("ring ", n, " ", names(setup, th)), Head: map[string]any{"n0": n}, Once: len(th) == 0, MaxSteps: 5000000, Run: func(t *h.T) {
		g := xring.NewRing(n)
		type taken struct {
			vs  []interface{}
			was []int
		}
		rng := h.RNG(uint64(i), "many", n)
		many := []uint64{200, 300, 20000}[i%3]
		adds, pow := 0, 6
		addMany := func(many int) {
			for many > 0 {
				id, c := t.ID(), many
				if c > 40000 {
					c = 40000
				}
				t.Log("many", "id", id, "n", c)
				for j := 0; j < c; j++ {
					g.Add(1000000 + id*50000 + j)
				}
				many -= c
				adds += c
			}
		}
		prog := func(i int, p []string) {
			var ts []taken
			for _, o := range p {
				if o == "P" {
					pow++
					to := 1 << pow
					if rng.N(4) == 0 {
						to -= to % n
					}
					addMany(to + h.Pick(rng, []int{-1, 0, 0, 1, n / 2, n - 1, n, n + 1}) - adds)
				} else if o == "M" { // id, id+1, .. id+many-1 in a row
					id, many := t.ID(), 100+int(rng.U64()%many)
					t.Log("many", "id", id, "n", many)
					for j := 0; j < many; j++ {
						g.Add(1000000 + id*50000 + j)
					}
					adds += many
				} else if o == "A" {
					id := t.ID()
					if len(setup) > 0 && len(th) == 0 {
						adds++
					}
					t.Log("call", "id", id, "m", "Add", "v", id)
					g.Add(rich.Val(id))
					t.Log("ret", "id", id, "vs", []int{})
				} else {
					id := t.Call("Take", "v", 0)
					x := g.Take()
					was := ints(x)
					t.Log("ret", "id", id, "vs", was)
					ts = append(ts, taken{x, was})
				}
			}
			for _, k := range ts {
				if fmt.Sprint(ints(k.vs)) != fmt.Sprint(k.was) {
					t.Log("changed")
				}
			}
		}
		prog(0, setup)
		par(t, th, prog)
		prog(0, []string{"T", "A", "T"})
	}}
}

func ints(vs []interface{}) []int {
	r := []int{}
	for _, v := range vs {
		r = append(r, rich.Num(v))
	}
	return r
}

func main() {
	h.Main(h.Driver{Name: "obj", Gen: func(fam string, i int, r *vsched.Rand) h.Scenario {
		switch fam {
		case "lock", "lock-long":
			return genLock(fam, i, r)
		case "value":
			return genValue(i, r)
		case "chan":
			return genChan(i, r)
		}
		return genRing(fam, i, r)
	}, Count: func(fam, tier string) int {
		switch fam {
		case "lock":
			return h.By(tier, 120, 600)
		case "lock-long":
			return 2
		case "ring-long":
			return h.By(tier, 36, 180)
		case "ring-seq":
			return h.By(tier, 300, 3000)
		}
		return h.By(tier, 240, 2400)
	}})
}
