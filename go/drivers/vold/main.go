// vold drives the concurrent components with large volumes, natively scheduled:
// what many alike operations did is recorded per class of operations.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/chenquan/go-pkg/xbarrier"
	"github.com/chenquan/go-pkg/xbytes"
	"github.com/chenquan/go-pkg/xerror"
	"github.com/chenquan/go-pkg/xmapreduce"
	"github.com/chenquan/go-pkg/xsync"
	"github.com/chenquan/go-pkg/xtask"
	"github.com/chenquan/go-pkg/xworker"
	"verif.local/mbv/h"
	"verif.local/mbv/vsched"
)

// ---- maps: key k is of class k % classes; all keys of a class are treated alike

const classes = 12

// val is what the maps hold.
type val struct{ tag, k, n, g int }

// kv is either map.
type kv interface {
	load(k int) (interface{}, bool)
	store(k int, v interface{})
	los(k int, v interface{}) (interface{}, bool)
	lad(k int) (interface{}, bool)
	del(k int)
	cia(k int, f func(k int) interface{}) (interface{}, bool)
	cip(k int, f func(k int, v interface{}) interface{}) (interface{}, bool)
	clear()
	visit(f func(k int, v interface{}) bool)
	many(d map[int]interface{})
}

type keyS struct {
	a string
	b int
}

// keys of several forms
func key(form, k int) interface{} {
	switch form {
	case 1:
		return "k" + strconv.Itoa(k)
	case 2:
		return keyS{strconv.Itoa(k % 7), k}
	case 3:
		switch k % 5 {
		case 0:
			return strconv.Itoa(k - 1)
		case 1:
			return int64(k)
		case 2:
			return float64(k)
		case 3:
			return [2]int{k, k}
		}
	}
	return k
}

func unkey(x interface{}) int {
	switch y := x.(type) {
	case int:
		return y
	case string:
		if strings.HasPrefix(y, "k") {
			if n, err := strconv.Atoi(y[1:]); err == nil {
				return n
			}
			return -1
		}
		if n, err := strconv.Atoi(y); err == nil {
			return n + 1
		}
	case keyS:
		return y.b
	case int64:
		return int(y)
	case float64:
		return int(y)
	case [2]int:
		return y[0]
	}
	return -1
}

type plain struct {
	m    xsync.Map
	form int
}

func (p *plain) load(k int) (interface{}, bool) { return p.m.Load(key(p.form, k)) }
func (p *plain) store(k int, v interface{})     { p.m.Store(key(p.form, k), v) }
func (p *plain) los(k int, v interface{}) (interface{}, bool) {
	return p.m.LoadOrStore(key(p.form, k), v)
}
func (p *plain) lad(k int) (interface{}, bool) { return p.m.LoadAndDelete(key(p.form, k)) }
func (p *plain) del(k int)                     { p.m.Delete(key(p.form, k)) }
func (p *plain) cia(k int, f func(k int) interface{}) (interface{}, bool) {
	return p.m.ComputeIfAbsent(key(p.form, k), func(x interface{}) interface{} { return f(unkey(x)) })
}
func (p *plain) cip(k int, f func(k int, v interface{}) interface{}) (interface{}, bool) {
	return p.m.ComputeIfPresent(key(p.form, k), func(x, v interface{}) interface{} { return f(unkey(x), v) })
}
func (p *plain) clear() { p.m.Clear() }
func (p *plain) visit(f func(k int, v interface{}) bool) {
	p.m.Range(func(x, v interface{}) bool { return f(unkey(x), v) })
}
func (p *plain) many(d map[int]interface{}) {
	for k, v := range d {
		p.store(k, v)
	}
}

type shared struct {
	m    *xsync.SharedMap
	form int
}

func (p *shared) key(k int) string {
	if p.form == 1 {
		return strings.Repeat("p", 30) + strconv.Itoa(k)
	}
	return strconv.Itoa(k)
}
func (p *shared) unkey(x interface{}) int {
	s, _ := x.(string)
	if p.form == 1 {
		s = strings.TrimPrefix(s, strings.Repeat("p", 30))
	}
	if n, err := strconv.Atoi(s); err == nil {
		return n
	}
	return -1
}
func (p *shared) load(k int) (interface{}, bool) {
	v, ok := p.m.Load(p.key(k))
	if p.m.Has(p.key(k)) != ok {
		return nil, !ok
	}
	return v, ok
}
func (p *shared) store(k int, v interface{}) { p.m.Store(p.key(k), v) }
func (p *shared) los(k int, v interface{}) (interface{}, bool) {
	ok := p.m.LoadOrStore(p.key(k), v)
	x, _ := p.m.Load(p.key(k))
	return x, !ok
}
func (p *shared) lad(k int) (interface{}, bool) {
	return p.m.GetShard(p.key(k)).LoadAndDelete(p.key(k))
}
func (p *shared) del(k int) { p.m.Delete(p.key(k)) }
func (p *shared) cia(k int, f func(k int) interface{}) (interface{}, bool) {
	return p.m.ComputeIfAbsent(p.key(k), func(x string) interface{} { return f(p.unkey(x)) })
}
func (p *shared) cip(k int, f func(k int, v interface{}) interface{}) (interface{}, bool) {
	return p.m.ComputeIfPresent(p.key(k), func(x string, v interface{}) interface{} { return f(p.unkey(x), v) })
}
func (p *shared) clear() { p.m.Clear() }
func (p *shared) visit(f func(k int, v interface{}) bool) {
	p.m.Range(func(x, v interface{}) bool { return f(p.unkey(x), v) })
}
func (p *shared) many(d map[int]interface{}) {
	m := map[string]interface{}{}
	for k, v := range d {
		m[p.key(k)] = v
	}
	p.m.MStore(m)
}

// sum collects one number per class: the common one, or -1.
type sum struct {
	mu   sync.Mutex
	res  [classes]int // the tag seen, -1: not the same for all or not of this key
	seen [classes]bool
	cnt  [classes]int // how many
	cbs  [classes]int // callbacks
	bad  int
}

func (s *sum) see(k, tag int) {
	c := k % classes
	if s.seen[c] && s.res[c] != tag {
		s.res[c] = -1
		return
	}
	s.res[c], s.seen[c] = tag, true
}

func (s *sum) add(o *sum) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for c := range o.res {
		if o.seen[c] {
			s.see(c, o.res[c])
		}
		s.cnt[c] += o.cnt[c]
		s.cbs[c] += o.cbs[c]
	}
	s.bad += o.bad
}

func tag(k int, v interface{}, ok bool) int {
	if !ok {
		if v != nil {
			return -1
		}
		return 0
	}
	x, is := v.(val)
	if !is || x.k != k {
		return -1
	}
	return x.tag
}

type phase struct {
	op     string
	md, rs int
	tag, n int
}

func (p phase) String() string { return fmt.Sprintf("%s[%d%%%d n%d]", p.op, p.rs, p.md, p.n) }

func par(n int, f func(g int)) {
	var wg sync.WaitGroup
	for g := 0; g < n; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			f(g)
		}()
	}
	wg.Wait()
}

// run executes one phase on the keys of 0..nk-1 it selects, with gs goroutines.
func run(m kv, p phase, nk, gs int) *sum {
	s := &sum{}
	sel := func(k int) bool { return k%classes%p.md == p.rs }
	switch p.op {
	case "clear":
		m.clear()
		return s
	case "range", "rangestop":
		seen := make([]bool, nk)
		left := p.n
		m.visit(func(k int, v interface{}) bool {
			if k < 0 || k >= nk || seen[k] || p.op == "rangestop" && left == 0 {
				s.bad++
				return true
			}
			seen[k] = true
			s.see(k, tag(k, v, true))
			s.cnt[k%classes]++
			left--
			return p.op == "range" || left > 0
		})
		return s
	case "many":
		d := map[int]interface{}{}
		for k := 0; k < nk; k++ {
			if sel(k) {
				d[k] = val{tag: p.tag, k: k}
			}
		}
		m.many(d)
		return s
	case "losrace", "ciarace", "ladrace", "ciprace":
		// all goroutines on all keys
		who := make([][]int, gs)
		old := make([]int, nk)
		if p.op == "ciprace" {
			for k := range old {
				if v, ok := m.load(k); ok {
					old[k] = v.(val).n
				}
			}
		}
		par(gs, func(g int) {
			o := &sum{}
			who[g] = make([]int, nk)
			for j := 0; j < nk; j++ {
				k := (j + g*nk/gs) % nk
				if !sel(k) {
					continue
				}
				var v interface{}
				var ok bool
				nv := val{tag: p.tag, k: k, g: g}
				switch p.op {
				case "losrace":
					v, ok = m.los(k, nv)
				case "ciarace":
					v, ok = m.cia(k, func(x int) interface{} {
						if x != k {
							o.bad++
						}
						o.cbs[k%classes]++
						return nv
					})
				case "ladrace":
					v, ok = m.lad(k)
					ok = !ok
				case "ciprace":
					v, ok = m.cip(k, func(x int, v interface{}) interface{} {
						if x != k {
							o.bad++
						}
						o.cbs[k%classes]++
						y := v.(val)
						y.tag = p.tag
						y.n++
						return y
					})
					ok = !ok
				}
				if !ok {
					o.cnt[k%classes]++
				}
				if p.op != "ladrace" {
					o.see(k, tag(k, v, v != nil))
				}
				if x, is := v.(val); is {
					who[g][k] = x.g + 1
				}
			}
			s.add(o)
		})
		if p.op == "losrace" || p.op == "ciarace" {
			for k := 0; k < nk; k++ {
				for g := 1; g < gs; g++ {
					if who[g][k] != who[0][k] {
						s.bad++
					}
				}
			}
		}
		if p.op == "ciprace" {
			for k := range old {
				if v, ok := m.load(k); ok && sel(k) && v.(val).n != old[k]+gs {
					s.bad++
				}
			}
		}
		return s
	}
	par(gs, func(g int) {
		o := &sum{}
		for k := g; k < nk; k += gs {
			if !sel(k) {
				continue
			}
			c := k % classes
			nv := val{tag: p.tag, k: k}
			switch p.op {
			case "load":
				v, ok := m.load(k)
				o.see(k, tag(k, v, ok))
			case "store":
				m.store(k, nv)
			case "los":
				v, ok := m.los(k, nv)
				o.see(k, tag(k, v, true))
				if ok {
					o.cnt[c]++
				}
			case "lad":
				v, ok := m.lad(k)
				o.see(k, tag(k, v, ok))
			case "del":
				m.del(k)
			case "cia":
				v, ok := m.cia(k, func(x int) interface{} {
					if x != k {
						o.bad++
					}
					o.cbs[c]++
					return nv
				})
				o.see(k, tag(k, v, true))
				if ok {
					o.cnt[c]++
				}
			case "cip":
				v, ok := m.cip(k, func(x int, v interface{}) interface{} {
					if x != k {
						o.bad++
					}
					o.cbs[c]++
					y, is := v.(val)
					if !is || y.k != k {
						o.bad++
					}
					nv.n = y.n
					return nv
				})
				o.see(k, tag(k, v, ok))
				if ok {
					o.cnt[c]++
				}
			}
		}
		s.add(o)
	})
	return s
}

func genMap(fam string, i int, r *vsched.Rand) h.Scenario {
	nk := h.Pick(r, []int{40, 150, 300, 600, 1025, 2100, 5000, 12000})
	if i%12 == 5 {
		nk = h.Pick(r, []int{33000, 66000, 70000})
	}
	gs := h.Pick(r, []int{1, 2, 4, 8})
	noise := r.N(2) == 0
	ops := []string{"load", "store", "store", "los", "lad", "del", "range", "clear", "losrace", "ladrace", "cia", "cip"}
	switch fam {
	case "vcomp":
		ops = []string{"cia", "cip", "ciarace", "ciprace", "cia", "cip", "ciarace", "ciprace", "store", "del", "range", "clear", "load"}
	case "vrange":
		ops = []string{"range", "rangestop", "range", "store", "del", "los", "lad", "cia", "clear", "load"}
	case "vshared":
		ops = append(ops, "many", "many", "rangestop", "ciprace")
	}
	var ps []phase
	tags := 0
	mk := func(op string) {
		tags++
		md := h.Pick(r, []int{1, 1, 2, 3, 4, 6, 12})
		p := phase{op: op, md: md, rs: r.N(md), tag: tags, n: 1 + r.N(nk)}
		if op == "ladrace" || op == "losrace" || op == "ciarace" || op == "ciprace" {
			p.n = gs
		}
		if op == "rangestop" && r.N(3) == 0 {
			p.n = 1 + r.N(3)
		}
		ps = append(ps, p)
	}
	mk("store")
	for n := 6 + r.N(14); n > 0; n-- {
		op := h.Pick(r, ops)
		if op == "clear" && r.N(2) == 0 {
			op = "load"
		}
		mk(op)
		if r.N(3) == 0 {
			ps = append(ps, phase{op: "load", md: 1, tag: 0})
		}
	}
	ps = append(ps, phase{op: "load", md: 1}, phase{op: "range", md: 1}, phase{op: "range", md: 1})
	form := r.N(4)
	size := h.Pick(r, []int{1, 2, 7, 32, 33, 256, 1000, 5000})
	name := fmt.Sprint(fam, " keys ", nk, " goroutines ", gs, " noise ", noise, " form ", form, " shards ", size, ps)
	return h.Scenario{Name: name, Head: map[string]any{"kind": "map", "nk": nk, "gs": gs, "ncl": classes}, Once: true, Run: func(t *h.T) {
		var m kv = &plain{form: form}
		if fam == "vshared" {
			m = &shared{m: xsync.NewSharedMap(xsync.WithShardBlockSize(size)), form: form}
		}
		var stop int32
		var wg sync.WaitGroup
		if noise {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; atomic.LoadInt32(&stop) == 0; j++ {
					switch j % 3 {
					case 0:
						m.visit(func(int, interface{}) bool { return atomic.LoadInt32(&stop) == 0 })
					default:
						for k := 0; k < 300; k++ {
							m.load((k*7 + j) % nk)
						}
					}
					runtime.Gosched()
				}
			}()
		}
		for _, p := range ps {
			s := run(m, p, nk, gs)
			t.Log("ph", "op", p.op, "md", p.md, "rs", p.rs, "tag", p.tag, "n", p.n, "res", s.res, "cnt", s.cnt, "cbs", s.cbs, "bad", s.bad)
		}
		atomic.StoreInt32(&stop, 1)
		wg.Wait()
	}}
}

// ---- resources: key k is of class k % 6

const rclasses = 6

type rsc struct {
	k, class int
	fail     bool
	closed   *[]int32
}

func (r *rsc) Close() error {
	atomic.AddInt32(&(*r.closed)[r.k], 1)
	if r.fail {
		return errors.New("close " + strconv.Itoa(r.k))
	}
	return nil
}

func genRes(i int, r *vsched.Rand) h.Scenario {
	nk := h.Pick(r, []int{30, 60, 130, 300, 600, 1100, 2100})
	gs := h.Pick(r, []int{1, 2, 4, 8})
	type ph struct {
		op   string
		md   int
		rs   int
		fail int // class of the keys that fail: creation, or -1
	}
	var ps []ph
	for n := 3 + r.N(6); n > 0; n-- {
		md := h.Pick(r, []int{1, 2, 3, 6})
		p := ph{h.Pick(r, []string{"get", "get", "remove", "removerace"}), md, r.N(md), -1}
		if p.op == "get" && r.N(2) == 0 {
			p.fail = r.N(rclasses)
		}
		ps = append(ps, p)
	}
	cfail := r.N(rclasses + 1) // class whose Close fails
	return h.Scenario{Name: fmt.Sprint("keys ", nk, " goroutines ", gs, " ", ps, " close fails ", cfail), Head: map[string]any{"kind": "res", "nk": nk, "gs": gs, "ncl": rclasses, "cfail": cfail}, Once: true, Run: func(t *h.T) {
		m := xsync.NewResourceManager()
		closed := make([]int32, nk)
		name := func(k int) string { return "key" + strconv.Itoa(k) }
		for _, p := range ps {
			sel := func(k int) bool { return k%rclasses%p.md == p.rs }
			var created, errs, removed [rclasses]int32
			var bad int32
			got := make([][]io.Closer, gs)
			par(gs, func(g int) {
				got[g] = make([]io.Closer, nk)
				for j := 0; j < nk; j++ {
					k := (j + g%2*3) % nk
					if !sel(k) {
						continue
					}
					c := k % rclasses
					switch p.op {
					case "get":
						x, err := m.Get(name(k), func() (io.Closer, error) {
							atomic.AddInt32(&created[c], 1)
							runtime.Gosched()
							if c == p.fail {
								return nil, errors.New("create " + strconv.Itoa(k))
							}
							return &rsc{k: k, class: c, fail: c == cfail, closed: &closed}, nil
						})
						if err != nil {
							atomic.AddInt32(&errs[c], 1)
							if err.Error() != "create "+strconv.Itoa(k) || x != nil {
								atomic.AddInt32(&bad, 1)
							}
						} else if y, is := x.(*rsc); !is || y == nil || y.k != k {
							atomic.AddInt32(&bad, 1)
						}
						got[g][k] = x
					case "remove":
						if g == 0 {
							if m.Remove(name(k)) {
								removed[c]++
							}
						}
					case "removerace":
						if m.Remove(name(k)) {
							atomic.AddInt32(&removed[c], 1)
						}
					}
				}
			})
			for k := 0; k < nk; k++ {
				for g := 1; g < gs; g++ {
					if got[g][k] != got[0][k] {
						bad++
					}
				}
			}
			t.Log("ph", "op", p.op, "md", p.md, "rs", p.rs, "fail", p.fail, "created", created, "errs", errs, "removed", removed, "bad", bad)
		}
		err := m.Close()
		var closes, lines [rclasses]int
		bad := 0
		for k, n := range closed {
			closes[k%rclasses] += int(n)
			if n > 1 {
				bad++
			}
		}
		if err != nil {
			seen := map[string]bool{}
			for _, s := range strings.Split(err.Error(), "\n") {
				n, e := strconv.Atoi(strings.TrimPrefix(s, "close "))
				if e != nil || n < 0 || n >= nk || seen[s] {
					bad++
					continue
				}
				seen[s] = true
				lines[n%rclasses]++
			}
		}
		t.Log("ph", "op", "close", "md", 1, "rs", 0, "fail", -1, "closes", closes, "lines", lines, "bad", bad)
	}}
}

// ---- the byte pool

func genPool(i int, r *vsched.Rand) h.Scenario {
	n := h.Pick(r, []int{200, 1000, 3000})
	gs := h.Pick(r, []int{1, 4, 8})
	var sizes []int
	for k := 1 + r.N(4); k > 0; k-- {
		sizes = append(sizes, h.Pick(r, []int{1, 2, 16, 17, 64, 100, 255, 1024, 4096, 5000}))
	}
	return h.Scenario{Name: fmt.Sprint("pool ", n, gs, sizes), Head: map[string]any{"kind": "pool", "n": n * gs}, Once: true, Run: func(t *h.T) {
		var bad, short, got int32
		par(gs, func(g int) {
			type own struct {
				b []byte
				x byte
			}
			var live []own
			rng := uint32(i*31 + g*7 + 1)
			next := func(n int) int {
				rng = rng*1664525 + 1013904223
				return int(rng>>8) % n
			}
			drop := func(j int) {
				o := live[j]
				live[j] = live[len(live)-1]
				live = live[:len(live)-1]
				for _, x := range o.b[:cap(o.b)] {
					if x != o.x {
						atomic.AddInt32(&bad, 1)
						break
					}
				}
				xbytes.Free(o.b)
			}
			for j := 0; j < n; j++ {
				size := sizes[next(len(sizes))]
				c := size
				if next(3) == 0 {
					c = sizes[next(len(sizes))]
				}
				b := xbytes.Malloc(size, c)
				atomic.AddInt32(&got, 1)
				if len(b) != size || cap(b) < size || cap(b) < c {
					atomic.AddInt32(&short, 1)
				}
				o := own{b, byte(next(256))}
				b = b[:cap(b)]
				for k := range b {
					b[k] = o.x
				}
				live = append(live, o)
				if next(16) == 0 {
					raw := make([]byte, size, size+next(5))
					xbytes.Free(raw)
				}
				for len(live) > 20 || len(live) > 0 && next(2) == 0 {
					drop(next(len(live)))
				}
			}
			for len(live) > 0 {
				drop(0)
			}
		})
		t.Log("ret", "got", got, "bad", bad, "short", short)
	}}
}

// ---- retries and error batches

func lines(err error) *h.AP {
	p := &h.AP{}
	if err == nil {
		return p
	}
	for _, s := range strings.Split(err.Error(), "\n") {
		n, e := strconv.Atoi(strings.TrimPrefix(s, "e"))
		if e != nil {
			n = -100
		}
		p.Add(n)
	}
	return p
}

func genRetry(i int, r *vsched.Rand) h.Scenario {
	n := h.Pick(r, []int{100, 255, 256, 257, 1000, 1024, 1025, 4097, 32768, 65535, 65536, 66000})
	succeed := n + 1 + r.N(10)
	if r.N(2) == 0 {
		succeed = r.N(n + 2)
	}
	if i%3 == 2 {
		step := 1 + r.N(3) // only each step-th error is not nil
		return h.Scenario{Name: fmt.Sprint("batch ", n, step), Head: map[string]any{"kind": "batch", "n": n, "step": step}, Once: true, Run: func(t *h.T) {
			var be xerror.BatchError
			for k := 0; k < n; k++ {
				if k%step == 0 {
					be.Add(errors.New("e" + strconv.Itoa(k)))
				} else {
					be.Add(nil)
				}
			}
			t.Log("ret", "notnil", be.NotNil(), "nil", be.Err() == nil, "lines", lines(be.Err()).Rec())
		}}
	}
	return h.Scenario{Name: fmt.Sprint("retry ", n, succeed), Head: map[string]any{"kind": "retry", "n": n, "succeed": succeed}, Once: true, Run: func(t *h.T) {
		calls := 0
		err := xtask.DoWithRetry(func() error {
			calls++
			if calls-1 == succeed {
				return nil
			}
			return errors.New("e" + strconv.Itoa(calls-1))
		}, xtask.WithRetry(n))
		t.Log("ret", "calls", calls, "nil", err == nil, "lines", lines(err).Rec())
	}}
}

// ---- tasks under a context, many at a time

// started counts the goroutines that the library has started and that are still there.
func started() int {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			return strings.Count(string(buf[:n]), "created by github.com/chenquan/go-pkg/")
		}
		buf = make([]byte, 2*len(buf))
	}
}

func genDo(i int, r *vsched.Rand) h.Scenario {
	n := h.Pick(r, []int{300, 1100, 3000})
	gs := h.Pick(r, []int{8, 64, 300})
	return h.Scenario{Name: fmt.Sprint("do ", n, gs), Head: map[string]any{"kind": "do", "n": n}, Once: true, Run: func(t *h.T) {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		before := started()
		res := make([][]int, 5)
		var mu sync.Mutex
		see := func(w, k int) {
			mu.Lock()
			res[w] = append(res[w], k)
			mu.Unlock()
		}
		par(gs, func(g int) {
			for k := g; k < n; k += gs {
				k := k
				func() {
					defer func() {
						if e := recover(); e != nil && strings.Contains(fmt.Sprint(e), fmt.Sprintf("boom %d.", k)) {
							see(4, k)
						}
					}()
					err := xtask.Do(ctx, func() error {
						see(0, k)
						if k%3 == 2 {
							panic(fmt.Sprintf("boom %d.", k))
						}
						if k%3 == 1 {
							return errors.New("e" + strconv.Itoa(k))
						}
						return nil
					}, func() { see(1, k) })
					switch {
					case err == nil:
						see(2, k)
					case err.Error() == "e"+strconv.Itoa(k):
						see(3, k)
					}
				}()
			}
		})
		left := 0
		for j := 0; j < 200; j++ {
			if left = started() - before; left <= 0 {
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
		if left < 0 {
			left = 0
		}
		var aps []map[string]any
		for _, x := range res {
			aps = append(aps, h.APOf(x, true).Rec())
		}
		t.Log("ret", "aps", aps, "left", left)
	}}
}

// ---- workers

// peak follows how many are inside.
type peak struct{ now, top int32 }

func (p *peak) in() {
	n := atomic.AddInt32(&p.now, 1)
	for {
		o := atomic.LoadInt32(&p.top)
		if n <= o || atomic.CompareAndSwapInt32(&p.top, o, n) {
			return
		}
	}
}
func (p *peak) out() { atomic.AddInt32(&p.now, -1) }

func genWorker(i int, r *vsched.Rand) h.Scenario {
	size := h.Pick(r, []int{1, 2, 3, 7, 16, 64, 200})
	n := h.Pick(r, []int{300, 1100, 5000, 20000})
	if i%10 == 3 {
		n = 70000
	}
	gs := h.Pick(r, []int{1, 1, 4, 16})
	spin := r.N(3)
	return h.Scenario{Name: fmt.Sprint("worker ", size, n, gs, spin), Head: map[string]any{"kind": "worker", "n": n, "n0": size}, Once: true, Run: func(t *h.T) {
		w := xworker.NewWorker(size)
		var p peak
		var mu sync.Mutex
		var ran, settled []int
		var wg sync.WaitGroup
		wg.Add(n)
		par(gs, func(g int) {
			for k := g; k < n; k += gs {
				k := k
				w.Run(context.Background(), func() {
					p.in()
					for j := 0; j < spin; j++ {
						runtime.Gosched()
					}
					mu.Lock()
					ran = append(ran, k)
					mu.Unlock()
				}, func() {
					for j := 0; j < spin; j++ {
						runtime.Gosched()
					}
					mu.Lock()
					settled = append(settled, k)
					mu.Unlock()
					p.out()
					wg.Done()
				})
			}
		})
		wg.Wait()
		// still as many at the same time as before
		arrived := make(chan int, size)
		goOn := make(chan int)
		for k := 0; k < size; k++ {
			w.Run(context.Background(), func() { arrived <- 1; <-goOn }, func() {})
		}
		for k := 0; k < size; k++ {
			<-arrived
		}
		close(goOn)
		t.Log("ret", "ran", h.APOf(ran, true).Rec(), "settled", h.APOf(settled, true).Rec(), "peak", p.top)
	}}
}

// ---- barriers

func genBarrier(i int, r *vsched.Rand) h.Scenario {
	n := h.Pick(r, []int{1000, 10000, 70000})
	capn := h.Pick(r, []int{0, 1, 100})
	read := i%2 == 0
	return h.Scenario{Name: fmt.Sprint("barrier ", n, capn, read), Head: map[string]any{"kind": "barrier", "n": n}, Once: true, Run: func(t *h.T) {
		ch := make(chan interface{}, capn)
		okp, vals := &h.AP{}, &h.AP{}
		ctx, cancel := context.WithCancel(context.Background())
		if read {
			go func() {
				for k := 0; k < n; k++ {
					ch <- k
				}
			}()
			b := xbarrier.NewReadBarrier(ctx, ch)
			for k := 0; k < n; k++ {
				v, ok := b.Read()
				if ok {
					okp.Add(k)
				}
				x, is := v.(int)
				if !is {
					x = -5
				}
				vals.Add(x)
			}
		} else {
			done := make(chan int)
			go func() {
				for v := range ch {
					x, is := v.(int)
					if !is {
						x = -5
					}
					vals.Add(x)
				}
				close(done)
			}()
			b := xbarrier.NewWriteBarrier(ctx, ch)
			for k := 0; k < n; k++ {
				if b.Write(k) {
					okp.Add(k)
				}
			}
			close(ch)
			<-done
		}
		cancel()
		t.Log("ret", "ok", okp.Rec(), "vals", vals.Rec())
	}}
}

// ---- map-reduce

func genMR(fam string, i int, r *vsched.Rand) h.Scenario {
	size := h.Pick(r, []int{1, 2, 3, 8, 16, 64, 200})
	n := h.Pick(r, []int{100, 300, 1100, 2100, 5000})
	if i%8 == 3 {
		n = h.Pick(r, []int{33000, 66000})
	}
	writes := 1 + r.N(3)
	stream := r.N(3) == 0
	if fam == "vmrc" {
		n = h.Pick(r, []int{100, 300, 1100, 2100})
	}
	at := r.N(n * writes)
	name := fmt.Sprint(fam, " workers ", size, " items ", n, " writes ", writes, " stream ", stream)
	head := map[string]any{"kind": "mr", "n": n, "n0": size, "writes": writes}
	if fam == "vmrc" {
		head["kind"] = "mrc"
		name += fmt.Sprint(" cancel after ", at)
	}
	return h.Scenario{Name: name, Head: head, Once: true, Run: func(t *h.T) {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		var p peak
		var mu sync.Mutex
		mapped, okw, got := []int{}, []int{}, []int{}
		var ended int32
		var genEnd int32
		var late int32 // writes that succeed although they start after the cancellation
		generate := func(source chan<- interface{}) {
			for k := 0; k < n; k++ {
				select {
				case source <- k:
				case <-ctx.Done():
					return
				}
			}
			atomic.StoreInt32(&genEnd, 1)
		}
		mapper := func(x interface{}, w xbarrier.Writer) {
			k, ok := x.(int)
			if !ok {
				k = -7
			}
			p.in()
			mu.Lock()
			mapped = append(mapped, k)
			mu.Unlock()
			for j := 0; j < writes; j++ {
				v := k*writes + j
				over := ctx.Err() != nil
				ok := w.Write(v)
				if ok {
					mu.Lock()
					okw = append(okw, v)
					mu.Unlock()
					if over {
						atomic.AddInt32(&late, 1)
					}
				}
			}
			p.out()
			atomic.AddInt32(&ended, 1)
		}
		var out <-chan interface{}
		if stream {
			out = xmapreduce.MapStream(ctx, generate, mapper, xmapreduce.WithWorkerSize(size)).Chan()
		} else {
			out = xmapreduce.Map(ctx, generate, mapper, xmapreduce.WithWorkerSize(size))
		}
		for v := range out {
			x, ok := v.(int)
			if !ok {
				x = -5
			}
			got = append(got, x)
			if fam == "vmrc" && len(got) == at {
				cancel()
			}
		}
		ends, gend := atomic.LoadInt32(&ended), atomic.LoadInt32(&genEnd)
		if fam == "vmrc" {
			cancel()
			// map functions may still be ending
			for j := 0; atomic.LoadInt32(&p.now) > 0 && j < 500; j++ {
				time.Sleep(10 * time.Millisecond)
			}
			mu.Lock()
			defer mu.Unlock()
			sort.Ints(mapped)
			sort.Ints(okw)
			sort.Ints(got)
			t.Log("ret", "mapped", mapped, "okw", okw, "out", got, "peak", p.top, "late", late)
			return
		}
		mu.Lock()
		defer mu.Unlock()
		t.Log("ret", "mapped", h.APOf(mapped, true).Rec(), "okw", h.APOf(okw, true).Rec(), "out", h.APOf(got, true).Rec(), "peak", p.top, "ended", ends, "gend", gend)
	}}
}

func main() {
	h.Main(h.Driver{Name: "vol", Gen: func(fam string, i int, r *vsched.Rand) h.Scenario {
		switch fam {
		case "vmap", "vcomp", "vrange", "vshared":
			return genMap(fam, i, r)
		case "vres":
			return genRes(i, r)
		case "vpool":
			return genPool(i, r)
		case "vretry":
			return genRetry(i, r)
		case "vdo":
			return genDo(i, r)
		case "vworker":
			return genWorker(i, r)
		case "vbarrier":
			return genBarrier(i, r)
		}
		return genMR(fam, i, r)
	}, Count: func(fam, tier string) int {
		switch fam {
		case "vbarrier", "vdo":
			return h.By(tier, 24, 100)
		case "vmr", "vmrc", "vworker", "vretry":
			return h.By(tier, 60, 400)
		}
		return h.By(tier, 120, 1000)
	}})
}
