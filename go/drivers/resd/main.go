// resd drives the resource manager of xsync.
package main

import (
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"

	"github.com/chenquan/go-pkg/xsync"
	"verif.local/mbv/h"
	"verif.local/mbv/vsched"
)

// op: Get (fail: the creation fails; cfail: closing the resource fails),
// Remove, Close.
type op struct {
	m     string
	k     int
	fail  bool
	cfail bool
}

func (o op) String() string {
	s := o.m
	if o.m != "Close" {
		s += fmt.Sprintf("(%d)", o.k)
	}
	if o.fail {
		s += "!"
	}
	if o.cfail {
		s += "c!"
	}
	return s
}

func str(p []op) string {
	var ss []string
	for _, o := range p {
		ss = append(ss, o.String())
	}
	return strings.Join(ss, " ")
}

// likes are groups of keys that a shortcut may confuse.
var likes = [][]string{
	{"key0", "key1", "key2", "key3"},
	{"a", "a/", "/a", "a//"},
	{"", " ", "\t", "  "},
	{"k", "K", "\u212a", "k\x00"},
	{"1", "01", "1.0", "+1"},
	{"http://h/p", "http://h/p?", "http://H/p", "http://h/p#"},
	{strings.Repeat("p", 300) + "0", strings.Repeat("p", 300) + "1", "0" + strings.Repeat("p", 300), strings.Repeat("p", 301)},
	{"creamwove", "quists", "costarring", "liquid"},
	{"\u00e9", "e\u0301", "\xe9", "\xff"},
}

type res struct {
	t    *h.T
	id   int
	fail error
}

// sent makes the errors of a history: some are well-known ones, each that of
// one id. With alike, all resources fail to close with one and the same error,
// whose number is 0.
type sent struct {
	use   bool
	alike error
	keys  []string
}

func (s sent) cerr(id int) error {
	if s.alike != nil {
		return s.alike
	}
	return s.err("", id)
}

func (s sent) err(text string, id int) error {
	if s.use && id%2 == 0 && id/2 <= len(h.Sentinels) {
		return h.Sentinels[id/2-1]
	}
	return errors.New(text + strconv.Itoa(id))
}

// num is the id a text of an error stands for.
func (s sent) num(text, prefix string) int {
	for k, e := range h.Sentinels {
		if s.use && e.Error() == text {
			return 2 * (k + 1)
		}
	}
	if x := strings.TrimPrefix(text, prefix); len(x) == len(text)-len(prefix) {
		if n, err := strconv.Atoi(x); err == nil {
			return n
		}
	}
	return -2
}

func (r *res) Close() error {
	r.t.Pause()
	r.t.Log("rclose", "r", r.id)
	return r.fail
}

func do(t *h.T, m *xsync.ResourceManager, o op, s sent) {
	switch o.m {
	case "Get":
		id := t.Call("Get", "k", o.k)
		c, err := m.Get(s.keys[o.k], func() (io.Closer, error) {
			t.Log("cb", "id", id, "k", o.k)
			t.Pause()
			r := &res{t: t, id: id}
			if o.cfail && !o.fail {
				r.fail = s.cerr(id)
			}
			if o.fail {
				t.Log("ce", "id", id, "k", o.k, "ok", false, "cf", false)
				if o.cfail { // the resource of a failed creation does not count
					return r, s.err("create ", id)
				}
				return nil, s.err("create ", id)
			}
			t.Log("ce", "id", id, "k", o.k, "ok", true, "cf", o.cfail)
			return r, nil
		})
		v, e := -1, -1
		if r, ok := c.(*res); ok && r != nil {
			v = r.id
		} else if c != nil {
			v = -2
		}
		if err != nil {
			e = s.num(err.Error(), "create ")
		}
		t.Log("ret", "id", id, "v", v, "err", e)
	case "Remove":
		id := t.Call("Remove", "k", o.k)
		ok := m.Remove(s.keys[o.k])
		t.Log("ret", "id", id, "ok", ok)
	case "Close":
		id := t.Call("Close", "k", 0)
		err := m.Close()
		es := []int{}
		if err != nil {
			for _, x := range strings.Split(err.Error(), "\n") {
				if s.alike != nil && x == s.alike.Error() {
					es = append(es, 0)
					continue
				}
				es = append(es, s.num(x, ""))
			}
		}
		t.Log("ret", "id", id, "errs", es, "nil", err == nil)
	}
}

func gen(fam string, i int, r *vsched.Rand) h.Scenario {
	keys := 1
	if r.N(3) == 0 {
		keys = 2
	}
	if fam == "seq" {
		keys = 1 + r.N(4)
	}
	closing := r.N(2) == 0
	get := func() op {
		return op{m: "Get", k: r.N(keys), fail: r.N(4) == 0, cfail: r.N(4) == 0}
	}
	some := func() op {
		if r.N(3) == 0 {
			return op{m: "Remove", k: r.N(keys)}
		}
		return get()
	}
	var setup []op
	for n := r.N(4); n > 0; n-- {
		setup = append(setup, some())
	}
	var th [][]op
	nt := 2 + r.N(3)
	if fam == "seq" {
		nt = 0
		for n := 5 + r.N(15); n > 0; n-- {
			setup = append(setup, some())
		}
	}
	for j := 0; j < nt; j++ {
		var p []op
		max := 3
		if nt > 2 {
			max = 2
		}
		for n := 1 + r.N(max); n > 0; n-- {
			p = append(p, some())
		}
		th = append(th, p)
	}
	if closing && nt > 0 {
		// the closer runs alongside single operations that begin before it ends
		for j := range th {
			th[j] = th[j][:1]
			if th[j][0].m == "Remove" && r.N(2) == 0 {
				th[j][0] = get()
			}
		}
	}
	use, alike := r.N(2) == 0, 0
	if r.N(3) == 0 {
		alike = 1 + r.N(4)
	}
	names := append([]string{}, h.Pick(r, likes)...)
	for j := range names {
		k := j + r.N(len(names)-j)
		names[j], names[k] = names[k], names[j]
	}
	name := fmt.Sprintf("keys %.60q ", names[:keys]) + fmt.Sprint("well-known errors ", use, " alike ", alike, " setup: ", str(setup))
	for _, p := range th {
		name += " | " + str(p)
	}
	if closing {
		name += " + Close"
	}
	return h.Scenario{Name: name, Head: map[string]any{"nk": keys}, Once: nt == 0, Run: func(t *h.T) {
		m := xsync.NewResourceManager()
		s := sent{use: use, keys: names}
		switch alike {
		case 0:
		case 1:
			s.alike = errors.New("it does not close")
		default:
			s.alike = h.Sentinels[alike-2]
		}
		do := func(t *h.T, m *xsync.ResourceManager, o op) { do(t, m, o, s) }
		for _, o := range setup {
			do(t, m, o)
		}
		var fs []func()
		// begun[i]: client i has begun its operation
		started := make(chan bool, len(th))
		for _, p := range th {
			p := p
			fs = append(fs, func() {
				if closing {
					started <- true
				}
				for _, o := range p {
					do(t, m, o)
				}
			})
		}
		if closing && nt > 0 {
			fs = append(fs, func() {
				for range th {
					<-started
				}
				do(t, m, op{m: "Close"})
			})
		}
		t.Par(fs...)
		if closing && nt > 0 {
			return
		}
		for k := 0; k < keys; k++ {
			do(t, m, op{m: "Get", k: k})
		}
		for k := 0; k < keys; k++ {
			if r := (k+i)%3 == 0; r {
				do(t, m, op{m: "Remove", k: k})
			}
		}
		do(t, m, op{m: "Close"})
	}}
}

func main() {
	h.Main(h.Driver{Name: "res", Gen: gen, Count: func(fam, tier string) int {
		return h.By(tier, 240, 2400)
	}})
}
