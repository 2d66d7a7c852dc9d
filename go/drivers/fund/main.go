// fund calls the pure functions of xstring and xmath and records each call with
// its result.
package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/chenquan/go-pkg/xmath"
	"github.com/chenquan/go-pkg/xstring"
	"verif.local/mbv/h"
	"verif.local/mbv/vsched"
)

const perScenario = 60

// cps renders a string as code points; a byte that is not UTF-8 is -1.
func cps(s string) []int {
	r := []int{}
	for len(s) > 0 {
		c, n := utf8.DecodeRuneInString(s)
		if c == utf8.RuneError && n <= 1 {
			r = append(r, -1)
		} else {
			r = append(r, int(c))
		}
		s = s[n:]
	}
	return r
}

func fold(c rune) int {
	m := c
	for f := unicode.SimpleFold(c); f != c; f = unicode.SimpleFold(f) {
		if f < m {
			m = f
		}
	}
	return int(m)
}

func b01(b bool) int {
	if b {
		return 1
	}
	return 0
}

// call is one call of a function: its arguments, and how to carry it out.
type call struct {
	f  string
	ss []string
	n  []int
	ic bool
	c  rune
}

type result struct {
	r   string
	i   int
	b   bool
	err bool
}

func (c call) s(i int) string { return c.ss[i] }

func str(s string) result          { return result{r: s} }
func num(i int) result             { return result{i: i} }
func boo(b bool) result            { return result{b: b} }
func ers(s string, e error) result { return result{r: s, err: e != nil} }

var fns = map[string]func(c call) result{
	"Sub":            func(c call) result { return str(xstring.Sub(c.s(0), c.n[0], c.n[1])) },
	"Left":           func(c call) result { return str(xstring.Left(c.s(0), c.n[0])) },
	"Right":          func(c call) result { return str(xstring.Right(c.s(0), c.n[0])) },
	"PadLeftChar":    func(c call) result { return str(xstring.PadLeftChar(c.s(0), c.n[0], c.c)) },
	"PadRightChar":   func(c call) result { return str(xstring.PadRightChar(c.s(0), c.n[0], c.c)) },
	"PadCenterChar":  func(c call) result { return str(xstring.PadCenterChar(c.s(0), c.n[0], c.c)) },
	"PadLeftSpace":   func(c call) result { return str(xstring.PadLeftSpace(c.s(0), c.n[0])) },
	"PadRightSpace":  func(c call) result { return str(xstring.PadRightSpace(c.s(0), c.n[0])) },
	"PadCenterSpace": func(c call) result { return str(xstring.PadCenterSpace(c.s(0), c.n[0])) },
	"Rotate":         func(c call) result { return str(xstring.Rotate(c.s(0), c.n[0])) },
	"Reverse":        func(c call) result { return ers(xstring.Reverse(c.s(0))) },
	"MustReverse":    func(c call) result { return str(xstring.MustReverse(c.s(0))) },
	"RepeatChar":     func(c call) result { return str(xstring.RepeatChar(c.c, c.n[0])) },
	"RemoveChar":     func(c call) result { return str(xstring.RemoveChar(c.s(0), c.c)) },
	"RemoveString":   func(c call) result { return str(xstring.RemoveString(c.s(0), c.s(1))) },
	"Len":            func(c call) result { return num(xstring.Len(c.s(0))) },
	"Shuffle":        func(c call) result { return str(xstring.Shuffle(c.s(0))) },

	"EqualsIgnoreCase":      func(c call) result { return boo(xstring.EqualsIgnoreCase(c.s(0), c.s(1))) },
	"EndsWith":              func(c call) result { return boo(xstring.EndsWith(c.s(0), c.s(1), c.ic)) },
	"EndsWithIgnoreCase":    func(c call) result { return boo(xstring.EndsWithIgnoreCase(c.s(0), c.s(1))) },
	"EndsWithCase":          func(c call) result { return boo(xstring.EndsWithCase(c.s(0), c.s(1))) },
	"EndsWithAny":           func(c call) result { return boo(xstring.EndsWithAny(c.s(0), c.ss[1:]...)) },
	"RegionMatches":         func(c call) result { return boo(xstring.RegionMatches(c.s(0), c.ic, c.n[0], c.s(1), c.n[1], c.n[2])) },
	"Contains":              func(c call) result { return boo(xstring.Contains(c.s(0), c.s(1))) },
	"ContainsIgnoreCase":    func(c call) result { return boo(xstring.ContainsIgnoreCase(c.s(0), c.s(1))) },
	"ContainsAnySubstrings": func(c call) result { return boo(xstring.ContainsAnySubstrings(c.s(0), c.ss[1:])) },
	"Index":                 func(c call) result { return num(xstring.Index(c.s(0), c.s(1))) },
	"IndexAny":              func(c call) result { return num(xstring.IndexAny(c.s(0), c.s(1))) },
	"EqualsAny":             func(c call) result { return boo(xstring.EqualsAny(c.s(0), c.ss[1:]...)) },
	"IndexOfDifference":     func(c call) result { return num(xstring.IndexOfDifference(c.ss...)) },
	"IndexOfDifference2":    func(c call) result { return num(xstring.IndexOfDifferenceWithTwoStr(c.s(0), c.s(1))) },
	"Difference":            func(c call) result { return str(xstring.Difference(c.s(0), c.s(1))) },
	"CommonPrefix":          func(c call) result { return str(xstring.CommonPrefix(c.ss...)) },

	"Abbreviate": func(c call) result { return ers(xstring.Abbreviate(c.s(0), c.s(1), c.n[0], c.n[1])) },

	"IsAlpha":          func(c call) result { return boo(xstring.IsAlpha(c.s(0))) },
	"IsAlphanumeric":   func(c call) result { return boo(xstring.IsAlphanumeric(c.s(0))) },
	"IsNumeric":        func(c call) result { return boo(xstring.IsNumeric(c.s(0))) },
	"IsNumerical":      func(c call) result { return boo(xstring.IsNumerical(c.s(0))) },
	"IsEmpty":          func(c call) result { return boo(xstring.IsEmpty(c.s(0))) },
	"IsNotEmpty":       func(c call) result { return boo(xstring.IsNotEmpty(c.s(0))) },
	"IsAnyEmpty":       func(c call) result { return boo(xstring.IsAnyEmpty(c.ss...)) },
	"IsNoneEmpty":      func(c call) result { return boo(xstring.IsNoneEmpty(c.ss...)) },
	"IsBlank":          func(c call) result { return boo(xstring.IsBlank(c.s(0))) },
	"IsNotBlank":       func(c call) result { return boo(xstring.IsNotBlank(c.s(0))) },
	"IsAnyBlank":       func(c call) result { return boo(xstring.IsAnyBlank(c.ss...)) },
	"IsNoneBlank":      func(c call) result { return boo(xstring.IsNoneBlank(c.ss...)) },
	"TrimSpace":        func(c call) result { return str(xstring.TrimSpace(c.s(0))) },
	"Trim":             func(c call) result { return str(xstring.Trim(c.s(0), c.s(1))) },
	"TrimLeft":         func(c call) result { return str(xstring.TrimLeft(c.s(0), c.s(1))) },
	"TrimRight":        func(c call) result { return str(xstring.TrimRight(c.s(0), c.s(1))) },
	"DefaultIfBlank":   func(c call) result { return str(xstring.DefaultIfBlank(c.s(0), c.s(1))) },
	"DefaultIfEmpty":   func(c call) result { return str(xstring.DefaultIfEmpty(c.s(0), c.s(1))) },
	"DeleteWhitespace": func(c call) result { return str(xstring.DeleteWhitespace(c.s(0))) },
}

// small scopes, enumerated completely

func words(alpha []rune, max int) []string {
	out := []string{""}
	prev := []string{""}
	for n := 1; n <= max; n++ {
		var next []string
		for _, p := range prev {
			for _, c := range alpha {
				next = append(next, p+string(c))
			}
		}
		out = append(out, next...)
		prev = next
	}
	return out
}

func rng(lo, hi int) []int {
	var r []int
	for i := lo; i <= hi; i++ {
		r = append(r, i)
	}
	return r
}

func exhaustive(fam string) []call {
	var cs []call
	add := func(c call) { cs = append(cs, c) }
	switch fam {
	case "slice":
		w := words([]rune{'a', 'é', '😀'}, 3)
		for _, s := range w {
			for _, a := range rng(-5, 5) {
				for _, b := range rng(-5, 5) {
					add(call{f: "Sub", ss: []string{s}, n: []int{a, b}})
				}
				for _, f := range []string{"Left", "Right"} {
					add(call{f: f, ss: []string{s}, n: []int{a}})
				}
			}
			for _, a := range rng(-1, 8) {
				for _, f := range []string{"PadLeft", "PadRight", "PadCenter"} {
					for _, c := range []rune{'世', 0} {
						add(call{f: f + "Char", ss: []string{s}, n: []int{a}, c: c})
					}
					add(call{f: f + "Space", ss: []string{s}, n: []int{a}})
				}
			}
			for _, a := range rng(-8, 8) {
				add(call{f: "Rotate", ss: []string{s}, n: []int{a}})
			}
			for _, f := range []string{"Reverse", "MustReverse", "Len", "Shuffle"} {
				add(call{f: f, ss: []string{s}})
			}
			for _, c := range []rune{'a', 'é', '😀', 'b'} {
				add(call{f: "RemoveChar", ss: []string{s}, c: c})
			}
			for _, x := range words([]rune{'a', 'é', '😀'}, 2) {
				add(call{f: "RemoveString", ss: []string{s, x}})
			}
		}
		for _, s := range words([]rune{'a', 'b'}, 6) {
			for _, x := range []string{"a", "ab", "aa", "aba", "bb"} {
				add(call{f: "RemoveString", ss: []string{s, x}})
			}
		}
		for _, c := range []rune{'a', 'é', '世', '😀', 0, '\ufffd', 0x10ffff} {
			for _, n := range rng(-2, 6) {
				add(call{f: "RepeatChar", n: []int{n}, c: c})
			}
		}
	case "search":
		w := words([]rune{'a', 'A', 'b'}, 3)
		for _, a := range w {
			for _, b := range w {
				ss := []string{a, b}
				for _, f := range []string{"EqualsIgnoreCase", "EndsWithCase", "EndsWithIgnoreCase", "Contains", "ContainsIgnoreCase", "Index", "IndexAny", "IndexOfDifference", "IndexOfDifference2", "Difference", "CommonPrefix"} {
					add(call{f: f, ss: ss})
				}
			}
		}
		w = words([]rune{'é', 'É', '世'}, 2)
		for _, a := range w {
			for _, b := range w {
				for _, f := range []string{"EqualsIgnoreCase", "EndsWithIgnoreCase", "ContainsIgnoreCase", "Index", "IndexAny", "IndexOfDifference2", "Difference", "CommonPrefix", "EqualsAny", "EndsWithAny", "ContainsAnySubstrings"} {
					add(call{f: f, ss: []string{a, b}})
				}
				for _, c := range []string{"", "é", "世É"} {
					for _, f := range []string{"IndexOfDifference", "CommonPrefix", "EqualsAny", "EndsWithAny", "ContainsAnySubstrings"} {
						add(call{f: f, ss: []string{a, b, c}})
					}
				}
			}
			for _, f := range []string{"IndexOfDifference", "CommonPrefix", "EqualsAny", "EndsWithAny", "ContainsAnySubstrings"} {
				add(call{f: f, ss: []string{a}})
			}
		}
		// characters whose cases differ in length
		for _, al := range [][]rune{[]rune("k\u212aSſ"), []rune("ɐⱯaåÅ")} {
			w = words(al, 2)
			for _, a := range w {
				for _, b := range w {
					for _, f := range []string{"EqualsIgnoreCase", "EndsWithIgnoreCase", "ContainsIgnoreCase", "IndexOfDifference2"} {
						add(call{f: f, ss: []string{a, b}})
					}
				}
			}
		}
		add(call{f: "IndexOfDifference", ss: []string{}})
		add(call{f: "CommonPrefix", ss: []string{}})
		for _, a := range words([]rune{'é', 'É'}, 2) {
			for _, b := range []string{"", "é", "Éé", "bé"} {
				for _, x := range rng(-1, 3) {
					for _, y := range rng(-1, 3) {
						for _, l := range rng(-1, 3) {
							add(call{f: "RegionMatches", ss: []string{a, b}, n: []int{x, y, l}, ic: true})
							add(call{f: "RegionMatches", ss: []string{a, b}, n: []int{x, y, l}})
						}
					}
				}
			}
		}
	case "abbrev":
		base := []rune("aé世😀bcdefghijk")
		for l := 0; l <= 13; l++ {
			for _, m := range []string{"", ".", "é", "…!", "...", "世界😀x"} {
				for _, off := range rng(-2, 15) {
					for _, w := range rng(-1, 15) {
						if m == "" && w <= 0 && l > 0 {
							continue
						}
						add(call{f: "Abbreviate", ss: []string{string(base[:l]), m}, n: []int{off, w}})
					}
				}
			}
		}
		// what the characters are must not matter
		for _, s := range append(words([]rune{'a', ' ', '.'}, 4), "a b. c. d  e", ". . . . . .", "           ") {
			l := len(s)
			for _, m := range []string{".", "..."} {
				for _, off := range []int{-1, 0, l / 2, l - 1, l} {
					for _, w := range rng(l-3, l+1) {
						add(call{f: "Abbreviate", ss: []string{s, m}, n: []int{off, w}})
					}
				}
			}
		}
	case "class":
		for _, s := range words([]rune{'a', '1', ' ', '.', 'é', 0x3000, '-'}, 3) {
			for _, f := range []string{"IsAlpha", "IsAlphanumeric", "IsNumeric", "IsNumerical", "IsEmpty", "IsNotEmpty", "IsBlank", "IsNotBlank", "TrimSpace", "DeleteWhitespace"} {
				add(call{f: f, ss: []string{s}})
			}
			for _, x := range []string{"", "a ", "é", "\u3000.1"} {
				for _, f := range []string{"Trim", "TrimLeft", "TrimRight", "DefaultIfBlank", "DefaultIfEmpty"} {
					add(call{f: f, ss: []string{s, x}})
				}
			}
		}
		for _, s := range words([]rune{'1', '.', '0'}, 5) {
			add(call{f: "IsNumerical", ss: []string{s}})
		}
		vals := []string{"", " ", "a", "\t\u2003", "é"}
		for _, f := range []string{"IsAnyEmpty", "IsNoneEmpty", "IsAnyBlank", "IsNoneBlank"} {
			add(call{f: f, ss: []string{}})
			for _, a := range vals {
				add(call{f: f, ss: []string{a}})
				for _, b := range vals {
					add(call{f: f, ss: []string{a, b}})
					for _, c := range vals {
						add(call{f: f, ss: []string{a, b, c}})
					}
				}
			}
		}
	}
	return cs
}

var scopes = map[string][]call{}

func scope(fam string) []call {
	if _, ok := scopes[fam]; !ok {
		scopes[fam] = exhaustive(fam)
	}
	return scopes[fam]
}

// random calls over wide alphabets
var alphabets = [][]rune{
	[]rune("ab"), []rune("aAbB"), []rune("aé世😀"), []rune("aÜüéÉ"), []rune("kK\u212asſS"), []rune("σςΣµμΜ"), []rune("ǄǅǆÅåÅ"),
	[]rune("a \t\n\u0085\u00a0\u2003\u3000\u200b\ufeff"), []rune("09٣５²Ⅷx"), []rune("1.,-٣.0"), []rune("\x00a\ufffd\U0010ffff\uffff"), []rune("e\u0301é\u200d👩🏽"),
	[]rune("abcdefghijklmnopqrstuvwxyz"), []rune("ЖжЯяЁё"), []rune("あア亜\U00020000"), []rune("...ab"), []rune("一ー1"), []rune("a\r\n\t"), []rune("1.\n2\r"), []rune("θϑϴΘ"), []rune("\u0085\u1680\u2028\u2029\u202f\u205f\v\f\u180ea"), []rune("ªʰǅあ٠०"), []rune("ßẞSs"), []rune("a\u0300\ufe0f\u200e"),
}

func word(r *vsched.Rand, al []rune, max int) string {
	n := -max
	if max >= 0 {
		n = r.N(max + 1)
	}
	var sb strings.Builder
	for ; n > 0; n-- {
		sb.WriteRune(al[r.N(len(al))])
	}
	return sb.String()
}

var famFns = map[string][]string{
	"slice":  {"Sub", "Sub", "Left", "Right", "PadLeftChar", "PadRightChar", "PadCenterChar", "PadLeftSpace", "PadRightSpace", "PadCenterSpace", "Rotate", "Rotate", "Reverse", "MustReverse", "RepeatChar", "RemoveChar", "RemoveString", "Len", "Shuffle"},
	"search": {"EqualsIgnoreCase", "EqualsIgnoreCase", "EndsWith", "EndsWithIgnoreCase", "EndsWithCase", "EndsWithAny", "RegionMatches", "RegionMatches", "Contains", "ContainsIgnoreCase", "ContainsIgnoreCase", "ContainsAnySubstrings", "Index", "IndexAny", "EqualsAny", "IndexOfDifference", "IndexOfDifference2", "Difference", "CommonPrefix"},
	"abbrev": {"Abbreviate"},
	"class":  {"IsAlpha", "IsAlphanumeric", "IsNumeric", "IsNumerical", "IsBlank", "IsNotBlank", "IsEmpty", "IsAnyEmpty", "IsNoneEmpty", "IsAnyBlank", "IsNoneBlank", "TrimSpace", "Trim", "TrimLeft", "TrimRight", "DefaultIfBlank", "DefaultIfEmpty", "DeleteWhitespace"},
}

func random(fam string, r *vsched.Rand) call {
	al := h.Pick(r, alphabets)
	if r.N(5) == 0 {
		al = append(append([]rune{}, al...), h.Pick(r, alphabets)...)
	}
	max := h.Pick(r, []int{2, 4, 8, 8, 20, 70})
	if r.N(40) == 0 {
		max = h.Pick(r, []int{200, 600, 1500})
	}
	return make1(h.Pick(r, famFns[fam]), al, max, r)
}

// long calls of f: strings of n characters of a few kinds
func long(f string, n int, r *vsched.Rand) call {
	return make1(f, h.Pick(r, alphabets[:9]), -n, r)
}

// make1 draws a call of f with a string of up to max (-max: exactly that many) characters.
func make1(fn string, al []rune, max int, r *vsched.Rand) call {
	c := call{f: fn, ic: r.N(2) == 0, c: h.Pick(r, al)}
	if r.N(4) == 0 {
		c.c = h.Pick(r, []rune{0, ' ', 'a', '\u0300', '\ufffd', '\uffff', 0x10ffff})
	}
	s := word(r, al, max)
	l := utf8.RuneCountInString(s)
	part := func() string { // a piece of s, perhaps altered
		rs := []rune(s)
		a := r.N(l + 1)
		b := a + r.N(l-a+1)
		p := append([]rune{}, rs[a:b]...)
		switch r.N(4) {
		case 0:
			for i, x := range p {
				if r.N(2) == 0 {
					// a character equal to it but for case
					p[i] = unicode.SimpleFold(x)
				}
			}
		case 1:
			if len(p) > 0 {
				p[r.N(len(p))] = h.Pick(r, al)
			}
		}
		return string(p)
	}
	other := func() string {
		switch r.N(6) {
		case 0:
			return word(r, al, max)
		case 1:
			return s
		case 2:
			return string([]rune(s)[r.N(l+1):])
		case 3:
			return string([]rune(s)[:r.N(l+1)])
		}
		return part()
	}
	pos := func() int {
		return h.Pick(r, []int{0, 1, -1, l, -l, l + 1, -l - 1, l - 1, r.N(l + 1), r.N(l + 1), -r.N(l + 1), r.N(2*l + 1), math.MaxInt, math.MinInt, math.MaxInt32, math.MinInt32})
	}
	c.ss = []string{s}
	switch c.f {
	case "Sub":
		c.n = []int{pos(), pos()}
	case "Left", "Right":
		c.n = []int{pos()}
	case "Rotate":
		c.n = []int{h.Pick(r, []int{pos(), pos(), r.N(1000000) - 500000, int(r.U64())})}
	case "PadLeftChar", "PadRightChar", "PadCenterChar", "PadLeftSpace", "PadRightSpace", "PadCenterSpace":
		c.n = []int{h.Pick(r, []int{0, -1, math.MinInt, l, l + 1, l + 2, l + 3, l - 1, l + r.N(20), r.N(20)})}
	case "RepeatChar":
		c.ss = nil
		c.n = []int{h.Pick(r, []int{0, -1, math.MinInt, 1, 2, r.N(60)})}
		if max < 0 {
			c.n[0] = -max
		}
	case "RemoveString":
		c.ss = append(c.ss, h.Pick(r, []string{word(r, al, 2), part(), ""}))
		if max < 0 {
			c.ss[1] = word(r, al, -1-r.N(2))
		}
	case "EndsWithAny", "ContainsAnySubstrings", "EqualsAny", "IndexOfDifference", "CommonPrefix", "IsAnyEmpty", "IsNoneEmpty", "IsAnyBlank", "IsNoneBlank":
		k := r.N(4)
		if r.N(12) == 0 && max < 100 && max > 0 {
			k = 10 + r.N(40)
		}
		for ; k > 0; k-- {
			c.ss = append(c.ss, other())
		}
	case "RegionMatches":
		c.ss = append(c.ss, other())
		m := utf8.RuneCountInString(c.ss[1])
		c.n = []int{pos(), h.Pick(r, []int{0, 0, r.N(m + 1), -1, m, math.MaxInt}), h.Pick(r, []int{m, r.N(m + 1), 0, -1, m + 1, math.MaxInt})}
		if r.N(2) == 0 { // regions that do match
			a := r.N(l + 1)
			k := r.N(l - a + 1)
			c.ss[1] = word(r, al, 3) + string([]rune(s)[a:a+k])
			c.n = []int{a, utf8.RuneCountInString(c.ss[1]) - k, k}
		}
	case "Abbreviate":
		if s == "" {
			s = "x"
		}
		m := h.Pick(r, []string{"", ".", "...", "世", "…é", word(r, al, 4)})
		c.ss = []string{s, m}
		w := h.Pick(r, []int{l, l - 1, l - 2, l / 2, l + 1, r.N(l + 3), r.N(12), 0, -1, math.MaxInt, math.MinInt})
		if m == "" && w <= 0 {
			w = 1
		}
		c.n = []int{h.Pick(r, []int{0, 1, -1, -5, l, l - 1, l + 1, r.N(l + 1), r.N(l + 1), r.N(l + 1), math.MaxInt, math.MinInt}), w}
	case "Trim", "TrimLeft", "TrimRight":
		c.ss = append(c.ss, word(r, al, 3))
	case "EqualsIgnoreCase", "EndsWith", "EndsWithIgnoreCase", "EndsWithCase", "Contains", "ContainsIgnoreCase", "Index", "IndexAny", "IndexOfDifference2", "Difference", "DefaultIfBlank", "DefaultIfEmpty":
		c.ss = append(c.ss, other())
		if c.f == "IndexAny" && r.N(2) == 0 {
			c.ss[1] = word(r, al, 2)
			if r.N(8) == 0 { // many characters, few of them there
				c.ss[1] = word(r, h.Pick(r, alphabets), 150) + word(r, al, 2)
			}
		}
	}
	if c.f == "IsNumerical" && r.N(2) == 0 {
		c.ss = []string{word(r, []rune("0123456789."), 8)}
	}
	return c
}

func clip(n int) int {
	if n > 1000000000 {
		return 1000000000
	}
	if n < -1000000000 {
		return -1000000000
	}
	return n
}

// limbs: sign and magnitude in base 2^24, exact
func limbs(n int) []int {
	u := uint64(n)
	s := 1
	if n < 0 {
		u = -u
		s = -1
	}
	return []int{s, int(u >> 48), int(u >> 24 & 0xffffff), int(u & 0xffffff)}
}

var longSizes = []int{1100, 4097, 66100}

// randScenarios is the number of scenarios of short calls, nLong that of long ones.
func randScenarios(fam string) int { return (len(scope(fam))+perScenario-1)/perScenario + randN }
func nLong(fam string) int         { return len(famFns[fam]) }

var randN int

func strGen(fam string, i int, r *vsched.Rand) h.Scenario {
	var cs []call
	ex := scope(fam)
	if k := i - randScenarios(fam); k >= 0 { // long ones
		fs := famFns[fam]
		if fs[k%len(fs)] == "RemoveString" {
			cs = append(cs, make1("RemoveString", []rune("aé"), -4000, r), make1("RemoveString", []rune("a"), -4500, r))
		}
		for _, n := range longSizes {
			f := fs[k%len(fs)]
			switch f {
			case "ContainsIgnoreCase":
				n = n % 1500
			case "IndexOfDifference", "CommonPrefix", "RemoveString", "Contains", "ContainsAnySubstrings", "Index":
				n = n % 5000
			}
			cs = append(cs, long(f, n, r))
		}
	} else if i*perScenario < len(ex) {
		e := (i + 1) * perScenario
		if e > len(ex) {
			e = len(ex)
		}
		cs = ex[i*perScenario : e]
	} else {
		for k := 0; k < perScenario; k++ {
			cs = append(cs, random(fam, r))
		}
	}
	cls := map[int]bool{' ': true}
	for _, c := range cs {
		for _, s := range c.ss {
			for _, x := range cps(s) {
				cls[x] = true
			}
		}
		cls[int(c.c)] = true
	}
	var all []int
	for x := range cls {
		all = append(all, x)
	}
	sort.Ints(all)
	var table []map[string]int
	for _, x := range all {
		c := rune(x)
		table = append(table, map[string]int{"c": x, "letter": b01(unicode.IsLetter(c)), "digit": b01(unicode.IsDigit(c)), "space": b01(unicode.IsSpace(c)), "fold": fold(c), "bytes": utf8.RuneLen(c)})
	}
	return h.Scenario{MaxSteps: 20000000, Name: fmt.Sprint(fam, " ", cs[0].f), Head: map[string]any{"cls": table}, Once: true, Run: func(t *h.T) {
		// the results are looked at only after all calls
		res := make([]result, len(cs))
		pan := make([]string, len(cs))
		for k, c := range cs {
			func() {
				defer func() {
					if e := recover(); e != nil {
						pan[k] = fmt.Sprint(e)
					}
				}()
				res[k] = fns[c.f](c)
			}()
		}
		for k, c := range cs {
			ss := [][]int{}
			for _, s := range c.ss {
				ss = append(ss, cps(s))
			}
			n := []int{}
			for _, x := range c.n {
				n = append(n, clip(x))
			}
			l := []int{1, 0, 0, 0}
			if c.f == "Rotate" {
				l = limbs(c.n[0])
			}
			x := res[k]
			t.Log("call", "f", c.f, "ss", ss, "n", n, "l", l, "ic", c.ic, "c", int(c.c), "r", cps(x.r), "i", x.i, "b", x.b, "err", x.err, "pan", pan[k])
		}
	}}
}

// ---- numbers

type number struct {
	k   string // "num", "nan"
	neg bool
	u   uint64
}

func (x number) rec() map[string]any {
	return map[string]any{"k": x.k, "neg": x.neg, "m": []int{int(x.u >> 42), int(x.u >> 21 & 0x1fffff), int(x.u & 0x1fffff)}}
}

func intNum(v int64) number { return number{k: "num", u: uint64(v) ^ 1<<63} }

func floatNum(v float64) number {
	if v != v {
		return number{k: "nan"}
	}
	b := math.Float64bits(v)
	return number{k: "num", neg: b>>63 == 1, u: b &^ (1 << 63)}
}

func mathGen(i int, r *vsched.Rand) h.Scenario {
	is := []int64{0, 1, -1, 2, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, 1 << 53, 1<<53 + 1, 1<<53 - 1, -1 << 53, -1<<53 - 1, 1 << 62, 1<<62 + 1, math.MaxInt32, math.MinInt32, 1 << 32}
	fs := []float64{0, math.Copysign(0, -1), 1, -1, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, 0.1, 1e300, -1e300, 1 << 53, 1<<53 + 2}
	gs := []float32{0, float32(math.Copysign(0, -1)), 1, -1, float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN()), math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, -math.SmallestNonzeroFloat32, 0.1, 16777216, 16777218, -16777217}
	ri := func() int64 {
		if r.N(2) == 0 {
			return h.Pick(r, is)
		}
		return int64(r.U64()) >> uint(r.N(63))
	}
	rf := func() float64 {
		if r.N(2) == 0 {
			return h.Pick(r, fs)
		}
		return math.Float64frombits(r.U64())
	}
	rg := func() float32 {
		if r.N(2) == 0 {
			return h.Pick(r, gs)
		}
		return math.Float32frombits(uint32(r.U64()))
	}
	return h.Scenario{Name: "math", Once: true, Head: map[string]any{"cls": []int{}}, Run: func(t *h.T) {
		for k := 0; k < perScenario; k++ {
			var f string
			var a, b, x number
			a1, b1 := ri(), ri()
			if r.N(3) == 0 {
				b1 = a1 + int64(r.N(3)) - 1
			}
			a2, b2, a3, b3 := rf(), rf(), rg(), rg()
			if q := i*7 + k/8; k < 56 && q < 256 { // the special values with each other
				a2, b2 = fs[q%len(fs)], fs[q/len(fs)%len(fs)]
				a3, b3 = gs[q%len(gs)], gs[q/len(gs)%len(gs)]
			}
			switch k % 8 {
			case 0:
				f, a, b, x = "Max", intNum(a1), intNum(b1), intNum(int64(xmath.MaxInt(int(a1), int(b1))))
			case 1:
				f, a, b, x = "Min", intNum(a1), intNum(b1), intNum(int64(xmath.MinInt(int(a1), int(b1))))
			case 2:
				f, a, b, x = "Max", intNum(a1), intNum(b1), intNum(xmath.MaxInt64(a1, b1))
			case 3:
				f, a, b, x = "Min", intNum(a1), intNum(b1), intNum(xmath.MinInt64(a1, b1))
			case 4:
				f, a, b, x = "Max", floatNum(a2), floatNum(b2), floatNum(xmath.MaxFloat64(a2, b2))
			case 5:
				f, a, b, x = "Min", floatNum(a2), floatNum(b2), floatNum(xmath.MinFloat64(a2, b2))
			case 6:
				f, a, b, x = "Max", floatNum(float64(a3)), floatNum(float64(b3)), floatNum(float64(xmath.MaxFloat32(a3, b3)))
			case 7:
				f, a, b, x = "Min", floatNum(float64(a3)), floatNum(float64(b3)), floatNum(float64(xmath.MinFloat32(a3, b3)))
			}
			t.Log("num", "f", f, "x", a.rec(), "y", b.rec(), "r", x.rec(), "float", k%8 >= 4)
		}
	}}
}

func main() {
	h.Main(h.Driver{Name: "fun", Gen: func(fam string, i int, r *vsched.Rand) h.Scenario {
		if fam == "math" {
			return mathGen(i, r)
		}
		return strGen(fam, i, r)
	}, Count: func(fam, tier string) int {
		if fam == "math" {
			return h.By(tier, 300, 3000)
		}
		randN = h.By(tier, 300, 6000)
		return randScenarios(fam) + nLong(fam)*h.By(tier, 1, 4)
	}})
}
