package h

import "sort"

// AP is an arithmetic progression being observed: first element, step, length.
// Anything that is not one has the length -1.
type AP struct {
	A, D, N int
	last    int
}

// Add appends an element.
func (p *AP) Add(x int) {
	switch {
	case p.N < 0:
	case p.N == 0:
		p.A, p.N = x, 1
	case p.N == 1:
		p.D, p.N = x-p.A, 2
	case x-p.last == p.D:
		p.N++
	default:
		p.N = -1
	}
	p.last = x
}

// Rec is its form in a history.
func (p *AP) Rec() map[string]any { return map[string]any{"a": p.A, "d": p.D, "n": p.N} }

// APOf summarizes xs; sorted: in ascending order.
func APOf(xs []int, sorted bool) *AP {
	if sorted {
		sort.Ints(xs)
	}
	p := &AP{}
	for _, x := range xs {
		p.Add(x)
	}
	return p
}
