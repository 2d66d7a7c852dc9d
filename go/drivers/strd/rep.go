package main

import "verif.local/mbv/h"

var richMix = h.Mix{Rich: true}

const zeroInt = 9000 // the numbers that stand for zero values of other types

// rep is an element that stands for the integer v, of a type that depends on v.
func rep(rich bool, v int) any {
	switch {
	case !rich:
		return v
	case v >= zeroInt && v < zeroInt+len(h.Zeros) && v != zeroInt+1:
		return h.Zeros[v-zeroInt]
	case v < -900 || v > 190000 || (v+1000)%9 == 8:
		return v
	}
	return richMix.Val((v + 1000) * 10)
}

// unrep is the integer an element stands for.
func unrep(x any) (int, bool) {
	if v, ok := x.(int); ok {
		return v, true
	}
	n := richMix.Num(x)
	switch {
	case n >= h.ZeroBase:
		return zeroInt + n - h.ZeroBase, true
	case n < 0:
		return -7, false
	}
	return n/10 - 1000, true
}

// number is that of an element or nil.
func number(x any) int {
	if x == nil {
		return 0
	}
	v, _ := unrep(x)
	return v
}
