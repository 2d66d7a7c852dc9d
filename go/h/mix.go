package h

import (
	"context"
	"errors"
	"io"
	"os"
	"reflect"
	"strconv"
)

// Mix turns the numbers of a specification into concrete values of many dynamic types and back.
// 0 stands for nil; without Rich every other number stands for itself.
type Mix struct{ Rich bool }

type mixErr int

func (e mixErr) Error() string { return "e" + strconv.Itoa(int(e)) }

type mixS struct{ n int }

type mixT struct {
	a string
	b []int
}

// Zeros are the zero values of several types: numbers ZeroBase, ZeroBase+1, ...
var Zeros = []interface{}{"", 0, false, struct{}{}, (*mixS)(nil), []int(nil), 0.0, mixT{}, map[string]int(nil), uint8(0), mixErr(0), (func() int)(nil), [0]int{}, (*mixT)(nil)}

// ZeroBase is the number of the first zero value.
const ZeroBase = 2000000

// Val is the concrete value of i.
func (x Mix) Val(i int) interface{} {
	if i == 0 {
		return nil
	}
	if i >= ZeroBase {
		return Zeros[(i-ZeroBase)%len(Zeros)]
	}
	if !x.Rich {
		return i
	}
	switch (i / 10) % 9 {
	case 0:
		return strconv.Itoa(i)
	case 1:
		return []int{i}
	case 2:
		return mixErr(i)
	case 3:
		return &mixS{i}
	case 4:
		return float64(i)
	case 5:
		return map[string]int{"v": i}
	case 6:
		return mixT{"t", []int{i}}
	case 7:
		return func() int { return i }
	}
	return i
}

// Num is the number of a concrete value (-2: none).
func (x Mix) Num(v interface{}) int {
	if v == nil {
		return 0
	}
	if r := reflect.ValueOf(v); r.IsZero() {
		for k, z := range Zeros {
			if r.Type() == reflect.TypeOf(z) {
				return ZeroBase + k
			}
		}
	}
	switch y := v.(type) {
	case int:
		return y
	case string:
		if n, err := strconv.Atoi(y); err == nil {
			return n
		}
	case []int:
		if len(y) == 1 {
			return y[0]
		}
	case mixErr:
		return int(y)
	case *mixS:
		if y != nil {
			return y.n
		}
	case float64:
		return int(y)
	case map[string]int:
		return y["v"]
	case mixT:
		if len(y.b) == 1 {
			return y.b[0]
		}
	case func() int:
		return y()
	}
	return -2
}

type mixK struct {
	a string
	b int32
}

var keyP = new(int)

// mixKeys are pairwise different keys, several of which look alike.
var mixKeys = []interface{}{0, "0", int32(0), 0.5, nil, true, [2]int{0, 1}, mixK{"0", 0}, "", int64(0), uint8(0), keyP, "nil", mixK{"", 0}, [2]int{1, 0}, mixErr(0), "a", "A", 1, 1.0, int32(1), false, "true", "false"}

// Keys gives the concrete keys of 0..n-1.
func (x Mix) Keys(n, off int) []interface{} {
	var ks []interface{}
	for i := 0; i < n; i++ {
		if x.Rich && n <= len(mixKeys) {
			ks = append(ks, mixKeys[(i*5+off)%len(mixKeys)])
		} else {
			ks = append(ks, i)
		}
	}
	return ks
}

// Sentinels are errors that code might treat in a special way.
var Sentinels = []error{io.EOF, context.Canceled, context.DeadlineExceeded, os.ErrClosed, io.ErrClosedPipe, io.ErrUnexpectedEOF, errors.ErrUnsupported}
