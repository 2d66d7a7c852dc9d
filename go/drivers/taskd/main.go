// taskd drives xtask, xworker, xbarrier and the error batch of xerror.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"time"

	"github.com/chenquan/go-pkg/xbarrier"
	"github.com/chenquan/go-pkg/xerror"
	"github.com/chenquan/go-pkg/xtask"
	"github.com/chenquan/go-pkg/xworker"
	"verif.local/mbv/h"
	"verif.local/mbv/vsched"
)

// task behaviours
const (
	tOK      = iota // returns nil
	tErr            // returns an error
	tPanic          // panics
	tHold           // does not end before the call has returned
	tHoldE          // same, then returns an error
	tHoldP          // same, then panics
	tObey           // waits for the context, then returns an error
	tCancel         // cancels the context itself, then returns nil
	tCancelE        // cancels the context itself, then waits until the call returned
)

var tname = []string{"ok", "err", "panic", "hold", "holdErr", "holdPanic", "obey", "cancel", "cancelHold"}

type call struct {
	api  string // Do, NoDefer, NilDefer, Timeout
	kind int
	ctx  int
	wait time.Duration
	dur  time.Duration
	sent int // the error returned is this sentinel (-1: one of its own)
	pan  int // kind of the panic value
}

func (c call) String() string {
	return fmt.Sprintf("%s[%s ctx%d to%d dur%d sent%d pan%d]", c.api, tname[c.kind], c.ctx, c.wait, c.dur, c.sent, c.pan)
}

// text is what the report of the panic shows at least
func (c call) text(id int) string {
	switch c.pan {
	case 4:
		return "context canceled"
	case 5:
		return "context deadline exceeded"
	case 6:
		return "EOF"
	case 7:
		return fmt.Sprint(id)
	case 8:
		return "out of range"
	case 9:
		return ""
	case 10:
		return "nil map"
	}
	return fmt.Sprintf("boom %d.", id)
}

type boomS struct {
	Msg string
	N   []int
}

func doCall(t *h.T, c call, xs []*h.Cx) {
	x := xs[c.ctx]
	id := t.ID()
	cid := x.C
	if c.api == "Timeout" {
		cid = 100 + id
	}
	hasD := c.api == "Do" || c.api == "Timeout"
	t.Log("call", "id", id, "m", "Do", "c", cid, "d", hasD, "pre", c.api == "Timeout" && c.wait <= 0, "wait", int(c.wait/time.Millisecond))
	returned := make(chan struct{})
	start := time.Now()
	task := func() error {
		t.Log("begin", "id", id)
		if c.dur > 0 {
			t.Sleep(c.dur)
		} else {
			t.Pause()
		}
		switch c.kind {
		case tHold, tHoldE, tHoldP:
			<-returned
		case tObey:
			<-x.Done()
		case tCancel:
			x.Cancel()
		case tCancelE:
			x.Cancel()
			<-returned
		}
		switch c.kind {
		case tErr, tHoldE, tObey:
			t.Log("fend", "id", id, "r", id)
			if c.sent >= 0 {
				return h.Sentinels[c.sent]
			}
			return fmt.Errorf("task %d", id)
		case tPanic, tHoldP:
			t.Log("fend", "id", id, "r", -3)
			text := fmt.Sprintf("boom %d.", id)
			switch c.pan {
			case 1:
				panic(fmt.Errorf("%s", text))
			case 2:
				panic(boomS{text, []int{1}})
			case 3:
				panic(fmt.Errorf("%s %w", text, context.Canceled))
			case 4:
				panic(context.Canceled)
			case 5:
				panic(context.DeadlineExceeded)
			case 6:
				panic(io.EOF)
			case 7:
				panic(id)
			case 8:
				_ = make([]int, 0)[id:][id]
			case 9:
				panic("")
			case 10:
				var m map[string]int
				m[text] = 1
			}
			panic(text)
		}
		t.Log("fend", "id", id, "r", 0)
		return nil
	}
	dfn := func() {
		t.Log("dbegin", "id", id, "late", time.Since(start) >= c.wait)
		t.Pause()
		t.Log("dend", "id", id)
	}
	defer func() {
		if e := recover(); e != nil {
			late := time.Since(start) >= c.wait
			t.Log("pan", "id", id, "own", strings.Contains(fmt.Sprint(e), c.text(id)), "late", late)
		}
		close(returned)
	}()
	var err error
	switch c.api {
	case "Do":
		err = xtask.Do(x, task, dfn)
	case "NilDefer":
		err = xtask.Do(x, task, nil)
	case "NoDefer":
		err = xtask.DoWithoutDefer(x, task)
	case "Timeout":
		err = xtask.DoWithTimeout(c.wait, task, dfn)
	}
	late := time.Since(start) >= c.wait
	r := -2
	var n int
	mine := c.sent >= 0 && (c.kind == tErr || c.kind == tHoldE || c.kind == tObey) && err == h.Sentinels[c.sent]
	ctxs := err != nil && (c.api == "Timeout" && err == context.DeadlineExceeded || c.api != "Timeout" && err == x.Err())
	switch {
	case err == nil:
		r = 0
	case mine && ctxs:
		r = -4
	case mine:
		r = id
	case c.api == "Timeout" && err == context.DeadlineExceeded, c.api != "Timeout" && err == x.Err():
		r = -1
	default:
		if k, _ := fmt.Sscanf(err.Error(), "task %d", &n); k == 1 {
			r = n
		}
	}
	t.Log("ret", "id", id, "r", r, "late", late)
}

func genDo(fam string, i int, r *vsched.Rand) h.Scenario {
	clock := i%2 == 0
	mk := func(nc int) call {
		c := call{api: h.Pick(r, []string{"Do", "Do", "Do", "NoDefer", "NilDefer"}), kind: r.N(9), ctx: r.N(nc), sent: -1, pan: r.N(11)}
		if r.N(2) == 0 {
			c.sent = h.Pick(r, []int{1, 2, 1, 2, r.N(len(h.Sentinels))})
		}
		if clock && r.N(2) == 0 {
			c.dur = h.Pick(r, []time.Duration{time.Millisecond, time.Second, 2 * time.Hour})
		}
		if fam == "do-timeout" {
			c.api = "Timeout"
			c.wait = time.Duration(r.N(4))
			c.dur = time.Duration(r.N(5))
			c.kind = h.Pick(r, []int{tOK, tErr, tPanic, tHold, tHoldE, tHoldP})
			if clock {
				c.wait = h.Pick(r, []time.Duration{0, 5 * time.Millisecond, time.Second, time.Hour})
				c.dur = h.Pick(r, []time.Duration{0, time.Millisecond, 10 * time.Millisecond, 1100 * time.Millisecond, 3 * time.Hour})
			}
			if c.wait == 0 && r.N(3) > 0 {
				c.wait = 2 * time.Millisecond
			}
		}
		return c
	}
	nc := 1 + r.N(2)
	nt := 1 + r.N(3)
	if fam == "do-timeout" {
		nt = 1 + r.N(2)
	}
	var th [][]call
	for j := 0; j < nt; j++ {
		var p []call
		for n := 1 + r.N(2); n > 0; n-- {
			p = append(p, mk(nc))
		}
		th = append(th, p)
	}
	// when each context is cancelled: before, concurrently, or never; tasks
	// that hold need a cancellation or timeout
	when := make([]int, nc)
	kinds := make([]int, nc)
	for c := range when {
		when[c] = r.N(3)
		kinds[c] = r.N(h.CxKinds)
		self := false
		for _, p := range th {
			for _, x := range p {
				if x.ctx == c && x.api != "Timeout" && x.kind >= tHold && x.kind <= tObey && when[c] == 2 {
					when[c] = 1
				}
				self = self || x.ctx == c && x.kind > tObey
			}
		}
		if when[c] == 2 && !self && r.N(2) == 0 {
			kinds[c] = h.CxNever
		}
	}
	name := fmt.Sprint("cancel ", when, " contexts ", kinds)
	for _, p := range th {
		name += fmt.Sprint(" | ", p)
	}
	return h.Scenario{Name: name, Anytime: !clock, Clock: clock, Run: func(t *h.T) {
		var ctxs []*h.Cx
		for c := range when {
			ctxs = append(ctxs, h.NewCx(t, c, kinds[c]))
			if when[c] == 0 {
				ctxs[c].Cancel()
			}
		}
		var fs []func()
		for c := range when {
			if when[c] == 1 {
				c := c
				fs = append(fs, func() { t.Pause(); ctxs[c].Cancel() })
			}
		}
		for _, p := range th {
			p := p
			fs = append(fs, func() {
				for _, x := range p {
					doCall(t, x, ctxs)
				}
			})
		}
		t.Par(fs...)
	}}
}

// ---- worker ----

type wtask struct {
	kind int // tOK, tHold (until settled), tObey, tLong
	ctx  int
}

const tLong = 21 // takes long

func genWorker(fam string, i int, r *vsched.Rand) h.Scenario {
	n := 1 + r.N(3)
	nc := 1 + r.N(2)
	if fam == "meet" {
		n = []int{1, 2, 3, 5, 9, 17, 33, 65, 100, 129}[i%10]
		// n tasks of one caller that all have to run at the same time
		return h.Scenario{Name: fmt.Sprint("meet ", n), Head: map[string]any{"n0": n}, NoDFS: n > 4, Clock: true, Run: func(t *h.T) {
			w := xworker.NewWorker(n)
			x := h.NewCx(t, 0, []int{h.CxPlain, h.CxChild, h.CxFar, h.CxNever, h.CxCustom, h.CxNever, h.CxCause}[i%7])
			arrived := make(chan int, n)
			goOn := make(chan bool)
			settled := make(chan int, n+1)
			for k := 0; k < n; k++ {
				runTask(t, w, x, func(id int) {
					arrived <- id
					<-goOn
				}, settled)
			}
			for k := 0; k < n; k++ {
				<-arrived
			}
			close(goOn)
			runTask(t, w, x, func(int) {}, settled)
			for k := 0; k <= n; k++ {
				<-settled
			}
		}}
	}
	nt := 1 + r.N(3)
	var th [][]wtask
	total := 0
	for j := 0; j < nt; j++ {
		var p []wtask
		for k := 1 + r.N(3); k > 0; k-- {
			p = append(p, wtask{kind: h.Pick(r, []int{tOK, tOK, tHold, tObey, tLong}), ctx: r.N(nc)})
			total++
		}
		th = append(th, p)
	}
	when := make([]int, nc)
	kinds := make([]int, nc)
	for c := range when {
		when[c] = r.N(3)
		kinds[c] = r.N(h.CxKinds)
		for _, p := range th {
			for _, x := range p {
				if x.ctx == c && x.kind != tOK && x.kind != tLong && when[c] == 2 {
					when[c] = 1
				}
			}
		}
		if when[c] == 2 && r.N(2) == 0 {
			kinds[c] = h.CxNever
		}
	}
	name := fmt.Sprint("worker ", n, " cancel ", when, " contexts ", kinds)
	for _, p := range th {
		name += fmt.Sprint(" | ", p)
	}
	return h.Scenario{Name: name, Head: map[string]any{"n0": n}, Clock: true, Run: func(t *h.T) {
		w := xworker.NewWorker(n)
		var ctxs []*h.Cx
		for c := range when {
			ctxs = append(ctxs, h.NewCx(t, c, kinds[c]))
			if when[c] == 0 {
				ctxs[c].Cancel()
			}
		}
		settled := make(chan int, total)
		var fs []func()
		for c := range when {
			if when[c] == 1 {
				c := c
				fs = append(fs, func() { t.Pause(); ctxs[c].Cancel() })
			}
		}
		for _, p := range th {
			p := p
			fs = append(fs, func() {
				for _, k := range p {
					x := ctxs[k.ctx]
					mine := make(chan int, 1)
					kind := k.kind
					runTask2(t, w, x, func(id int) {
						t.Pause()
						switch kind {
						case tHold:
							<-mine
						case tObey:
							<-x.Done()
						case tLong:
							t.Sleep(2 * time.Hour)
						}
					}, settled, mine)
				}
			})
		}
		t.Par(fs...)
		for k := 0; k < total; k++ {
			<-settled
		}
	}}
}

func runTask(t *h.T, w *xworker.Worker, x *h.Cx, body func(id int), settled chan int) {
	runTask2(t, w, x, body, settled, nil)
}

func runTask2(t *h.T, w *xworker.Worker, x *h.Cx, body func(id int), settled, mine chan int) {
	id := t.Call("Run", "c", x.C)
	w.Run(x, func() {
		t.Log("begin", "id", id)
		body(id)
		t.Log("fend", "id", id)
	}, func() {
		t.Log("dbegin", "id", id)
		t.Pause()
		t.Log("dend", "id", id)
		if mine != nil {
			mine <- id
		}
		settled <- id
	})
	t.Log("ret", "id", id)
}

// ---- barriers ----

func genBarrier(fam string, i int, r *vsched.Rand) h.Scenario {
	capn := r.N(4)
	nt := 1 + r.N(3)
	var th [][]int // per client the number of operations
	total := 0
	for j := 0; j < nt; j++ {
		k := 1 + r.N(3)
		th = append(th, make([]int, k))
		total += k
	}
	when := r.N(4) // 0 before, 1 concurrently, 2 by the first client after its first op, 3 never
	kind := r.N(h.CxKinds)
	if when == 3 && r.N(2) == 0 {
		kind = h.CxNever
	}
	readers := 1 + r.N(2)
	nils := r.N(3) == 0 // every other value is nil
	slow := r.N(3) == 0 // the other side takes long
	short := -1         // the channel that is read is closed after so many values
	if fam == "read" && r.N(3) == 0 {
		short = r.N(total + 1)
	}
	mix := h.Mix{Rich: r.N(2) == 0}
	name := fmt.Sprint(fam, " cap ", capn, " ops ", th, " cancel ", when, " context ", kind, " peers ", readers, " nil ", nils, " slow ", slow, mix, " short ", short)
	val := func(id int) int {
		if nils && id%2 == 0 {
			return 0
		}
		return id * 10
	}
	iv := func(v interface{}, ok bool) int {
		if v == nil && !ok {
			return -1
		}
		return mix.Num(v)
	}
	return h.Scenario{Name: name, Run: func(t *h.T) {
		x := h.NewCx(t, 0, kind)
		ch := make(chan interface{}, capn)
		if when == 0 {
			x.Cancel()
		}
		var fs []func()
		if when == 1 {
			fs = append(fs, func() { t.Pause(); x.Cancel() })
		}
		if fam == "write" {
			w := xbarrier.NewWriteBarrier(x, ch)
			for j, p := range th {
				j, p := j, p
				fs = append(fs, func() {
					for k := range p {
						id := t.ID()
						t.Log("call", "id", id, "m", "Put", "v", val(id), "b", true)
						ok := w.Write(mix.Val(val(id)))
						t.Log("ret", "id", id, "v", -1, "ok", ok)
						if when == 2 && j == 0 && k == 0 {
							x.Cancel()
						}
					}
				})
			}
			done := make(chan bool)
			for k := 0; k < readers; k++ {
				t.Go(func() {
					for {
						if slow {
							t.Sleep(2 * time.Hour)
						}
						id := t.Call("Get", "v", -1, "b", false)
						v, ok := <-ch
						t.Log("ret", "id", id, "v", iv(v, ok), "ok", ok)
						if !ok {
							done <- true
							return
						}
					}
				})
			}
			t.Par(fs...)
			t.Log("close")
			close(ch)
			for k := 0; k < readers; k++ {
				<-done
			}
			return
		}
		// read barrier: as many values as reads
		rb := xbarrier.NewReadBarrier(x, ch)
		for j, p := range th {
			j, p := j, p
			fs = append(fs, func() {
				for k := range p {
					id := t.Call("Get", "v", -1, "b", true)
					v, ok := rb.Read()
					t.Log("ret", "id", id, "v", iv(v, ok), "ok", ok)
					if when == 2 && j == 0 && k == 0 {
						x.Cancel()
					}
				}
			})
		}
		sent := make(chan bool)
		t.Go(func() {
			n := total
			if short >= 0 {
				n = short
			}
			for k := 0; k < n; k++ {
				id := t.ID()
				if slow {
					t.Sleep(2 * time.Hour)
				}
				t.Log("call", "id", id, "m", "Put", "v", val(id), "b", false)
				ch <- mix.Val(val(id))
				t.Log("ret", "id", id, "v", -1, "ok", true)
			}
			if short >= 0 {
				t.Log("close")
				close(ch)
			}
			close(sent)
		})
		t.Par(fs...)
		if short >= 0 {
			for ok := true; ok; {
				id := t.Call("Get", "v", -1, "b", false)
				var v interface{}
				v, ok = <-ch
				t.Log("ret", "id", id, "v", iv(v, ok), "ok", ok)
			}
			<-sent
			return
		}
		// take back what the reads did not consume
		for over := false; !over; {
			id := t.Call("TryGet", "v", -1, "b", false)
			select {
			case v := <-ch:
				t.Log("ret", "id", id, "v", iv(v, true), "ok", true)
			case <-sent:
				over = true
				t.Log("giveup", "id", id)
			}
		}
		for over := false; !over; {
			id := t.Call("TryGet", "v", -1, "b", false)
			select {
			case v := <-ch:
				t.Log("ret", "id", id, "v", iv(v, true), "ok", true)
			default:
				t.Log("empty", "id", id)
				over = true
			}
		}
	}}
}

// ---- retry and error batch ----

type terr struct{ s string }

func (e *terr) Error() string { return e.s }

type verr struct{ s string } // equal by text

func (e verr) Error() string { return e.s }

type serr struct{ s []string } // not comparable

func (e serr) Error() string { return strings.Join(e.s, "-") }

type merr struct{ s string } // with the methods that code asks errors for

func (e *merr) Error() string        { return e.s }
func (e *merr) Temporary() bool      { return false }
func (e *merr) Timeout() bool        { return false }
func (e *merr) Retryable() bool      { return false }
func (e *merr) Unwrap() error        { return context.DeadlineExceeded }
func (e *merr) Is(target error) bool { return true }

// mkErr makes the k-th error; some are equal to or the same as an earlier one,
// cannot be compared, or are themselves the error of a batch or of a retry.
func mkErr(text string, kind int, before []error) error {
	switch kind {
	case 1:
		if len(before) > 0 {
			return before[len(before)-1]
		}
	case 2:
		return verr{text}
	case 3:
		return serr{[]string{text, "x"}}
	case 4:
		var be xerror.BatchError
		be.Add(&terr{text})
		be.Add(verr{"inner"})
		return be.Err()
	case 5:
		return xtask.DoWithRetry(func() error { return verr{text} }, xtask.WithRetry(1))
	case 6:
		if len(before) > 0 {
			return before[0]
		}
	case 7:
		return fmt.Errorf("wrap %w", io.EOF)
	case 8:
		return io.EOF
	case 9:
		return h.Sentinels[len(before)%len(h.Sentinels)]
	case 10:
		return fmt.Errorf("wrap %w", h.Sentinels[len(before)%len(h.Sentinels)])
	case 11:
		return &merr{text}
	case 12:
		return errors.Join(verr{text}, io.EOF)
	}
	return &terr{text}
}

// class is the number of the first of errs that is the same as err.
func class(errs []error, err error) int {
	for k, e := range errs {
		if e != nil && reflect.DeepEqual(e, err) && (reflect.TypeOf(e).Kind() != reflect.Ptr || e == err) {
			return k
		}
	}
	return -1
}

func genRetry(fam string, i int, r *vsched.Rand) h.Scenario {
	if fam == "batch" {
		n := r.N(7)
		var nils []bool
		for k := 0; k < n; k++ {
			nils = append(nils, r.N(3) == 0)
		}
		texts := make([]string, n)
		kinds := make([]int, n)
		for k := range texts {
			texts[k] = h.Pick(r, []string{"a", "b", "", "long text", "a", "x y", "é", "\n", " ", fmt.Sprint("e", k)})
			kinds[k] = r.N(15)
		}
		often := r.N(2) == 0 // look at the batch after every step
		return h.Scenario{Name: fmt.Sprint("batch ", nils, texts, kinds), Once: true, Run: func(t *h.T) {
			var be xerror.BatchError
			var errs []error
			look := func() {
				err := be.Err()
				text, single := "", -1
				if err != nil {
					text = err.Error()
					single = class(errs, err)
				}
				t.Log("err", "nil", err == nil, "notnil", be.NotNil(), "text", text, "same", single)
			}
			look()
			for k, isNil := range nils {
				if isNil {
					t.Log("add", "nil", true, "k", k, "text", "")
					be.Add(nil)
				} else {
					e := mkErr(texts[k], kinds[k], errs)
					errs = append(errs, e)
					t.Log("add", "nil", false, "k", class(errs, e), "text", e.Error())
					be.Add(e)
				}
				if often {
					look()
				}
			}
			look()
			look()
		}}
	}
	n := -1 // default
	if r.N(6) > 0 {
		n = r.N(7)
		if r.N(12) == 0 {
			n = h.Pick(r, []int{9, 17, 33, 70, 130})
		}
	}
	succeed := r.N(9)
	if r.N(3) == 0 {
		succeed = 1000
	}
	twice := r.N(4) == 0
	slow := r.N(4) == 0
	texts := make([]string, 20)
	for k := range texts {
		texts[k] = h.Pick(r, []string{"a", "b", "", "long text", "x y", "é", fmt.Sprint("e", k)})
	}
	kinds := make([]int, 20)
	for k := range kinds {
		kinds[k] = r.N(16)
	}
	return h.Scenario{Name: fmt.Sprint("retry ", n, " succeeds at ", succeed, " twice ", twice), Head: map[string]any{"times": n}, NoDFS: true, Weight: 1, Run: func(t *h.T) {
		k := 0
		var errs []error
		fn := func() error {
			me := k
			k++
			t.Log("begin")
			t.Pause()
			if slow {
				t.Sleep(7 * time.Minute)
			}
			if me == succeed {
				t.Log("fend", "nil", true, "k", me, "text", "")
				return nil
			}
			e := mkErr(texts[me%20], kinds[me%20], errs)
			errs = append(errs, e)
			t.Log("fend", "nil", false, "k", class(errs, e), "text", e.Error())
			return e
		}
		var opts []xtask.RetryOption
		if twice {
			opts = append(opts, xtask.WithRetry(11))
		}
		if n >= 0 {
			opts = append(opts, xtask.WithRetry(n))
		} else if twice {
			opts = append(opts, xtask.WithRetry(3))
		}
		err := xtask.DoWithRetry(fn, opts...)
		text, same := "", -1
		if err != nil {
			text = err.Error()
			same = class(errs, err)
		}
		t.Log("ret", "nil", err == nil, "text", text, "same", same)
	}}
}

func main() {
	h.Main(h.Driver{Name: "task", Gen: func(fam string, i int, r *vsched.Rand) h.Scenario {
		switch fam {
		case "do", "do-timeout":
			return genDo(fam, i, r)
		case "worker", "meet":
			return genWorker(fam, i, r)
		case "write", "read":
			return genBarrier(fam, i, r)
		}
		return genRetry(fam, i, r)
	}, Count: func(fam, tier string) int {
		switch fam {
		case "meet":
			return h.By(tier, 12, 24)
		case "do-timeout":
			return h.By(tier, 120, 1200)
		case "batch", "retry":
			return h.By(tier, 300, 3000)
		}
		return h.By(tier, 240, 2400)
	}})
}
