// mrd drives xmapreduce.
package main

import (
	"fmt"
	"time"

	"github.com/chenquan/go-pkg/xbarrier"
	"github.com/chenquan/go-pkg/xmapreduce"
	"verif.local/mbv/h"
	"verif.local/mbv/vsched"
)

// item kinds
const (
	kPlain  = iota // writes, ends
	kObey          // waits for the context before its last write
	kIgnore        // does not end before the output has ended, then writes
	kCancel        // cancels the context between its writes
	kSpin          // pauses between writes
	kSlow          // takes long before its last write
)

var kname = []string{"plain", "obey", "ignore", "cancel", "spin", "slow"}

type item struct {
	id     int
	kind   int
	writes int
}

func gen(fam string, i int, r *vsched.Rand) h.Scenario {
	n := 1 + r.N(3)
	items := r.N(6)
	big := fam == "big"
	if big {
		n = []int{0, 1, 2, 16, 20}[i%5] // 0: the default, 16
		items = 18 + r.N(12)
	}
	var its []item
	for k := 0; k < items; k++ {
		it := item{id: k + 1, kind: h.Pick(r, []int{kPlain, kPlain, kSpin, kSlow}), writes: r.N(4)}
		if big {
			it.writes = 1
		}
		its = append(its, it)
	}
	cancel := fam == "cancel"
	when := 3      // 0 before the call, 1 concurrently, 2 by a map function or after some output, 3 never
	genBlock := -1 // the generator stops sending after so many items until the output has ended
	after := 0
	if cancel {
		when = r.N(3)
		for k := range its {
			if r.N(3) == 0 {
				its[k].kind = h.Pick(r, []int{kObey, kIgnore, kIgnore})
			}
		}
		if when == 2 {
			if len(its) > 0 && r.N(2) == 0 {
				its[r.N(len(its))].kind = kCancel
			}
			after = r.N(3)
		}
		if r.N(3) == 0 {
			genBlock = r.N(items + 1)
		}
	}
	// outputs that surely come before anything waits for the cancellation
	sure, blockers := 0, 0
	for k, it := range its {
		if k == genBlock {
			break
		}
		if it.kind == kObey || it.kind == kIgnore {
			if blockers++; blockers == n {
				break
			}
			continue
		}
		sure += it.writes
	}
	if after > sure {
		after = sure
	}
	kind := r.N(h.CxKinds)
	if when == 3 && r.N(2) == 0 {
		kind = h.CxNever
	}
	nilItem, nilValue := 0, 0 // the item / the value that is nil
	if len(its) > 0 && r.N(2) == 0 {
		nilItem = 1 + r.N(len(its))
	}
	if len(its) > 0 && r.N(2) == 0 {
		it := h.Pick(r, its)
		nilValue = it.id*10 + r.N(it.writes+1)
	}
	mix := h.Mix{Rich: r.N(2) == 0}
	slowOut := r.N(4) == 0 // the consumer takes long before each read
	slowGen := r.N(4) == 0
	meet := fam == "big" && i%2 == 0 // as many map functions as workers run at the same time
	stream := r.N(3) == 0
	name := fmt.Sprint("workers ", n, " cancel ", when, " after ", after, " genblock ", genBlock, " meet ", meet, " stream ", stream, " context ", kind, " nil ", nilItem, nilValue, mix, " slow ", slowOut, slowGen, " items")
	for _, it := range its {
		name += fmt.Sprintf(" %s*%d", kname[it.kind], it.writes)
	}
	workers := n
	if n == 0 {
		workers = 16
	}
	return h.Scenario{Name: name, Head: map[string]any{"n0": workers}, NoDFS: big, Clock: true, Run: func(t *h.T) {
		ctx := h.NewCx(t, 0, kind)
		doCancel := ctx.Cancel
		long := func() {
			t.Log("sb")
			t.Sleep(2 * time.Hour)
			t.Log("se")
		}
		if when == 0 {
			doCancel()
		}
		release := make(chan struct{}) // closed when the output has ended
		arrived := make(chan int, items)
		goOn := make(chan struct{})
		generate := func(source chan<- interface{}) {
			for k, it := range its {
				if k == genBlock {
					<-release
				}
				if slowGen {
					t.Sleep(2 * time.Hour)
				}
				t.Log("gen", "i", it.id)
				var x interface{} = it
				if it.id == nilItem {
					x = nil
				}
				select {
				case source <- x:
				case <-release:
				}
			}
			if genBlock == len(its) {
				<-release
			}
			t.Log("gend")
		}
		mapper := func(x interface{}, w xbarrier.Writer) {
			it, ok := x.(item)
			if x == nil && nilItem > 0 {
				it, ok = its[nilItem-1], true
			}
			if !ok {
				t.Log("alien")
				return
			}
			t.Log("mb", "i", it.id)
			defer func() {
				if e := recover(); e != nil {
					t.Log("wpan", "i", it.id)
				}
			}()
			if meet {
				arrived <- it.id
				<-goOn
			}
			for k := 0; k < it.writes; k++ {
				switch {
				case it.kind == kSpin:
					t.Pause()
				case it.kind == kObey && k == it.writes-1:
					<-ctx.Done()
				case it.kind == kIgnore && k == it.writes-1:
					<-release
				case it.kind == kSlow && k == it.writes-1:
					t.Sleep(2 * time.Hour)
				case it.kind == kCancel && k == it.writes/2:
					doCancel()
				}
				v := it.id*10 + k
				t.Log("wc", "i", it.id, "v", v)
				x := mix.Val(v)
				if v == nilValue {
					x = nil
				}
				ok := w.Write(x)
				t.Log("wr", "i", it.id, "v", v, "ok", ok)
			}
			if it.writes == 0 && it.kind == kIgnore {
				<-release
			}
			if it.writes == 0 && it.kind == kCancel {
				doCancel()
			}
			t.Log("me", "i", it.id)
		}
		var opts []xmapreduce.Option
		if n > 0 {
			opts = append(opts, xmapreduce.WithWorkerSize(n))
		}
		var out <-chan interface{}
		if stream {
			out = xmapreduce.MapStream(ctx, generate, mapper, opts...).Chan()
		} else {
			out = xmapreduce.Map(ctx, generate, mapper, opts...)
		}
		consume := func() {
			k := 0
			for {
				if when == 2 && k == after {
					t.Log("sb")
					doCancel()
					t.Log("se")
				}
				k++
				if slowOut {
					long()
				}
				v, ok := <-out
				if !ok {
					break
				}
				n := mix.Num(v)
				if v == nil {
					n = nilValue
				}
				t.Log("out", "v", n)
			}
			t.Log("oend")
			close(release)
		}
		switch {
		case when == 1:
			t.Par(consume, func() { t.Pause(); doCancel() })
		case meet:
			t.Par(consume, func() {
				k := workers
				if items < k {
					k = items
				}
				for ; k > 0; k-- {
					<-arrived
				}
				close(goOn)
			})
		default:
			consume()
		}
	}}
}

func main() {
	h.Main(h.Driver{Name: "mr", Gen: gen, Count: func(fam, tier string) int {
		if fam == "big" {
			return h.By(tier, 20, 100)
		}
		return h.By(tier, 240, 2400)
	}})
}
