// Package h runs driver scenarios against the real code and records histories.
package h

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/mbv/vsched"
	"verif.local/mbv/vsync"
)

// T is one execution of a scenario.
type T struct {
	mu    sync.Mutex
	ev    []map[string]any
	ids   int
	wg    sync.WaitGroup
	log   bool
	nat   bool
	Rng   *vsched.Rand // data choices of natively scheduled runs
	over  bool
	clock bool
}

// Scenario is one program to execute under many schedules.
type Scenario struct {
	Name string         // short text describing the program
	Head map[string]any // constant fields logged with the history
	Run  func(t *T)
	// SeqOnly: no concurrency, one execution suffices.
	Once bool
	// NoDFS skips the depth-first search.
	NoDFS bool
	// Anytime: virtual timers may fire at any moment.
	Anytime bool
	// Clock: every event records the (virtual) time; not with Anytime.
	Clock bool
	// MaxSteps overrides the step bound.
	MaxSteps int
	// Weight scales the schedule budget (default 1).
	Weight int
}

// Driver generates scenarios: deterministic in (family, seed, index).
type Driver struct {
	Name string
	// Count of scenarios in a family for a tier ("quick", "thorough").
	Count func(family, tier string) int
	Gen   func(family string, i int, rng *vsched.Rand) Scenario
}

// ID returns a fresh operation id (in call order).
func (t *T) ID() int {
	if t.nat {
		t.mu.Lock()
		defer t.mu.Unlock()
	}
	t.ids++
	return t.ids
}

// Log appends an event.
func (t *T) Log(e string, kv ...any) {
	if !t.log {
		return
	}
	if !t.nat && vsched.Aborting() {
		return
	}
	m := map[string]any{"e": e}
	for i := 0; i+1 < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	if t.clock {
		m["now"] = t.Now()
	}
	if t.nat {
		t.mu.Lock()
		defer t.mu.Unlock()
		if t.over {
			return
		}
	}
	t.ev = append(t.ev, m)
}

// Call logs a call event with a fresh id in one step.
func (t *T) Call(m string, kv ...any) int {
	if t.nat {
		t.mu.Lock()
		t.ids++
		id := t.ids
		if t.log && !t.over {
			e := map[string]any{"e": "call", "id": id, "m": m}
			for i := 0; i+1 < len(kv); i += 2 {
				e[kv[i].(string)] = kv[i+1]
			}
			t.ev = append(t.ev, e)
		}
		t.mu.Unlock()
		return id
	}
	id := t.ID()
	t.Log("call", append([]any{"id", id, "m", m}, kv...)...)
	return id
}

// Go starts a client goroutine.
func (t *T) Go(f func()) {
	if !t.nat {
		vsched.Go(f)
		return
	}
	t.wg.Add(1)
	go func() {
		defer t.wg.Done()
		defer func() {
			if e := recover(); e != nil {
				t.Log("crash", "msg", fmt.Sprint(e))
			}
		}()
		f()
	}()
}

// Pause is a scheduling point in client code.
func (t *T) Pause() {
	if !t.nat {
		vsched.Yield()
		return
	}
	runtime.Gosched()
}

// Choose is a data choice by the scheduler.
func (t *T) Choose(n int) int {
	if !t.nat {
		return vsched.Choose(n)
	}
	return 0
}

// Native reports whether real scheduling is in use.
func (t *T) Native() bool { return t.nat }

// RNG gives the generator for an index.
func RNG(seed uint64, fam string, i int) *vsched.Rand {
	hh := fnv.New64a()
	fmt.Fprintf(hh, "%s/%d/%d", fam, seed, i)
	return vsched.NewRand(hh.Sum64())
}

type stats struct {
	Scenarios int            `json:"scenarios"`
	Execs     int            `json:"executions"`
	Steps     int            `json:"steps"`
	Distinct  int            `json:"distinct"`
	Status    map[string]int `json:"status"`
	DFSDone   int            `json:"dfs_exhausted"`
	Diverged  int            `json:"dfs_diverged"`
}

// Main is the driver's entry point.
func Main(d Driver) {
	mode := flag.String("mode", "ctl", "ctl, nat, race, replay")
	fam := flag.String("family", "", "scenario family")
	tier := flag.String("tier", "quick", "")
	seed := flag.Uint64("seed", 1, "")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	sched := flag.Int("sched", 200, "schedules per scenario")
	bound := flag.Int("bound", 2, "preemption bound of the depth-first part")
	out := flag.String("out", "", "history file")
	limit := flag.Duration("limit", 0, "soft time limit")
	scen := flag.Int("scen", -1, "only this scenario (replay)")
	choices := flag.String("choices", "", "recorded choices (replay)")
	maxHist := flag.Int("maxhist", 0, "distinct histories kept per scenario (0: all)")
	flag.Parse()
	n := d.Count(*fam, *tier)
	if *mode == "replay" {
		sc := d.Gen(*fam, *scen, RNG(*seed, d.Name+*fam, *scen))
		var cs []int32
		for _, s := range strings.Split(*choices, ",") {
			if s != "" {
				v, _ := strconv.Atoi(s)
				cs = append(cs, int32(v))
			}
		}
		runtime.GOMAXPROCS(1)
		t, o := execCtl(sc, &vsched.Replay{C: cs})
		fmt.Println(sc.Name)
		for _, e := range t.ev {
			b, _ := json.Marshal(e)
			fmt.Println(string(b))
		}
		if o.Stack != "" {
			fmt.Println(o.Crash)
			fmt.Println(o.Stack)
		}
		return
	}
	var w *bufio.Writer
	if *out != "" {
		f, err := os.Create(*out)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		defer f.Close()
		w = bufio.NewWriter(f)
		defer w.Flush()
	}
	st := stats{Status: map[string]int{}}
	start := time.Now()
	if *mode == "ctl" {
		runtime.GOMAXPROCS(1)
	}
	stuck := 0
	for i := 0; i < n && stuck < 2; i++ {
		if i%*shards != *shard || (*scen >= 0 && i != *scen) {
			continue
		}
		if *limit > 0 && time.Since(start) > *limit {
			break
		}
		st.Scenarios++
		sc := d.Gen(*fam, i, RNG(*seed, d.Name+*fam, i))
		if sc.Weight == 0 {
			sc.Weight = 1
		}
		seen := map[uint64]bool{}
		kept := 0
		emit := func(t *T, status string, strat string, cs []int32) {
			st.Execs++
			st.Status[status]++
			b, err := json.Marshal(t.ev)
			if err != nil {
				fmt.Fprintln(os.Stderr, "marshal:", err, t.ev)
				os.Exit(3)
			}
			hh := fnv.New64a()
			hh.Write(b)
			if seen[hh.Sum64()] {
				return
			}
			seen[hh.Sum64()] = true
			if *maxHist > 0 && kept >= *maxHist && (status == "done") {
				return
			}
			kept++
			st.Distinct++
			if w != nil {
				head := map[string]any{"clock": sc.Clock && *mode == "ctl", "n": sc.Name, "s": i, "strat": strat, "c": compress(cs), "h": json.RawMessage(b)}
				for k, v := range sc.Head {
					head[k] = v
				}
				hb, err := json.Marshal(head)
				if err != nil {
					fmt.Fprintln(os.Stderr, "marshal:", err)
					os.Exit(3)
				}
				w.Write(hb)
				w.WriteByte('\n')
			}
		}
		budget := *sched * sc.Weight
		switch *mode {
		case "ctl":
			if sc.Once {
				t, o := execCtl(sc, &vsched.DFS{Bound: 0})
				st.Steps += o.Steps
				emit(t, o.Status, "once", o.Choices)
				continue
			}
			used := 0
			if !sc.NoDFS {
				for b := 0; b <= *bound; b++ {
					dfs := &vsched.DFS{Bound: b}
					// unexhausted, it only varies the last choices: most of the budget is for sampling
					lim := budget / 6
					if b < *bound {
						lim = budget / 10
					}
					k := 0
					for k < lim && dfs.Begin() {
						t, o := execCtl(sc, dfs)
						dfs.End()
						st.Steps += o.Steps
						emit(t, o.Status, fmt.Sprintf("dfs%d", b), o.Choices)
						k++
						used++
					}
					st.Diverged += dfs.Diverged
					if dfs.Done && b == *bound {
						st.DFSDone++
					}
				}
			}
			rng := RNG(*seed, "sched"+d.Name+*fam, i)
			avg := 40
			for used < budget {
				var s vsched.Strategy
				name := ""
				r := vsched.NewRand(rng.U64())
				switch used % 4 {
				case 0:
					s, name = &vsched.RandomStrat{Rng: r, Num: 1, Den: 1}, "rand1"
				case 1:
					s, name = &vsched.RandomStrat{Rng: r, Num: 1, Den: 4}, "rand4"
				case 2:
					s, name = &vsched.RandomStrat{Rng: r, Num: 1, Den: 10}, "rand10"
				default:
					s, name = vsched.NewPCT(r, 1+used/4%4, avg), "pct"
				}
				t, o := execCtl(sc, s)
				avg = (avg*7 + o.Steps) / 8
				if avg < 8 {
					avg = 8
				}
				st.Steps += o.Steps
				emit(t, o.Status, name, o.Choices)
				used++
			}
		case "nat", "race":
			k := budget
			if sc.Once {
				k = 1
			}
			for j := 0; j < k; j++ {
				t, status := execNat(sc, *mode == "nat", RNG(*seed, "nat"+d.Name+*fam, i*100000+j))
				emit(t, status, *mode, nil)
				if status == "stuck" {
					stuck++
					break
				}
			}
		}
	}
	if w != nil {
		w.Flush()
	}
	b, _ := json.Marshal(st)
	fmt.Println(string(b))
}

func compress(cs []int32) string {
	var sb strings.Builder
	for i, c := range cs {
		if i > 0 {
			sb.WriteByte(',')
		}
		sb.WriteString(strconv.Itoa(int(c)))
	}
	return sb.String()
}

func execCtl(sc Scenario, s vsched.Strategy) (*T, vsched.Outcome) {
	t := &T{log: true, clock: sc.Clock}
	o := vsched.Exec(vsched.Config{Strat: s, MaxSteps: sc.MaxSteps, TimerAnytime: sc.Anytime}, func() { sc.Run(t) })
	e := map[string]any{"e": "end", "st": o.Status, "blk": len(o.Blocked)}
	if o.Status == "stuck" {
		e["why"] = o.BlockedString()
	}
	if o.Status == "crash" {
		e["why"] = firstLine(o.Crash)
	}
	t.ev = append(t.ev, e)
	return t, o
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

func execNat(sc Scenario, log bool, rng *vsched.Rand) (*T, string) {
	t := &T{log: log, nat: true, Rng: rng}
	done := make(chan struct{})
	t.Go(func() { sc.Run(t) })
	go func() { t.wg.Wait(); close(done) }()
	status := "done"
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		status = "stuck"
	}
	t.mu.Lock()
	t.over = true
	e := map[string]any{"e": "end", "st": status, "blk": 0}
	t.ev = append(t.ev, e)
	for _, x := range t.ev {
		if x["e"] == "crash" {
			e["st"] = "crash"
			status = "crash"
		}
	}
	t.mu.Unlock()
	return t, status
}

// Keys lists map keys in order.
func Keys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Par runs the functions as concurrent clients and waits for all of them.
func (t *T) Par(fs ...func()) {
	var wg vsync.WaitGroup
	for _, f := range fs {
		f := f
		wg.Add(1)
		t.Go(func() {
			defer wg.Done()
			f()
		})
	}
	wg.Wait()
}

// Rewrite lets a scenario edit the recorded events before it ends.
func (t *T) Rewrite(f func(e map[string]any)) {
	if t.nat {
		t.mu.Lock()
		defer t.mu.Unlock()
	}
	for _, e := range t.ev {
		f(e)
	}
}

// Pick returns a random element.
func Pick[X any](r *vsched.Rand, xs []X) X { return xs[r.N(len(xs))] }

// By chooses by tier.
func By(tier string, quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}
