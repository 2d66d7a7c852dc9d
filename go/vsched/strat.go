package vsched

// Rand is a small PRNG (splitmix64).
type Rand struct{ s uint64 }

// NewRand seeds a PRNG.
func NewRand(seed uint64) *Rand { return &Rand{seed} }

// U64 returns the next value.
func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a value in [0,n).
func (r *Rand) N(n int) int { return int(r.U64() % uint64(n)) }

// RandomStrat switches goroutines with probability Num/Den at each point.
type RandomStrat struct {
	Rng      *Rand
	Num, Den int
}

// Pick implements Strategy.
func (s *RandomStrat) Pick(en []*G, cur int) int {
	if cur >= 0 && s.Rng.N(s.Den) >= s.Num {
		return cur
	}
	// timers are rarely chosen while something else can run
	i := s.Rng.N(len(en))
	if en[i].timer && s.Rng.N(4) != 0 {
		i = s.Rng.N(len(en))
	}
	return i
}

// Choose implements Strategy.
func (s *RandomStrat) Choose(n int, k Kind) int { return s.Rng.N(n) }

// PCTStrat is probabilistic concurrency testing with D priority changes.
type PCTStrat struct {
	Rng    *Rand
	change map[int]bool
	step   int
	low    int
}

// NewPCT builds a PCT strategy with d change points over an estimated length.
func NewPCT(rng *Rand, d, length int) *PCTStrat {
	s := &PCTStrat{Rng: rng, change: map[int]bool{}}
	for i := 0; i < d; i++ {
		s.change[rng.N(length)] = true
	}
	return s
}

// Pick implements Strategy.
func (s *PCTStrat) Pick(en []*G, cur int) int {
	s.step++
	if cur >= 0 && s.change[s.step] {
		s.low--
		en[cur].prio = s.low
	}
	// fairness for spinning code: now and then demote the running goroutine
	if cur >= 0 && s.step%509 == 0 {
		s.low--
		en[cur].prio = s.low
	}
	best := -1
	for i, g := range en {
		if g.prio == 0 {
			g.prio = 1 + s.Rng.N(1<<20)
		}
		if best < 0 || g.prio > en[best].prio {
			best = i
		}
	}
	return best
}

// Choose implements Strategy.
func (s *PCTStrat) Choose(n int, k Kind) int { return s.Rng.N(n) }

type dnode struct {
	n, i     int
	cur      int // index of running goroutine or -1
	budget   int // preemptions left before this choice
	nonPreem bool
}

// DFS enumerates executions with a bounded number of preemptions.
type DFS struct {
	Bound int
	stack []dnode
	pos   int
	left  int
	Done  bool
	// Diverged counts replays whose choice structure differed.
	Diverged int
	yields   int
}

// Begin starts the next execution; false when the space is exhausted.
func (d *DFS) Begin() bool {
	if d.Done {
		return false
	}
	d.pos = 0
	d.left = d.Bound
	d.yields = 0
	return true
}

// order: index 0 is the default (continue cur if enabled), the rest ascending.
func opt(i, cur int) int {
	if cur < 0 {
		return i
	}
	if i == 0 {
		return cur
	}
	if i <= cur {
		return i - 1
	}
	return i
}

func (d *DFS) node(n, cur int, preem bool) int {
	if d.pos < len(d.stack) {
		nd := &d.stack[d.pos]
		if nd.n != n || nd.cur != cur {
			d.Diverged++
			// structure changed (nondeterminism outside control): truncate
			d.stack = d.stack[:d.pos]
		}
	}
	if d.pos >= len(d.stack) {
		d.stack = append(d.stack, dnode{n: n, cur: cur, budget: d.left, nonPreem: !preem})
	}
	nd := &d.stack[d.pos]
	d.pos++
	if preem && nd.i > 0 {
		d.left--
	}
	return opt(nd.i, nd.cur)
}

// Pick implements Strategy.
func (d *DFS) Pick(en []*G, cur int) int {
	if cur >= 0 {
		// fairness for spinning code: a long uninterrupted run is preempted
		d.yields++
		if d.yields > 3000 {
			d.yields = 0
			return (cur + 1) % len(en)
		}
		if d.left <= 0 {
			return cur
		}
		return d.node(len(en), cur, true)
	}
	d.yields = 0
	return d.node(len(en), -1, false)
}

// Choose implements Strategy.
func (d *DFS) Choose(n int, k Kind) int {
	if k == KData {
		return 0
	}
	return d.node(n, -1, false)
}

// End finishes an execution and moves to the next one.
func (d *DFS) End() {
	d.stack = d.stack[:d.pos]
	for len(d.stack) > 0 {
		nd := &d.stack[len(d.stack)-1]
		if nd.i+1 < nd.n && (nd.nonPreem || nd.budget > 0) {
			nd.i++
			return
		}
		d.stack = d.stack[:len(d.stack)-1]
	}
	d.Done = true
}

// Replay follows a recorded list of choices, then defaults.
type Replay struct {
	C []int32
	i int
}

func (s *Replay) next(n, def int) int {
	if s.i < len(s.C) {
		c := int(s.C[s.i])
		s.i++
		if c < n {
			return c
		}
	}
	return def
}

// Pick implements Strategy.
func (s *Replay) Pick(en []*G, cur int) int {
	if cur < 0 {
		cur = 0
	}
	return s.next(len(en), cur)
}

// Choose implements Strategy.
func (s *Replay) Choose(n int, k Kind) int { return s.next(n, 0) }
