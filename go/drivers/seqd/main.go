// seqd drives the string joiner, the binary codec and the pooled buffered I/O.
package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"strings"

	"github.com/chenquan/go-pkg/xbinary"
	"github.com/chenquan/go-pkg/xio"
	"github.com/chenquan/go-pkg/xstring"
	"verif.local/mbv/h"
	"verif.local/mbv/vsched"
	"verif.local/mbv/vsync"
)

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

// ---- C21

func joinerGen(i int, r *vsched.Rand) h.Scenario {
	parts := []string{"", "", ",", ", ", "[", "<<", "é", "世", "😀x", "\x00"}
	p, s, x := h.Pick(r, parts), h.Pick(r, parts), h.Pick(r, parts)
	how := r.N(5)
	n := 1 + r.N(14)
	long := i%150 == 33
	if r.N(40) == 0 {
		n = 20 + r.N(60)
	}
	return h.Scenario{MaxSteps: 2000000, Name: fmt.Sprintf("joiner %q %q %q how %d", p, s, x, how), Once: true, Run: func(t *h.T) {
		var j *xstring.Joiner
		switch how {
		case 0:
			j = xstring.NewJoiner(xstring.WithJoiner(p, s, x))
		case 1:
			j = xstring.NewJoiner(xstring.WithJoinerPrefix(p), xstring.WithJoinerStep(s), xstring.WithJoinerSuffix(x))
		case 2:
			j = xstring.NewJoiner(xstring.WithJoiner("zz", "yy", "xx"), xstring.WithJoinerSuffix(x), xstring.WithJoinerStep(s), xstring.WithJoinerPrefix(p))
		case 3:
			j = xstring.NewJoiner(xstring.WithJoinerStep("q"), xstring.WithJoiner(p, s, x))
		default:
			p, s, x := "", s, ""
			j = xstring.NewJoiner(xstring.WithJoinerStep(s))
			t.Log("new", "p", ints([]byte(p)), "s", ints([]byte(s)), "x", ints([]byte(x)))
		}
		if how < 4 {
			t.Log("new", "p", ints([]byte(p)), "s", ints([]byte(s)), "x", ints([]byte(x)))
		}
		var kept []string
		query := func() {
			k := j.String()
			kept = append(kept, k)
			t.Log("str", "b", ints([]byte(k)))
			t.Log("len", "n", j.Len())
			t.Log("cap", "n", j.Cap())
		}
		fail := func(err error) string {
			if err != nil {
				return err.Error()
			}
			return ""
		}
		for k := 0; k < n; k++ {
			piece := h.Pick(r, []string{"", "a", "bc", ",", "héé", "世界", "x😀", "longer than sixteen bytes, surely"})
			if r.N(20) == 0 {
				piece = strings.Repeat(h.Pick(r, []string{"x", "é", "世"}), h.Pick(r, []int{31, 64, 65, 127, 129, 256, 300}))
			}
			if long && r.N(3) == 0 {
				piece = strings.Repeat(h.Pick(r, []string{"x", "é", "世"}), h.Pick(r, []int{1000, 1024, 2048, 4095, 4096, 5000, 22000, 33000, 66000}))
			}
			switch op := r.N(12); op {
			case 0, 1, 2:
				m, err := j.WriteString(piece)
				t.Log("w", "m", "string", "b", ints([]byte(piece)), "n", m, "err", fail(err))
			case 3, 4:
				b := []byte(piece)
				if piece == "" && r.N(2) == 0 {
					b = nil
				} else if r.N(3) == 0 {
					b = append(make([]byte, 0, len(b)+100), b...)
				}
				m, err := j.Write(b)
				t.Log("w", "m", "bytes", "b", ints([]byte(piece)), "n", m, "err", fail(err))
				for q := range b {
					b[q] = '#'
				}
			case 5:
				c := h.Pick(r, []byte{0, 'a', 0x7f, 0x80, 0xff})
				err := j.WriteByte(c)
				t.Log("w", "m", "byte", "b", []int{int(c)}, "n", 1, "err", fail(err))
			case 6:
				c := h.Pick(r, []rune{'a', 0, 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff, -1, 0xd800, 0xdfff, 0x110000, 1 << 30})
				m, err := j.WriteRune(c)
				t.Log("w", "m", "rune", "b", ints([]byte(string(c))), "n", m, "err", fail(err))
			case 7, 8:
				if r.N(8) == 0 {
					g := h.Pick(r, []int{-1, -1, -16, math.MinInt})
					bad := true
					func() {
						defer func() { bad = recover() == nil }()
						j.Grow(g)
					}()
					t.Log("negative", "ok", bad)
					continue
				}
				g := h.Pick(r, []int{0, 1, 2, 10, 16, 100, 1000, 1000, 1 << 16, 3 << 20})
				j.Grow(g)
				t.Log("grow", "g", g, "cap", j.Cap())
			case 9:
				if r.N(2) == 0 {
					j.Reset()
					t.Log("reset")
				}
			default:
				query()
			}
		}
		query()
		for k, s := range kept {
			t.Log("kept", "k", k+1, "b", ints([]byte(s)))
		}
	}}
}

// ---- C22

var errSink = errors.New("sink")

// wr is a writer that holds on to the caller's bytes for a while, takes at most
// max bytes in all and then fails.
type wr struct {
	t   *h.T
	buf []byte
	max int // -1: no limit

	calls  int
	err    error
	failAt int  // the call that fails, 0: none
	full   bool // the failing call takes all bytes all the same
	failed bool
}

func (w *wr) Write(p []byte) (int, error) {
	w.t.Pause()
	n := len(p)
	w.calls++
	if w.calls == w.failAt {
		w.failed = true
		if !w.full {
			return 0, w.err
		}
		w.buf = append(w.buf, p...)
		return n, w.err
	}
	if w.max >= 0 && len(w.buf)+n > w.max {
		n = w.max - len(w.buf)
	}
	w.buf = append(w.buf, p[:n]...)
	if n < len(p) {
		return n, w.err
	}
	return n, nil
}

// rd is a reader that splits its data, ends with err, together with the last
// data or after it.
type rd struct {
	t     *h.T
	data  []byte
	split int
	err   error
	with  bool
	pos   int
	idle  int // > 0: the position at which reads yield nothing
	idles int // how many of them
}

func (r *rd) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if r.idle > 0 && r.pos == r.idle {
		if r.idles--; r.idles <= 0 {
			r.idle = -1
		}
		return 0, nil
	}
	if r.split > 0 && n > r.split {
		n = r.split
	}
	n = copy(p[:n], r.data[r.pos:])
	r.pos += n
	r.t.Pause()
	if n == 0 || (r.with && r.pos == len(r.data)) {
		return n, r.err
	}
	return n, nil
}

// wrx and rdx have methods beyond Write and Read that an implementation may prefer.
type wrx struct{ *wr }

func (w wrx) WriteByte(c byte) error { _, err := w.Write([]byte{c}); return err }

func (w wrx) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

type rdx struct{ *rd }

func (r rdx) ReadByte() (byte, error) {
	var p [1]byte
	for {
		n, err := r.Read(p[:])
		if n == 1 {
			return p[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}

func errName(e error) string { return errIs(e, errSink) }

// errIs: "sink" for the error sink or one that wraps it.
func errIs(e, sink error) string {
	switch {
	case e == nil:
		return ""
	case errors.Is(e, sink):
		return "sink"
	}
	return "other"
}

// rdName: an error of the source is known only where it has one.
func rdName(e, sink error, bad bool) string {
	if !bad && e != nil {
		return "other"
	}
	return errIs(e, sink)
}

// errors of the other side: its own, and well-known ones
var wrErrs = []error{errSink, errSink, io.EOF, io.ErrShortWrite, io.ErrUnexpectedEOF, io.ErrClosedPipe, fmt.Errorf("sink: %w", io.EOF), bufio.ErrBufferFull}
var rdErrs = []error{errSink, errSink, io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer, fmt.Errorf("source: %w", io.EOF), fmt.Errorf("source: %w", io.ErrUnexpectedEOF), bufio.ErrNegativeCount}

type val struct {
	k      string // bool u16 u32 bytes
	hi, lo int
	b      []byte
}

func codecVals(r *vsched.Rand, huge bool) []val {
	var vs []val
	for n := 1 + r.N(6); n > 0; n-- {
		switch r.N(4) {
		case 0:
			vs = append(vs, val{k: "bool", lo: r.N(2)})
		case 1:
			vs = append(vs, val{k: "u16", lo: h.Pick(r, []int{0, 1, 255, 256, 258, 32767, 32768, 65280, 65535, r.N(65536)})})
		case 2:
			e := []int{0, 1, 255, 256, 32768, 65535, r.N(65536)}
			vs = append(vs, val{k: "u32", hi: h.Pick(r, e), lo: h.Pick(r, e)})
		default:
			l := h.Pick(r, []int{0, 1, 2, 3, 5, 8, 13})
			if r.N(12) == 0 {
				l = h.Pick(r, []int{255, 256, 257, 300, 511, 512, 513, 1024, 2000, 4095, 4096, 4097, 5000})
			}
			vs = append(vs, val{k: "bytes", b: fill(r, l)})
		}
	}
	if huge {
		vs = append(vs[:1], val{k: "bytes", b: fill(r, h.Pick(r, []int{4096, 8192, 8193, 16384, 32767, 32768, 32769, 40000, 49152, 65534, 65535, 65535, 65536, 65537, 70000, 131072 + 3}))}, val{k: "u16", lo: 7})
	}
	return vs
}

func fill(r *vsched.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.N(256))
	}
	return b
}

func codecGen(fam string, i int, r *vsched.Rand) h.Scenario {
	clients := 1
	if fam == "codec-conc" {
		clients = 2 + r.N(2)
	}
	type job struct {
		vs    []val
		max   int
		split int
		with  bool
		cut   int // bytes cut off
		bad   bool
		swap  bool
		fail  int
		full  bool
		idle  int
		idles int
		werr  error
		rerr  error
		wk    int // kinds of writer and reader
		rk    int
		rsize int
	}
	jobs := make([]job, clients)
	name := "codec"
	for c := range jobs {
		j := job{vs: codecVals(r, fam == "codec-huge"), max: -1, split: h.Pick(r, []int{0, 0, 1, 2, 3}), with: r.N(2) == 0}
		if clients > 1 {
			j.vs = j.vs[:h.By("", 1+r.N(len(j.vs)), 0)]
		}
		switch r.N(4) {
		case 0:
			j.max = r.N(12)
		case 1:
			j.cut = 1 + r.N(8)
		case 2:
			j.bad = true
			j.cut = r.N(4)
		}
		j.swap = r.N(8) == 0 && fam == "codec"
		if r.N(4) == 0 {
			j.fail, j.full, j.max = 1+r.N(2*len(j.vs)), r.N(4) == 0, -1
		}
		if r.N(3) == 0 {
			j.idle, j.idles = 1+r.N(12), h.Pick(r, []int{1, 1, 2, 99, 100, 101, 1000})
		}
		j.werr, j.rerr = h.Pick(r, wrErrs), h.Pick(r, rdErrs)
		j.wk, j.rk, j.rsize = r.N(4), r.N(6), h.Pick(r, []int{16, 17, 64, 4096, 70000})
		if j.rk == 2 {
			j.idle, j.idles = 0, 0
		}
		jobs[c] = j
		name += fmt.Sprintf(" [kinds %d %d,%d max %d fail %d,%v %q split %d with %v idle %d*%d cut %d bad %v %q:", j.wk, j.rk, j.rsize, j.max, j.fail, j.full, j.werr, j.split, j.with, j.idle, j.idles, j.cut, j.bad, j.rerr)
		for _, v := range j.vs {
			name += fmt.Sprintf(" %s(%d,%d,%d)", v.k, v.hi, v.lo, len(v.b))
		}
		name += "]"
	}
	return h.Scenario{Name: name, Head: map[string]any{"clients": clients}, Once: clients == 1, Run: func(t *h.T) {
		var fs []func()
		for c, j := range jobs {
			c, j := c+1, j
			fs = append(fs, func() {
				w := &wr{t: t, max: j.max, failAt: j.fail, full: j.full, err: j.werr}
				var to io.Writer = w
				var mem bytes.Buffer
				switch {
				case j.wk == 1:
					to = wrx{w}
				case j.wk == 2 && j.max < 0 && j.fail == 0:
					to = &mem
				}
				t.Log("sink", "c", c, "max", j.max)
				for _, v := range j.vs {
					var err error
					switch v.k {
					case "bool":
						err = xbinary.WriteBool(to, v.lo == 1)
					case "u16":
						err = xbinary.WriteUint16(to, uint16(v.lo))
					case "u32":
						err = xbinary.WriteUint32(to, uint32(v.hi)<<16|uint32(v.lo))
					default:
						err = xbinary.WriteBytes(to, v.b)
					}
					b := v.b
					if len(b) > 65535 {
						b = b[:65536]
					}
					t.Log("w", "c", c, "k", v.k, "hi", v.hi, "lo", v.lo, "b", ints(b), "err", errIs(err, j.werr), "failed", w.failed)
					if err != nil || w.failed {
						break
					}
				}
				if to == io.Writer(&mem) {
					w.buf = mem.Bytes()
				}
				t.Log("wrote", "c", c, "b", ints(w.buf))
				data := append([]byte{}, w.buf...)
				cut := j.cut
				if cut > len(data) {
					cut = len(data)
				}
				data = data[:len(data)-cut]
				src := &rd{t: t, data: data, split: j.split, err: io.EOF, with: j.with, idle: j.idle, idles: j.idles}
				if j.bad {
					src.err = j.rerr
				}
				var from io.Reader = src
				pos := func() int { return src.pos }
				switch {
				case j.rk == 1:
					from = rdx{src}
				case j.rk == 2:
					br := bufio.NewReaderSize(src, j.rsize)
					from, pos = br, func() int { return src.pos - br.Buffered() }
				case j.rk == 3 && !j.bad:
					b := bytes.NewReader(data)
					from, pos = b, func() int { return len(data) - b.Len() }
				case j.rk == 4 && !j.bad:
					b := bytes.NewBuffer(data)
					from, pos = b, func() int { return len(data) - b.Len() }
				}
				t.Log("src", "c", c, "b", ints(data), "bad", j.bad)
				type keep struct {
					b []byte
					k int
				}
				var kept []keep
				vs := j.vs
				if j.swap { // read as other types than written
					vs = codecVals(r, false)
				}
				for k := 0; k <= len(vs); k++ {
					v := val{k: "bool"}
					if k < len(vs) {
						v = vs[k]
					}
					var err error
					got := val{k: v.k, b: []byte{}}
					switch v.k {
					case "bool":
						var b bool
						b, err = xbinary.ReadBool(from)
						if b {
							got.lo = 1
						}
					case "u16":
						var x uint16
						x, err = xbinary.ReadUint16(from)
						got.lo = int(x)
					case "u32":
						var x uint32
						x, err = xbinary.ReadUint32(from)
						got.hi, got.lo = int(x>>16), int(x&0xffff)
					default:
						got.b, err = xbinary.ReadBytes(from)
						kept = append(kept, keep{got.b, k + 1})
					}
					t.Log("r", "c", c, "k", v.k, "hi", got.hi, "lo", got.lo, "b", ints(got.b), "err", rdName(err, j.rerr, j.bad), "pos", pos())
					if err != nil {
						break
					}
				}
				// what was returned does not depend on the source's memory
				for k := range data {
					data[k] ^= 0xff
				}
				if br, ok := from.(*bufio.Reader); ok {
					br.Reset(bytes.NewReader(bytes.Repeat([]byte{'?'}, 70000)))
					_, _ = br.Peek(j.rsize)
				}
				// other users of the pool must not touch what was returned
				for k := 0; k < 4; k++ {
					var b bytes.Buffer
					_ = xbinary.WriteBytes(&b, []byte("....."))
					_, _ = xbinary.ReadBytes(&b)
					_ = xbinary.WriteUint32(&b, 0xffffffff)
					_, _ = xbinary.ReadUint16(&b)
				}
				for _, x := range kept { // of the same size
					if len(x.b) > 0 {
						var b bytes.Buffer
						_ = xbinary.WriteBytes(&b, bytes.Repeat([]byte{'!'}, len(x.b)))
						_, _ = xbinary.ReadBytes(&b)
					}
				}
				t.Pause()
				for _, x := range kept {
					t.Log("kept", "c", c, "k", x.k, "b", ints(x.b))
				}
			})
		}
		t.Par(fs...)
	}}
}

// ---- C23

type sink struct {
	t    *h.T
	h    int
	fail int // the call that fails, -1: none
	n    int
}

func (s *sink) Write(p []byte) (int, error) {
	s.n++
	if s.n-1 == s.fail {
		s.t.Log("sinkfail", "h", s.h)
		return 0, errSink
	}
	s.t.Log("sink", "h", s.h, "b", ints(p))
	s.t.Pause()
	return len(p), nil
}

func ioGen(fam string, i int, r *vsched.Rand) h.Scenario {
	clients := 1
	if fam == "io" {
		clients = 2 + r.N(2)
	}
	type use struct {
		writer bool
		size   int // -2: unsized
		own    int // > 0: the reader/writer is the user's own, of that size, only recycled here
		ops    []int
		arg    []int
		data   []byte
		split  int
		bad    bool
		with   bool
		fail   int
	}
	name := fam
	prog := make([][]use, clients)
	next := byte(1)
	for c := range prog {
		n := 1 + r.N(4)
		if clients > 1 {
			n = 1 + r.N(2)
		}
		for ; n > 0; n-- {
			u := use{writer: r.N(2) == 0, size: h.Pick(r, []int{-2, -2, -2, 0, 1, 16, 17, 32, 64, 4096, 5000, 1 << 16, 70000}), split: h.Pick(r, []int{0, 0, 1, 3, 7}), bad: r.N(3) == 0, with: r.N(2) == 0, fail: -1}
			if r.N(6) == 0 {
				u.own = h.Pick(r, []int{16, 20, 64, 1 << 16})
			}
			if u.writer && r.N(5) == 0 {
				u.fail = r.N(3)
			}
			for k := h.Pick(r, []int{0, 3, 10, 20, 40}); k > 0; k-- {
				u.data = append(u.data, next)
				next = next%250 + 1
			}
			for k := 1 + r.N(4); k > 0; k-- {
				u.ops = append(u.ops, r.N(6))
				u.arg = append(u.arg, r.N(25))
			}
			prog[c] = append(prog[c], u)
			name += fmt.Sprintf(" %d:(w %v size %d own %d len %d split %d bad %v fail %d ops %v)", c, u.writer, u.size, u.own, len(u.data), u.split, u.bad, u.fail, u.ops)
		}
	}
	return h.Scenario{Name: name, Once: clients == 1, Run: func(t *h.T) {
		var mu vsync.Mutex
		hs := 0
		ptr := map[any]int{}
		id := func(p any) (int, int) {
			mu.Lock()
			defer mu.Unlock()
			hs++
			if ptr[p] == 0 {
				ptr[p] = len(ptr) + 1
			}
			return hs, ptr[p]
		}
		reader := func(u use) {
			src := &rd{t: t, data: u.data, split: u.split, err: io.EOF, with: u.with}
			if u.bad {
				src.err = errSink
			}
			var br *bufio.Reader
			own := u.own > 0
			switch {
			case own:
				br = bufio.NewReaderSize(src, u.own)
			case u.size == -2:
				br = xio.GetBufferReader(src)
			default:
				br = xio.GetBufferReaderSize(src, u.size)
			}
			hd, p := id(br)
			req := u.size
			if own {
				req = 16
			}
			big := 0
			if br.Size() >= 1000000 {
				big = 1
			}
			t.Log("get", "h", hd, "p", p, "w", false, "req", req, "size", br.Size()*(1-big)+1000000*big, "buffered", br.Buffered(), "src", ints(u.data), "err", map[bool]string{true: "sink", false: "eof"}[u.bad])
			name := func(e error) string {
				switch {
				case e == nil:
					return ""
				case e == io.EOF:
					return "eof"
				case e == errSink:
					return "sink"
				}
				return e.Error()
			}
			for k, op := range u.ops {
				a := u.arg[k]
				switch op {
				case 0, 1:
					b := make([]byte, 1+a)
					n, err := br.Read(b)
					t.Log("read", "h", hd, "n", len(b), "b", ints(b[:n]), "err", name(err))
				case 2:
					n := 1 + a%16
					if u.size > 0 && a%3 == 0 && u.size < 100 && !own {
						n = u.size
					}
					b, err := br.Peek(n)
					t.Log("peek", "h", hd, "n", n, "b", ints(b), "err", name(err))
				case 3:
					c, err := br.ReadByte()
					t.Log("byte", "h", hd, "v", int(c), "err", name(err))
					if err == nil && a%2 == 0 {
						t.Log("unread", "h", hd, "ok", br.UnreadByte() == nil)
					}
				case 4:
					if k == 0 {
						t.Log("unread0", "h", hd, "ok", br.UnreadByte() == nil)
						continue
					}
					d := byte(0)
					if len(u.data) > 0 {
						d = u.data[a%len(u.data)]
					}
					b, err := br.ReadBytes(d)
					t.Log("line", "h", hd, "d", int(d), "b", ints(b), "err", name(err))
				default:
					t.Log("rbuf", "h", hd, "n", br.Buffered())
				}
				t.Pause()
			}
			t.Log("put", "h", hd)
			xio.PutBufferReader(br)
		}
		writer := func(u use) {
			s := &sink{t: t, fail: u.fail}
			var bw *bufio.Writer
			own := u.own > 0
			switch {
			case own:
				bw = bufio.NewWriterSize(s, u.own)
			case u.size == -2:
				bw = xio.GetBufferWriter(s)
			default:
				bw = xio.GetBufferWriterSize(s, u.size)
			}
			hd, p := id(bw)
			s.h = hd
			req := u.size
			if own {
				req = 16
			}
			t.Log("get", "h", hd, "p", p, "w", true, "req", req, "size", bw.Size(), "buffered", bw.Buffered(), "src", []int{}, "err", "")
			rest := u.data
			for k, op := range u.ops {
				a := u.arg[k]
				switch op {
				case 0, 1, 2, 3:
					if a > len(rest) {
						a = len(rest)
					}
					d := rest[:a]
					rest = rest[a:]
					var n int
					var err error
					t.Log("wc", "h", hd, "b", ints(d))
					switch {
					case len(d) == 1:
						err = bw.WriteByte(d[0])
						n = 1
						if err != nil {
							n = 0
						}
					case op == 1:
						n, err = bw.WriteString(string(d))
					default:
						n, err = bw.Write(d)
					}
					t.Log("wr", "h", hd, "n", n, "err", errName(err))
				case 4:
					t.Log("wc", "h", hd, "b", []int{})
					err := bw.Flush()
					t.Log("flush", "h", hd, "err", errName(err))
				default:
				}
				t.Log("wbuf", "h", hd, "n", bw.Buffered(), "avail", bw.Available())
				t.Pause()
			}
			t.Log("put", "h", hd)
			xio.PutBufferWriter(bw)
		}
		var fs []func()
		for _, us := range prog {
			us := us
			fs = append(fs, func() {
				for _, u := range us {
					if u.writer {
						writer(u)
					} else {
						reader(u)
					}
				}
			})
		}
		t.Par(fs...)
	}}
}

func main() {
	h.Main(h.Driver{Name: "seq", Gen: func(fam string, i int, r *vsched.Rand) h.Scenario {
		switch fam {
		case "joiner":
			return joinerGen(i, r)
		case "io", "io-seq":
			return ioGen(fam, i, r)
		}
		return codecGen(fam, i, r)
	}, Count: func(fam, tier string) int {
		switch fam {
		case "joiner":
			return h.By(tier, 6000, 60000)
		case "codec":
			return h.By(tier, 4000, 40000)
		case "codec-huge":
			return h.By(tier, 24, 120)
		case "codec-conc":
			return h.By(tier, 80, 800)
		case "io-seq":
			return h.By(tier, 4000, 40000)
		}
		return h.By(tier, 160, 1600)
	}})
}
