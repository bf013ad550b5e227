package main

// B06 and B07: the cryptographic random source is replaced by an instrumented one for whole phases.

import (
	"bytes"
	crand "crypto/rand"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"

	"verifharness/oracle"
)

// source is a scripted random source: it delivers stream in pieces and may fail after failAt bytes.
type source struct {
	stream    []byte
	chunk     func(n int) int // how much of a request of n bytes to deliver
	failAt    int             // -1: never
	err       error
	withData  bool // the error comes together with the last bytes before it
	idle      bool // an occasional (0, nil) read
	heals     int  // >0: after that many failures the source works again
	delivered int
	reads     int
	failed    int
}

func (s *source) Read(p []byte) (int, error) {
	s.reads++
	if len(p) == 0 {
		return 0, nil
	}
	if s.idle && s.reads%3 == 2 {
		return 0, nil
	}
	n := len(p)
	if s.chunk != nil {
		n = s.chunk(n)
	}
	if s.heals > 0 && s.failed >= s.heals {
		s.fill(p[:n])
		return n, nil
	}
	if s.failAt >= 0 && s.delivered+n >= s.failAt {
		n = s.failAt - s.delivered
		if n < 0 {
			n = 0
		}
		if n > 0 && !s.withData {
			s.fill(p[:n])
			return n, nil
		}
		s.fill(p[:n])
		s.failed++
		return n, s.err
	}
	s.fill(p[:n])
	return n, nil
}

func (s *source) fill(p []byte) {
	for i := range p {
		if s.delivered < len(s.stream) {
			p[i] = s.stream[s.delivered]
		} else { // a longer draw than expected: deterministic continuation
			p[i] = byte(s.delivered*167 + 13)
		}
		s.delivered++
	}
}

// all is everything delivered so far.
func (s *source) all() []byte {
	b := make([]byte, s.delivered)
	(&source{stream: s.stream}).fill(b)
	return b
}

// asIs names the operations whose results are a piece of what the source delivers, as far as random streams tell: if so, no other
// bytes belong into their results.
var asIs = map[string]bool{}

var realRand = crand.Reader

func whole(n int) int { return n }
func byteWise(n int) int {
	return 1
}
func pieces(k int) func(int) int {
	return func(n int) int {
		if n > k {
			return k
		}
		return n
	}
}

// rop is one operation that draws fresh randomness. run returns the secret bytes of its result.
type rop struct {
	name string
	size int // bytes of secret material
	run  func(w *W) (secret []byte, err error, claims bool)
}

func randOps() (out []rop) {
	for _, b := range []int{128, 160, 192, 224, 256} {
		out = append(out, rop{fmt.Sprintf("NewEntropy(%d)", b), b / 8, func(w *W) ([]byte, error, bool) {
			x, err := w.NewEntropy(b)
			return x, err, false
		}})
	}
	for _, n := range []byte{12, 15, 18, 21, 24} {
		out = append(out, rop{fmt.Sprintf("GenerateMnemonic(%d)", n), int(n) / 3 * 4, func(w *W) ([]byte, error, bool) {
			m, err := w.GenerateMnemonic(n)
			e, ok := oracle.Decode(w.Lang(), m)
			if err == nil && (!ok || oracle.Canonical(m) != m) {
				w.Fail(nil, fmt.Sprintf("GenerateMnemonic(%d) gave something that is not a valid sentence", n), m, "a sentence")
			}
			return e, err, ok
		}})
	}
	out = append(out, rop{"bip32.NewSeed", 256, func(w *W) ([]byte, error, bool) {
		x, err := w.Bip32Seed()
		return x, err, false
	}})
	return
}

// streams for the differential: contents that provoke content-dependent handling.
func genStream(w *W, n int) []byte {
	b := rbytes(w.R, n)
	switch w.R.Intn(8) {
	case 0:
		for i := range b {
			b[i] = 0
		}
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2:
		for i := 0; i < n/2; i++ {
			b[i] = 0
		}
	case 3:
		for i := n / 2; i < n; i++ {
			b[i] = 0
		}
	case 4:
		b[0] = 0
	case 5:
		b[n-1] = 0
	case 6:
		copy(b[n/2:], b[:n/2])
	case 7:
		shape(w.R, b)
	}
	if w.R.Intn(3) == 0 {
		shape(w.R, b)
	}
	plant(w.R, b)
	return b
}

func with(s io.Reader, f func()) {
	old := crand.Reader
	crand.Reader = s
	defer func() { crand.Reader = old }()
	f()
}

func chunkings(r interface{ Intn(int) int }) []func(int) int {
	return []func(int) int{whole, byteWise, pieces(2), pieces(3), pieces(5), pieces(7), pieces(16), pieces(31),
		func(n int) int { return 1 + r.Intn(n) }}
}

// differential runs op on a stream, then with every bit (or a sample) of what was delivered flipped.
func differential(w *W, o rop, stream []byte, chunk func(int) int, idle bool, sample int) {
	run := func(s []byte) (secret []byte, err error, src *source) {
		src = &source{stream: s, chunk: chunk, failAt: -1, idle: idle}
		with(src, func() { secret, err, _ = o.run(w) })
		return
	}
	base, err, src := run(stream)
	key := fmt.Sprintf("%s %x", o.name, stream)
	w.EvalKey(key, true)
	if err != nil {
		w.Fail(nil, o.name+" failed although the source works", err, nil)
		return
	}
	base = cp(base)
	if len(base) != o.size {
		w.Fail(nil, o.name+" gave secret material of the wrong size", len(base), o.size)
		return
	}
	if src.delivered < o.size {
		w.Fail(nil, fmt.Sprintf("%s drew only %d bytes during the call for %d bytes of output", o.name, src.delivered, o.size), base, stream)
		return
	}
	w.FeatIf(src.reads > 1, "delivered-in-pieces")
	d := src.delivered
	if asIs[o.name] {
		w.Feat("taken-as-delivered")
		if !bytes.Contains(src.all(), base) {
			w.Fail(nil, o.name+" takes over what the random source delivers, but not here", base, src.all())
			return
		}
	}
	seen := map[string]int{string(base): -1}
	changed := make([]byte, len(base)) // union of result bits that any flip changes
	n := d * 8
	for j := 0; j < n; j++ {
		if sample > 0 && w.R.Intn(n) >= sample && j >= 8 && j < n-8 {
			continue
		}
		s := make([]byte, d)
		copy(s, stream)
		for i := len(stream); i < d; i++ {
			s[i] = byte(i*167 + 13)
		}
		s[j/8] ^= 0x80 >> (j % 8)
		got, err, _ := run(s)
		w.evals++
		if err != nil {
			w.Fail(nil, o.name+" failed although the source works", err, nil)
			return
		}
		if k, dup := seen[string(got)]; dup {
			w.Fail(nil, fmt.Sprintf("%s: flipping bit %d of what the random source delivered gives the same result as flipping bit %d (-1: none)", o.name, j, k), got, s)
			return
		}
		seen[string(got)] = j
		for i := range got {
			if i < len(changed) {
				changed[i] |= got[i] ^ base[i]
			}
		}
	}
	if sample == 0 {
		for i, b := range changed {
			if b != 0xff {
				w.Fail(nil, fmt.Sprintf("%s: byte %d of the result has bits that no bit of the source influences (influenced mask %02x)", o.name, i, b), base, stream)
				return
			}
		}
		w.Feat("all-bits-flipped")
	}
}

// monSizes: requests are refused exactly when the size is unsupported, and results have the requested size.
func monSizes(c *Check) {
	c.On("NewEntropy", func(w *W, e *Event) {
		bits := e.In[0].(int)
		out, err := e.Out[0].([]byte), asErr(e.Out[1])
		w.Eval(e, true)
		legal := bits >= 128 && bits <= 256 && bits%32 == 0
		switch {
		case !legal && err == nil:
			w.Fail(e, "unsupported entropy size was not refused", out, "an error")
		case !legal && len(out) != 0:
			w.Fail(e, "refused request still returned material", out, "nothing")
		case legal && err != nil:
			if crand.Reader == realRand {
				w.Fail(e, "supported size refused", err, nil)
			}
		case legal && len(out) != bits/8:
			w.Fail(e, "entropy has the wrong size", len(out), bits/8)
		}
		w.FeatIf(!legal, "unsupported-size-refused")
	})
	c.On("GenerateMnemonic", func(w *W, e *Event) {
		n := int(e.In[0].(byte))
		m, err := e.Out[0].(string), asErr(e.Out[1])
		w.Eval(e, true)
		legal := n >= 12 && n <= 24 && n%3 == 0
		switch {
		case !legal && err == nil:
			w.Fail(e, "unsupported word count was not refused", m, "an error")
		case !legal && m != "":
			w.Fail(e, "refused request still returned a sentence", m, "")
		case legal && err != nil:
			if crand.Reader == realRand {
				w.Fail(e, "supported word count refused", err, nil)
			}
		case legal:
			if d, ok := oracle.Decode(w.Lang(), m); !ok || len(d) != n/3*4 || len(strings.Fields(m)) != n {
				w.Fail(e, "not a valid sentence of the requested length", m, n)
			}
		}
	})
	c.On("bip32.NewSeed", func(w *W, e *Event) {
		w.Eval(e, false)
		if err := asErr(e.Out[1]); err == nil && len(e.Out[0].([]byte)) != 256 {
			w.Fail(e, "master seed has the wrong size", len(e.Out[0].([]byte)), 256)
		}
	})
}

// windows records every 8-byte window of outputs and reports a repetition.
type windows struct {
	mu   [64]sync.Mutex
	seen [64]map[uint64]int32
	n    atomic.Int64
}

func newWindows() *windows {
	x := &windows{}
	for i := range x.seen {
		x.seen[i] = map[uint64]int32{}
	}
	return x
}

func (x *windows) add(b []byte, id int32) (other int32, at int, dup bool) {
	for i := 0; i+8 <= len(b); i++ {
		v := binary.LittleEndian.Uint64(b[i:])
		s := (v * 0x9e3779b97f4a7c15) >> 58
		x.mu[s].Lock()
		o, ok := x.seen[s][v]
		x.seen[s][v] = id
		x.mu[s].Unlock()
		x.n.Add(1)
		if ok {
			return o, i, true
		}
	}
	return 0, 0, false
}

type faultKind struct {
	name string
	err  error
}

var errFault = errors.New("injected source failure")

var faultKinds = []faultKind{
	{"EOF", io.EOF}, {"UnexpectedEOF", io.ErrUnexpectedEOF}, {"EAGAIN", syscall.EAGAIN}, {"EINTR", syscall.EINTR}, {"EIO", syscall.EIO},
	{"closed", fs.ErrClosed}, {"deadline", os.ErrDeadlineExceeded}, {"noprogress", io.ErrNoProgress}, {"shortbuffer", io.ErrShortBuffer}, {"custom", errFault},
}

func init() {
	props["B06"] = func(c *Check) {
		c.Rule = "each operation that draws randomness (NewEntropy x5 sizes, GenerateMnemonic x5 sizes, NewSeed) runs on an instrumented source whose delivered bytes are known; every delivered bit is flipped in turn and the results must be pairwise different and every result bit must be influenced; the source delivers whole, byte-wise, in odd pieces, with idle reads; outputs of real-source calls (sequential and parallel) share no 8-byte window; all sizes are requested; non-trivial: distinct (operation, stream) bases and distinct requests"
		c.Require = []string{"delivered-in-pieces", "all-bits-flipped", "unsupported-size-refused", "parallel-outputs"}
		monSizes(c)
		ops := randOps()
		c.Seqn("as-delivered", 60*len(ops), func(w *W, i int) {
			o := ops[i%len(ops)]
			src := &source{stream: rbytes(w.R, o.size), failAt: -1}
			with(src, func() {
				b, err, _ := o.run(w)
				asIs[o.name] = (i < len(ops) || asIs[o.name]) && err == nil && bytes.Contains(src.all(), b)
			})
			w.EvalKey(fmt.Sprintf("as-delivered %d", i), true)
		})
		c.Seqn("flip-all", c.N(11*9, 11*9*8), func(w *W, i int) {
			o := ops[i%len(ops)]
			ch := chunkings(w.R)[i/len(ops)%9]
			differential(w, o, genStream(w, o.size), ch, i/len(ops)%2 == 1, 0)
		})
		c.Seqn("flip-some", c.N(2500, 100000), func(w *W, i int) {
			o := ops[w.R.Intn(len(ops))]
			chs := chunkings(w.R)
			differential(w, o, genStream(w, o.size), chs[w.R.Intn(len(chs))], w.R.Intn(3) == 0, 6)
		})
		c.Par("sizes", 2400, func(w *W, i int) {
			w.NewEntropy(i - 1100)
			if i < 256 {
				w.GenerateMnemonic(byte(i))
			}
			for _, b := range []int{math.MinInt, math.MinInt + i, math.MaxInt - i, i << 32, i<<32 + 128, i<<32 + 256, -128 * i, 128 + 1<<16*i, 256*i + 8, 1 << (i % 63)} {
				if !(b >= 128 && b <= 256) {
					w.NewEntropy(b)
				}
			}
		})
		// the same operations while the rest of the library is busy: real source, many calls, no shared windows
		x := newWindows()
		uniq := func(w *W, o rop, id int) {
			s, err, _ := o.run(w)
			w.evals++
			if err != nil {
				w.Fail(nil, o.name+" failed with the real source", err, nil)
				return
			}
			if len(s) != o.size {
				w.Fail(nil, o.name+" gave secret material of the wrong size", len(s), o.size)
				return
			}
			if other, at, dup := x.add(s, int32(id)); dup {
				w.Fail(nil, fmt.Sprintf("%s: 8 bytes at offset %d of this result were already handed out (by call %d of this run; this is call %d)", o.name, at, other, id), s, "fresh bytes")
			}
			w.distinct[uint64(id)|1<<63] = struct{}{}
		}
		var id atomic.Int64
		c.Seqn("unique-sequential", c.N(12000, 100000), func(w *W, i int) { uniq(w, ops[i%len(ops)], int(id.Add(1))) })
		c.Par("unique-parallel", c.N(30000, 400000), func(w *W, i int) {
			uniq(w, ops[w.R.Intn(len(ops))], int(id.Add(1)))
			w.Feat("parallel-outputs")
		})
		// long histories of one operation, sequential, so that counters and pools in the library turn over
		c.Seqn("unique-history", c.N(70000, 300000), func(w *W, i int) { uniq(w, ops[i%5], int(id.Add(1))) })
		c.Seqn("flip-after-history", len(ops), func(w *W, i int) {
			differential(w, ops[i], genStream(w, ops[i].size), byteWise, false, 0)
		})
		c.extra["output_windows_compared"] = x.n.Load()
		for _, lang := range []string{"korean", "japanese"} {
			c.selectLang(lang)
			c.Seqn("flip-"+lang, 5, func(w *W, i int) { differential(w, ops[5+i], genStream(w, ops[5+i].size), pieces(3), false, 0) })
		}
		c.selectLang("english")
	}

	props["B07"] = func(c *Check) {
		c.Level = "fault_enumeration"
		c.Rule = "for each of the 11 randomness-drawing requests: a source failure after every possible number of delivered bytes, x error kinds, x delivery in pieces, x error with or without data, x a source that stays broken or works again after 1-4 failures within the call; each followed by a working source; plus histories mixing failures and successes and failing sources under parallel callers; a case is one call; non-trivial: a distinct (request, offset, error, delivery) where the source did fail"
		c.Require = []string{"fault-hit", "recovered", "parallel-fault", "source-heals"}
		c.exhaustive = false
		for _, op := range []string{"NewEntropy", "GenerateMnemonic", "bip32.NewSeed"} {
			c.On(op, func(w *W, e *Event) {})
		}
		ops := randOps()
		type plan struct {
			op, at, kind, ch int
			data, idle       bool
		}
		chs := []func(int) int{whole, byteWise, pieces(3), pieces(16)}
		var plans []plan
		for o := range ops {
			for at := 0; at < ops[o].size; at++ {
				for k := range faultKinds {
					for ch := range chs {
						for _, d := range []bool{false, true} {
							if ops[o].size == 256 && !c.Thorough() && (at*7+k+ch)%4 != 0 && at != 0 && at != 255 {
								continue
							}
							plans = append(plans, plan{o, at, k, ch, d, (at+k)%5 == 0})
						}
					}
				}
			}
		}
		attempt := func(w *W, o rop, src *source, desc string) {
			var secret []byte
			var err error
			var claims bool
			with(src, func() { secret, err, claims = o.run(w) })
			if src.failed == 0 { // it may not have drawn enough to see the failure: then it cannot have filled the result either
				w.EvalKey(desc, false)
				if err == nil {
					w.Fail(nil, o.name+" reported success although the source could not deliver enough: "+desc, secret, "an error")
				}
				return
			}
			w.Feat("fault-hit")
			w.Feat("fault-" + faultName(src.err))
			w.EvalKey(desc, true)
			if err == nil {
				w.Fail(nil, o.name+" reported success although the random source failed: "+desc, secret, "an error")
			} else if claims {
				w.Fail(nil, o.name+" handed out a valid sentence together with the error: "+desc, secret, "nothing")
			}
		}
		recover := func(w *W, o rop) {
			st := rbytes(w.R, o.size+64)
			var got [2][]byte
			for j := range got {
				if j == 1 {
					st[0] ^= 0x80
					st[o.size-1] ^= 1
				}
				src := &source{stream: st, chunk: whole, failAt: -1}
				var err error
				with(src, func() { got[j], err, _ = o.run(w) })
				got[j] = cp(got[j])
				w.evals++
				if err != nil {
					w.Fail(nil, o.name+" still fails after the source works again", err, nil)
					return
				}
				if len(got[j]) != o.size || src.delivered < o.size {
					w.Fail(nil, o.name+" after a failure: result not drawn afresh", got[j], st[:o.size])
					return
				}
			}
			if string(got[0]) == string(got[1]) {
				w.Fail(nil, o.name+" after a failure: result does not depend on the source", got[0], st)
			}
			w.Feat("recovered")
		}
		c.Seqn("every-offset", len(plans), func(w *W, i int) {
			p := plans[i]
			o := ops[p.op]
			src := &source{stream: rbytes(w.R, o.size), chunk: chs[p.ch], failAt: p.at, err: faultKinds[p.kind].err, withData: p.data, idle: p.idle}
			attempt(w, o, src, fmt.Sprintf("%s fails with %s after %d of %d bytes, delivery %d, error with data %v", o.name, faultKinds[p.kind].name, p.at, o.size, p.ch, p.data))
			if i%13 == 0 {
				recover(w, o)
			}
		})
		// the source fails once or a few times and works again within the same call
		c.Seqn("healing", len(plans)/2, func(w *W, i int) {
			p := plans[(i*2+int(c.Seed))%len(plans)]
			o := ops[p.op]
			h := 1 + i%4
			w.Feat("source-heals")
			src := &source{stream: rbytes(w.R, o.size), chunk: chs[p.ch], failAt: p.at, err: faultKinds[p.kind].err, withData: p.data, idle: p.idle, heals: h}
			attempt(w, o, src, fmt.Sprintf("%s fails %d times with %s after %d of %d bytes and works again, delivery %d, error with data %v", o.name, h, faultKinds[p.kind].name, p.at, o.size, p.ch, p.data))
		})
		c.Seqn("histories", c.N(300, 5000), func(w *W, i int) {
			for s := 0; s < 40; s++ {
				o := ops[w.R.Intn(len(ops))]
				if w.R.Intn(3) == 0 {
					recover(w, ops[w.R.Intn(len(ops))])
					continue
				}
				at := w.R.Intn(o.size)
				if w.R.Intn(2) == 0 {
					at = 0
				}
				k := faultKinds[w.R.Intn(len(faultKinds))]
				src := &source{stream: genStream(w, o.size), chunk: chs[w.R.Intn(len(chs))], failAt: at, err: k.err, withData: w.R.Intn(2) == 0}
				attempt(w, o, src, fmt.Sprintf("history %d: %s fails with %s after %d of %d bytes", i, o.name, k.name, at, o.size))
			}
		})
		// a source that is broken from the first call of a burst on, with other goroutines drawing at the same time
		for round := 0; round < c.N(20, 200); round++ {
			dead := &deadSource{at: int64(round * 5), err: faultKinds[round%len(faultKinds)].err}
			crand.Reader = dead
			c.Par(fmt.Sprintf("parallel-%d", round), 40*runtime.NumCPU(), func(w *W, i int) {
				o := ops[w.R.Intn(len(ops))]
				if !dead.broken.Load() {
					o.run(w)
					return
				}
				s, err, claims := o.run(w)
				w.EvalKey(fmt.Sprintf("parallel %d %d", round, i), true)
				w.Feat("parallel-fault")
				if err == nil || claims {
					w.Fail(nil, o.name+" reported success although the random source had failed before the call began", s, "an error")
				}
			})
			crand.Reader = realRand
			c.Seqn(fmt.Sprintf("parallel-recover-%d", round), 11, func(w *W, i int) { recover(w, ops[i]) })
		}
	}
}

func faultName(err error) string {
	for _, k := range faultKinds {
		if k.err == err {
			return k.name
		}
	}
	return "?"
}

// deadSource delivers at bytes and then fails for good.
type deadSource struct {
	at     int64
	n      atomic.Int64
	err    error
	broken atomic.Bool
}

func (d *deadSource) Read(p []byte) (int, error) {
	if d.n.Add(int64(len(p))) > d.at {
		d.broken.Store(true)
		return 0, d.err
	}
	for i := range p {
		p[i] = byte(i*31) ^ 0x5a
	}
	return len(p), nil
}
