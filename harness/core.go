package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------------------------------------------------------
// Check context, verdicts and evidence

// Event is one observed call at the library boundary.
type Event struct {
	Seq     uint64
	Op      string
	In      []any
	Out     []any
	Panic   string
	Mutated string // description of caller memory the call changed
	Lang    string // selected word list at the time of the call
	outside uint64 // what the process had done outside itself before the call (S01)
}

func show(v any) string {
	switch x := v.(type) {
	case []byte:
		if len(x) > 400 {
			return fmt.Sprintf("hex:%s...(%d bytes)", hex.EncodeToString(x[:400]), len(x))
		}
		return "hex:" + hex.EncodeToString(x)
	case string:
		if len(x) > 1500 {
			return fmt.Sprintf("%q...(%d bytes)", x[:1500], len(x))
		}
		return fmt.Sprintf("%q", x)
	case error:
		return "error(" + x.Error() + ")"
	case XKey:
		return "key:" + hex.EncodeToString(x[:])
	case fmt.Stringer:
		return x.String()
	case nil:
		return "nil"
	}
	s := fmt.Sprintf("%v", v)
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}

func (e *Event) Strings() map[string]any {
	m := map[string]any{"seq": e.Seq, "op": e.Op}
	var in, out []string
	for _, x := range e.In {
		in = append(in, show(x))
	}
	for _, x := range e.Out {
		out = append(out, show(x))
	}
	m["in"], m["out"] = in, out
	if e.Panic != "" {
		m["panic"] = e.Panic
	}
	if e.Mutated != "" {
		m["mutated"] = e.Mutated
	}
	if e.Lang != "" {
		m["wordlist"] = e.Lang
	}
	return m
}

type Violation struct {
	Property string           `json:"property"`
	Phase    string           `json:"phase"`
	Case     int              `json:"case"`
	What     string           `json:"what"`
	Got      string           `json:"got,omitempty"`
	Want     string           `json:"want,omitempty"`
	Event    map[string]any   `json:"event,omitempty"`
	Trace    []map[string]any `json:"trace,omitempty"`
	Seed     int64            `json:"seed"`
	Tier     string           `json:"tier"`
}

type Monitor func(w *W, e *Event)

type Check struct {
	Prop string
	Tier string
	Seed int64
	Repo string

	Rule        string
	Level       string
	Assumptions []string
	Require     []string // features that must have been observed for a "held" verdict

	monitors map[string][]Monitor
	known    map[string]string // finding key -> description
	seq      atomic.Uint64
	stop     atomic.Bool
	flip     bool // same-digest: the other one first

	mu         sync.Mutex
	evals      int64
	events     int64
	distinct   map[uint64]struct{}
	feats      map[string]int64
	ops        map[string]int64
	samples    []any
	viols      []Violation
	knownSeen  map[string]string
	phases     []map[string]any
	inconcl    []string
	extra      map[string]any
	phase      string
	active     map[*W]bool
	onlyPhase  string
	onlyCase   int
	start      time.Time
	lang       atomic.Value
	exhaustive bool
	outside    *outsideWatch
	pairs      map[pairKey]int64
}

func (c *Check) Thorough() bool { return c.Tier == "thorough" }

// N scales a case count by tier.
func (c *Check) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	switch { // to some ten seconds
	case strings.Contains("K04 K06 K08 K10 K01 B07 B08 D04 D05 R01 R03 P03", c.Prop):
		quick *= 16
	case !strings.ContainsAny(c.Prop[:1], "XSU"):
		quick *= 4
	}
	return min(quick, thorough)
}

func (c *Check) On(op string, m Monitor) { c.monitors[op] = append(c.monitors[op], m) }

func (c *Check) Inconclusive(s string) {
	c.mu.Lock()
	c.inconcl = append(c.inconcl, s)
	c.mu.Unlock()
}

// W is a worker: one logical client of the library.
type W struct {
	C        *Check
	R        *rand.Rand
	Case     int
	Phase    string
	ring     []*Event
	ringPos  int
	held     []heldResult
	heldPos  int
	evals    int64
	events   int64
	pairs    map[pairKey]int64
	distinct map[uint64]struct{}
	feats    map[string]int64
	ops      map[string]int64
	samples  []any
	quiet    bool
	scratch  []byte // argument buffer reused between calls
	cur      atomic.Pointer[inflight]
}

// inflight is a call of the library that has not returned yet.
type inflight struct {
	e *Event
	t time.Time
}

type heldResult struct {
	desc string // the operation
	live []byte
	copy []byte
}

func (c *Check) NewW(phase string) *W {
	return &W{C: c, Phase: phase, ring: make([]*Event, 24), distinct: map[uint64]struct{}{}, feats: map[string]int64{}, ops: map[string]int64{}}
}

func (w *W) merge() {
	w.recheckHeld()
	c := w.C
	c.mu.Lock()
	defer c.mu.Unlock()
	c.evals += w.evals
	c.events += w.events
	for k := range w.distinct {
		c.distinct[k] = struct{}{}
	}
	for k, v := range w.feats {
		c.feats[k] += v
	}
	for k, v := range w.ops {
		c.ops[k] += v
	}
	for _, s := range w.samples {
		if len(c.samples) < 12 {
			c.samples = append(c.samples, s)
		}
	}
	for k, v := range w.pairs {
		c.pairs[k] += v
	}
	w.evals, w.events, w.samples, w.pairs = 0, 0, nil, nil
	w.distinct, w.feats, w.ops = map[uint64]struct{}{}, map[string]int64{}, map[string]int64{}
}

func (w *W) Feat(f string) { w.feats[f]++ }

func (w *W) FeatIf(b bool, f string) {
	if b {
		w.feats[f]++
	}
}

// Eval counts one verdict on the event; it is distinct if the key was not seen before, and counted only if nontrivial.
func (w *W) Eval(e *Event, nontrivial bool) {
	w.evals++
	if !nontrivial {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(e.Op))
	h.Write([]byte(e.Lang))
	for _, x := range e.In {
		switch v := x.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		case XKey:
			h.Write(v[:])
		case uint32:
			h.Write([]byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)})
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0xff})
	}
	k := h.Sum64()
	if _, ok := w.distinct[k]; !ok {
		w.distinct[k] = struct{}{}
		if len(w.samples) < 2 && w.R != nil && w.Case%37 == 5 {
			w.samples = append(w.samples, e.Strings())
		}
	}
}

// EvalKey is Eval with an explicit key.
func (w *W) EvalKey(key string, nontrivial bool) {
	w.evals++
	if nontrivial {
		h := fnv.New64a()
		h.Write([]byte(key))
		w.distinct[h.Sum64()] = struct{}{}
		if len(w.samples) < 2 && w.Case%37 == 5 {
			w.samples = append(w.samples, key)
		}
	}
}

func (w *W) Fail(e *Event, what string, got, want any) {
	v := Violation{Property: w.C.Prop, Phase: w.Phase, Case: w.Case, What: what, Got: show(got), Want: show(want), Seed: w.C.Seed, Tier: w.C.Tier}
	if e != nil {
		v.Event = e.Strings()
	}
	for i := 0; i < len(w.ring); i++ {
		if x := w.ring[(w.ringPos+i)%len(w.ring)]; x != nil && x != e {
			v.Trace = append(v.Trace, x.Strings())
		}
	}
	c := w.C
	c.mu.Lock()
	c.viols = append(c.viols, v)
	if len(c.viols) >= 20 {
		c.stop.Store(true)
	}
	c.mu.Unlock()
}

// Known reports a failing input that the known-findings file lists; anything else is a violation.
func (w *W) Known(e *Event, key, what string, got, want any) {
	if d, ok := w.C.known[key]; ok {
		w.C.mu.Lock()
		w.C.knownSeen[key] = d
		w.C.mu.Unlock()
		return
	}
	w.Fail(e, what, got, want)
}

// hold keeps a result the caller still owns, to be read again later.
func (w *W) hold(desc string, live []byte) {
	if len(live) == 0 || len(w.C.monitors[desc]) == 0 && len(w.C.monitors["*"]) == 0 {
		return
	}
	h := heldResult{desc, live, append([]byte{}, live...)}
	if len(w.held) < 64 {
		w.held = append(w.held, h)
		return
	}
	old := w.held[w.heldPos]
	w.checkHeld(old)
	w.held[w.heldPos] = h
	w.heldPos = (w.heldPos + 1) % len(w.held)
}

func (w *W) checkHeld(h heldResult) {
	if string(h.live) != string(h.copy) {
		w.Fail(nil, "a result handed out earlier changed afterwards: "+h.desc, h.live, h.copy)
	}
}

func (w *W) recheckHeld() {
	for _, h := range w.held {
		w.checkHeld(h)
	}
	w.held, w.heldPos = nil, 0
}

func (w *W) emit(e *Event) {
	w.cur.Store(nil)
	if w.C.outside != nil {
		w.C.outside.after(w, e)
	}
	e.Seq = w.C.seq.Add(1)
	w.events++
	w.ops[e.Op]++
	w.ring[w.ringPos] = e
	w.ringPos = (w.ringPos + 1) % len(w.ring)
	if e.Panic != "" {
		if len(w.C.monitors[e.Op]) > 0 || len(w.C.monitors["*"]) > 0 {
			w.Fail(e, "the library panicked: "+e.Panic, "panic", "a value or an error")
		}
		return
	}
	if e.Mutated != "" {
		w.Feat("caller-memory-modified")
		for _, m := range w.C.monitors["#mutation"] {
			m(w, e)
		}
	}
	if w.quiet {
		return
	}
	if ms := w.C.monitors[e.Op]; len(ms) > 0 {
		w.observe(e)
		for _, m := range ms {
			m(w, e)
		}
	}
	for _, m := range w.C.monitors["*"] {
		m(w, e)
	}
}

// guard runs f and turns a panic into a string.
func guard(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			st := strings.Split(string(debug.Stack()), "\n")
			var keep []string
			for _, l := range st {
				if strings.Contains(l, "mearaj/bips") || strings.Contains(l, "/repo/") {
					keep = append(keep, strings.TrimSpace(l))
				}
			}
			if len(keep) > 6 {
				keep = keep[:6]
			}
			p = fmt.Sprintf("%v @ %s", r, strings.Join(keep, " | "))
		}
	}()
	f()
	return ""
}

func mix(vals ...uint64) int64 {
	h := uint64(0x9e3779b97f4a7c15)
	for _, v := range vals {
		h ^= v
		h *= 0xbf58476d1ce4e5b9
		h ^= h >> 31
		h *= 0x94d049bb133111eb
		h ^= h >> 29
	}
	return int64(h)
}

func strHash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// hangLimit is how long one call may run. The slowest legitimate call of any workload takes about a second.
const hangLimit = 150 * time.Second

// watch reports a monitored call that does not return, and ends the run.
func (c *Check) watch(evDir string) {
	for {
		time.Sleep(2 * time.Second)
		c.mu.Lock()
		var stuck *inflight
		var sw *W
		for w := range c.active {
			if f := w.cur.Load(); f != nil && time.Since(f.t) > hangLimit {
				stuck, sw = f, w
			}
		}
		c.mu.Unlock()
		if stuck == nil {
			continue
		}
		if len(c.monitors[stuck.e.Op]) == 0 && len(c.monitors["*"]) == 0 {
			fmt.Println("INCONCLUSIVE: a call outside this property does not return:", stuck.e.Op)
			os.Exit(2)
		}
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		c.mu.Lock() // workers are still running: report from a copy of what the stuck one was doing
		v := Violation{Property: c.Prop, Phase: sw.Phase, Case: sw.Case, What: fmt.Sprintf("the call did not return within %v", hangLimit), Event: stuck.e.Strings(), Seed: c.Seed, Tier: c.Tier}
		for _, g := range strings.Split(string(buf), "\n\n") {
			if strings.Contains(g, "mearaj/bips") && len(v.Got) < 6000 {
				v.Got += g + "\n"
			}
		}
		c.viols = append(c.viols, v)
		c.evals++
		c.distinct[1] = struct{}{}
		killChildren()
		os.Exit(c.finish(evDir)) // keeps c.mu: nothing else may touch the counters
	}
}

// caseRand is the PRNG of case i of a phase.
func (c *Check) caseRand(phase string, i int) *rand.Rand {
	return rand.New(rand.NewSource(mix(uint64(c.Seed), strHash(phase), uint64(i))))
}

// Par runs cases 0..n-1 on all cores. Case i always has the same PRNG.
func (c *Check) Par(phase string, n int, f func(w *W, i int)) {
	c.run(phase, n, runtime.GOMAXPROCS(0), f)
}

// Seq runs cases on one goroutine, in order.
func (c *Check) Seqn(phase string, n int, f func(w *W, i int)) { c.run(phase, n, 1, f) }

func (c *Check) run(phase string, n, workers int, f func(w *W, i int)) {
	if c.onlyPhase != "" && c.onlyPhase != phase {
		return
	}
	t0 := time.Now()
	c.phase = phase
	var next atomic.Int64
	var wg sync.WaitGroup
	chunk := int64(1)
	if n > 4096 {
		chunk = 16
	}
	for g := 0; g < workers; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := c.NewW(phase)
			c.mu.Lock()
			c.active[w] = true
			c.mu.Unlock()
			defer func() {
				c.mu.Lock()
				delete(c.active, w)
				c.mu.Unlock()
			}()
			for {
				a := next.Add(chunk) - chunk
				if a >= int64(n) || c.stop.Load() {
					break
				}
				for i := a; i < a+chunk && i < int64(n); i++ {
					w.Case = int(i)
					w.R = c.caseRand(phase, int(i))
					if p := guard(func() { f(w, int(i)) }); p != "" {
						w.Fail(nil, "harness case panicked: "+p, nil, nil)
					}
				}
			}
			w.merge()
		}()
	}
	wg.Wait()
	c.mu.Lock()
	c.phases = append(c.phases, map[string]any{"phase": phase, "cases": n, "workers": workers, "wall_s": float64(int(time.Since(t0).Seconds()*1000)) / 1000})
	c.mu.Unlock()
}

// ---------------------------------------------------------------------------------------------------------------

type propDef struct {
	run func(c *Check)
}

var props = map[string]func(c *Check){}

func loadKnown(path, prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(strings.TrimSpace(l), " ", 4)
		// finding: property=ID key=KEY description
		if len(f) == 4 && f[0] == "finding:" && f[1] == "property="+prop && strings.HasPrefix(f[2], "key=") {
			out[strings.TrimPrefix(f[2], "key=")] = f[3]
		}
	}
	return out
}

func (c *Check) evidence(dir string) error {
	feats := map[string]int64{}
	for k, v := range c.feats {
		feats[k] = v
	}
	cov := map[string]any{
		"evaluations":         c.evals,
		"distinct_nontrivial": len(c.distinct),
		"rule":                c.Rule,
		"samples":             c.samples,
		"events_observed":     c.events,
		"operations":          c.ops,
		"situations_observed": feats,
		"phases":              c.phases,
	}
	if len(c.pairs) > 0 {
		cov["class_pairs"] = c.classReport(os.Getenv("VERIF_PAIRS") != "")
	}
	if c.exhaustive {
		cov["exhaustive"] = true
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	if len(c.knownSeen) > 0 {
		cov["known_findings_observed"] = c.knownSeen
	}
	if len(c.inconcl) > 0 {
		cov["inconclusive"] = c.inconcl
	}
	ev := map[string]any{
		"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "level": c.Level, "coverage": cov,
		"assumptions": c.Assumptions, "wall_s": time.Since(c.start).Seconds(), "violations": len(c.viols),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, c.Prop+".json"), append(b, '\n'), 0o644)
}

func (c *Check) finish(evDir string) int {
	fmt.Println() // a library that prints may have left the line unfinished
	defer fmt.Printf("DONE %s\n", c.Prop)
	for _, r := range c.Require {
		if c.onlyPhase == "" && c.feats[r] == 0 {
			c.inconcl = append(c.inconcl, "required situation never observed: "+r)
		}
	}
	if c.evals == 0 || len(c.distinct) == 0 {
		c.inconcl = append(c.inconcl, "nothing was evaluated")
	}
	if len(c.samples) == 0 {
		c.samples = append(c.samples, "no sample selected")
	}
	if err := c.evidence(evDir); err != nil {
		fmt.Println("evidence:", err)
		return 2
	}
	keys := make([]string, 0, len(c.ops))
	for k := range c.ops {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fmt.Printf("%s %s seed=%d: %d verdicts on %d events (%d distinct non-trivial), %.1fs\n", c.Prop, c.Tier, c.Seed, c.evals, c.events, len(c.distinct), time.Since(c.start).Seconds())
	var ks []string
	for k := range c.knownSeen {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", c.Prop, k, c.knownSeen[k])
	}
	if len(c.viols) > 0 {
		dir := filepath.Join(evDir, "replay")
		os.MkdirAll(dir, 0o755)
		for i, v := range c.viols {
			if i >= 5 {
				fmt.Printf("... and %d more\n", len(c.viols)-i)
				break
			}
			path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.Prop, i))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(path, append(b, '\n'), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, path)
			fmt.Printf("  phase %s case %d: %s\n  got  %s\n  want %s\n", v.Phase, v.Case, v.What, v.Got, v.Want)
			if v.Event != nil {
				b, _ := json.Marshal(v.Event)
				if len(b) > 1200 {
					b = append(b[:1200], "..."...)
				}
				fmt.Printf("  event %s\n", b)
			}
		}
		return 1
	}
	if len(c.inconcl) > 0 {
		for _, s := range c.inconcl {
			fmt.Println("INCONCLUSIVE:", s)
		}
		return 2
	}
	return 0
}
