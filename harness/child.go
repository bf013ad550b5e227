package main

// Child processes: the same library in a fresh process, with another history, environment, build or schedule.

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/bip44"

	"verifharness/oracle"
)

type childCfg struct {
	Mode    string // transcript, concurrent
	Seed    int64
	Lang    string
	N       int
	Order   string
	Shuffle int64
	Ops     []int // concurrent: operations (nil: all)
	G       int   // concurrent: goroutines
	Same    bool  // concurrent: all goroutines make the same calls
	GC      bool
	Reg     bool       // also dump the registries
	Test    bool       // register the flags of a test
	Ctx     string     // transcript: in what state of the process, see within
	Jump    int64      // transcript: seconds that pass now and then, in builds that can
	Dump    string     // retain: where the heap dump goes
	Dict    *childDict `json:",omitempty"` // what dict.go draws from, as here
}

// arg is the configuration as the child gets it.
func (cfg childCfg) arg() string {
	if cfg.Mode != "grow" {
		cfg.Dict = dictForChild()
	}
	b, _ := json.Marshal(cfg)
	return string(b)
}

type childRes struct {
	Digests  map[int]uint64
	Memo     map[uint64]uint64 // digests: results by call
	Mismatch []string
	Registry map[string]uint64
	Calls    int
	Words    []uint64          // retain: where the words of the list are
	Marks    map[string][]byte // situations met (see dict.go)
	Overlaps int               // pairs of calls that were in flight together
	Pairs    map[string]int    // by operation
	Wall     float64
	EnvReads []string // spy build: environment variables read by this process
	Outside  string   // spy build: what the calls (and loading the packages) did outside the process
	Clock    int64    // what time.Now gives in the child
	Left     int      // goroutines that did not end
	Objects  []int64  // live objects after each round
	Bytes    []int64  // live bytes
}

// callsFor is deterministic and calls nothing of the library but SetRootKey.
func callsFor(seed int64, lang string, n int) []call {
	r := rand.New(rand.NewSource(seed))
	var out []call
	for len(out) < n {
		s := newShared(r, lang)
		out = append(out, callList(r, s, min(n-len(out), 250))...)
	}
	return out
}

// transcript makes the calls in some order and returns the digest of each result by its index.
var jump int64

func transcript(seed int64, lang string, n int, order string, shuffle int64) (map[int]uint64, []string) {
	calls := callsFor(seed, lang, n)
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	switch order {
	case "reverse":
		for i := range idx {
			idx[i] = n - 1 - i
		}
	case "shuffle":
		rand.New(rand.NewSource(shuffle)).Shuffle(n, func(a, b int) { idx[a], idx[b] = idx[b], idx[a] })
	case "last-only":
		idx = idx[n-n/8:]
	case "each-twice":
		var x []int
		for i := range idx {
			x = append(x, i, i)
		}
		idx = x
	case "by-operation":
		sort.SliceStable(idx, func(a, b int) bool { return calls[idx[a]].op < calls[idx[b]].op })
	}
	out := map[int]uint64{}
	var bad []string
	for k, i := range idx {
		if jump != 0 && k%(n/8+1) == n/16 {
			age(jump)
		}
		res := calls[i].f()
		h := strHash(res)
		if old, ok := out[i]; ok && old != h {
			bad = append(bad, fmt.Sprintf("%s(%.300s): repeated at once it gives another result: %.300s", calls[i].op, calls[i].desc, res))
		}
		out[i] = h
	}
	return out, bad
}

func describe(seed int64, lang string, n, k int) call { return callsFor(seed, lang, n)[k] }

// registries digests the tables as sets.
func registries() map[string]uint64 {
	out := map[string]uint64{}
	set := func(name string, rows []string) {
		sort.Strings(rows)
		out[name] = strHash(strings.Join(rows, "\n"))
	}
	rows := func(vs []bip32.VersionBytes) (o []string) {
		for _, v := range vs {
			o = append(o, fmt.Sprintf("%+v %v %v", v, v.IsValid(), v.IsRegistered()))
		}
		return
	}
	set("bip32.HDVersionBytesSlice", rows(bip32.HDVersionBytesSlice))
	for k, v := range bip32.PathToHDBytesSlice {
		set(fmt.Sprint("path ", k), rows(v))
	}
	for k, v := range bip32.PurposeToHDBytesSlice {
		set(fmt.Sprint("purpose ", k), rows(v))
	}
	for k, v := range bip32.PurposeFullToHDBytesSlice {
		set(fmt.Sprint("purposefull ", k), rows(v))
	}
	for k, v := range bip32.CoinTypeToHDBytesSlice {
		set(fmt.Sprint("coin ", k), rows(v))
	}
	for k, v := range bip32.PvtFlagToHDBytesSlice {
		set(fmt.Sprint("pvt ", k), rows(v))
	}
	for k, v := range bip32.PubFlagToHDBytesSlice {
		set(fmt.Sprint("pub ", k), rows(v))
	}
	for _, c := range bip44.RegCoins {
		a, ok1 := bip44.RegBip44CoinsTypeToValMap[c.Type]
		b, ok2 := bip44.RegBip44CoinsPathCompToValMap[c.PathComponent]
		d, ok3 := bip44.RegBip44CoinsNameToValMap[c.Name]
		out[fmt.Sprintf("coin %+v", c)] = strHash(fmt.Sprint(a, ok1, b, ok2, d, ok3, c.IsValid(), c.String()))
	}
	// one key per version: what publication and derivation do with it
	r := rand.New(rand.NewSource(99))
	k := genPriv(r)
	var vs []uint32
	vs = append(append(vs, oracle.PrivVersions...), oracle.PubVersions...)
	for i := 0; i < 40; i++ {
		vs = append(vs, genUnregistered(r))
	}
	for _, v := range vs {
		for _, x := range []XKey{k, oracle.PubForm(k)} {
			x.SetVersion(v)
			kk := bip32.Key(x)
			out[fmt.Sprintf("version %x %d", v, x[45])] = strHash(func() (s string) {
				if p := guard(func() {
					pub := kk.PublicKeyExtended()
					c, err := kk.NewChildKey(5)
					h, err2 := kk.NewChildKey(1<<31 + 5)
					p2 := pub.PublicKeyExtended()
					s = fmt.Sprintf("%x %x %v %x %v %x %s %v", pub[:], c[:], err, h[:], err2, p2[:], kk.B58Serialize(), kk.IsValid())
				}); p != "" {
					return "panic: " + p
				}
				return
			}())
		}
	}
	return out
}

func runChild(arg string) int {
	var cfg childCfg
	if err := json.Unmarshal([]byte(arg), &cfg); err != nil {
		fmt.Fprintln(os.Stderr, "child config:", err)
		return 3
	}
	if cfg.Test {
		testing.Init()
	}
	cfg.Dict.use()
	jump = cfg.Jump
	t0 := time.Now()
	if cfg.Lang != "" && cfg.Lang != "english" {
		bip39.SetWordList(*shipped[cfg.Lang])
	}
	res := &childRes{}
	watch := &outsideWatch{last: trapCounts()}
	switch cfg.Mode {
	case "transcript":
		within(cfg.Ctx, func() {
			res.Digests, res.Mismatch = transcript(cfg.Seed, cfg.Lang, cfg.N, cfg.Order, cfg.Shuffle)
		})
		res.Calls = cfg.N
	case "concurrent":
		concurrent(cfg, res)
	case "retain":
		retain(cfg, res)
	case "grow":
		grow(cfg, res)
	case "digests":
		digests(cfg, res)
	}
	res.Outside = watch.news()
	for i, n := range startTraps {
		if n > 0 && !harmlessStart[i] {
			res.Outside += fmt.Sprintf(" while loading: system call %d%s (%d times)", i, trapName[i], n)
		}
	}
	if cfg.Reg {
		res.Registry = registries()
	}
	res.Wall = time.Since(t0).Seconds()
	res.EnvReads, res.Clock = envReads(), clockShifted()
	res.Marks = childMarks()
	b, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	os.Stdout.Write(append(b, '\n'))
	return 0
}

// states are the conditions that within brings about.
var states = []string{"large-heap", "many-goroutines", "deep-stack", "locked-thread", "panicking", "finalizer", "many-files", "many-threads", "no-memory-left", "callback"}

var ballast []byte

// within calls f while the process is in the state.
func within(state string, f func()) {
	switch state {
	case "large-heap":
		ballast = make([]byte, 3<<29)
		f()
		ballast = nil
	case "many-goroutines":
		stop := make(chan bool)
		for i := 0; i < 30000; i++ {
			go func() { <-stop }()
		}
		f()
		close(stop)
	case "deep-stack":
		deeper(20000, f)
	case "locked-thread":
		done := make(chan bool)
		go func() {
			runtime.LockOSThread()
			f()
			close(done)
		}()
		<-done
	case "panicking":
		guard(func() {
			defer f()
			panic("on purpose")
		})
	case "finalizer":
		done := make(chan bool)
		runtime.SetFinalizer(&struct{ x [64]byte }{}, func(any) {
			f()
			close(done)
		})
		for open := true; open; {
			runtime.GC()
			select {
			case <-done:
				open = false
			case <-time.After(50 * time.Millisecond):
			}
		}
	case "many-files":
		var fs []*os.File
		for i := 0; i < 900; i++ {
			if x, err := os.Open("/dev/null"); err == nil {
				fs = append(fs, x)
			}
		}
		f()
		for _, x := range fs {
			x.Close()
		}
	case "many-threads":
		stop := make(chan bool)
		for i := 0; i < 200; i++ {
			go func() { runtime.LockOSThread(); <-stop }()
		}
		f()
		close(stop)
	case "no-memory-left":
		old := debug.SetMemoryLimit(1)
		debug.SetGCPercent(1)
		f()
		debug.SetMemoryLimit(old)
	case "callback": // from a sort, a map iteration, a sync.Once and another package's frames
		var once sync.Once
		for range map[int]bool{1: true} {
			x := []int{2, 1}
			sort.Slice(x, func(a, b int) bool { once.Do(f); return x[a] < x[b] })
		}
	default:
		f()
	}
}

func deeper(n int, f func()) int {
	if n == 0 {
		f()
		return 0
	}
	return deeper(n-1, f) + 1
}

// concurrent lets G goroutines call the library at once. Between the start and the end of a goroutine nothing of the
// harness synchronises, so the race detector sees only the library's own ordering.
func concurrent(cfg childCfg, res *childRes) {
	type span struct {
		a, b time.Duration
		op   string
	}
	r := rand.New(rand.NewSource(cfg.Seed))
	sh := newShared(r, cfg.Lang)
	mk := func(seed int64) (out []call) {
		r := rand.New(rand.NewSource(seed))
		for len(out) < cfg.N {
			op := r.Intn(len(table))
			if cfg.Ops != nil {
				op = cfg.Ops[r.Intn(len(cfg.Ops))]
			} else if table[op].slow && r.Intn(20) > 0 {
				continue
			}
			out = append(out, mkCall(r, sh, op))
		}
		return
	}
	calls := make([][]call, cfg.G)
	outs := make([][]string, cfg.G)
	spans := make([][]span, cfg.G)
	for g := range calls {
		seed := cfg.Seed
		if !cfg.Same {
			seed = mix(uint64(cfg.Seed), uint64(g))
		}
		calls[g] = mk(seed)
		outs[g] = make([]string, len(calls[g]))
		spans[g] = make([]span, len(calls[g]))
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	t0 := time.Now()
	for g := range calls {
		wg.Add(1)
		go func() {
			defer wg.Done()
			cs, os, sp := calls[g], outs[g], spans[g]
			<-start
			for i := range cs {
				sp[i].a = time.Since(t0)
				os[i] = cs[i].f()
				sp[i].b = time.Since(t0)
			}
		}()
	}
	stopGC := make(chan struct{})
	if cfg.GC {
		go func() {
			for {
				select {
				case <-stopGC:
					return
				default:
					runtime.GC()
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	close(stopGC)
	// what the calls give one at a time
	memo := map[string]string{}
	for g := range calls {
		for i, c := range calls[g] {
			res.Calls++
			k := c.op + "|" + c.desc
			want, ok := memo[k]
			if !ok {
				want = c.f()
				memo[k] = want
			}
			if outs[g][i] != want && len(res.Mismatch) < 10 {
				res.Mismatch = append(res.Mismatch, fmt.Sprintf("%s(%.300s): concurrent %.300s, alone %.300s", c.op, c.desc, outs[g][i], want))
			}
		}
	}
	// evidence: which operations really overlapped
	res.Pairs = map[string]int{}
	type edge struct {
		t    time.Duration
		open bool
		g, i int
	}
	var es []edge
	for g := range spans {
		for i, s := range spans[g] {
			es = append(es, edge{s.a, true, g, i}, edge{s.b, false, g, i})
		}
	}
	sort.Slice(es, func(a, b int) bool { return es[a].t < es[b].t })
	live := map[int]int{}
	for _, e := range es {
		if !e.open {
			delete(live, e.g)
			continue
		}
		for g, i := range live {
			a, b := calls[g][i].op, calls[e.g][e.i].op
			if a > b {
				a, b = b, a
			}
			res.Pairs[a+"+"+b]++
			res.Overlaps++
		}
		live[e.g] = e.i
	}
}

type childOpt struct {
	bin     string
	env     []string // whole environment, nil: this process's
	dir     string
	timeout time.Duration
	raceLog string
	what    string
	pre     []string // arguments before the child's own
	post    []string // and after them
	uid     uint32   // the user it runs as, 0: this one
	hang    bool     // one that hangs ends the whole check
	jump    int64    // see childCfg.Jump
	ctx     string   // see childCfg.Ctx
	retries int      // how often a child that was ended by a signal without library frames is started again; then it does not count
}

// running are the child processes not yet ended.
var running sync.Map

func killChildren() {
	running.Range(func(k, _ any) bool { k.(*exec.Cmd).Process.Kill(); return true })
}

var libFrames = []string{"mearaj/bips/", "/repo/"}

func hasLib(s string) bool {
	for _, f := range libFrames {
		if strings.Contains(s, f) {
			return true
		}
	}
	return false
}

// child runs a child and returns its result; nil after a failure that was reported as violation or inconclusive.
func (c *Check) child(w *W, cfg childCfg, o childOpt) *childRes {
	if o.bin == "" {
		o.bin, _ = os.Executable()
	}
	var outFile *os.File
	if o.retries > 0 { // these children write to a file: node's WASI cuts off what does not fit into a pipe
		var err error
		if outFile, err = os.CreateTemp(os.Getenv("VERIF_SCRATCH"), "out-*"); err != nil {
			c.Inconclusive(err.Error())
			return nil
		}
		defer os.Remove(outFile.Name())
		defer outFile.Close()
	}
	arg := cfg.arg()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	cmd := exec.CommandContext(ctx, o.bin, append(append([]string{}, o.pre...), append([]string{"-child", arg}, o.post...)...)...)
	cmd.Env, cmd.Dir = o.env, o.dir
	asUser(cmd, o.uid)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if outFile != nil {
		cmd.Stdout = outFile
	}
	if err := cmd.Start(); err != nil {
		c.Inconclusive("child does not start: " + err.Error())
		return nil
	}
	running.Store(cmd, true)
	defer running.Delete(cmd)
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	timedOut := false
	select {
	case err = <-done:
	case <-time.After(o.timeout):
		timedOut = true
		cmd.Process.Signal(syscall.SIGQUIT) // its stacks go to stderr
		select {
		case err = <-done:
		case <-time.After(20 * time.Second):
			cmd.Process.Kill()
			err = <-done
		}
	}
	w.Feat("child-process")
	where := fmt.Sprintf("child %s%s", o.what, arg)
	se := errb.String()
	if len(se) > 20000 {
		se = se[:20000]
	}
	switch {
	case timedOut:
		if hasLib(se) {
			w.Fail(nil, where+": calls did not return within "+o.timeout.String(), se, "return")
			if o.hang {
				c.stop.Store(true)
			}
		} else if o.retries == 0 {
			c.Inconclusive("child ran out of time: " + where)
		}
		return nil
	case err != nil:
		var ee *exec.ExitError
		if errors.As(err, &ee) && ee.Sys().(syscall.WaitStatus).Signaled() && o.retries > 1 && !hasLib(se) {
			o.retries--
			w.Feat("restarted")
			return c.child(w, cfg, o)
		}
		if errors.As(err, &ee) && ee.Sys().(syscall.WaitStatus).Signaled() && o.retries > 0 && !hasLib(se) {
			return nil
		}
		killed := errors.As(err, &ee) && ee.Sys().(syscall.WaitStatus).Signaled() && ee.Sys().(syscall.WaitStatus).Signal() == syscall.SIGKILL
		if !killed && hasLib(se) && (strings.Contains(se, "fatal error:") || strings.Contains(se, "panic:") || strings.Contains(se, "SIG")) {
			w.Fail(nil, where+": the process died with library code on the stack", se, "normal end")
		} else {
			c.Inconclusive(fmt.Sprintf("%s: %v %.2000s", where, err, se))
		}
		return nil
	}
	var res childRes
	outb := out.Bytes()
	if outFile != nil {
		outb, _ = os.ReadFile(outFile.Name())
	}
	if err := json.Unmarshal(outb, &res); err != nil {
		c.Inconclusive(fmt.Sprintf("%s: %v", where, err))
		return nil
	}
	addMarks(res.Marks)
	for _, m := range res.Mismatch {
		w.Fail(nil, where+": "+m, nil, nil)
	}
	if o.raceLog != "" {
		c.raceReports(w, o.raceLog, where)
	}
	return &res
}

// raceReports turns the race detector's log into violations.
func (c *Check) raceReports(w *W, prefix, where string) {
	files, _ := filepath.Glob(prefix + ".*")
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, rep := range strings.Split(string(b), "==================") {
			if !strings.Contains(rep, "DATA RACE") {
				continue
			}
			if hasLib(rep) {
				w.Feat("race-report")
				w.Fail(nil, where+": data race", rep, "no race")
			} else {
				c.Inconclusive("race report without library frames: " + rep)
			}
		}
		os.Remove(f)
	}
}

// childRaw runs a child and gives back what it wrote.
func (c *Check) childRaw(w *W, cfg childCfg, o childOpt) (out, errs []byte) {
	self, _ := os.Executable()
	arg := cfg.arg()
	ctx, cancel := context.WithTimeout(context.Background(), o.timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, self, "-child", arg)
	cmd.Env = o.env
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	if err := cmd.Run(); err != nil {
		c.Inconclusive(fmt.Sprintf("child %s: %v %.2000s", arg, err, eb.String()))
		return nil, nil
	}
	return ob.Bytes(), eb.Bytes()
}
