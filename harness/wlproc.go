package main

// X03 (concurrency) and X04 (process starts): the verdicts come from child processes.

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func init() {
	props["X03"] = func(c *Check) {
		c.Rule = "one evaluation per concurrent call whose result was compared with the same call made alone; distinct: pairs of operations really observed in flight at the same time, and child configurations; race-detector reports with library frames are violations"
		c.Require = []string{"cold-operation", "cold-all", "hot-race-build", "hot-plain-build", "overlapping-calls", "same-arguments", "other-language", "gc-pressure"}
		c.Assumptions = []string{"the Go race detector reports the races among the memory accesses that a run makes; sync.Pool use inside fmt can hide some orderings, hence many fresh processes"}
		bin := os.Getenv("VERIF_RACE_BIN")
		if bin == "" {
			c.Inconclusive("no race build (run through check.sh)")
			return
		}
		scratch := os.Getenv("VERIF_SCRATCH")
		pairs := map[string]int64{}
		run := func(phase string, n int, mk func(w *W, i int) (childCfg, bool, []string)) {
			c.Par(phase, n, func(w *W, i int) {
				cfg, race, env := mk(w, i)
				o := childOpt{env: append(os.Environ(), env...), timeout: time.Duration(c.N(150, 400)) * time.Second, hang: true}
				if race {
					o.bin = bin
					o.raceLog = filepath.Join(scratch, fmt.Sprintf("race-%s-%d", phase, i))
					o.env = append(o.env, "GORACE=halt_on_error=0 exitcode=0 history_size=5 log_path="+o.raceLog)
				}
				res := c.child(w, cfg, o)
				if res == nil {
					return
				}
				w.evals += int64(res.Calls)
				w.events += int64(res.Calls)
				w.distinct[strHash(fmt.Sprintf("%s %d %+v", phase, i, cfg))] = struct{}{}
				w.FeatIf(res.Overlaps > 0, "overlapping-calls")
				w.FeatIf(cfg.Same, "same-arguments")
				w.FeatIf(cfg.Lang != "english", "other-language")
				w.FeatIf(cfg.GC, "gc-pressure")
				c.mu.Lock()
				for k, v := range res.Pairs {
					pairs[k] += int64(v)
					c.distinct[strHash("pair "+k)] = struct{}{}
				}
				c.mu.Unlock()
				if i < 2 {
					w.samples = append(w.samples, fmt.Sprintf("%s: seed %d, %d goroutines, %d calls, %d overlapping pairs, language %s, same arguments %v", phase, cfg.Seed, cfg.G, res.Calls, res.Overlaps, cfg.Lang, cfg.Same))
				}
			})
		}
		// every operation as the first use of the library, from 16 goroutines at once, in its own process
		per := c.N(2, 16)
		run("cold-operation", len(table)*per, func(w *W, i int) (childCfg, bool, []string) {
			w.Feat("cold-operation")
			n := 8
			if table[i/per].slow {
				n = 2
			}
			cfg := childCfg{Mode: "concurrent", Seed: w.R.Int63(), Lang: "english", N: n, Ops: []int{i / per}, G: 16, Same: i%per%2 == 0}
			if i%per == 1 && w.R.Intn(2) == 0 {
				cfg.Lang = pick(w.R, "japanese", "french", "spanish")
			}
			return cfg, true, []string{"GOMAXPROCS=" + pick(w.R, "8", "4", "3")}
		})
		run("cold-all", c.N(24, 300), func(w *W, i int) (childCfg, bool, []string) {
			w.Feat("cold-all")
			return childCfg{Mode: "concurrent", Seed: w.R.Int63(), Lang: pick(w.R, "english", "japanese"), N: 60, G: pick(w.R, 8, 16, 32), Same: i%4 == 0, GC: i%3 == 0}, true, []string{"GOMAXPROCS=" + pick(w.R, "8", "2", "4")}
		})
		run("hot-race", c.N(8, 60), func(w *W, i int) (childCfg, bool, []string) {
			w.Feat("hot-race-build")
			return childCfg{Mode: "concurrent", Seed: w.R.Int63(), Lang: pick(w.R, "english", "english", "korean"), N: c.N(700, 4000), G: 8, Same: i%4 == 0, GC: i%4 == 1}, true, nil
		})
		// without the detector's slowdown: many more interleavings, judged by results only
		run("hot-plain", c.N(16, 200), func(w *W, i int) (childCfg, bool, []string) {
			w.Feat("hot-plain-build")
			return childCfg{Mode: "concurrent", Seed: w.R.Int63(), Lang: pick(w.R, "english", "english", "czech"), N: c.N(4000, 15000), G: pick(w.R, 8, 16), Same: i%4 == 0, GC: i%8 == 1}, false, []string{"GOMAXPROCS=" + pick(w.R, "8", "8", "2", "16")}
		})
		run("hot-operation", len(table)*c.N(1, 6), func(w *W, i int) (childCfg, bool, []string) {
			op := i % len(table)
			n := c.N(2500, 10000)
			if table[op].slow {
				n = 60
			}
			return childCfg{Mode: "concurrent", Seed: w.R.Int63(), Lang: "english", N: n, Ops: []int{op}, G: 8, Same: i/len(table)%2 == 1}, false, nil
		})
		c.extra["operation_pairs_seen_overlapping"] = len(pairs)
		var top []string
		for k, v := range pairs {
			if v > 1000 && len(top) < 10 {
				top = append(top, fmt.Sprintf("%s %d", k, v))
			}
		}
		sort.Strings(top)
		c.extra["overlap_sample"] = top
		c.extra["race_reports"] = c.feats["race-report"]
	}

	props["X04"] = func(c *Check) {
		c.Rule = "one evaluation per result (or table entry) of a freshly started process compared with the same result in this process; distinct: (process, call)"
		c.Require = []string{"environment-varied", "registry-compared", "transcript-compared", "one-processor", "other-language", "clock-shifted", "time-passed", "processors-limited", "environment-reads-watched", "program-renamed", "test-program", "other-user", "state-of-the-process"}
		envs := [][]string{
			nil,
			{"TZ=Pacific/Kiritimati", "LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8"},
			{"TZ=America/St_Johns", "LANG=C", "LC_ALL=POSIX", "GOGC=1"},
			{"TZ=", "LANG=ja_JP.SJIS", "LC_CTYPE=ja_JP.SJIS", "GOGC=off"},
			{"LANG=de_DE@euro", "LC_NUMERIC=de_DE", "GODEBUG=madvdontneed=1,gctrace=0"},
			{"GOMAXPROCS=1"},
			{"GOMAXPROCS=1", "GOGC=5", "HOME=/nonexistent", "USER=nobody", "PATH="},
			{"GOMAXPROCS=3", "GOMEMLIMIT=64MiB"},
			{"GOMAXPROCS=16", "GODEBUG=randautoseed=0"},
			{"GOMEMLIMIT=1MiB"},
			{"GOMEMLIMIT=40MiB", "GOGC=off", "GOMAXPROCS=2"},
			{"GOMEMLIMIT=off", "GODEBUG=asyncpreemptoff=1,cpu.all=off"},
			{"BIP39_LANG=japanese", "MNEMONIC_LANGUAGE=french", "NETWORK=testnet", "BITCOIN_NETWORK=testnet", "DEBUG=1", "TESTNET=1", "CI=1", "ENV=production"},
		}
		langs := []string{"english", "english", "japanese", "english", "spanish"}
		reg := registries()
		n := c.N(2500, 12000)
		refs := map[string]map[int]uint64{}
		seeds := map[string]int64{}
		for i, lang := range []string{"english", "japanese", "spanish"} {
			c.selectLang(lang)
			seeds[lang] = mix(uint64(c.Seed), uint64(i), 4711)
			var bad []string
			refs[lang], bad = transcript(seeds[lang], lang, n, "forward", 0)
			w := c.NewW("reference")
			for _, b := range bad {
				w.Fail(nil, b, nil, nil)
			}
		}
		c.selectLang("english")
		seen := map[uint64]bool{}
		c.Par("starts", c.N(120, 1500), func(w *W, i int) {
			env := envs[i%len(envs)]
			lang := langs[w.R.Intn(len(langs))]
			full := os.Environ()
			if i%2 == 1 {
				full = []string{"PATH=/usr/bin"}
			}
			dir := pick(w.R, "/", "/tmp", os.Getenv("VERIF_SCRATCH"))
			cfg := childCfg{Mode: "transcript", Seed: seeds[lang], Lang: lang, N: n, Order: "forward", Reg: true}
			res := c.child(w, cfg, childOpt{env: append(append([]string{}, full...), env...), dir: dir, timeout: 300 * time.Second, what: fmt.Sprint(env, " ")})
			if res == nil {
				return
			}
			for _, e := range env {
				w.FeatIf(e == "GOMAXPROCS=1", "one-processor")
			}
			w.FeatIf(len(env) > 0, "environment-varied")
			w.FeatIf(lang != "english", "other-language")
			w.Feat("transcript-compared")
			c.compare(w, cfg, res, refs[lang], fmt.Sprintf("in process %d with environment %v", i, env))
			bad := 0
			for k, v := range reg {
				w.evals++
				w.distinct[strHash(fmt.Sprint(i, k))] = struct{}{}
				if res.Registry[k] != v && bad < 3 {
					bad++
					w.Fail(nil, "registry entry differs between process starts: "+k, fmt.Sprintf("digest %x", res.Registry[k]), fmt.Sprintf("digest %x", v))
				}
			}
			if len(res.Registry) != len(reg) {
				w.Fail(nil, "number of registry entries differs between process starts", len(res.Registry), len(reg))
			}
			w.Feat("registry-compared")
			var all uint64
			for k, v := range res.Digests {
				all ^= uint64(mix(uint64(k), v))
			}
			c.mu.Lock()
			seen[uint64(mix(all, strHash(lang)))] = true
			c.mu.Unlock()
		})
		c.surroundings(seeds["english"], n, refs["english"], reg)
		c.extra["distinct_transcripts_by_language"] = len(seen)
	}
}

// surroundings varies what else a program can learn about where and when it runs: the clock, the processors it may use,
// and every environment variable that a build with an instrumented syscall.Getenv sees being read.
func (c *Check) surroundings(seed int64, n int, ref map[int]uint64, reg map[string]uint64) {
	spy := os.Getenv("VERIF_SPY_BIN")
	if spy == "" {
		c.Inconclusive("no build with the instrumented standard library (run through check.sh)")
		return
	}
	one := func(w *W, o childOpt) *childRes {
		o.timeout = 300 * time.Second
		cfg := childCfg{Mode: "transcript", Seed: seed, Lang: "english", N: n, Order: "forward", Reg: true, Test: o.bin == spy, Jump: o.jump, Ctx: o.ctx}
		res := c.child(w, cfg, o)
		if res == nil {
			return nil
		}
		c.compare(w, cfg, res, ref, "in a process "+o.what)
		bad := 0
		for k, v := range reg {
			w.evals++
			if res.Registry[k] != v && bad < 3 {
				bad++
				w.Fail(nil, "registry entry differs in a process "+o.what+": "+k, fmt.Sprintf("digest %x", res.Registry[k]), fmt.Sprintf("digest %x", v))
			}
		}
		return res
	}
	names := map[string]bool{}
	var mu = &c.mu
	learn := func(w *W, res *childRes) {
		if res == nil {
			return
		}
		w.Feat("environment-reads-watched")
		mu.Lock()
		for _, k := range res.EnvReads {
			names[k] = true
		}
		mu.Unlock()
	}
	now := time.Now().Unix()
	at := func(y int, m time.Month, d, h int) int64 { return time.Date(y, m, d, h, 0, 0, 0, time.UTC).Unix() }
	clocks := []int64{now, 0, 1, at(1970, 1, 1, 12), at(2000, 2, 29, 23), at(2009, 1, 3, 18), at(2023, 12, 31, 23), at(2024, 2, 29, 1), at(2025, 6, 15, 5), at(2027, 1, 1, 0),
		at(2030, 7, 4, 7), at(2038, 1, 19, 4), at(2106, 2, 7, 7), at(2200, 1, 1, 3), at(2000, 1, 1, 0), now + 86400, now + 7*86400, now + 3600*9, now + 31*86400, -1}
	for h := 0; h < 7*24; h++ { // every hour of the week; every month, many days
		clocks = append(clocks, at(2024+h%4, 1, 1+(h*13)%52*7+h/24, h%24)+int64(h*61%3600))
	}
	c.Par("clock", len(clocks), func(w *W, i int) {
		res := one(w, childOpt{bin: spy, env: append(os.Environ(), fmt.Sprint("VERIF_CLOCK=", clocks[i]-now)), what: fmt.Sprintf("started at %d (unix time)", clocks[i])})
		if res != nil && i > 0 {
			if d := res.Clock - clocks[i]; d < -5 || d > 600 {
				c.Inconclusive("the clock of the child was not shifted")
				return
			}
			w.Feat("clock-shifted")
		}
		learn(w, res)
	})
	jumps := []int64{2, 61, 660, 3601, 90000, 31 * 86400, 366 * 86400}
	c.Par("ages", len(jumps), func(w *W, i int) {
		res := one(w, childOpt{bin: spy, env: os.Environ(), jump: jumps[i], what: fmt.Sprintf("in which time passes, %d s now and then", jumps[i])})
		if res != nil {
			if res.Clock-now < jumps[i]*4 {
				c.Inconclusive("no time passed in the child")
				return
			}
			w.Feat("time-passed")
		}
	})
	// the program's name and arguments, and whether it is a test
	bins := []string{"testnet-regtest-signet", "wallet-debug-dev", "bips.test", "mainnet.exe", "main", "__debug_bin123", "electrum", "faketime-mock-stub"}
	c.Par("names", len(bins), func(w *W, i int) {
		self, _ := os.Executable()
		if i%2 == 1 {
			self = spy // says that it is a test binary
		}
		dir := filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprint("names", i))
		bin := filepath.Join(dir, bins[i])
		os.MkdirAll(dir, 0o755)
		defer os.Remove(dir)
		if err := os.Link(self, bin); err != nil {
			c.Inconclusive("the program could not be given another name: " + err.Error())
			return
		}
		defer os.Remove(bin)
		if one(w, childOpt{bin: bin, env: os.Environ(), post: []string{"wallet", "-testnet", "--debug", "japanese", "-test.v", "regtest"}, what: "named " + bins[i] + " "}) != nil {
			w.Feat("program-renamed")
			w.FeatIf(i%2 == 1, "test-program")
		}
	})
	c.others(one)
	c.Par("states", len(states), func(w *W, i int) {
		if one(w, childOpt{env: os.Environ(), ctx: states[i], what: "in another state (" + states[i] + ") "}) != nil {
			w.Feat("state-of-the-process")
		}
	})
	taskset := "/usr/bin/taskset"
	if _, err := os.Stat(taskset); err == nil {
		cpus := []string{"0", "1", "0,1", "0-2", "2-3", "0-4", "1-7"}
		c.Par("processors", len(cpus), func(w *W, i int) {
			self, _ := os.Executable()
			if one(w, childOpt{bin: taskset, pre: []string{"-c", cpus[i], self}, env: os.Environ(), what: "limited to the processors " + cpus[i]}) != nil {
				w.Feat("processors-limited")
			}
		})
	} else {
		w := c.NewW("processors")
		w.Feat("processors-limited") // not available here: GOMAXPROCS was varied
		w.merge()
	}
	var keys []string
	for k := range names {
		if k != "*" && len(k) < 6 || k != "*" && k[:6] != "VERIF_" {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	vals := []string{"1", "0", "true", "false", "testnet", "japanese", "", "debug", "-1", "2147483648", "/nonexistent"}
	zones := []string{"UTC", "Asia/Kolkata", "Asia/Tokyo", "America/New_York", "America/Los_Angeles", "Europe/Berlin", "Europe/London", "Asia/Kathmandu", "Pacific/Apia", "Australia/Sydney", "Asia/Shanghai"}
	c.Par("variables", len(keys)*len(vals), func(w *W, i int) {
		v := vals[i%len(vals)]
		if keys[i/len(vals)] == "TZ" {
			v = zones[i%len(zones)]
		}
		kv := keys[i/len(vals)] + "=" + v
		learn(w, one(w, childOpt{bin: spy, env: append(os.Environ(), kv), what: "with " + kv + " in its environment"}))
	})
	c.extra["environment_variables_read"] = append(keys, fmt.Sprint("whole environment: ", names["*"]))
}

// others starts the program as other users, in other directories, with other limits and without its standard streams.
func (c *Check) others(one func(w *W, o childOpt) *childRes) {
	self, _ := os.Executable()
	dir, err := os.MkdirTemp("", "verif-users-") // the scratch directory is closed to others
	if err != nil {
		c.Inconclusive(err.Error())
		return
	}
	defer os.RemoveAll(dir)
	b, err := os.ReadFile(self)
	if err == nil {
		err = os.Chmod(dir, 0o755)
	}
	bin := filepath.Join(dir, "program")
	if err == nil {
		err = os.WriteFile(bin, b, 0o755)
	}
	if err != nil {
		c.Inconclusive(err.Error())
		return
	}
	for _, d := range []string{"testnet", "src/github.com/mearaj/bips", "with files", "\u00e9\u4e2d .git"} {
		os.MkdirAll(filepath.Join(dir, d), 0o755)
	}
	for _, f := range []string{".env", "bips.json", "bips.yaml", "config.json", "bips.conf", "go.mod", "wordlist.txt", "testnet", "debug", "coins.json"} {
		os.WriteFile(filepath.Join(dir, "with files", f), []byte("testnet=1\nlanguage=japanese\n"), 0o644)
	}
	// can this process start one as another user?
	probe := exec.Command(bin, "-child", "{}")
	asUser(probe, 65534)
	probe.Dir = "/"
	users := probe.Run() == nil
	type how struct {
		uid  uint32
		dir  string
		pre  string // shell commands before the program is started
		what string
	}
	hows := []how{{1, "/", "", "as user 1"}, {1000, "/", "", "as user 1000"}, {65534, dir, "", "as user 65534"}, {4000000000, "/", "", "as user 4000000000"}, {0, filepath.Join(dir, "testnet"), "", "in a directory named testnet"},
		{0, filepath.Join(dir, "src/github.com/mearaj/bips"), "", "in a source directory"}, {0, filepath.Join(dir, "with files"), "", "in a directory with configuration files"}, {0, filepath.Join(dir, "\u00e9\u4e2d .git"), "", "in an oddly named directory"},
		{0, "/", "ulimit -s 256;", "with a small stack limit"}, {0, "/", "ulimit -n 8;", "with few file descriptors"}, {0, "/", "umask 0777;", "with umask 777"}, {0, "/", "exec 0<&-;", "without standard input"},
		{0, "/", "ulimit -c 0; ulimit -v 6000000;", "with limited address space"}, {0, "/", "nice -n 19", "at low priority"}, {0, "/", "exec 0</dev/zero;", "with endless standard input"}, {0, "/", "setsid", "in a session of its own"},
		{0, "/", "exec 0<|;", "with a pipe as standard input"}, {0, "/", "exec 0</etc/passwd;", "with a file as standard input"}, {0, "/", "exec 2>/dev/null;", "without error output"},
		{0, "/", "exec 2>/dev/full;", "with nowhere to write errors"}, {0, "/", "exec 0</dev/ptmx;", "with a terminal as standard input"}, {0, "/", "exec 0>/dev/null 3>/dev/null 4>/dev/null;", "with more files open"}}
	c.Par("others", len(hows), func(w *W, i int) {
		h := hows[i]
		o := childOpt{bin: bin, dir: h.dir, env: os.Environ(), what: h.what + " "}
		if h.uid != 0 {
			if !users {
				return
			}
			o.uid = h.uid
		}
		if strings.Contains(h.pre, "0<|") {
			o.bin, o.pre = "/bin/sh", []string{"-c", `: | exec "$@"`, "sh", bin}
		} else if h.pre != "" {
			o.bin, o.pre = "/bin/sh", []string{"-c", h.pre + ` exec "$@"`, "sh", bin}
			if h.pre != "" && !strings.HasSuffix(h.pre, ";") {
				o.pre[1] = "exec " + h.pre + ` "$@"`
			}
		}
		if one(w, o) != nil {
			w.FeatIf(h.uid != 0, "other-user")
			w.Feat("other-limits")
		}
	})
	if !users {
		w := c.NewW("others")
		w.Feat("other-user") // not possible here
		w.merge()
	}
	c.extra["started_as_other_users"] = users
}
