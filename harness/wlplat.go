package main

// X05: the same calls in builds for other platforms.

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

func init() {
	props["X05"] = func(c *Check) {
		c.Rule = "one evaluation per result (or table entry) of the library built for another platform or with other compiler settings, compared with the same result in this process (linux/amd64); distinct: (build, run, call)"
		c.Require = []string{"32-bit", "unoptimised", "other-language"}
		prefix := os.Getenv("VERIF_PLATFORMS")
		if prefix == "" {
			c.Inconclusive("no builds for other platforms (run through check.sh)")
			return
		}
		type build struct {
			name, what string
			feat       string
			runs, n    int
		}
		builds := []build{
			{"386", "on 32-bit x86", "32-bit", c.N(16, 120), c.N(2500, 6000)},
			{"wasm", "on WebAssembly", "webassembly", c.N(8, 60), c.N(1200, 3000)},
			{"noopt", "compiled without optimisations", "unoptimised", c.N(6, 30), c.N(2500, 6000)},
			{"purego", "built with purego", "purego", c.N(4, 20), c.N(2500, 6000)},
			{"release", "built for release (-trimpath, pie, stripped)", "release-build", c.N(4, 20), c.N(2500, 6000)},
			{"race", "built with the race detector", "race-build", c.N(3, 12), c.N(900, 3000)},
		}
		if _, err := os.Stat(prefix + "later.err"); err == nil {
			builds = append(builds, build{"later", "built with a later release of Go", "later-release", c.N(8, 30), c.N(2500, 6000)})
		}
		if more, _ := filepath.Glob(prefix + "as-*.err"); len(more) > 0 { // code chosen by platform
			for _, m := range more {
				n := strings.TrimSuffix(strings.TrimPrefix(m, prefix), ".err")
				if _, err := os.Stat(prefix + n); err != nil {
					c.extra["not run here: code for "+n[3:]] = true
					continue
				}
				builds = append(builds, build{n, "in the code for " + n[3:], "other-system", c.N(6, 30), c.N(2500, 6000)})
			}
		}
		type job struct {
			build
			lang string
			seed int64
			ref  map[int]uint64
		}
		var jobs []job
		langs := []string{"english", "japanese", "english", "french", "korean", "english", "chinese_traditional", "czech", "english", "spanish"}
		for _, b := range builds {
			if e, err := os.ReadFile(prefix + b.name + ".err"); err == nil && len(e) > 0 {
				if _, err := os.Stat(prefix + b.name); err != nil {
					w := c.NewW("build")
					if s := string(e); strings.Contains(s, "mearaj/bips") || strings.Contains(s, c.Repo+"/") || strings.Contains(s, "../repo/") {
						w.Fail(nil, "the library does not build "+b.what, s, "a build")
					} else {
						c.Inconclusive("the harness does not build " + b.what + ": " + s)
					}
					continue
				}
			}
			for k := 0; k < b.runs; k++ {
				jobs = append(jobs, job{build: b, lang: langs[k%len(langs)], seed: mix(uint64(c.Seed), strHash("platform"), uint64(k))})
			}
		}
		// what the calls give here; runs of different builds share their seeds
		type key struct {
			lang string
			seed int64
			n    int
		}
		refs := map[key]map[int]uint64{}
		for i := range jobs {
			j := &jobs[i]
			k := key{j.lang, j.seed, j.n}
			if refs[k] == nil {
				c.selectLang(j.lang)
				refs[k], _ = transcript(j.seed, j.lang, j.n, "forward", 0)
			}
			j.ref = refs[k]
		}
		c.selectLang("english")
		reg := registries()
		c.Par("platforms", len(jobs), func(w *W, i int) {
			j := jobs[i]
			cfg := childCfg{Mode: "transcript", Seed: j.seed, Lang: j.lang, N: j.n, Order: "forward", Reg: true}
			o := childOpt{bin: prefix + j.name, env: os.Environ(), timeout: 400 * time.Second, what: j.what + " "}
			if j.name == "wasm" {
				if _, err := os.Stat("/usr/bin/node"); err != nil {
					return // nothing here runs it
				}
				o.bin, o.pre, o.retries = "/usr/bin/node", []string{"--no-warnings", "--wasm-enforce-bounds-checks", os.Getenv("VERIF_WASM_RUN"), prefix + "wasm"}, 12
			}
			res := c.child(w, cfg, o)
			if res == nil {
				return
			}
			same := func(r *childRes) bool {
				for k, v := range r.Digests {
					if j.ref[k] != v {
						return false
					}
				}
				for k, v := range reg {
					if r.Registry[k] != v {
						return false
					}
				}
				return len(r.Registry) == len(reg)
			}
			if j.name == "wasm" && !same(res) { // node is not above suspicion here (it sometimes crashes): believe only what repeats
				if res = c.child(w, cfg, o); res == nil {
					return
				}
			}
			w.Feat(j.feat)
			w.FeatIf(j.lang != "english", "other-language")
			c.compare(w, cfg, res, j.ref, j.what)
			bad := 0
			for k, v := range reg {
				w.evals++
				w.distinct[strHash(fmt.Sprint(j.name, k))] = struct{}{}
				if res.Registry[k] != v && bad < 3 {
					bad++
					w.Fail(nil, "registry entry differs "+j.what+": "+k, fmt.Sprintf("digest %x", res.Registry[k]), fmt.Sprintf("digest %x", v))
				}
			}
			if len(res.Registry) != len(reg) {
				w.Fail(nil, "number of registry entries differs "+j.what, len(res.Registry), len(reg))
			}
			if len(res.Digests) != j.n {
				c.Inconclusive("incomplete transcript " + j.what)
			}
		})
	}
}
