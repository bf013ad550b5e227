// sel REPO OUTDIR: where the library's code depends on the platform (files with build constraints, runtime.GOOS, runtime.GOARCH,
// the machine's byte order, the system's path separator), write OUTDIR/as-GOOS-GOARCH.json, a build overlay under which this
// machine runs the code that platform would run, and one for each build tag (race, cgo, a later release, tags of the library's
// own) that chooses code. A library without such code gets none.
package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"go/build"
	"go/build/constraint"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

var (
	reOS, reArch = regexp.MustCompile(`\bruntime\.GOOS\b`), regexp.MustCompile(`\bruntime\.GOARCH\b`)
	reEnd        = regexp.MustCompile(`\bbinary\.NativeEndian\b`)
	reFP         = regexp.MustCompile(`(?m)^(\s*|import\s+)(filepath\s+)?"path/filepath"`)
	reSep        = regexp.MustCompile(`\bos\.PathSeparator\b`)
	reConstraint = regexp.MustCompile(`(?m)^//(go:build| \+build).*$`)
	dirs         = []string{"bip32", "bip39", "bip39/wordlists", "bip44", "util"}
	platforms    = []string{"windows/amd64", "darwin/arm64", "linux/s390x", "linux/arm", "linux/386", "js/wasm", "wasip1/wasm", "freebsd/amd64", "android/arm64", "ios/arm64", "plan9/386", "solaris/amd64", "linux/mips", "aix/ppc64"}
	bigEndian    = map[string]bool{"s390x": true, "ppc64": true, "mips": true, "mips64": true}
)

func main() {
	repo, out := os.Args[1], os.Args[2]
	here := build.Default
	here.GOOS, here.GOARCH, here.CgoEnabled = "linux", "amd64", false
	seen := map[[32]byte]bool{}
	for _, p := range append(platforms, tags(repo, here)...) {
		goos, arch, tagged := strings.Cut(p, "/")
		there := here
		name := "as-" + goos + "-" + arch
		if tagged {
			there.GOOS, there.GOARCH = goos, arch
		} else {
			goos, arch = here.GOOS, here.GOARCH
			name = "as-tag-" + strings.ReplaceAll(p, ".", "-")
			there.BuildTags, there.CgoEnabled = []string{p}, p == "cgo"
		}
		repl, sum := map[string]string{}, sha256.New()
		runnable := true
		for _, d := range dirs {
			fs, _ := filepath.Glob(filepath.Join(repo, d, "*"))
			for _, f := range fs {
				base := filepath.Base(f)
				if strings.HasSuffix(base, "_test.go") || !strings.HasSuffix(base, ".go") && !strings.HasSuffix(base, ".s") {
					continue
				}
				a, _ := here.MatchFile(filepath.Dir(f), base)
				b, _ := there.MatchFile(filepath.Dir(f), base)
				if strings.HasSuffix(base, ".s") {
					runnable = runnable && !b
					if a {
						repl[f] = ""
					}
					continue
				}
				src, err := os.ReadFile(f)
				if err != nil || !a && !b {
					continue
				}
				if a && !b {
					repl[f] = ""
					fmt.Fprintln(sum, "-", f)
					continue
				}
				s := string(src)
				if n := reArch.ReplaceAllString(reOS.ReplaceAllString(s, `"`+goos+`"`), `"`+arch+`"`); n != s {
					s = n + "\nvar _ = runtime.NumCPU\n"
				}
				if bigEndian[arch] {
					s = reEnd.ReplaceAllString(s, "binary.BigEndian")
				}
				if goos == "windows" {
					s = reFP.ReplaceAllString(s, `${1}filepath "verifharness/plat/winpath"`)
					if n := reSep.ReplaceAllString(s, `'\\'`); n != s {
						s = n + "\nvar _ = os.Getpid\n"
					}
				}
				if a && s == string(src) {
					continue
				}
				at := f
				if !a {
					s = reConstraint.ReplaceAllString(s, "")
					at = filepath.Join(filepath.Dir(f), "as_"+fmt.Sprintf("%x", sha256.Sum256([]byte(base)))[:8]+".go")
				}
				tmp := filepath.Join(out, fmt.Sprintf("%s-%d.go", name, len(repl)))
				if err := os.WriteFile(tmp, []byte(s), 0o600); err != nil {
					fmt.Println(err)
					os.Exit(2)
				}
				repl[at] = tmp
				fmt.Fprintln(sum, "+", at, s)
			}
		}
		var k [32]byte
		copy(k[:], sum.Sum(nil))
		if len(repl) == 0 || !runnable || seen[k] {
			continue
		}
		seen[k] = true
		j, _ := json.Marshal(map[string]any{"Replace": repl})
		os.WriteFile(filepath.Join(out, name+".json"), j, 0o600)
		fmt.Println(name)
	}
}

// tags returns the build tags in the library's constraints that no platform above sets.
func tags(repo string, here build.Context) (out []string) {
	seen := map[string]bool{}
	for _, d := range dirs {
		fs, _ := filepath.Glob(filepath.Join(repo, d, "*.go"))
		for _, f := range fs {
			src, err := os.ReadFile(f)
			if err != nil || strings.HasSuffix(f, "_test.go") {
				continue
			}
			for _, l := range reConstraint.FindAllString(string(src), -1) {
				x, err := constraint.Parse(l)
				if err != nil {
					continue
				}
				x.Eval(func(t string) bool {
					seen[t] = true
					return true
				})
				x.Eval(func(t string) bool {
					seen[t] = true
					return false
				})
			}
		}
	}
	for _, p := range platforms {
		goos, arch, _ := strings.Cut(p, "/")
		delete(seen, goos)
		delete(seen, arch)
	}
	for _, t := range []string{"ignore", "unix", "gc", "gccgo", "amd64", "arm64", "ppc64le", "riscv64", "netbsd", "openbsd", "dragonfly", "purego"} {
		delete(seen, t)
	}
	for _, t := range here.ReleaseTags {
		delete(seen, t)
	}
	for t := range seen {
		out = append(out, t)
	}
	sort.Strings(out)
	return out
}
