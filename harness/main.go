package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"time"
)

func newCheck(prop string) *Check {
	c := &Check{Prop: prop, Level: "exploration", monitors: map[string][]Monitor{}, distinct: map[uint64]struct{}{}, feats: map[string]int64{}, pairs: map[pairKey]int64{},
		ops: map[string]int64{}, knownSeen: map[string]string{}, extra: map[string]any{}, active: map[*W]bool{}, start: time.Now()}
	c.lang.Store("english")
	return c
}

func main() {
	prop := flag.String("prop", "", "property id")
	ev := flag.String("evidence", "/verif/evidence", "evidence directory")
	knownFile := flag.String("known", "/verif/known-findings.txt", "known findings file")
	replay := flag.String("replay", "", "violation file to re-run: same property, seed, tier, phase")
	child := flag.String("child", "", "internal: run as a child process of a check")
	list := flag.Bool("list", false, "list properties")
	self := flag.Bool("selftest", false, "only check the oracle against published vectors")
	flag.Parse()
	if *child != "" {
		os.Exit(runChild(*child))
	}
	loadDict()
	if *prop == "S02" { // which looks for what it passed in, and a text of the library is in memory anyway
		for _, d := range []*dictFile{&dictOld, &dictNew, &focus} {
			d.Strs = slices.DeleteFunc(d.Strs, func(s string) bool { return len(s) > 7 })
		}
	}
	if err := selfTest(); err != nil {
		fmt.Println("oracle self-test failed:", err)
		os.Exit(3)
	}
	if *self {
		fmt.Println("oracle self-test ok")
		return
	}
	if *list {
		var ids []string
		for k := range props {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(ids)
		return
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if os.Getenv("VERIF_SEED") == "" {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	c := newCheck(*prop)
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		c.Prop, seed, tier, c.onlyPhase = v.Property, v.Seed, v.Tier, v.Phase
		*ev = filepath.Join(os.TempDir(), "verif-replay")
	}
	c.Seed, c.Tier = seed, tier
	c.Repo = os.Getenv("VERIF_REPO")
	if c.Repo == "" {
		c.Repo = "/repo"
	}
	c.known = loadKnown(*knownFile, c.Prop)
	f := props[c.Prop]
	if f == nil {
		fmt.Println("unknown property", c.Prop)
		os.Exit(2)
	}
	runtime.GOMAXPROCS(runtime.NumCPU())
	// Watchdog: a hang is inconclusive except where the property is about hangs (X01 reports it itself).
	go func() {
		d := 840 * time.Second
		if tier == "thorough" {
			d = 6 * time.Hour
		}
		time.Sleep(d)
		fmt.Println("INCONCLUSIVE: watchdog")
		killChildren()
		os.Exit(2)
	}()
	go c.watch(*ev)
	f(c)
	missed := c.situations()
	rc := c.finish(*ev)
	if rc == 0 {
		writeMissed(missed)
	}
	os.Exit(rc)
}
