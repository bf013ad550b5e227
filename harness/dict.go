package main

// Constants of the library under test as inputs, and the situations in its code that a run has not met (see cov/main.go).
// They only steer what is tried; verdicts never depend on them.

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"verifharness/oracle"
)

type dictFile struct {
	Nums []uint64
	Strs []string
}

type covItem struct {
	Pkg, Func, What string
	Line            int
	Entry           int
	Nums            []uint64
	Strs            []string
}

var (
	covMarks = map[string][]byte{} // filled by the generated zz_cov.go of an instrumented build
	dictOld  dictFile              // constants the library has had all along
	dictNew  dictFile              // the others
	focus    dictFile              // those near situations that an earlier round of this check missed
)

func covDir() string { return os.Getenv("VERIF_COV") }

// covBase holds what is known about the unchanged library: its constants, and the situations each check never meets there.
func covBase() string { return os.Getenv("VERIF_COV_BASE") }

func readJSON(path string, v any) bool {
	b, err := os.ReadFile(path)
	return err == nil && json.Unmarshal(b, v) == nil
}

func unhexAll(ss []string) (out []string) {
	for _, s := range ss {
		if b, err := hex.DecodeString(s); err == nil {
			out = append(out, string(b))
		}
	}
	return
}

func loadDict() {
	if covDir() == "" {
		return
	}
	var all, base dictFile
	if !readJSON(filepath.Join(covDir(), "dict.json"), &all) {
		return
	}
	if f := os.Getenv("VERIF_COV_DICT"); f != "" {
		j, _ := json.Marshal(all)
		os.WriteFile(f, append(j, '\n'), 0o644)
		base = all
	} else {
		readJSON(filepath.Join(covBase(), "dict.json"), &base)
	}
	known := map[any]bool{}
	for _, n := range base.Nums {
		known[n] = true
	}
	for _, s := range base.Strs {
		known[s] = true
	}
	split := func(old, new *dictFile) {
		for _, n := range all.Nums {
			if known[n] {
				old.Nums = append(old.Nums, n)
			} else {
				new.Nums = append(new.Nums, n)
			}
		}
		for _, s := range all.Strs {
			if known[s] {
				old.Strs = append(old.Strs, s)
			} else {
				new.Strs = append(new.Strs, s)
			}
		}
	}
	split(&dictOld, &dictNew)
	if p := os.Getenv("VERIF_FOCUS"); p != "" {
		readJSON(p, &focus)
	}
	for _, d := range []*dictFile{&dictOld, &dictNew, &focus} {
		d.Strs = unhexAll(d.Strs)
	}
}

// childDict is what a child draws from: the same as its parent, so that the same seed gives the same inputs there.
type childDict struct{ Old, New, Focus dictFile }

func (d dictFile) hexed() dictFile {
	o := dictFile{Nums: d.Nums}
	for _, s := range d.Strs {
		o.Strs = append(o.Strs, hex.EncodeToString([]byte(s)))
	}
	return o
}

func dictForChild() *childDict {
	if covDir() == "" {
		return nil
	}
	return &childDict{dictOld.hexed(), dictNew.hexed(), focus.hexed()}
}

func (d *childDict) use() {
	if d == nil {
		return
	}
	dictOld, dictNew, focus = d.Old, d.New, d.Focus
	for _, x := range []*dictFile{&dictOld, &dictNew, &focus} {
		x.Strs = unhexAll(x.Strs)
	}
}

// theDict picks a dictionary, or none: mostly none as long as the library has no new constants and nothing was missed.
func theDict(r *rand.Rand) *dictFile {
	n := r.Intn(240)
	switch {
	case len(focus.Nums)+len(focus.Strs) > 0 && n < 90:
		return &focus
	case len(dictNew.Nums)+len(dictNew.Strs) > 0 && n < 120 && n >= 90:
		return &dictNew
	case n >= 234:
		return &dictOld
	}
	return nil
}

// dictNum returns a constant of the library, or a number next to it.
func dictNum(r *rand.Rand) (uint64, bool) {
	d := theDict(r)
	if d == nil || len(d.Nums) == 0 {
		return 0, false
	}
	v := d.Nums[r.Intn(len(d.Nums))]
	switch r.Intn(12) {
	case 0:
		v++
	case 1:
		v--
	case 2:
		v *= 8
	case 3:
		v /= 8
	case 4:
		v += d.Nums[r.Intn(len(d.Nums))]
	case 5:
		v = 1 << (v & 31)
	}
	return v, true
}

func dictIndex(r *rand.Rand) (uint32, bool) {
	v, ok := dictNum(r)
	if ok && r.Intn(2) == 0 {
		v ^= 1 << 31
	}
	return uint32(v), ok
}

// dictLen returns n, or a constant that can be a length.
func dictLen(r *rand.Rand, n, max int) int {
	if v, ok := dictNum(r); ok && v <= uint64(max) {
		return int(v)
	}
	return n
}

func dictByte(r *rand.Rand, b byte) byte {
	if v, ok := dictNum(r); ok {
		return byte(v)
	}
	return b
}

// dictStr returns a text of the library, alone or inside other text.
func dictStr(r *rand.Rand) (string, bool) {
	d := theDict(r)
	if d == nil || len(d.Strs) == 0 {
		return "", false
	}
	s := d.Strs[r.Intn(len(d.Strs))]
	switch r.Intn(10) {
	case 0:
		s = strings.ToUpper(s)
	case 1:
		s = strings.ToLower(s)
	case 2:
		s += string(rbytesASCII(r, 1+r.Intn(8)))
	case 3:
		s = string(rbytesASCII(r, 1+r.Intn(8))) + s
	case 4:
		s = string(rbytesASCII(r, 1+r.Intn(8))) + s + string(rbytesASCII(r, 1+r.Intn(8)))
	case 5:
		s = strings.Repeat(s, 1+r.Intn(4))
	}
	return s, true
}

// dictBytes returns a constant as bytes.
func dictBytes(r *rand.Rand) ([]byte, bool) {
	d := theDict(r)
	if d == nil {
		return nil, false
	}
	if len(d.Strs) > 0 && (len(d.Nums) == 0 || r.Intn(3) == 0) {
		s := d.Strs[r.Intn(len(d.Strs))]
		if b, err := hex.DecodeString(strings.TrimPrefix(s, "0x")); err == nil && len(b) > 0 && r.Intn(2) == 0 {
			return b, true
		}
		return []byte(s), true
	}
	if len(d.Nums) == 0 {
		return nil, false
	}
	var b [8]byte
	v := d.Nums[r.Intn(len(d.Nums))]
	if r.Intn(8) == 0 {
		v += uint64(r.Intn(3)) - 1
	}
	binary.BigEndian.PutUint64(b[:], v)
	n := 1
	for n < 8 && v>>(8*n) != 0 {
		n++
	}
	switch r.Intn(6) {
	case 0:
		n = 4
	case 1:
		n = pick(r, 2, 8)
	}
	out := b[8-n:]
	if r.Intn(8) == 0 {
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	}
	return cp(out), true
}

// dictIdxs returns a text of the library as path components, if it is such a text.
func dictIdxs(r *rand.Rand) (out []uint32) {
	s, ok := dictStr(r)
	if !ok {
		return nil
	}
	for i, f := range strings.Split(strings.Trim(s, "/ "), "/") {
		if i == 0 && (f == "m" || f == "M") {
			continue
		}
		n := strings.TrimRight(f, "'hH")
		v, err := strconv.ParseUint(n, 10, 31)
		if err != nil {
			break
		}
		if n != f {
			v |= 1 << 31
		}
		out = append(out, uint32(v))
	}
	return
}

// plant puts constants of the library into b: at the start, at the end, at a place that is itself such a constant, anywhere.
func plant(r *rand.Rand, b []byte) {
	for k := 0; k < 4 && len(b) > 0; k++ {
		x, ok := dictBytes(r)
		if !ok {
			return
		}
		if len(x) > len(b) {
			x = x[:len(b)]
		}
		at := 0
		switch r.Intn(5) {
		case 0:
			at = len(b) - len(x)
		case 1, 2:
			at = r.Intn(len(b) - len(x) + 1)
			for t := 0; t < 4; t++ {
				if d := theDict(r); d != nil && len(d.Nums) > 0 {
					if v := d.Nums[r.Intn(len(d.Nums))]; v <= uint64(len(b)-len(x)) {
						at = int(v)
						break
					}
				}
			}
		case 3:
			at = r.Intn(len(b) - len(x) + 1)
		}
		copy(b[at:], x)
		if r.Intn(3) == 0 {
			return
		}
	}
}

// plantWords puts words that the library mentions, by number or by text, into an entropy.
func plantWords(r *rand.Rand, e []byte) {
	d := theDict(r)
	if d == nil {
		return
	}
	for k := 0; k < 2; k++ {
		v := -1
		if len(d.Strs) > 0 && r.Intn(2) == 0 {
			if f := strings.Fields(d.Strs[r.Intn(len(d.Strs))]); len(f) > 0 {
				l := oracle.Lists[pick(r, "english", oracle.Langs[r.Intn(len(oracle.Langs))])]
				for i, w := range l {
					if w == f[0] {
						v = i
					}
				}
			}
		} else if len(d.Nums) > 0 {
			if n := d.Nums[r.Intn(len(d.Nums))]; n < 2048 {
				v = int(n)
			}
		}
		if v < 0 {
			continue
		}
		words := (len(e)*8 + 10) / 11
		at := pick(r, 0, words-2, r.Intn(words))
		for i := 0; i < 11; i++ {
			if bit := at*11 + i; bit < len(e)*8 {
				m := byte(0x80) >> (bit % 8)
				e[bit/8] &^= m
				if v>>(10-i)&1 == 1 {
					e[bit/8] |= m
				}
			}
		}
	}
}

// validText keeps planted text out of places that need well-formed text.
func validText(s string) bool { return utf8.ValidString(s) && stable(s) }

// childMarks are the marks of this process for its parent.
func childMarks() map[string][]byte {
	if len(covMarks) == 0 {
		return nil
	}
	return covMarks
}

var marksMu sync.Mutex

func addMarks(m map[string][]byte) {
	marksMu.Lock()
	defer marksMu.Unlock()
	for d, b := range m {
		if have := covMarks[d]; len(have) == len(b) {
			for i := range b {
				if b[i] != 0 && have[i] == 0 {
					have[i] = 1
				}
			}
		}
	}
}

// situations compares the marks of an instrumented build with what could have been met: in every function that was entered,
// each outcome of each condition. It returns those not met that the unchanged library's runs of this check do meet or do not have.
func (c *Check) situations() []covItem {
	if len(covMarks) == 0 {
		return nil
	}
	var items map[string][]covItem
	if !readJSON(filepath.Join(covDir(), "items.json"), &items) {
		return nil
	}
	base := map[string]int{} // one situation may stand in a function several times
	if b, err := os.ReadFile(filepath.Join(covBase(), c.Prop+".txt")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			base[l]++
		}
	}
	funcs, total, seen := 0, 0, 0
	var missed []covItem
	var lines []string
	for _, d := range sortedKeys(items) {
		m := covMarks[d]
		for i, it := range items[d] {
			if i >= len(m) || m[it.Entry] == 0 {
				continue
			}
			if it.Entry == i {
				funcs++
				continue
			}
			total++
			if m[i] != 0 {
				seen++
				continue
			}
			l := it.key()
			lines = append(lines, l)
			if base[l]--; base[l] < 0 {
				missed = append(missed, it)
			}
		}
	}
	c.extra["library_situations"] = map[string]any{"functions_entered": funcs, "outcomes": total, "met": seen, "missed": len(lines), "missed_beyond_known": len(missed)}
	if f := os.Getenv("VERIF_COV_RECORD"); f != "" {
		os.WriteFile(f, []byte(strings.Join(lines, "\n")+"\n"), 0o644)
	}
	return missed
}

func (it covItem) key() string { return it.Pkg + " " + it.Func + ": " + it.What }

// writeMissed leaves the missed situations, and the constants near them, for another round.
func writeMissed(missed []covItem) {
	f := filepath.Join(covDir(), "missed")
	os.Remove(f)
	if len(missed) == 0 {
		return
	}
	nums, strs := map[uint64]bool{}, map[string]bool{}
	var b strings.Builder
	for _, it := range missed {
		fmt.Fprintf(&b, "%s (line %d)\n", it.key(), it.Line)
		for _, n := range it.Nums {
			nums[n] = true
		}
		for _, s := range it.Strs {
			strs[s] = true
		}
	}
	var d dictFile
	for n := range nums {
		d.Nums = append(d.Nums, n)
	}
	for s := range strs {
		d.Strs = append(d.Strs, s)
	}
	sort.Slice(d.Nums, func(i, j int) bool { return d.Nums[i] < d.Nums[j] })
	sort.Strings(d.Strs)
	j, _ := json.Marshal(d)
	os.WriteFile(filepath.Join(covDir(), "focus.json"), j, 0o644)
	os.WriteFile(f, []byte(b.String()), 0o644)
}

func sortedKeys[V any](m map[string]V) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}
