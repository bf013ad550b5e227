package main

// What the monitors observed, in classes: every judged call is classified by several factors (which kind of key, which depth,
// which index, ...), and the pairs of classes that occurred together are counted as evidence.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
	"unicode/utf8"

	"verifharness/oracle"
)

type factor struct{ name, class string }

type pairKey struct {
	op   string
	a, b factor
}

var allVersions = func() map[uint32]string {
	out := map[uint32]string{}
	for _, v := range oracle.PrivVersions {
		out[v] = fmt.Sprintf("priv-%08x", v)
	}
	for _, v := range oracle.PubVersions {
		out[v] = fmt.Sprintf("pub-%08x", v)
	}
	return out
}()

func numClass(v uint64) string {
	switch {
	case v < 6:
		return fmt.Sprint(v)
	case v < 256:
		return "one-byte"
	case v < 65535:
		return "two-bytes"
	case v <= 65536:
		return "near-65536"
	case v < 1<<24:
		return "three-bytes"
	case v < 1<<30:
		return "below-2^30"
	case v < 1<<31-1:
		return "below-2^31"
	case v == 1<<31-1:
		return "2^31-1"
	case v == 1<<31:
		return "2^31"
	case v < 1<<31+256:
		return "2^31+one-byte"
	case v < 1<<31+1<<16:
		return "2^31+two-bytes"
	case v < 1<<31+1<<30:
		return "below-2^31+2^30"
	case v < 1<<32-1:
		return "below-2^32"
	case v == 1<<32-1:
		return "2^32-1"
	}
	return "more"
}

func depthClass(d byte) string {
	switch {
	case d < 6 || d >= 254 || d == 127 || d == 128:
		return fmt.Sprint(d)
	case d < 32:
		return "6-31"
	case d < 127:
		return "32-126"
	}
	return "129-253"
}

func bytesClass(b []byte) string {
	n, lead0, leadF := len(b), 0, 0
	for lead0 < n && b[lead0] == 0 {
		lead0++
	}
	for leadF < n && b[leadF] == 255 {
		leadF++
	}
	switch {
	case n == 0:
		return "none"
	case lead0 == n:
		return "zeros"
	case leadF == n:
		return "ones"
	case n > 8 && lead0 >= n-8:
		return "small"
	case leadF >= 8:
		return "large"
	case lead0 > 1:
		return "two-leading-zeros"
	case lead0 == 1:
		return "leading-zero"
	case b[n-1] == 0:
		return "trailing-zero"
	case b[0]&0x80 != 0:
		return "high-bit"
	}
	return "other"
}

func lenClass(n int) string {
	switch {
	case n < 3:
		return fmt.Sprint(n)
	case n&(n-1) == 0 && n <= 4096:
		return fmt.Sprint(n)
	case n%10 == 0 && n <= 100:
		return fmt.Sprint(n)
	}
	return fmt.Sprintf("2^%d..", bits.Len(uint(n))-1)
}

func keyFactors(k XKey) []factor {
	kind := map[byte]string{0: "private", 2: "public-even", 3: "public-odd"}[k[45]]
	if kind == "" {
		kind = "neither"
	}
	v, ok := allVersions[k.Version()]
	if !ok {
		v = "unregistered"
	}
	return []factor{{"kind", kind}, {"version", v}, {"depth", depthClass(byte(k.Depth()))}, {"child", numClass(uint64(k.Child()))},
		{"fingerprint", bytesClass(k.FP())}, {"chain-code", bytesClass(k[13:45])}, {"material", bytesClass(k[46:])}}
}

func pathFactors(p string) (out []factor) {
	vals, ok := oracle.ParsePath(p)
	if !ok {
		return []factor{{"path", "invalid"}}
	}
	out = append(out, factor{"levels", lenClass(len(vals))})
	h, hp := "plain", 0
	for _, v := range vals {
		if v >= 1<<31 {
			hp++
		}
	}
	if hp > 0 {
		h = "mixed"
		if hp == len(vals) {
			h = "hardened"
		}
	}
	last := uint32(0)
	if n := len(vals); n > 0 {
		last = vals[n-1]
	}
	ws := "no"
	if strings.ContainsAny(p, " \t\r\n\f") {
		ws = "yes"
	}
	root := strings.TrimSpace(p)
	if len(root) > 1 {
		root = root[:1]
	}
	zeros := "no"
	for _, s := range strings.Split(p, "/")[1:] {
		if len(s) > 1 && s[0] == '0' && s[1] >= '0' && s[1] <= '9' {
			zeros = "yes"
		}
	}
	return append(out, factor{"hardening", h}, factor{"last", numClass(uint64(last))}, factor{"root", root}, factor{"white-space", ws}, factor{"leading-zeros", zeros})
}

func sentenceFactors(m string) []factor {
	f := strings.Fields(m)
	sep := "single"
	if strings.Join(f, " ") != m {
		sep = "other"
		if !isASCII(m) {
			sep = "other-or-foreign"
		}
	}
	n := "many"
	if len(f) < 30 {
		n = fmt.Sprint(len(f))
	}
	return []factor{{"words", n}, {"separators", sep}}
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func passFactors(p string) []factor {
	k := "ascii"
	if !isASCII(p) {
		k = "unicode"
		if !utf8.ValidString(p) {
			k = "malformed"
		}
	}
	return []factor{{"passphrase", k}, {"passphrase-length", lenClass(len(p))}}
}

func result(err any) factor {
	if err == nil {
		return factor{"result", "ok"}
	}
	return factor{"result", "refused"}
}

func classify(e *Event) (out []factor) {
	for i, x := range e.In {
		switch v := x.(type) {
		case XKey:
			out = append(out, keyFactors(v)...)
		case uint32:
			out = append(out, factor{fmt.Sprint("number-", i), numClass(uint64(v))})
		case byte:
			out = append(out, factor{fmt.Sprint("byte-", i), numClass(uint64(v))})
		case []byte:
			out = append(out, factor{"length", lenClass(len(v))}, factor{"bytes", bytesClass(v)})
		case string:
			switch {
			case strings.HasPrefix(e.Op, "Path.") || e.Op == "DeriveBIP32Result" || e.Op == "GenerateRange":
				if len(v) < 5000 {
					out = append(out, pathFactors(v)...)
				}
			case i == 1:
				out = append(out, passFactors(v)...)
			case strings.Contains(e.Op, "Mnemonic") || strings.Contains(e.Op, "Seed") && e.Op != "RootKeyFromSeed":
				if len(v) < 20000 {
					out = append(out, sentenceFactors(v)...)
				}
			default:
				out = append(out, factor{"length", lenClass(len(v))})
			}
		}
	}
	if e.Op == "GenerateRange" {
		a, b := e.In[2].(uint32), e.In[3].(uint32)
		n := "none"
		if b > a {
			n = lenClass(int(b - a))
		}
		x := "same-side"
		if a < 1<<31 && b > 1<<31 {
			x = "crosses"
		}
		out = append(out, factor{"range-length", n}, factor{"crossing", x})
	}
	switch e.Op {
	case "NewMnemonic", "EntropyFromMnemonic", "MnemonicToByteArray", "IsMnemonicValid", "NewSeedWithErrorChecking", "DeriveSeedFromMnemonic":
		out = append(out, factor{"language", strings.TrimRight(e.Lang, "0123456789")})
	}
	if n := len(e.Out); n > 0 {
		if err, ok := e.Out[n-1].(error); ok || e.Out[n-1] == nil {
			if ok {
				out = append(out, result(err))
			} else {
				out = append(out, result(nil))
			}
		} else if b, ok := e.Out[0].(bool); ok {
			out = append(out, factor{"verdict", fmt.Sprint(b)})
		}
	}
	return
}

// observe counts the classes of a judged call.
func (w *W) observe(e *Event) {
	fs := classify(e)
	if w.pairs == nil {
		w.pairs = map[pairKey]int64{}
	}
	for i, a := range fs {
		for _, b := range fs[i+1:] {
			w.pairs[pairKey{e.Op, a, b}]++
		}
	}
}

// classReport sums up the pairs of classes: how many were seen of those whose two halves were seen.
func (c *Check) classReport(verbose bool) map[string]any {
	seen := map[string]map[string]map[string]bool{} // op, factor, class
	byOp := map[string]int{}
	note := func(op string, f factor) {
		if seen[op] == nil {
			seen[op] = map[string]map[string]bool{}
		}
		if seen[op][f.name] == nil {
			seen[op][f.name] = map[string]bool{}
		}
		seen[op][f.name][f.class] = true
	}
	type ff struct{ op, a, b string }
	combos := map[ff]bool{}
	for k := range c.pairs {
		note(k.op, k.a)
		note(k.op, k.b)
		byOp[k.op]++
		combos[ff{k.op, k.a.name, k.b.name}] = true
	}
	possible := map[string]int{}
	missing := []string{}
	for k := range combos {
		possible[k.op] += len(seen[k.op][k.a]) * len(seen[k.op][k.b])
		if verbose {
			for a := range seen[k.op][k.a] {
				for b := range seen[k.op][k.b] {
					if c.pairs[pairKey{k.op, factor{k.a, a}, factor{k.b, b}}] == 0 {
						missing = append(missing, fmt.Sprintf("%s: %s=%s with %s=%s", k.op, k.a, a, k.b, b))
					}
				}
			}
		}
	}
	sort.Strings(missing)
	for _, m := range missing {
		fmt.Println("NOT SEEN", m)
	}
	out := map[string]any{}
	for op, n := range byOp {
		classes := 0
		for _, m := range seen[op] {
			classes += len(m)
		}
		out[op] = map[string]int{"factors": len(seen[op]), "classes": classes, "pairs_seen": n, "pairs_conceivable": possible[op]}
	}
	return out
}
