package main

// Cross-cutting properties: X01 (hostile inputs), X02 (purity over histories).

import (
	"fmt"
	"hash/fnv"
	"math/big"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/bip44"
	"github.com/mearaj/bips/util"

	"verifharness/oracle"
)

// ---------------------------------------------------------------- X01

var bigLens = []int{0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 77, 78, 79, 81, 82, 83, 111, 112, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096}

// hostileText: malformed UTF-8, control characters, look-alikes, damaged and blown-up legal text.
func hostileText(r *rand.Rand, lang string) string {
	legal := func() string {
		switch r.Intn(6) {
		case 0:
			return oracle.Sentence(lang, genEntropy(r, entLens[r.Intn(5)]))
		case 1:
			return genPathText(r, genIdxs(r, 8))
		case 2:
			return oracle.B58Encode(oracle.Serialize(genKey(r)))
		case 3:
			return oracle.Hex(genSeed(r))
		case 4:
			return genBadPath(r)
		}
		return genPass(r)
	}
	switch r.Intn(12) {
	case 0:
		return string(rbytes(r, bigLens[r.Intn(len(bigLens))]))
	case 1:
		return strings.Repeat(pick(r, "m", "/", "'", "/0", "m/", " ", "\t", "1", "z", "0", "ab", "abandon ", "\xff", "\x00", "\u3000", "l", "IO0l", "a\u0301", "ﷺ", "9", "'/'"), 1+r.Intn(3000))
	case 2: // byte damage
		b := []byte(legal())
		for k := r.Intn(4); k >= 0 && len(b) > 0; k-- {
			b[r.Intn(len(b))] = byte(r.Intn(256))
		}
		return string(b)
	case 3: // truncated, maybe inside a rune
		s := legal()
		return s[:r.Intn(len(s)+1)]
	case 4: // spliced
		a, b := legal(), legal()
		return a[:r.Intn(len(a)+1)] + b[r.Intn(len(b)+1):]
	case 5:
		s := legal()
		k := r.Intn(len(s) + 1)
		return s[:k] + pick(r, "\x00", "\xff\xfe", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\xaf", "\u200b", "\ufeff", "\u0000", "\u2028", "%s%n", "'", "/", " ", "\u0301", "\U0010ffff") + s[k:]
	case 6:
		return strings.Repeat(legal()+pick(r, "", " ", "/", "\n"), 1+r.Intn(20))
	case 7: // only white space or separators
		var b strings.Builder
		for k := r.Intn(60); k > 0; k-- {
			b.WriteString(pick(r, " ", "\t", "\n", "\r", "\v", "\f", "\u00a0", "\u0085", "\u3000", "/", "'", "m"))
		}
		return b.String()
	case 8: // word soup of legal and illegal counts
		var ws []string
		l := oracle.Lists[pick(r, lang, lang, "french", "chinese_simplified")]
		for k := pick(r, 0, 1, 11, 12, 13, 15, 18, 21, 23, 24, 25, 27, 48, 300); k > 0; k-- {
			ws = append(ws, l[pick(r, 0, 0, 2047, r.Intn(2048))])
		}
		return strings.Join(ws, pick(r, " ", "  ", "\u3000", "\t"))
	case 9:
		return pick(r, "", " ", "\x00", "m", "M", "'", "/", "m/", "m/'", "m/0'/'", "0", "1", "-1", "0x", "1111", strings.Repeat("1", 111), strings.Repeat("1", 112), strings.Repeat("z", 111))
	}
	return legal()
}

func hostileBytes(r *rand.Rand) []byte {
	switch r.Intn(12) {
	case 8, 9, 10: // whole, now and then with another checksum
		b := oracle.Serialize(hostileKey(r))
		if r.Intn(5) == 0 {
			b[78+r.Intn(4)] ^= 1 << r.Intn(8)
		}
		return b
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return oracle.Serialize(genKey(r))[:r.Intn(83)]
	case 3:
		return append(oracle.Serialize(genKey(r)), rbytes(r, r.Intn(5))...)
	case 4:
		b := make([]byte, bigLens[r.Intn(len(bigLens))])
		v := pick[byte](r, 0, 0xff, 1, 2, 3, 4)
		for i := range b {
			b[i] = v
		}
		return b
	case 5: // public key lookalikes
		b := rbytes(r, pick(r, 1, 2, 32, 33, 34, 64, 65, 66))
		b[0] = pick[byte](r, 0, 1, 2, 3, 4, 5, 6, 7, 0xff)
		return b
	}
	return rbytes(r, bigLens[r.Intn(len(bigLens))])
}

// hostileKey: any 78 bytes, biased to what passes some of the checks.
func hostileKey(r *rand.Rand) (k XKey) {
	switch r.Intn(13) {
	case 10, 11, 12:
		k = genKey(r)
		fields(r, &k)
		return
	case 0:
		return XKey{}
	case 1:
		for i := range k {
			k[i] = 0xff
		}
		return
	case 2, 3:
		copy(k[:], rbytes(r, 78))
		if r.Intn(2) == 0 {
			k.SetVersion(pick(r, genPrivVersion(r), genPubVersion(r)))
		}
		if r.Intn(2) == 0 {
			k[45] = pick[byte](r, 0, 1, 2, 3, 4, 5, 6, 7)
		}
		return
	case 4: // material off the curve, out of range, zero
		k = genKey(r)
		for i := 46; i < 78; i++ {
			k[i] = pick[byte](r, 0xff, 0xff, 0)
		}
		if r.Intn(2) == 0 {
			k[77] = byte(r.Intn(256))
		}
		return
	case 5: // kind and version disagree
		k = genKey(r)
		k[45] = pick[byte](r, 0, 2, 3, 4, 0xff)
		return
	case 6:
		k = genKey(r)
		k[r.Intn(78)] ^= 1 << r.Intn(8)
		return
	case 7:
		k = genKey(r)
		k[4] = pick[byte](r, 0, 254, 255)
		return
	case 8:
		k = genPubKey(r)
		copy(k[46:], rbytes(r, 32)) // half of these are no x coordinate
		return
	}
	return genKey(r)
}

// hostileRange: small ranges, and ranges of any size that have to be refused at the first index or before.
func hostileRange(r *rand.Rand) *util.KeyPathRange {
	k := &util.KeyPathRange{}
	k.Key, k.Path = bip32.Key(hostileKey(r)), bip32.Path(hostileText(r, "english"))
	if r.Intn(2) == 0 {
		k.Path = "m/0"
	}
	k.StartIndex = genIndex(r)
	k.EndIndex = k.StartIndex + uint32(r.Intn(3))
	huge := func() {
		k.StartIndex, k.EndIndex = pick(r, 0, 1, k.StartIndex), pick[uint32](r, 0xffffffff, 0xfffffffe, 0x80000000, 0x7fffffff, 1<<24)
	}
	switch r.Intn(9) {
	case 0: // inverted
		k.EndIndex = k.StartIndex - uint32(1+r.Intn(1000))
		if k.StartIndex == 0 || k.EndIndex > k.StartIndex {
			k.StartIndex, k.EndIndex = 0xffffffff, uint32(r.Intn(100))
		}
	case 1: // zero key
		k.Key = bip32.Key{}
		huge()
	case 2: // invalid path
		k.Path = "n/0"
		huge()
	case 3: // too deep
		x := genKey(r)
		x[4] = 255
		k.Key, k.Path = bip32.Key(x), "m/0"
		huge()
	case 4: // hardened children of a public key
		k.Key, k.Path = bip32.Key(genPubKey(r)), "m/0"
		k.StartIndex, k.EndIndex = 0x80000000+uint32(r.Intn(3)), 0xffffffff
	case 5: // unregistered version
		x := genKey(r)
		x.SetVersion(genUnregistered(r))
		k.Key, k.Path = bip32.Key(x), "m/0"
		huge()
	case 6:
		k.StartIndex, k.EndIndex = 0xfffffffe, 0xffffffff
	}
	return k
}

// oddList: 2048 words or more, most of a published list, some very long, empty, repeated, with bytes no word has.
func oddList(r *rand.Rand, i int) []string {
	l := append([]string{}, oracle.Lists[pick(r, "english", "japanese", "french")]...)
	odd := func() string {
		switch r.Intn(8) {
		case 0:
			return strings.Repeat(pick(r, "a", "é", "\u3042", "\xff", "0"), pick(r, 9, 17, 33, 64, 100, 256, 1000, 5000))
		case 1:
			return ""
		case 2:
			return string(rbytes(r, 1+r.Intn(12)))
		case 3:
			return l[r.Intn(2048)]
		case 4:
			return l[r.Intn(2048)] + pick(r, " ", "\u3000", "\x00", "\n", "'", "%s", "`") + l[r.Intn(2048)]
		case 5:
			return fmt.Sprint(r.Intn(3000))
		case 6:
			return strings.ToUpper(l[r.Intn(2048)])
		}
		return "a"
	}
	for k := pick(r, 1, 5, 100, 2048); k > 0; k-- {
		l[r.Intn(2048)] = odd()
	}
	for _, k := range []int{0, 1, 2047, 1024} {
		if r.Intn(2) == 0 || k == 0 && i%2 == 0 {
			l[k] = odd()
		}
	}
	for _, k := range []int{0, 2047, 1, 1024} { // long words at the ends
		if r.Intn(3) == 0 || k == 0 && i%3 == 0 {
			l[k] = strings.Repeat(pick(r, "w", "ab", "\u3042", "z"), pick(r, 9, 12, 17, 25, 33, 64, 100, 256)) + fmt.Sprint(k)
		}
	}
	if i%5 == 4 { // a longer list
		for k := 1 + r.Intn(3000); k > 0; k-- {
			l = append(l, fmt.Sprint("more", k))
		}
	}
	return l
}

// attack calls one operation with hostile arguments.
func attack(w *W, op int, lang string) {
	r := w.R
	text := func() string { return hostileText(r, lang) }
	key := func() XKey { return hostileKey(r) }
	switch op % 36 {
	case 0:
		w.NewMnemonic(hostileBytes(r))
	case 1:
		w.EntropyFromMnemonic(text())
	case 2:
		w.MnemonicToByteArray(text(), r.Intn(2) == 0)
	case 3:
		w.NewSeedWithErrorChecking(text(), text())
	case 4:
		if r.Intn(4) == 0 {
			w.Bip39Seed(text(), text())
		}
	case 5:
		w.IsMnemonicValid(text())
	case 6:
		w.GetWordIndex(text())
	case 7:
		w.NewEntropy(int(pick[int64](r, 0, -1, 1, 127, 128, 129, 160, 256, 257, 1<<31, -1<<31, 1<<40, 1<<62, -1<<63, r.Int63(), int64(r.Intn(300)))))
	case 8:
		w.NewMasterKey(hostileBytes(r))
	case 9, 10:
		w.NewChildKey(key(), genIndex(r))
	case 11:
		w.PublicKeyExtended(key())
	case 12:
		w.PrivateKeyHex(key())
		w.IsPrivate(key())
	case 13:
		w.PublicKeyHex(key())
	case 14:
		w.Serialize(key())
	case 15:
		w.B58Serialize(key())
	case 16:
		w.IsValid(key())
	case 17:
		w.Fields(key())
	case 18:
		w.SetVersion(key(), r.Uint32(), r.Intn(2) == 0)
	case 19, 20:
		w.Deserialize(hostileBytes(r))
	case 21, 22:
		w.B58Deserialize(text())
		if r.Intn(2) == 0 {
			w.B58Deserialize(oracle.B58Encode(hostileBytes(r)))
		}
	case 23:
		var b [32]byte
		k := key()
		copy(b[:], k[46:])
		w.ValidatePrivateKey(b)
	case 24:
		w.ExpandPublicKey(hostileBytes(r))
	case 25:
		w.Hash160(hostileBytes(r))
		w.Checksum(hostileBytes(r))
		w.AddChecksum(hostileBytes(r))
	case 26:
		w.PathValues(text())
		w.PathValid(text())
	case 27:
		w.PathString(text())
		w.PathValue(text(), byte(r.Intn(256)))
	case 28:
		w.PathReplace(text(), byte(r.Intn(256)), r.Uint32())
	case 29:
		w.GenerateMnemonic(byte(r.Intn(256)))
	case 30:
		w.DeriveSeed(text(), text())
	case 31:
		w.RootKeyFromSeed(text())
	case 32:
		g := &Gen{}
		if r.Intn(8) > 0 {
			w.SetRootKey(g, key())
		}
		w.RootKey(g)
		p := text()
		if len(p) > 900 && goodRoot(g.Root) {
			p = p[:900]
		}
		w.DerivePath(g, p)
	case 33:
		w.GenerateRange(hostileRange(r))
	case 34:
		w.AddrHex(key())
		w.AddrP2SH(key(), byte(r.Intn(256)))
	case 35:
		w.CoinValid(bip44.Coin{Type: r.Uint32(), PathComponent: genIndex(r), Symbol: text(), Name: text()})
		v := bip32.VersionBytes{Coin: text(), PubKeyFlag: r.Uint32(), PubKeyPrefix: text(), PvtKeyFlag: r.Uint32(), PvKeyPrefix: text(), Path: bip32.Path(text())}
		if r.Intn(2) == 0 {
			v.Path = bip32.Path(hostileRowPath(w))
		}
		w.Row(v)
		w.Row(genRow(w))
	}
}

func monX01(c *Check) {
	c.On("*", func(w *W, e *Event) {
		w.Eval(e, true)
		for _, x := range e.In {
			switch v := x.(type) {
			case string:
				w.FeatIf(!utf8.ValidString(v), "malformed-utf8")
				w.FeatIf(len(v) >= 4096, "long-text")
			case []byte:
				w.FeatIf(v == nil, "nil-bytes")
				w.FeatIf(len(v) >= 4096, "long-bytes")
			case XKey:
				w.FeatIf(!oracle.Valid(v), "invalid-key-contents")
				w.FeatIf(v == XKey{}, "zero-key")
			}
		}
		for _, x := range e.Out {
			if _, ok := x.(error); ok {
				w.Feat("refused-with-error")
			}
		}
	})
}

const allocLimit = 256 << 20

type longOp struct {
	name string
	f    func(w *W, g *Gen, s string)
}

// longOps are the operations on text or bytes of any length (Base58 text apart: converting it is quadratic everywhere).
func longOps() []longOp {
	return []longOp{
		{"Path.IsValid", func(w *W, g *Gen, s string) { w.PathValid(s) }},
		{"Path.ValuesAtDepth", func(w *W, g *Gen, s string) { w.PathValues(s) }},
		{"Path.String", func(w *W, g *Gen, s string) { w.PathString(s) }},
		{"Path.ValueAtDepth", func(w *W, g *Gen, s string) { w.PathValue(s, 9) }},
		{"Path.ReplaceValueAtDepth", func(w *W, g *Gen, s string) { w.PathReplace(s, 9, 5) }},
		{"IsMnemonicValid", func(w *W, g *Gen, s string) { w.IsMnemonicValid(s) }},
		{"EntropyFromMnemonic", func(w *W, g *Gen, s string) { w.EntropyFromMnemonic(s) }},
		{"MnemonicToByteArray", func(w *W, g *Gen, s string) { w.MnemonicToByteArray(s) }},
		{"NewSeedWithErrorChecking", func(w *W, g *Gen, s string) { w.NewSeedWithErrorChecking(s, s) }},
		{"bip39.NewSeed", func(w *W, g *Gen, s string) { w.Bip39Seed(s, s) }},
		{"DeriveSeedFromMnemonic", func(w *W, g *Gen, s string) { w.DeriveSeed(s, s) }},
		{"RootKeyFromSeed", func(w *W, g *Gen, s string) { w.RootKeyFromSeed(s) }},
		{"Deserialize", func(w *W, g *Gen, s string) { w.Deserialize([]byte(s)) }},
		{"NewMnemonic", func(w *W, g *Gen, s string) { w.NewMnemonic([]byte(s)) }},
		{"NewMasterKey", func(w *W, g *Gen, s string) { w.NewMasterKey([]byte(s)) }},
		{"HashRipeMD160onSha256", func(w *W, g *Gen, s string) { w.Hash160([]byte(s)) }},
		{"AddChecksumDblSha256ToBytes", func(w *W, g *Gen, s string) { w.AddChecksum([]byte(s)) }},
		{"GetWordIndex", func(w *W, g *Gen, s string) { w.GetWordIndex(s) }},
		{"DeriveBIP32Result", func(w *W, g *Gen, s string) { w.DerivePath(g, s) }},
		{"GenerateRange", func(w *W, g *Gen, s string) {
			r := util.KeyPathRange{StartIndex: 1, EndIndex: 3}
			r.Key, r.Path = bip32.Key(corpusKey(1)), bip32.Path(s)
			w.GenerateRange(&r)
		}},
		{"VersionBytes", func(w *W, g *Gen, s string) { w.Row(bip32.VersionBytes{Coin: s, Path: bip32.Path(s)}) }},
		{"Coin.IsValid", func(w *W, g *Gen, s string) { w.CoinValid(bip44.Coin{Name: s, Symbol: s}) }},
	}
}

func init() {
	props["X01"] = func(c *Check) {
		c.Rule = "one verdict per recorded call: it returned (value or error) instead of panicking, hanging or allocating more than 256 MiB; calls are distinct by operation and arguments"
		c.Require = []string{"malformed-utf8", "long-text", "long-bytes", "nil-bytes", "invalid-key-contents", "zero-key", "refused-with-error", "huge-range-refused", "allocation-measured", "proportion-measured", "mixed-history"}
		monX01(c)
		for _, lang := range []string{"english", "japanese", "chinese_simplified"} {
			c.selectLang(lang)
			c.Par("hostile-"+lang, c.N(9000, 200000), func(w *W, i int) {
				for k := 0; k < 12; k++ {
					attack(w, i+k*5, lang)
				}
			})
		}
		// lists of a caller's own, with words as no published list has them
		c.Seqn("odd-lists", c.N(14, 60), func(w *W, i int) {
			name := fmt.Sprintf("odd%d", i)
			l := oddList(w.R, i)
			oracle.Register(name, l)
			own := append([]string{}, l...)
			shipped[name] = &own
			w.SetWordList(name)
			for k := 0; k < 120; k++ {
				attack(w, k, name)
			}
			for k := 0; k < 40; k++ {
				e := genEntropy(w.R, entLens[k%5])
				m, _ := w.NewMnemonic(e)
				for _, m := range []string{m, oracle.Sentence(name, e), strings.Repeat(l[pick(w.R, 0, 2047, w.R.Intn(2048))]+" ", 12)} {
					w.IsMnemonicValid(m)
					w.EntropyFromMnemonic(m)
					w.MnemonicToByteArray(m)
				}
				w.GetWordIndex(l[w.R.Intn(len(l))])
			}
			w.Feat("odd-list")
		})
		c.selectLang("english")
		// every byte value at every position of a valid and an all-zero key, through every key operation
		c.Par("key-bytes", 78*256, func(w *W, i int) {
			pos, v := i/256, byte(i)
			ks := []XKey{corpusKey(pos), {}}
			k := ks[i%2]
			if w.R.Intn(4) == 0 {
				k = genPubKey(w.R)
			}
			k[pos] = v
			w.IsValid(k)
			w.PublicKeyExtended(k)
			w.PublicKeyHex(k)
			w.PrivateKeyHex(k)
			w.B58Serialize(k)
			w.AddrHex(k)
			w.AddrP2SH(k, v)
			w.NewChildKey(k, kinIndex(w.R, k))
			w.Deserialize(oracle.Serialize(k))
			g := &Gen{}
			w.SetRootKey(g, k)
			w.DerivePath(g, "m/0'/1")
		})
		// inputs from 10 kB to some 100 kB: time and memory stay in proportion
		c.Par("very-long", c.N(320, 4000), func(w *W, i int) {
			n := 10000 << w.R.Intn(4)
			unit := pick(w.R, "/0", "/2147483647'", "1", "z", "ab", "abandon ", " ", "'", "m", "\xff", "/", "あい ", "0")
			s := strings.Repeat(unit, n/len(unit))
			if i%2 == 0 {
				s = "m" + s
			}
			switch i % 16 {
			case 0:
				w.PathValid(s)
			case 1:
				w.PathValues(s)
			case 2:
				w.PathString(s)
			case 3:
				w.PathValue(s, 255)
			case 4:
				w.PathReplace(s, byte(w.R.Intn(256)), 5)
			case 5:
				w.IsMnemonicValid(s)
			case 6:
				w.EntropyFromMnemonic(s)
			case 7:
				w.MnemonicToByteArray(s)
			case 8:
				w.NewSeedWithErrorChecking(s, "")
				w.Bip39Seed("x", s)
			case 9:
				w.DeriveSeed(s, s)
			case 10:
				w.RootKeyFromSeed(s)
			case 11:
				w.B58Deserialize(s[:min(len(s), 20000)])
			case 12:
				w.Deserialize([]byte(s))
				w.Hash160([]byte(s))
				w.AddChecksum([]byte(s))
			case 13:
				g := &Gen{}
				w.SetRootKey(g, genRoot(w.R))
				w.DerivePath(g, s)
			case 14:
				w.Row(bip32.VersionBytes{Coin: s, Path: bip32.Path(s)})
				w.CoinValid(bip44.Coin{Name: s, Symbol: s, Type: 1, PathComponent: 1<<31 + 1})
			case 15:
				w.NewMnemonic([]byte(s))
				w.NewMasterKey([]byte(s))
				w.ExpandPublicKey([]byte(s))
				w.GetWordIndex(s)
			}
		})
		// four times the input may take about four times the memory and time, not sixteen times
		rep := func(pre, unit string) func(int) string {
			return func(n int) string { return pre + strings.Repeat(unit, n/len(unit)) }
		}
		forms := []struct {
			name string
			text func(n int) string
		}{
			{"m/0/0", rep("m", "/0")}, {"/0/0", rep("", "/0")}, {"m/2147483647'", rep("m", "/2147483647'")}, {"zeros", rep("", "0")}, {"m/000", rep("m/", "0")}, {"m/777", rep("m/0/", "7")},
			{"m/7 7 7", rep("m/", "7 ")}, {"abandon abandon", rep("", "abandon ")}, {"spaces", rep("", " ")}, {"m/1 and spaces", rep("m/1", " ")}, {"zzz", rep("", "z")}, {"Japanese words", rep("", "あい ")},
			{"slashes", rep("m", "/")}, {"apostrophes", rep("m/1", "'")}, {"twelve long words", func(n int) string { return strings.Repeat(strings.Repeat("z", n/12)+" ", 12) }},
			{"spaces between words", func(n int) string {
				return strings.Join(oracle.Words("english", make([]byte, 16)), strings.Repeat(" ", n/12))
			}},
		}
		long, bad := longOps(), false
		c.Seqn("proportion", len(long)*len(forms), func(w *W, i int) {
			op, form := long[i%len(long)], forms[i/len(long)]
			cost := func(n int) (alloc uint64, t time.Duration) {
				s := form.text(n)
				g := &Gen{}
				w.SetRootKey(g, corpusKey(1))
				var a, b runtime.MemStats
				runtime.ReadMemStats(&a)
				t0 := time.Now()
				op.f(w, g, s)
				t = time.Since(t0)
				runtime.ReadMemStats(&b)
				return b.TotalAlloc - a.TotalAlloc, t
			}
			if bad {
				return
			}
			w.Feat("proportion-measured")
			a1, t1 := cost(15000)
			for _, n := range []int{60000, 240000, 960000} {
				if n == 960000 && t1 > 300*time.Millisecond {
					break
				}
				a2, t2 := cost(n)
				if a2 > 64<<20 && a2 > 9*a1 {
					bad = true
					w.Fail(nil, fmt.Sprintf("%s on %s: memory grows out of proportion to the input", op.name, form.name), fmt.Sprintf("%d bytes for %d, %d for %d", a1, n/4, a2, n), "about four times as much")
					return
				}
				for k := 0; k < 4 && t2 > 1200*time.Millisecond && t2 > 9*t1; k++ { // the machine may be busy: only what repeats counts
					if k == 3 {
						bad = true
						w.Fail(nil, fmt.Sprintf("%s on %s: time grows out of proportion to the input", op.name, form.name), fmt.Sprintf("%v for %d bytes, %v for %d", t1, n/4, t2, n), "about four times as much")
						return
					}
					_, x1 := cost(n / 4)
					_, x2 := cost(n)
					t1, t2 = max(t1, x1), min(t2, x2)
				}
				a1, t1 = a2, t2
			}
		})
		// alone in the process: what one call allocates
		c.Seqn("allocation", c.N(1500, 20000), func(w *W, i int) {
			var a, b runtime.MemStats
			runtime.ReadMemStats(&a)
			if i%3 == 0 {
				w.Feat("huge-range-refused")
				w.GenerateRange(hostileRange(w.R))
			} else {
				attack(w, i, "english")
			}
			runtime.ReadMemStats(&b)
			w.Feat("allocation-measured")
			if d := b.TotalAlloc - a.TotalAlloc; d > allocLimit {
				w.Fail(w.ring[(w.ringPos+len(w.ring)-1)%len(w.ring)], "one call allocated out of proportion to its input", fmt.Sprint(d), fmt.Sprintf("at most %d", allocLimit))
			}
		})
		c.mixed(c.N(600, 8000))
	}
}

// ---------------------------------------------------------------- X02

// memo remembers the first result of every call; a later call with equal arguments must give the same.
type memo struct {
	sh [64]struct {
		sync.Mutex
		m map[uint64]memoEntry
	}
}

type memoEntry struct {
	out       uint64
	txt, call string
}

var randomOps = map[string]bool{"NewEntropy": true, "GenerateMnemonic": true, "bip32.NewSeed": true}

// listOps depend on the selected word list.
var listOps = map[string]bool{"NewMnemonic": true, "EntropyFromMnemonic": true, "MnemonicToByteArray": true, "MnemonicToByteArrayRaw": true,
	"NewSeedWithErrorChecking": true, "DeriveSeedFromMnemonic": true, "IsMnemonicValid": true, "GetWordIndex": true, "GetWordList": true}

func hashAny(h interface{ Write([]byte) (int, error) }, xs []any) {
	for _, x := range xs {
		switch v := x.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		case XKey:
			h.Write(v[:])
		case []KP:
			for _, k := range v {
				h.Write([]byte(k.Path))
				h.Write(k.Key[:])
			}
		case error:
			h.Write([]byte(v.Error()))
		case *big.Int:
			h.Write(v.Bytes())
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0xfe})
	}
}

func (m *memo) check(w *W, e *Event) {
	if randomOps[e.Op] || e.Op == "SetRootKey" || e.Op == "SetWordList" {
		return
	}
	out := e.Out
	if e.Op == "GenerateRange" {
		out = out[:2]
		if asErr(e.Out[1]) != nil { // refused: the entries are those of the object's past
			out = out[1:2]
		}
	}
	h := fnv.New64a()
	h.Write([]byte(e.Op))
	if listOps[e.Op] {
		h.Write([]byte(e.Lang))
	}
	hashAny(h, e.In)
	key := h.Sum64()
	h = fnv.New64a()
	hashAny(h, out)
	res := h.Sum64()
	s := &m.sh[key%64]
	s.Lock()
	old, ok := s.m[key]
	if !ok {
		if s.m == nil {
			s.m = map[uint64]memoEntry{}
		}
		t := ""
		for _, x := range out {
			t += show(x) + "; "
		}
		if len(t) > 300 {
			t = t[:300]
		}
		call := e.Op
		if w.Phase == "same-digest" {
			for _, x := range e.In {
				call += " " + show(x)
			}
		}
		s.m[key] = memoEntry{res, t, call}
	}
	s.Unlock()
	if !ok {
		w.Eval(e, false)
		return
	}
	w.Eval(e, true)
	w.Feat("repeated-call")
	if old.out != res {
		t := ""
		for _, x := range out {
			t += show(x) + "; "
		}
		w.Fail(e, "the same call gave another result than earlier in this process", t, old.txt)
	}
}

// marathon: a library that has new numbers too large for the replays may count its calls up to them. As many calls of each
// operation as the time allows, cheap operations first.
func (c *Check) marathon() {
	most := uint64(0)
	for _, n := range dictNew.Nums {
		if n > 50000 && n <= 20_000_000 && n > most {
			most = n
		}
	}
	if most == 0 {
		return
	}
	most += most/16 + 100
	type job struct {
		calls []call
		each  time.Duration
		first []uint64
		txt   []string
		op    int
	}
	c.selectLang("english")
	var jobs []job
	r := c.caseRand("marathon", 0)
	for op := range table {
		if table[op].slow {
			continue
		}
		j := job{op: op}
		s := newShared(r, "english")
		t0 := time.Now()
		for k := 0; k < 40; k++ {
			x := mkCall(r, s, op)
			if o := x.f(); len(o) < 1000 {
				j.calls, j.first, j.txt = append(j.calls, x), append(j.first, strHash(o)), append(j.txt, o)
			}
		}
		if j.each = time.Since(t0); len(j.calls) > 0 {
			jobs = append(jobs, j)
		}
	}
	sort.Slice(jobs, func(a, b int) bool { return jobs[a].each < jobs[b].each })
	end := time.Now().Add(time.Duration(c.N(60, 600)) * time.Second)
	c.Par("marathon", len(jobs), func(w *W, i int) {
		j := jobs[i]
		n := uint64(0)
		for ; n < most && (n%256 != 0 || time.Now().Before(end)); n++ {
			x := int(n) % len(j.calls)
			o := j.calls[x].f()
			w.evals++
			if strHash(o) != j.first[x] {
				w.Fail(nil, fmt.Sprintf("%s(%.300s): call %d of a replay differs from the first", j.calls[x].op, j.calls[x].desc, n), o, j.txt[x])
				return
			}
		}
		w.ops["replayed:"+table[j.op].name] += int64(n)
	})
}

// inPlace changes one key, in its place, between calls: every operation must see what the key is now, as on a fresh copy.
func (c *Check) inPlace(n int) {
	ops := []struct {
		name string
		f    func(k *bip32.Key, x uint32) string
	}{
		{"IsValid", func(k *bip32.Key, x uint32) string { return fmt.Sprint(k.IsValid()) }},
		{"IsPrivate", func(k *bip32.Key, x uint32) string { return fmt.Sprint(k.IsPrivate()) }},
		{"NewChildKey", func(k *bip32.Key, x uint32) string {
			c, err := k.NewChildKey(x)
			return fmt.Sprintf("%x %v", c[:], err)
		}},
		{"PublicKeyExtended", func(k *bip32.Key, x uint32) string { c := k.PublicKeyExtended(); return fmt.Sprintf("%x", c[:]) }},
		{"PrivateKeyHex", func(k *bip32.Key, x uint32) string { return k.PrivateKeyHex() }},
		{"PublicKeyHex", func(k *bip32.Key, x uint32) string { return k.PublicKeyHex() }},
		{"Serialize", func(k *bip32.Key, x uint32) string { b, err := k.Serialize(); return fmt.Sprintf("%x %v", b, err) }},
		{"B58Serialize", func(k *bip32.Key, x uint32) string { return k.B58Serialize() }},
		{"String", func(k *bip32.Key, x uint32) string { return k.String() }},
		{"GetVersion", func(k *bip32.Key, x uint32) string { return fmt.Sprint(k.GetVersion()) }},
		{"getters", func(k *bip32.Key, x uint32) string {
			return fmt.Sprint(k.GetChainCode(), k.GetFingerPrint(), k.GetDepth(), k.GetPvtKeyBytes(), k.GetKeyBytes(), k.GetChildNumber())
		}},
		{"DeriveBIP32Result", nil},
		{"GenerateRange", nil},
	}
	c.Par("in-place", n, func(w *W, i int) {
		r := w.R
		k := bip32.Key(genKey(r))
		if i%3 == 0 {
			k = bip32.Key(genRoot(r))
		}
		var g util.Generator
		g.SetRootKey(k)
		rng := util.KeyPathRange{KeyPath: util.KeyPath{Path: "m/1"}}
		derive := func(g *util.Generator, p string) string {
			out, err := g.DeriveBIP32Result(bip32.Path(p))
			t := fmt.Sprint(len(out), err)
			for _, x := range out {
				t += fmt.Sprintf(" %s %x", x.Path, x.Key[:])
			}
			return t
		}
		ranged := func(q *util.KeyPathRange) string {
			err := q.GenerateRange()
			t := fmt.Sprint(err)
			if err == nil {
				for _, x := range q.KeyPaths {
					t += fmt.Sprintf(" %s %x", x.Path, x.Key[:])
				}
			}
			return t
		}
		type step struct {
			op   int
			x    uint32
			path string
			key  bip32.Key
			out  string
		}
		var done []step
		op := r.Intn(len(ops))
		x := kinIndex(r, XKey(k))
		path := genPathText(r, genIdxs(r, 3))
		for n := 0; n < 12; n++ {
			if r.Intn(3) == 0 {
				op = r.Intn(len(ops))
			}
			if r.Intn(4) == 0 {
				x, path = kinIndex(r, XKey(k)), genPathText(r, genIdxs(r, 3))
			}
			st := step{op, x, path, k, ""}
			p := guard(func() {
				switch ops[op].name {
				case "DeriveBIP32Result":
					g.SetRootKey(k)
					st.out = derive(&g, path)
				case "GenerateRange":
					rng.Key, rng.StartIndex, rng.EndIndex = k, x, x+2
					st.out = ranged(&rng)
				default:
					st.out = ops[op].f(&k, x)
				}
			})
			if p != "" {
				if oracle.MaterialOKOf(XKey(k)) {
					w.Fail(nil, "the library panicked: "+ops[op].name+": "+p, fmt.Sprintf("%x", k[:]), nil)
				}
				return
			}
			done = append(done, st)
			// change it: mostly one thing only
			y := XKey(k)
			switch r.Intn(9) {
			case 0:
				fields(r, &y)
			case 1:
				y = genKey(r)
			case 2:
				y.SetVersion(pick(r, genPrivVersion(r), genPubVersion(r), genUnregistered(r)))
			case 3:
				y[4] = pick[byte](r, 0, 1, 255, byte(r.Intn(256)))
			case 4:
				y[5+r.Intn(8)] ^= 1 << r.Intn(8)
			case 5:
				y[13+r.Intn(32)] ^= 1 << r.Intn(8)
			case 6:
				y[45+r.Intn(33)] ^= 1 << r.Intn(8)
			case 7:
				if oracle.MaterialOKOf(y) { // there is no public form of the others
					y = oracle.PubForm(y)
				}
			case 8:
				if nb := family(r, y); len(nb) > 0 && oracle.MaterialOKOf(y) {
					y = nb[r.Intn(len(nb))]
				}
			}
			k = bip32.Key(y)
		}
		for n, st := range done { // the same on fresh copies, afterwards
			var b string
			p := guard(func() {
				switch ops[st.op].name {
				case "DeriveBIP32Result":
					var fresh util.Generator
					fresh.SetRootKey(st.key)
					b = derive(&fresh, strings.Clone(st.path))
				case "GenerateRange":
					b = ranged(&util.KeyPathRange{StartIndex: st.x, EndIndex: st.x + 2, KeyPath: util.KeyPath{Path: "m/1", Key: st.key}})
				default:
					fresh := new(bip32.Key)
					*fresh = st.key
					b = ops[st.op].f(fresh, st.x)
				}
			})
			name := ops[st.op].name
			w.ops["in-place:"+name]++
			w.EvalKey(fmt.Sprint(name, XKey(st.key), st.x, st.path), true)
			if p != "" || st.out != b {
				w.Fail(nil, fmt.Sprintf("step %d: %s of a key changed in its place, now %x (index %d, path %s), differs from that of a fresh copy", n, name, st.key[:], st.x, st.path), st.out, p+b)
				return
			}
		}
		w.Feat("key-changed-in-place")
	})
}

// copies: generators and ranges copied by assignment, as values are, then used and changed independently.
func (c *Check) copies(n int) {
	c.Par("copies", n, func(w *W, i int) {
		r := w.R
		gens := make([]util.Generator, 1, 4)
		roots := []bip32.Key{bip32.Key(genRoot(r))}
		gens[0].SetRootKey(roots[0])
		near := []bip32.Key{roots[0]}
		for _, k := range family(r, XKey(roots[0])) {
			if k.Private() && k.Depth() == 0 {
				near = append(near, bip32.Key(k))
			}
		}
		near = append(near, bip32.Key(genRoot(r)))
		var paths []bip32.Path
		for len(paths) < 3 {
			paths = append(paths, bip32.Path(genPathText(r, genIdxs(r, 3))))
		}
		rngs := []util.KeyPathRange{{StartIndex: kinIndex(r, XKey(roots[0])), KeyPath: util.KeyPath{Path: paths[0], Key: roots[0]}}}
		rngs[0].EndIndex = rngs[0].StartIndex + 3
		text := func(ks []util.KeyPath, err error) string {
			t := fmt.Sprint(len(ks), err)
			for _, x := range ks {
				t += fmt.Sprintf(" %s %x", x.Path, x.Key[:])
			}
			return t
		}
		type obs struct{ what, got, want string }
		var all []obs
		type held struct {
			ks []util.KeyPath
			t  string
		}
		var hold []held
		var todo []func() // the same on fresh objects, afterwards
		p := guard(func() {
			for step := 0; step < 10; step++ {
				switch r.Intn(7) {
				case 0:
					j := r.Intn(len(gens))
					gens, roots = append(gens, gens[j]), append(roots, roots[j])
				case 1:
					j := r.Intn(len(gens))
					roots[j] = near[r.Intn(len(near))]
					gens[j].SetRootKey(roots[j])
				case 2, 3:
					j, q := r.Intn(len(gens)), paths[r.Intn(3)]
					ks, err := gens[j].DeriveBIP32Result(q)
					hold = append(hold, held{ks, text(ks, err)})
					root, got := roots[j], text(ks, err)
					todo = append(todo, func() {
						var fresh util.Generator
						fresh.SetRootKey(root)
						all = append(all, obs{fmt.Sprintf("generator %d of %d, root %x, path %s", j, len(gens), root[:], q), got, text(fresh.DeriveBIP32Result(bip32.Path(strings.Clone(string(q)))))})
					})
				case 4:
					rngs = append(rngs, rngs[r.Intn(len(rngs))])
				case 5:
					j := r.Intn(len(rngs))
					switch r.Intn(4) {
					case 0:
						rngs[j].Key = near[r.Intn(len(near))]
					case 1:
						rngs[j].Path = paths[r.Intn(3)]
					case 2:
						rngs[j].StartIndex = rngs[j].EndIndex - uint32(1+r.Intn(4))
					case 3:
						rngs[j].EndIndex = rngs[j].StartIndex + uint32(1+r.Intn(4))
					}
				case 6:
					j := r.Intn(len(rngs))
					if rngs[j].StartIndex >= rngs[j].EndIndex || rngs[j].EndIndex-rngs[j].StartIndex > 8 {
						continue
					}
					err := rngs[j].GenerateRange()
					if err != nil {
						continue
					}
					hold = append(hold, held{rngs[j].KeyPaths, text(rngs[j].KeyPaths, nil)})
					q, got := rngs[j], text(rngs[j].KeyPaths, err)
					todo = append(todo, func() {
						fresh := util.KeyPathRange{StartIndex: q.StartIndex, EndIndex: q.EndIndex, KeyPath: util.KeyPath{Path: q.Path, Key: q.Key}}
						err := fresh.GenerateRange()
						all = append(all, obs{fmt.Sprintf("range %d..%d of %x, %s", q.StartIndex, q.EndIndex, q.Key[:], q.Path), got, text(fresh.KeyPaths, err)})
					})
				}
			}
			for _, f := range todo {
				f()
			}
		})
		if p != "" {
			w.Fail(nil, "the library panicked: "+p, nil, nil)
			return
		}
		for _, h := range hold {
			if t := text(h.ks, nil); h.ks != nil && t != h.t {
				w.Fail(nil, "a result changed after it was returned: "+h.t, t, h.t)
			}
		}
		for _, o := range all {
			w.EvalKey(o.what, true)
			if o.got != o.want {
				w.Fail(nil, "a copied object gives another result than a fresh one: "+o.what, o.got, o.want)
			}
		}
		w.FeatIf(len(gens) > 1 && len(rngs) > 1, "objects-copied")
	})
}

// replayPool calls the same fixed calls over and over and compares every result with the first.
func (c *Check) replayPool(lang string, rounds int) {
	c.selectLang(lang)
	c.Par("replay-"+lang, len(table), func(w *W, i int) {
		op := (i*7 + 3) % len(table) // expensive ones spread out
		r := w.R
		s := newShared(r, lang)
		var calls []call
		for k := 0; k < 24; k++ {
			calls = append(calls, mkCall(r, s, op))
		}
		n := rounds
		if table[op].slow {
			n = rounds/200 + 2
		}
		var first []uint64
		var txt []string
		for _, x := range calls {
			o := x.f()
			first, txt = append(first, strHash(o)), append(txt, o)
		}
		for k := 0; k < n; k++ {
			x := k % len(calls)
			if k > 3*len(calls) {
				x = r.Intn(len(calls))
				if len(txt[x]) > 1000 && r.Intn(100) > 0 {
					continue // long ranges and paths, rarely
				}
			}
			o := calls[x].f()
			w.evals++
			if strHash(o) != first[x] {
				w.Fail(nil, fmt.Sprintf("%s(%.300s): call %d of a replay differs from the first", calls[x].op, calls[x].desc, k), o, txt[x])
				return
			}
		}
		w.ops["replayed:"+table[op].name] += int64(n)
		for k := range calls {
			w.distinct[strHash(calls[k].op+calls[k].desc+lang)] = struct{}{}
		}
		w.Feat("replayed-operation")
		w.FeatIf(n > 65536, "more-than-2^16-calls-of-one-operation")
	})
}

type scribbler struct {
	name string
	// call returns the observable result and a function that overwrites all memory the result handed out.
	call func() (string, func())
}

func trash(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] = ^b[i] + 13
	}
}

func trashBig(x *big.Int) {
	if x == nil {
		return
	}
	if b := x.Bits(); len(b) > 0 {
		b[0] ^= 0x5a5a
	}
	x.SetInt64(-7)
}

func trashKPs(o []util.KeyPath) {
	o = o[:cap(o)]
	for i := range o {
		o[i].Path = "trash"
		trash(o[i].Key[:])
	}
}

func scribblers(r *rand.Rand, s *shared) (out []scribbler) {
	add := func(n string, f func() (string, func())) { out = append(out, scribbler{n, f}) }
	bs := func(n string, f func() ([]byte, error)) {
		add(n, func() (string, func()) { b, err := f(); return hx(b) + " " + es(err), func() { trash(b) } })
	}
	m, p := s.sents[r.Intn(10)], s.pass[r.Intn(len(s.pass))]
	bs("EntropyFromMnemonic", func() ([]byte, error) { return bip39.EntropyFromMnemonic(m) })
	bs("MnemonicToByteArray", func() ([]byte, error) { return bip39.MnemonicToByteArray(m) })
	bs("MnemonicToByteArrayRaw", func() ([]byte, error) { return bip39.MnemonicToByteArray(m, true) })
	if r.Intn(4) == 0 {
		bs("NewSeedWithErrorChecking", func() ([]byte, error) { return bip39.NewSeedWithErrorChecking(m, p) })
		bs("bip39.NewSeed", func() ([]byte, error) { return bip39.NewSeed(m, p), nil })
	}
	buf := s.bufs[r.Intn(len(s.bufs))]
	bs("HashRipeMD160onSha256", func() ([]byte, error) { return bip32.HashRipeMD160onSha256(buf) })
	bs("ChecksumDblSha256", func() ([]byte, error) { return bip32.ChecksumDblSha256(buf) })
	// the argument is part of the result of AddChecksum only by value
	bs("AddChecksumDblSha256ToBytes", func() ([]byte, error) { return bip32.AddChecksumDblSha256ToBytes(cp(buf)) })
	k := s.keys[r.Intn(len(s.keys))]
	bs("Serialize", func() ([]byte, error) { return k.Serialize() })
	seed, hexs := s.seeds[r.Intn(len(s.seeds))], s.hexes[r.Intn(len(s.hexes))]
	ptr := func(k *bip32.Key, err error) (string, func()) {
		if k == nil {
			return "nil " + es(err), func() {}
		}
		return hx(k[:]) + es(err), func() { trash(k[:]) }
	}
	add("NewMasterKey", func() (string, func()) { return ptr(bip32.NewMasterKey(seed)) })
	add("RootKeyFromSeed", func() (string, func()) { return ptr(util.RootKeyFromSeed(hexs)) })
	pub := s.pubs[r.Intn(len(s.pubs))]
	add("ExpandPublicKey", func() (string, func()) {
		x, y := bip32.ExpandPublicKey(pub)
		return fmt.Sprintf("%x %x", x, y), func() { trashBig(x); trashBig(y) }
	})
	pt := s.paths[r.Intn(len(s.paths))]
	add("ValuesAtDepth", func() (string, func()) {
		v, err := pt.ValuesAtDepth()
		return fmt.Sprint(v, es(err)), func() {
			v = v[:cap(v)]
			for i := range v {
				v[i] ^= 0x5a5a5a5a
			}
		}
	})
	g := s.gens[r.Intn(len(s.gens))]
	add("DeriveBIP32Result", func() (string, func()) {
		o, err := g.DeriveBIP32Result(pt)
		rk := *g.RootKey()
		return showKPs(o) + es(err) + hx(rk[:]), func() { trashKPs(o) }
	})
	gk := *g.RootKey()
	add("DeriveBIP32ResultFresh", func() (string, func()) {
		var g util.Generator
		g.SetRootKey(gk)
		o, err := g.DeriveBIP32Result(pt)
		return showKPs(o) + es(err), func() { trashKPs(o); *g.RootKey() = bip32.Key{} }
	})
	a := genIndex(r)
	kr := util.KeyPathRange{StartIndex: a, EndIndex: a + 2, KeyPath: util.KeyPath{Path: pt, Key: *k}}
	shared := kr
	add("GenerateRange", func() (string, func()) {
		kr := kr
		err := kr.GenerateRange()
		return showKPs(kr.KeyPaths) + es(err), func() { trashKPs(kr.KeyPaths) }
	})
	add("GenerateRangeSameObject", func() (string, func()) {
		err := shared.GenerateRange()
		return showKPs(shared.KeyPaths) + es(err), func() {
			if err == nil {
				trashKPs(shared.KeyPaths)
				shared.KeyPaths = nil
			}
		}
	})
	add("NewChildKey", func() (string, func()) {
		c, err := k.NewChildKey(a)
		return hx(c[:]) + es(err), func() { trash(c[:]); c.SetVersionUint32(7) }
	})
	add("PublicKeyExtended", func() (string, func()) {
		c := k.PublicKeyExtended()
		return hx(c[:]), func() { trash(c[:]) }
	})
	return
}

func init() {
	props["X02"] = func(c *Check) {
		c.Rule = "non-trivial: a call whose result was compared with an earlier result of the same call (in this process, in a replay, after scribbling over returned memory, or in another process); plus a verdict on argument memory and held results for every recorded call"
		c.Require = []string{"repeated-call", "replayed-operation", "more-than-2^16-calls-of-one-operation", "scribbled-and-repeated", "objects-copied", "key-changed-in-place", "results-apart", "mixed-history", "other-history-in-another-process", "like-calls-in-another-process", "argument-memory-watched"}
		m := &memo{}
		c.On("#mutation", func(w *W, e *Event) {
			w.Fail(e, "a call modified memory of its caller", e.Mutated, "unchanged")
		})
		c.On("*", func(w *W, e *Event) {
			w.Feat("argument-memory-watched")
			m.check(w, e)
		})
		c.mixed(c.N(1200, 12000))
		for _, lang := range []string{"english", "japanese"} {
			c.selectLang(lang)
			c.Par("hostile-"+lang, c.N(2500, 60000), func(w *W, i int) {
				for k := 0; k < 6; k++ {
					attack(w, i+k*5, lang)
				}
			})
		}
		c.selectLang("english")
		// the same hostile arguments in the opposite order
		c.Par("again", c.N(2500, 60000), func(w *W, i int) {
			w.R = c.caseRand("hostile-english", c.N(2500, 60000)-1-i)
			for k := 0; k < 6; k++ {
				attack(w, c.N(2500, 60000)-1-i+k*5, "english")
			}
		})
		c.histories(c.N(400, 6000))
		c.scribble(c.N(700, 12000))
		c.apart(c.N(700, 12000))
		c.inPlace(c.N(1500, 30000))
		c.copies(c.N(600, 12000))
		c.replayPool("english", c.N(70000, 400000))
		c.replayPool("japanese", c.N(3000, 70000))
		c.marathon()
		c.selectLang("english")
		c.otherFirst(m)
		c.otherHistories("english", c.N(18, 240))
		c.otherHistories("spanish", c.N(6, 60))
	}
}

// histories: language switches and failing calls between equal calls; the memo monitor compares.
func (c *Check) histories(n int) {
	langs := []string{"english", "spanish", "french", "chinese_traditional", "chinese_simplified", "english", "italian", "portuguese", "czech", "korean", "japanese"}
	c.Seqn("switching-histories", n, func(w *W, i int) {
		// two pools used in turns; cases i and i+1 share one, so equal calls recur around switches
		lang := langs[i%len(langs)]
		w.SetWordList(lang)
		w.R = c.caseRand("switching-pool", i/44*11+i%11)
		p := newPool(w, lang)
		for s := 0; s < 40; s++ {
			o := mixOps[w.R.Intn(len(mixOps))]
			if !o.slow || w.R.Intn(12) == 0 {
				o.f(w, p)
			}
		}
		w.Feat("switching-history")
	})
	c.selectLang("english")
}

func (c *Check) scribble(n int) {
	c.Par("scribble", n, func(w *W, i int) {
		s := newShared(w.R, "english")
		sc := scribblers(w.R, s)
		ref := map[string]string{}
		for k, x := range sc {
			var a, b string
			var wreck func()
			if p := guard(func() { a, wreck = x.call() }); p != "" {
				w.Fail(nil, "the library panicked: "+x.name+": "+p, nil, nil)
				return
			}
			wreck()
			if p := guard(func() { b, _ = x.call() }); p != "" {
				w.Fail(nil, "the library panicked: "+x.name+": "+p, nil, nil)
				return
			}
			w.EvalKey(fmt.Sprint(i, k, x.name, a), true)
			w.ops["scribbled:"+x.name]++
			if a != b {
				w.Fail(nil, "changing the result of "+x.name+" changed what the next call returns", b, a)
			}
			ref[x.name] = a
		}
		for _, x := range sc { // everything again after all the scribbling
			var a string
			if p := guard(func() { a, _ = x.call() }); p != "" || a != ref[x.name] {
				w.Fail(nil, "changing results of other operations changed what "+x.name+" returns", p+a, ref[x.name])
			}
		}
		w.Feat("scribbled-and-repeated")
	})
}

// live is a result of the library that the caller still has.
type live struct {
	name  string
	read  func() string
	wreck func() // overwrites all of its memory, spare capacity included
}

func liveBytes(name string, b []byte) live {
	return live{name, func() string { return hx(b) }, func() { trash(b) }}
}

func liveKPs(name string, o []util.KeyPath) live {
	return live{name, func() string { return showKPs(o) }, func() { trashKPs(o) }}
}

func liveKey(name string, k *bip32.Key) live {
	return live{name, func() string { return hx(k[:]) }, func() { trash(k[:]) }}
}

// producers make results that share no memory with anything.
func producers(r *rand.Rand, s *shared) (out []func() (live, bool)) {
	bs := func(n string, f func() ([]byte, error)) {
		out = append(out, func() (live, bool) { b, err := f(); return liveBytes(n, b), err == nil })
	}
	m := func() string { return s.sents[r.Intn(10)] }
	bs("EntropyFromMnemonic", func() ([]byte, error) { return bip39.EntropyFromMnemonic(m()) })
	bs("MnemonicToByteArray", func() ([]byte, error) { return bip39.MnemonicToByteArray(m(), r.Intn(2) == 0) })
	if r.Intn(5) == 0 {
		bs("bip39.NewSeed", func() ([]byte, error) { return bip39.NewSeed(m(), ""), nil })
		bs("NewSeedWithErrorChecking", func() ([]byte, error) { return bip39.NewSeedWithErrorChecking(m(), "x") })
	}
	bs("NewEntropy", func() ([]byte, error) { return bip39.NewEntropy(128 + 32*r.Intn(5)) })
	bs("bip32.NewSeed", bip32.NewSeed)
	buf := func() []byte { return s.bufs[r.Intn(len(s.bufs))] }
	bs("HashRipeMD160onSha256", func() ([]byte, error) { return bip32.HashRipeMD160onSha256(buf()) })
	bs("ChecksumDblSha256", func() ([]byte, error) { return bip32.ChecksumDblSha256(buf()) })
	bs("AddChecksumDblSha256ToBytes", func() ([]byte, error) { return bip32.AddChecksumDblSha256ToBytes(buf()) })
	bs("Serialize", func() ([]byte, error) { return s.keys[r.Intn(len(s.keys))].Serialize() })
	out = append(out, func() (live, bool) {
		k, err := bip32.NewMasterKey(s.seeds[r.Intn(len(s.seeds))])
		return liveKey("NewMasterKey", k), err == nil && k != nil
	}, func() (live, bool) {
		k, _ := util.RootKeyFromSeed(s.hexes[r.Intn(len(s.hexes))])
		return liveKey("RootKeyFromSeed", k), k != nil
	}, func() (live, bool) {
		x, y := bip32.ExpandPublicKey(s.pubs[r.Intn(len(s.pubs))])
		return live{"ExpandPublicKey", func() string { return fmt.Sprintf("%x %x", x, y) }, func() {
			for _, v := range []*big.Int{x, y} {
				w := v.Bits()
				for i := range w[:cap(w)] {
					w[:cap(w)][i] ^= 0x5a5a5a
				}
			}
		}}, x != nil && y != nil
	}, func() (live, bool) {
		v, err := s.paths[r.Intn(len(s.paths))].ValuesAtDepth()
		return live{"ValuesAtDepth", func() string { return fmt.Sprint(v) }, func() {
			v := v[:cap(v)]
			for i := range v {
				v[i] ^= 0x5a5a5a5a
			}
		}}, err == nil
	}, func() (live, bool) {
		o, err := s.gens[r.Intn(len(s.gens))].DeriveBIP32Result(s.paths[r.Intn(len(s.paths))])
		return liveKPs("DeriveBIP32Result", o), err == nil
	}, func() (live, bool) {
		a := genIndex(r)
		kr := util.KeyPathRange{StartIndex: a, EndIndex: a + 1 + uint32(r.Intn(3)), KeyPath: util.KeyPath{Path: "m", Key: *s.keys[r.Intn(len(s.keys))]}}
		err := kr.GenerateRange()
		return liveKPs("GenerateRange", kr.KeyPaths), err == nil
	})
	return
}

// apart: overwriting one result, or extending it in place, leaves the others alone.
func (c *Check) apart(n int) {
	c.Par("results-apart", n, func(w *W, i int) {
		s := newShared(w.R, "english")
		ps := producers(w.R, s)
		var held []live
		add := func(f func() (live, bool)) {
			var l live
			var ok bool
			if p := guard(func() { l, ok = f() }); p != "" {
				w.Fail(nil, "the library panicked: "+p, nil, nil)
			} else if ok {
				held = append(held, l)
			}
		}
		for _, f := range ps {
			for k := 1 + w.R.Intn(4); k > 0; k-- { // neighbours of one kind
				add(f)
			}
		}
		for k := 0; k < 10; k++ {
			add(ps[w.R.Intn(len(ps))])
		}
		was := make([]string, len(held))
		for k, l := range held {
			was[k] = l.read()
		}
		gone := make([]bool, len(held))
		for _, k := range w.R.Perm(len(held))[:len(held)/2] {
			held[k].wreck()
			gone[k] = true
			for j, l := range held {
				if gone[j] {
					continue
				}
				if now := l.read(); now != was[j] {
					w.Fail(nil, "overwriting a result of "+held[k].name+" (and its spare capacity) changed a result of "+l.name, now, was[j])
					was[j] = now
				}
			}
			w.EvalKey(fmt.Sprint("apart", i, k, held[k].name), true)
			w.ops["wrecked:"+held[k].name]++
		}
		w.Feat("results-apart")
	})
}

// otherHistories: the same calls in fresh processes in other orders must give what they give here.
func (c *Check) otherHistories(lang string, n int) {
	c.selectLang(lang)
	orders := []string{"forward", "reverse", "shuffle", "last-only", "each-twice", "by-operation"}
	c.Par("other-histories-"+lang, n, func(w *W, i int) {
		order := orders[i%len(orders)]
		cfg := childCfg{Mode: "transcript", Seed: mix(uint64(c.Seed), uint64(i/len(orders)), 77), Lang: lang, N: c.N(900, 5000), Order: order, Shuffle: int64(i)}
		ref, bad := transcript(cfg.Seed, lang, cfg.N, "forward", 0)
		for _, b := range bad {
			w.Fail(nil, b, nil, nil)
		}
		res := c.child(w, cfg, childOpt{timeout: 300 * time.Second})
		if res == nil {
			return
		}
		c.compare(w, cfg, res, ref, "in a process with another history ("+order+")")
		w.Feat("other-history-in-another-process")
	})
	c.selectLang("english")
}

// compare checks the digests of a child against those of this process.
func (c *Check) compare(w *W, cfg childCfg, res *childRes, ref map[int]uint64, how string) {
	bad := 0
	for k, got := range res.Digests {
		w.evals++
		w.distinct[uint64(k)<<32^uint64(mix(uint64(w.Case), strHash(w.Phase)))>>32] = struct{}{}
		if got != ref[k] && bad < 3 {
			bad++
			d := describe(cfg.Seed, cfg.Lang, cfg.N, k)
			w.Fail(nil, "a call gives another result "+how+": "+d.op+" "+d.desc, fmt.Sprintf("digest %x", got), fmt.Sprintf("digest %x, now %s", ref[k], d.f()))
		}
	}
}
