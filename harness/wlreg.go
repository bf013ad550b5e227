package main

// R01 and R02: the registries against the shipped documents and against each other.

import (
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip44"

	"verifharness/oracle"
)

func trim(s string) string { return strings.TrimFunc(s, unicode.IsSpace) }

// slip44 parses the SLIP-0044 document the package ships: the named, non-reserved rows.
func slip44() (rows []bip44.Coin, repaired int, err error) {
	b, err := bip44.Slip044FS.ReadFile(bip44.Slip044FileName)
	if err != nil {
		return nil, 0, err
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Split(l, "|")
		if len(f) < 4 || trim(f[0]) != "" {
			continue
		}
		t, e1 := strconv.ParseUint(trim(f[1]), 10, 32)
		pc, e2 := strconv.ParseUint(trim(f[2]), 0, 32)
		if e1 != nil || e2 != nil {
			continue
		}
		c := bip44.Coin{Type: uint32(t), PathComponent: uint32(pc), Symbol: trim(f[3])}
		if len(f) > 4 {
			c.Name = trim(f[4])
		} else {
			c.Symbol, c.Name = "", c.Symbol
		}
		if c.Symbol+c.Name == "" || strings.Contains(strings.ToLower(c.Name), "reserved") {
			continue
		}
		if c.PathComponent != c.Type+0x80000000 { // the document contradicts itself: the path component counts
			c.Type = c.PathComponent - 0x80000000
			repaired++
		}
		rows = append(rows, c)
	}
	return
}

func coinOK(c bip44.Coin) bool {
	return trim(c.Name)+trim(c.Symbol) != "" && c.Type < 1<<31 && uint64(c.PathComponent) == uint64(c.Type)+1<<31
}

func monR01(c *Check) {
	c.On("Coin.IsValid", func(w *W, e *Event) {
		x := bip44.Coin{Type: e.In[0].(uint32), PathComponent: e.In[1].(uint32), Symbol: e.In[2].(string), Name: e.In[3].(string)}
		w.Eval(e, true)
		got, want := e.Out[0].(bool), coinOK(x)
		w.FeatIf(!want, "invalid-coin")
		w.FeatIf(want, "valid-coin")
		w.FeatIf(!want && trim(x.Name)+trim(x.Symbol) == "" && x.PathComponent == x.Type+1<<31, "blank-coin")
		if got != want {
			w.Fail(e, "coin validity", got, want)
		}
	})
}

// registry44 compares the whole registry with the document and the look-up tables with the registry.
func registry44(w *W, rows []bip44.Coin) {
	count := map[bip44.Coin]int{}
	for _, r := range rows {
		count[r]++
	}
	types, comps, names := map[uint32]bip44.Coin{}, map[uint32]bip44.Coin{}, map[string][]bip44.Coin{}
	for _, x := range bip44.RegCoins {
		w.EvalKey(fmt.Sprintf("coin %v", x), true)
		w.CoinValid(x)
		if !coinOK(x) {
			w.Fail(nil, "a registered coin is not valid", x.StringForMD(), "type + 2^31 = path component, with a name or symbol")
		}
		if count[x] == 0 {
			w.Fail(nil, "a registered coin is not a named row of the shipped document", x.StringForMD(), "")
		}
		count[x]--
		if o, ok := types[x.Type]; ok {
			w.Fail(nil, "two registered coins with one type", x.StringForMD(), o.StringForMD())
		}
		if o, ok := comps[x.PathComponent]; ok {
			w.Fail(nil, "two registered coins with one path component", x.StringForMD(), o.StringForMD())
		}
		types[x.Type], comps[x.PathComponent] = x, x
		names[x.Name] = append(names[x.Name], x)
	}
	for r, n := range count {
		if n > 0 {
			w.Fail(nil, "a named row of the shipped document is not registered", r.StringForMD(), "")
		}
	}
	for t, x := range types {
		w.EvalKey(fmt.Sprintf("by type %d", t), true)
		if got, ok := bip44.RegBip44CoinsTypeToValMap[t]; !ok || got != x {
			w.Fail(nil, fmt.Sprintf("look-up by type %d", t), got.StringForMD(), x.StringForMD())
		}
	}
	for t, x := range comps {
		w.EvalKey(fmt.Sprintf("by component %d", t), true)
		if got, ok := bip44.RegBip44CoinsPathCompToValMap[t]; !ok || got != x {
			w.Fail(nil, fmt.Sprintf("look-up by path component %#x", t), got.StringForMD(), x.StringForMD())
		}
	}
	for n, xs := range names {
		w.EvalKey("by name "+n, true)
		w.FeatIf(len(xs) > 1, "shared-name")
		got, ok := bip44.RegBip44CoinsNameToValMap[n]
		hit := false
		for _, x := range xs {
			hit = hit || got == x
		}
		if !ok || !hit {
			w.Fail(nil, fmt.Sprintf("look-up by name %q gives no registered coin of that name", n), got.StringForMD(), xs[0].StringForMD())
		}
	}
	for t, x := range bip44.RegBip44CoinsTypeToValMap {
		if types[t] != x || x.Type != t {
			w.Fail(nil, fmt.Sprintf("look-up by type %d knows an unregistered coin", t), x.StringForMD(), "nothing")
		}
	}
	for t, x := range bip44.RegBip44CoinsPathCompToValMap {
		if comps[t] != x || x.PathComponent != t {
			w.Fail(nil, fmt.Sprintf("look-up by path component %#x knows an unregistered coin", t), x.StringForMD(), "nothing")
		}
	}
	for n, x := range bip44.RegBip44CoinsNameToValMap {
		if len(names[n]) == 0 || x.Name != n {
			w.Fail(nil, fmt.Sprintf("look-up by name %q knows an unregistered coin", n), x.StringForMD(), "nothing")
		}
	}
}

// slip132 parses the SLIP-0132 document in the repository; the table is fixed-width text.
func slip132(repo string) ([]oracle.Row, error) {
	b, err := os.ReadFile(filepath.Join(repo, "bip32", "slip-0132.md"))
	if err != nil {
		return nil, err
	}
	enc := map[string][]string{
		"P2PKH or P2SH": {"P2PKH", "P2SH"}, "P2WPKH in P2SH": {"P2WPKHInP2SH"}, "P2WPKH": {"P2WPKH"}, "P2PKH": {"P2PKH"},
		"Multi-signature P2WSH in P2SH": {"P2WSHInP2SH"}, "Multi-signature P2WSH": {"P2WSH"}, "P2PKT or P2PKH or P2SH": {"P2PKT", "P2PKH", "P2SH"},
	}
	var out []oracle.Row
	for _, l := range strings.Split(string(b), "\n") {
		i := strings.Index(l, "`0x")
		if i < 0 {
			continue
		}
		f := strings.Split(l[i:], "`") // "", 0xPUB, " - ", pub, "  ", 0xPRIV, " - ", prv, rest
		if len(f) != 9 {
			return nil, fmt.Errorf("row not understood: %q", l)
		}
		pub, e1 := strconv.ParseUint(f[1], 0, 32)
		prv, e2 := strconv.ParseUint(f[5], 0, 32)
		rest := strings.Fields(f[8])
		if e1 != nil || e2 != nil || len(rest) < 2 {
			return nil, fmt.Errorf("row not understood: %q", l)
		}
		r := oracle.Row{Coin: trim(l[:i]), PubPrefix: f[3], PrivPrefix: f[7], Path: rest[len(rest)-1], Pub: uint32(pub), Priv: uint32(prv)}
		if r.Path == "-" {
			r.Path = ""
		}
		e := enc[strings.Join(rest[:len(rest)-1], " ")]
		if e == nil {
			return nil, fmt.Errorf("address encoding not understood: %q", l)
		}
		r.Enc = e
		out = append(out, r)
	}
	if len(out) == 0 {
		return nil, fmt.Errorf("no rows")
	}
	return out, nil
}

func rowKey(coin string, pub, priv uint32, pubP, privP string, enc []string, path string) string {
	e := append([]string{}, enc...)
	sort.Strings(e)
	return fmt.Sprintf("%s pub %08x %s priv %08x %s %v %s", coin, pub, pubP, priv, privP, e, path)
}

func libKey(r bip32.VersionBytes, path string) string {
	var e []string
	for _, x := range r.AddrEncodings {
		e = append(e, string(x))
	}
	return rowKey(r.Coin, r.PubKeyFlag, r.PvtKeyFlag, r.PubKeyPrefix, r.PvKeyPrefix, e, path)
}

// twoHardened reads a path of exactly two hardened components; digits as written.
func twoHardened(p string) (a, b uint32, ok, short bool) {
	t := oracle.StripWS(p)
	v, valid := oracle.ParsePath(t)
	if !valid || len(v) != 2 || v[0] < 1<<31 || v[1] < 1<<31 || !strings.HasPrefix(t, "m") {
		return 0, 0, false, false
	}
	f := strings.Split(t, "/")
	return v[0] - 1<<31, v[1] - 1<<31, true, len(f[1]) <= 9 && len(f[2]) <= 9
}

func monR02(c *Check) {
	c.On("VersionBytes", func(w *W, e *Event) {
		p := e.In[3].(string)
		v := e.Out[0].(RowView)
		a, b, ok, short := twoHardened(p)
		w.Eval(e, true)
		w.FeatIf(ok && short, "row-values-read")
		w.FeatIf(!ok, "row-refused")
		read := v.EP == nil && v.EC == nil
		switch {
		case (v.EP == nil) != (v.EPF == nil) || (v.EC == nil) != (v.ECF == nil):
			w.Fail(e, "plain and hardened value disagree about the row's path", fmt.Sprint(v.EP, v.EPF, v.EC, v.ECF), "all or none")
		case v.Valid && !read:
			w.Fail(e, "a valid row's purpose or coin value cannot be read", fmt.Sprint(v.EP, v.EC), "values")
		case !ok && (v.Valid || v.EP == nil || v.EC == nil):
			w.Fail(e, "values read from a path that is not two hardened indices", fmt.Sprintf("%+v", v), "errors")
		case ok && short && !v.Valid:
			w.Fail(e, "a path of two hardened indices is refused", fmt.Sprintf("%+v", v), fmt.Sprintf("%d %d", a, b))
		case v.EP == nil && (v.Purpose != a || v.PurposeFull != a+1<<31):
			w.Fail(e, "purpose value", fmt.Sprintf("%d %d", v.Purpose, v.PurposeFull), a)
		case v.EC == nil && (v.Coin != b || v.CoinFull != b+1<<31):
			w.Fail(e, "coin value", fmt.Sprintf("%d %d", v.Coin, v.CoinFull), b)
		}
		priv, pub := e.In[1].(uint32), e.In[2].(uint32)
		if be(v.PvtB) != priv || be(v.PubB) != pub {
			w.Fail(e, "version bytes of the row", fmt.Sprintf("%x %x", v.PvtB, v.PubB), fmt.Sprintf("%08x %08x", priv, pub))
		}
		reg := false
		for q := range bip32.PathToHDBytesSlice {
			reg = reg || q == oracle.StripWS(p)
		}
		if v.Registered != reg {
			w.Fail(e, "registered path", v.Registered, reg)
		}
	})
}

func be(b [4]byte) uint32 {
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

// index compares one look-up table with the list of rows: exactly the rows having the value, for every value.
func index[K comparable](w *W, name string, rows []bip32.VersionBytes, table map[K][]bip32.VersionBytes, key func(r bip32.VersionBytes) K) {
	want := map[K][]string{}
	for _, r := range rows {
		want[key(r)] = append(want[key(r)], libKey(r, string(r.Path)))
	}
	check := func(k K) {
		var got []string
		for _, r := range table[k] {
			got = append(got, libKey(r, string(r.Path)))
		}
		sort.Strings(got)
		sort.Strings(want[k])
		w.EvalKey(fmt.Sprintf("index %s %v", name, k), true)
		if strings.Join(got, "\n") != strings.Join(want[k], "\n") {
			w.Fail(nil, fmt.Sprintf("index by %s, value %v", name, k), strings.Join(got, "; "), strings.Join(want[k], "; "))
		}
	}
	for k := range want {
		check(k)
	}
	for k := range table {
		if len(want[k]) == 0 {
			check(k)
			if len(table[k]) == 0 {
				w.Fail(nil, fmt.Sprintf("index by %s has an empty entry %v", name, k), "entry", "none")
			}
		}
	}
}

func registry32(w *W, doc []oracle.Row) {
	rows := bip32.HDVersionBytesSlice
	paths := map[string]string{}
	for _, r := range doc {
		if r.Path != "" {
			paths[fmt.Sprintf("%s %x", r.Coin, r.Priv)] = r.Path
		}
	}
	want := map[string]int{}
	for _, r := range doc {
		want[rowKey(r.Coin, r.Pub, r.Priv, r.PubPrefix, r.PrivPrefix, r.Enc, r.Path)]++
	}
	for _, r := range rows {
		p := paths[fmt.Sprintf("%s %x", r.Coin, r.PvtKeyFlag)]
		if p != "" {
			p = string(r.Path)
		}
		k := libKey(r, p)
		w.EvalKey("row "+k, true)
		w.Row(r)
		if want[k] == 0 {
			w.Fail(nil, "a registered version row is not in the shipped table", k, "")
			continue
		}
		want[k]--
		if _, _, ok, _ := twoHardened(string(r.Path)); !ok {
			w.Fail(nil, "a registered version row has no two-level hardened path", string(r.Path), "")
		}
	}
	for k, n := range want {
		if n > 0 {
			w.Fail(nil, "a row of the shipped table is not registered", "", k)
		}
	}
	index(w, "path", rows, bip32.PathToHDBytesSlice, func(r bip32.VersionBytes) string { return string(r.Path) })
	index(w, "private version", rows, bip32.PvtFlagToHDBytesSlice, func(r bip32.VersionBytes) uint32 { return r.PvtKeyFlag })
	index(w, "public version", rows, bip32.PubFlagToHDBytesSlice, func(r bip32.VersionBytes) uint32 { return r.PubKeyFlag })
	pv := func(r bip32.VersionBytes) uint32 { a, _, _, _ := twoHardened(string(r.Path)); return a }
	cv := func(r bip32.VersionBytes) uint32 { _, b, _, _ := twoHardened(string(r.Path)); return b }
	index(w, "purpose", rows, bip32.PurposeToHDBytesSlice, pv)
	index(w, "hardened purpose", rows, bip32.PurposeFullToHDBytesSlice, func(r bip32.VersionBytes) uint32 { return pv(r) + 1<<31 })
	index(w, "coin type", rows, bip32.CoinTypeToHDBytesSlice, cv)
	for _, d := range []struct {
		name string
		r    bip32.VersionBytes
		coin string
	}{{"DefaultMainnetVersion", bip32.DefaultMainnetVersion, "Bitcoin"}, {"DefaultTestnetVersion", bip32.DefaultTestnetVersion, "Bitcoin Testnet"}} {
		if d.r.Coin != d.coin || !strings.HasPrefix(string(d.r.Path), "m/44'/") {
			w.Fail(nil, d.name+" is not the standard row", libKey(d.r, string(d.r.Path)), d.coin)
		}
	}
}

// libPrefixes: what keys serialized by the library under the row begin with.
func libPrefixes(w *W, r bip32.VersionBytes) {
	k := genPriv(w.R)
	switch w.R.Intn(4) {
	case 0: // extreme payloads
		for i := 4; i < 45; i++ {
			k[i] = 0
		}
	case 1:
		for i := 4; i < 45; i++ {
			k[i] = 0xff
		}
	}
	k.SetVersion(r.PvtKeyFlag)
	pub := oracle.PubForm(k)
	pub.SetVersion(r.PubKeyFlag)
	for _, x := range []struct {
		k    XKey
		want string
	}{{k, r.PvKeyPrefix}, {pub, r.PubKeyPrefix}} {
		s := w.B58Serialize(x.k)
		w.EvalKey("prefix "+oracle.Hex(x.k[:]), true)
		w.Feat("prefix-" + r.Coin)
		if !strings.HasPrefix(s, x.want) {
			w.Known(nil, "prefix:"+strings.ReplaceAll(r.Coin, " ", "-")+":"+x.want, fmt.Sprintf("keys of %s with version %08x do not begin with the registered prefix", r.Coin, x.k.Version()), s, x.want+"...")
		}
	}
}

// genRow returns a version row that the library has or one whose fields come from several, from constants, from nowhere.
func genRow(w *W) bip32.VersionBytes {
	r := w.R
	row := func() bip32.VersionBytes { return bip32.HDVersionBytesSlice[r.Intn(len(bip32.HDVersionBytesSlice))] }
	v := bip32.VersionBytes{}
	if r.Intn(3) > 0 {
		v = row()
	}
	flag := func(old uint32) uint32 {
		if x, ok := dictNum(r); ok {
			return uint32(x)
		}
		return pick(r, old, old, old, 0, row().PvtKeyFlag, row().PubKeyFlag, r.Uint32(), 0xffffffff)
	}
	text := func(old string) string {
		if s, ok := dictStr(r); ok {
			return s
		}
		return pick(r, old, old, old, "", row().Coin, row().PvKeyPrefix, row().PubKeyPrefix, "x")
	}
	v.PvtKeyFlag, v.PubKeyFlag = flag(v.PvtKeyFlag), flag(v.PubKeyFlag)
	v.Coin, v.PvKeyPrefix, v.PubKeyPrefix = text(v.Coin), text(v.PvKeyPrefix), text(v.PubKeyPrefix)
	switch r.Intn(4) {
	case 0:
		v.AddrEncodings = nil
		for n := r.Intn(6); n > 0; n-- {
			v.AddrEncodings = append(v.AddrEncodings, pick(r, bip32.P2PKH, bip32.P2SH, bip32.P2WPKH, bip32.P2WSH, "", "P2TR"))
		}
	case 1:
		v.AddrEncodings = slices.Clone(row().AddrEncodings)
	}
	switch r.Intn(4) {
	case 0:
		v.Path = row().Path
	case 1:
		v.Path = bip32.Path(hostileRowPath(w))
	}
	return v
}

func hostileRowPath(w *W) string {
	r := w.R
	num := func() string {
		if x, ok := dictNum(r); ok {
			return strconv.FormatUint(x&(1<<31-1), 10)
		}
		switch r.Intn(9) {
		case 0:
			return pick(r, "44", "49", "84", "0", "1", "57", "29223", "1997")
		case 1:
			return strconv.Itoa(r.Intn(100000000))
		case 2:
			return fmt.Sprintf("%0*d", 1+r.Intn(9), r.Intn(1000))
		case 3:
			return strconv.FormatUint(uint64(r.Uint32()), 10)
		case 4:
			return pick(r, "2147483647", "2147483648", "4294967295", "4294967296", "4294967340", "99999999", "100000000", "18446744073709551616", "9223372036854775808")
		case 5:
			return pick(r, "", "-1", "+1", "0x10", "1_0", "1e3", "٤٤", "４４", " 44", "4 4", "44\n", "\t")
		default:
			return strconv.Itoa(r.Intn(200))
		}
	}
	h := func() string { return pick(r, "'", "'", "'", "'", "'", "", "''", "h", "H", "’", " '") }
	p := pick(r, "m", "m", "m", "m", "m", "m", "M", "", "n", "mm", " m", "m ") + "/" + num() + h() + "/" + num() + h()
	switch r.Intn(14) {
	case 0:
		p += "/0"
	case 1:
		p += "/0'"
	case 2:
		p = "m/" + num() + h()
	case 3:
		p += pick(r, "\n", " ", "x", "/")
	case 4:
		p = genPathAny(r)
	case 5:
		p = pick(r, "", "m", "/", "m/", "m//", "m/'/'", "m/44'/'", "m/'/0'")
	case 6:
		p = pick(r, "x", "\n", "m/1'/1'\n") + p
	}
	return p
}

func init() {
	props["R01"] = func(c *Check) {
		c.Rule = "the whole coin registry, row by row, against the shipped SLIP-0044 document (parsed here) and against the three look-up tables in both directions; Coin.IsValid on every registered coin, every single-field mutation of it and on hostile coins; non-trivial: distinct rows, look-up keys and coins"
		c.Require = []string{"blank-coin", "invalid-coin", "valid-coin", "shared-name"}
		monR01(c)
		rows, rep, err := slip44()
		if err != nil || len(rows) < 100 {
			c.Inconclusive(fmt.Sprintf("the shipped SLIP-0044 document cannot be read: %v, %d rows", err, len(rows)))
			return
		}
		c.extra["document_rows"] = len(rows)
		c.extra["document_rows_contradicting_themselves"] = rep
		c.extra["registered_coins"] = len(bip44.RegCoins)
		c.Seqn("registry", 1, func(w *W, i int) { registry44(w, rows) })
		c.Par("registered-coins", len(bip44.RegCoins), func(w *W, i int) {
			x := bip44.RegCoins[i]
			for _, y := range []bip44.Coin{x, {x.Type, x.PathComponent, "", x.Name}, {x.Type, x.PathComponent, x.Symbol, ""}, {x.Type, x.PathComponent, "", ""},
				{x.Type, x.PathComponent, " ", "\t\u00a0\u3000"}, {x.Type + 1, x.PathComponent, x.Symbol, x.Name}, {x.Type, x.PathComponent ^ 1, x.Symbol, x.Name},
				{x.PathComponent, x.Type, x.Symbol, x.Name}, {x.Type, x.Type, x.Symbol, x.Name}, {x.PathComponent, x.PathComponent, x.Symbol, x.Name}} {
				w.CoinValid(y)
			}
		})
		c.Par("hostile-coins", c.N(60000, 2000000), func(w *W, i int) {
			r := w.R
			txt := func() string {
				return pick(r, "", "", " ", "\n", "\u2003", "\u200b", "BTC", "x", "\xff", "\u0085", "\ufeff", " a ", "Bitcoin")
			}
			t := pick(r, 0, 1, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, r.Uint32(), r.Uint32()&0x7fffffff)
			pc := pick(r, t+0x80000000, t+0x80000000, t, t^0x80000000, t|0x80000000, r.Uint32(), t+1, t+0x7fffffff)
			w.CoinValid(bip44.Coin{Type: t, PathComponent: pc, Symbol: txt(), Name: txt()})
		})
		c.mixed(c.N(60, 1000)) // the rest of the library in between
		c.Seqn("registry-again", 1, func(w *W, i int) { registry44(w, rows) })
		c.Par("unregistered-lookups", c.N(20000, 1000000), func(w *W, i int) {
			t := pick(w.R, w.R.Uint32(), uint32(w.R.Intn(20000)), uint32(w.R.Intn(20000))|1<<31)
			w.EvalKey(fmt.Sprintf("look-up %d", t), true)
			if x, ok := bip44.RegBip44CoinsTypeToValMap[t]; ok && (x.Type != t || !coinOK(x)) {
				w.Fail(nil, fmt.Sprintf("look-up by type %d", t), x.StringForMD(), "")
			}
			if x, ok := bip44.RegBip44CoinsPathCompToValMap[t]; ok && (x.PathComponent != t || !coinOK(x)) {
				w.Fail(nil, fmt.Sprintf("look-up by component %d", t), x.StringForMD(), "")
			}
		})
	}

	props["R02"] = func(c *Check) {
		c.Rule = "every registered version row against the shipped SLIP-0132 table (parsed here) and a second transcription of the published one; the six indexes against the row list in both directions; the registered prefixes against the Base58 text of keys the library serializes under each row; purpose, coin and validity of registered rows and of rows with hostile paths against an independent path parser; non-trivial: distinct rows, index values, keys and row paths"
		c.Require = []string{"row-values-read", "row-refused"}
		monR02(c)
		doc, err := slip132(c.Repo)
		if err != nil {
			c.Inconclusive("the shipped SLIP-0132 document cannot be read: " + err.Error())
			return
		}
		c.extra["document_rows"] = len(doc)
		c.extra["registered_rows"] = len(bip32.HDVersionBytesSlice)
		c.Seqn("published-table", 1, func(w *W, i int) {
			has := map[string]bool{}
			for _, r := range doc {
				has[rowKey(r.Coin, r.Pub, r.Priv, r.PubPrefix, r.PrivPrefix, r.Enc, r.Path)] = true
			}
			for _, r := range oracle.Rows {
				k := rowKey(r.Coin, r.Pub, r.Priv, r.PubPrefix, r.PrivPrefix, r.Enc, r.Path)
				w.EvalKey("published "+k, true)
				if !has[k] {
					w.Fail(nil, "the shipped table lacks a row of the published one", "", k)
				}
			}
		})
		c.Seqn("registry", 1, func(w *W, i int) { registry32(w, doc) })
		c.Par("prefixes", len(bip32.HDVersionBytesSlice)*c.N(60, 3000), func(w *W, i int) {
			libPrefixes(w, bip32.HDVersionBytesSlice[i%len(bip32.HDVersionBytesSlice)])
		})
		c.Par("row-paths", c.N(60000, 2000000), func(w *W, i int) {
			base := bip32.HDVersionBytesSlice[w.R.Intn(len(bip32.HDVersionBytesSlice))]
			switch w.R.Intn(8) {
			case 2, 3:
				w.Row(genRow(w))
			case 0:
				w.Row(base)
			case 1:
				base.Path = bip32.HDVersionBytesSlice[w.R.Intn(len(bip32.HDVersionBytesSlice))].Path
				base.PvtKeyFlag = w.R.Uint32()
				w.Row(base)
			default:
				w.Row(bip32.VersionBytes{Coin: "x", PvtKeyFlag: w.R.Uint32(), PubKeyFlag: w.R.Uint32(), Path: bip32.Path(hostileRowPath(w))})
			}
		})
		c.mixed(c.N(60, 1000))
		c.Seqn("registry-again", 1, func(w *W, i int) { registry32(w, doc) })
	}
}
