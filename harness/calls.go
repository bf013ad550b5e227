package main

// The call table: every exported operation as a closure over shared arguments, calling the library directly (no recorder,
// no synchronisation) and returning the whole observable result as text. Used where the calls must not be disturbed:
// concurrent callers, repeated process starts, replays.

import (
	"encoding/hex"
	"fmt"
	"math/rand"
	"runtime"
	"strings"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/bip44"
	"github.com/mearaj/bips/util"

	"verifharness/oracle"
)

// shared is a set of arguments that any number of callers use at the same time.
type shared struct {
	lang  string
	ents  [][]byte
	sents []string
	pass  []string
	keys  []*bip32.Key
	paths []bip32.Path
	seeds [][]byte
	hexes []string
	texts []string
	sers  [][]byte
	bufs  [][]byte
	pubs  [][]byte
	words []string
	gens  []*util.Generator
	rows  []bip32.VersionBytes
	coins []bip44.Coin
}

func newShared(r *rand.Rand, lang string) *shared {
	s := &shared{lang: lang}
	for i := 0; i < 5; i++ {
		e := genEntropy(r, entLens[i])
		s.ents = append(s.ents, e, nearEntropy(r, e))
	}
	s.ents = append(s.ents, rbytes(r, 15), []byte{})
	for _, e := range s.ents[:10] {
		m := oracle.Sentence(lang, e)
		s.sents = append(s.sents, m)
		s.words = append(s.words, strings.Fields(m)[0])
	}
	s.sents = append(s.sents, damage(r, lang, strings.Fields(s.sents[0])), damage(r, lang, strings.Fields(s.sents[3])),
		joinWS(r, strings.Fields(s.sents[1])), joinWS(r, strings.Fields(s.sents[5])), "", "x")
	s.words = append(s.words, "", "zzz", "abandon", oracle.Lists["french"][r.Intn(2048)], oracle.Lists["spanish"][r.Intn(2048)])
	for i := 0; i < 4; i++ { // words of a list as a careless caller spells them
		x := oracle.Lists[pick(r, lang, "english", "french", "spanish", "korean")][r.Intn(2048)]
		s.words = append(s.words, strings.ToUpper(x[:1])+x[1:], strings.ToUpper(x), " "+x, x+" ", nfc(x))
	}
	s.pass = []string{"", "TREZOR", genStablePass(r), genStablePass(r)}
	var ks []XKey
	pairs := &pool{lang: lang, keys: []XKey{genRoot(r)}}
	plantPair(r, pairs)
	s.ents, s.sents, s.pass = append(s.ents, pairs.ents...), append(s.sents, pairs.sents...), append(s.pass, pairs.pass...)
	for _, p := range pairs.paths {
		s.paths = append(s.paths, bip32.Path(p))
	}
	s.hexes = append(s.hexes, pairs.seeds...)
	for _, h := range pairs.seeds {
		b, _ := oracle.UnHex(h)
		s.seeds = append(s.seeds, b)
	}
	ks = append(ks, family(r, genPriv(r))...)
	ks = append(ks, family(r, genPubKey(r))...)
	ks = append(ks, genRoot(r), genRoot(r), corpusKey(r.Intn(2000)), corpusKey(r.Intn(2000)), genKey(r), genKey(r))
	for i := 0; i < 6; i++ { // one key per version and kind, same material
		k := ks[0]
		if k.Private() {
			k.SetVersion(oracle.PrivVersions[(i*3+r.Intn(3))%len(oracle.PrivVersions)])
		}
		ks = append(ks, k, oracle.PubForm(k))
	}
	ks = append(ks, pairs.keys...)
	u := genPriv(r)
	u.SetVersion(genUnregistered(r))
	ks = append(ks, u, XKey{})
	for _, k := range ks {
		kk := bip32.Key(k)
		s.keys = append(s.keys, &kk)
		if !k.Private() && k.MaterialOK() {
			s.pubs = append(s.pubs, cp(k[45:]))
		}
	}
	s.pubs = append(s.pubs, specialPubs[r.Intn(edgePubs)][:], specialPubs[r.Intn(len(specialPubs))][:])
	for i := 0; i < 14; i++ {
		s.paths = append(s.paths, bip32.Path(genPathText(r, genIdxs(r, 7))))
	}
	for i := 0; i < 4; i++ {
		if p := genBadPath(r); len(p) < 300 {
			s.paths = append(s.paths, bip32.Path(p))
		}
	}
	for i := 0; i < 6; i++ {
		b := genSeed(r)
		s.seeds = append(s.seeds, b)
		s.hexes = append(s.hexes, oracle.Hex(b), strings.ToUpper(oracle.Hex(b)))
	}
	s.hexes = append(s.hexes, "", "00", "zz", strings.Repeat("0", 31), strings.Repeat("ab", 15))
	for i, k := range ks {
		b := oracle.Serialize(k)
		t := oracle.B58Encode(b)
		switch i % 4 {
		case 1:
			b[r.Intn(82)] ^= 1 << r.Intn(8)
		case 2:
			c := make([]byte, r.Intn(82), 82) // spare capacity behind the data
			copy(c, b)
			s.sers = append(s.sers, c)
			t = t[:len(t)-1] + "1"
		}
		s.sers = append(s.sers, b)
		s.texts = append(s.texts, t)
	}
	for i := 0; i < 6; i++ {
		b := make([]byte, r.Intn(100), 160)
		r.Read(b[:cap(b)])
		s.bufs = append(s.bufs, b)
	}
	for i := 0; i < 4; i++ {
		g := &util.Generator{}
		g.SetRootKey(bip32.Key(genRoot(r)))
		s.gens = append(s.gens, g)
	}
	for i := 0; i < 8; i++ {
		row := bip32.VersionBytes{Coin: "c", PvtKeyFlag: r.Uint32(), PubKeyFlag: r.Uint32(), Path: bip32.Path(pick(r, "m/44'/0'", "m/84'/1'", "m/49'/2'", "m/44'/29223'", "m/1'/2'", "m/44/0", "", "m/'/'"))}
		s.rows = append(s.rows, row)
		t := uint32(r.Intn(3000))
		s.coins = append(s.coins, bip44.Coin{Type: t, PathComponent: pick(r, t+1<<31, t), Symbol: pick(r, "", "A", "BTC"), Name: pick(r, "", " ", "Bitcoin")})
	}
	return s
}

type call struct {
	op   string
	desc string
	f    func() string
}

func es(err error) string {
	if err == nil {
		return "ok"
	}
	return "error: " + err.Error()
}

func hx(b []byte) string { return hex.EncodeToString(b) }

func showKPs(ks []util.KeyPath) string {
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%x;", k.Path, k.Key[:])
	}
	return b.String()
}

type tableOp struct {
	name string
	slow bool
	mk   func(r *rand.Rand, s *shared) (desc string, f func() string)
}

func pk[T any](r *rand.Rand, xs []T) (int, T) { i := r.Intn(len(xs)); return i, xs[i] }

var table = []tableOp{
	{"NewMnemonic", false, func(r *rand.Rand, s *shared) (string, func() string) {
		i, e := pk(r, s.ents)
		return fmt.Sprint(i), func() string { m, err := bip39.NewMnemonic(e); return m + " " + es(err) }
	}},
	{"EntropyFromMnemonic", false, func(r *rand.Rand, s *shared) (string, func() string) {
		_, m := pk(r, s.sents)
		return m, func() string { e, err := bip39.EntropyFromMnemonic(m); return hx(e) + " " + es(err) }
	}},
	{"MnemonicToByteArray", false, func(r *rand.Rand, s *shared) (string, func() string) {
		_, m := pk(r, s.sents)
		raw := r.Intn(2) == 0
		return fmt.Sprint(raw, m), func() string { e, err := bip39.MnemonicToByteArray(m, raw); return hx(e) + " " + es(err) }
	}},
	{"IsMnemonicValid", false, func(r *rand.Rand, s *shared) (string, func() string) {
		_, m := pk(r, s.sents)
		return m, func() string { return fmt.Sprint(bip39.IsMnemonicValid(m)) }
	}},
	{"NewSeedWithErrorChecking", true, func(r *rand.Rand, s *shared) (string, func() string) {
		_, m := pk(r, s.sents)
		_, p := pk(r, s.pass)
		return m + "|" + p, func() string { e, err := bip39.NewSeedWithErrorChecking(m, p); return hx(e) + " " + es(err) }
	}},
	{"bip39.NewSeed", true, func(r *rand.Rand, s *shared) (string, func() string) {
		_, m := pk(r, s.sents)
		_, p := pk(r, s.pass)
		return m + "|" + p, func() string { return hx(bip39.NewSeed(m, p)) }
	}},
	{"DeriveSeedFromMnemonic", true, func(r *rand.Rand, s *shared) (string, func() string) {
		_, m := pk(r, s.sents)
		_, p := pk(r, s.pass)
		return m + "|" + p, func() string { e, err := util.DeriveSeedFromMnemonic(m, p); return e + " " + es(err) }
	}},
	{"GetWordIndex", false, func(r *rand.Rand, s *shared) (string, func() string) {
		_, m := pk(r, s.words)
		return m, func() string { return fmt.Sprint(bip39.GetWordIndex(m)) }
	}},
	{"GetWordList", false, func(r *rand.Rand, s *shared) (string, func() string) {
		i := r.Intn(2048)
		return fmt.Sprint(i), func() string { l := bip39.GetWordList(); return fmt.Sprint(len(l), l[i]) }
	}},
	{"NewEntropy", false, func(r *rand.Rand, s *shared) (string, func() string) {
		n := pick(r, 128, 160, 192, 224, 256, 0, 129)
		return fmt.Sprint(n), func() string { e, err := bip39.NewEntropy(n); return fmt.Sprint(len(e)) + " " + es(err) }
	}},
	{"GenerateMnemonic", false, func(r *rand.Rand, s *shared) (string, func() string) {
		n := pick[byte](r, 12, 15, 18, 21, 24, 0, 13)
		return fmt.Sprint(n), func() string {
			m, err := util.GenerateMnemonic(n)
			_, ok := oracle.Decode(s.lang, m)
			return fmt.Sprint(len(strings.Fields(m)), ok) + " " + es(err)
		}
	}},
	{"bip32.NewSeed", false, func(r *rand.Rand, s *shared) (string, func() string) {
		return "", func() string { e, err := bip32.NewSeed(); return fmt.Sprint(len(e)) + " " + es(err) }
	}},
	{"NewMasterKey", false, func(r *rand.Rand, s *shared) (string, func() string) {
		_, b := pk(r, s.seeds)
		return hx(b), func() string {
			k, err := bip32.NewMasterKey(b)
			if k == nil {
				return "nil " + es(err)
			}
			return hx(k[:]) + " " + es(err)
		}
	}},
	{"RootKeyFromSeed", false, func(r *rand.Rand, s *shared) (string, func() string) {
		_, b := pk(r, s.hexes)
		return b, func() string { k, err := util.RootKeyFromSeed(b); return hx(k[:]) + " " + es(err) }
	}},
	{"NewChildKey", false, func(r *rand.Rand, s *shared) (string, func() string) {
		k := pkey(r, s)
		i := pick(r, genIndex(r), uint32(r.Intn(3)), uint32(r.Intn(3))|1<<31)
		return fmt.Sprintf("%x %d", k[:], i), func() string { c, err := k.NewChildKey(i); return hx(c[:]) + " " + es(err) }
	}},
	{"PublicKeyExtended", false, func(r *rand.Rand, s *shared) (string, func() string) {
		k := pkey(r, s)
		return hx(k[:]), func() string { c := k.PublicKeyExtended(); return hx(c[:]) }
	}},
	{"KeyHex", false, func(r *rand.Rand, s *shared) (string, func() string) {
		k := pkey(r, s)
		return hx(k[:]), func() string { return fmt.Sprint(k.IsPrivate(), " ", k.PrivateKeyHex(), " ", k.PublicKeyHex()) }
	}},
	{"Serialize", false, func(r *rand.Rand, s *shared) (string, func() string) {
		k := pkey(r, s)
		return hx(k[:]), func() string { b, err := k.Serialize(); return hx(b) + " " + es(err) }
	}},
	{"B58Serialize", false, func(r *rand.Rand, s *shared) (string, func() string) {
		k := pkey(r, s)
		return hx(k[:]), func() string { return k.B58Serialize() + " " + k.String() }
	}},
	{"Key.IsValid", false, func(r *rand.Rand, s *shared) (string, func() string) {
		k := pkey(r, s)
		return hx(k[:]), func() string { return fmt.Sprint(k.IsValid()) }
	}},
	{"Fields", false, func(r *rand.Rand, s *shared) (string, func() string) {
		k := pkey(r, s)
		return hx(k[:]), func() string {
			return fmt.Sprintf("%x %x %x %x %x %x %x", k.GetVersion(), k.GetDepth(), k.GetFingerPrint(), k.GetChildNumber(), k.GetChainCode(), k.GetKeyBytes(), k.GetPvtKeyBytes())
		}
	}},
	{"SetVersion", false, func(r *rand.Rand, s *shared) (string, func() string) {
		k := pkey(r, s)
		v := r.Uint32()
		return fmt.Sprintf("%x %x", k[:], v), func() string { o := *k; o.SetVersionUint32(v); return hx(o[:]) }
	}},
	{"Deserialize", false, func(r *rand.Rand, s *shared) (string, func() string) {
		_, b := pk(r, s.sers)
		return hx(b), func() string { k, err := bip32.Deserialize(b); return hx(k[:]) + " " + es(err) }
	}},
	{"B58Deserialize", false, func(r *rand.Rand, s *shared) (string, func() string) {
		_, b := pk(r, s.texts)
		return b, func() string { k, err := bip32.B58Deserialize(b); return hx(k[:]) + " " + es(err) }
	}},
	{"ValidatePrivateKey", false, func(r *rand.Rand, s *shared) (string, func() string) {
		k := pkey(r, s)
		p := bip32.PvtKeyBytes(k[46:78])
		return hx(p[:]), func() string { return es(bip32.ValidatePrivateKey(p)) }
	}},
	{"ExpandPublicKey", false, func(r *rand.Rand, s *shared) (string, func() string) {
		_, b := pk(r, s.pubs)
		return hx(b), func() string { x, y := bip32.ExpandPublicKey(b); return fmt.Sprintf("%x %x", x, y) }
	}},
	{"HashRipeMD160onSha256", false, func(r *rand.Rand, s *shared) (string, func() string) {
		_, b := pk(r, s.bufs)
		return hx(b), func() string { h, err := bip32.HashRipeMD160onSha256(b); return hx(h) + " " + es(err) }
	}},
	{"ChecksumDblSha256", false, func(r *rand.Rand, s *shared) (string, func() string) {
		_, b := pk(r, s.bufs)
		return hx(b), func() string { h, err := bip32.ChecksumDblSha256(b); return hx(h) + " " + es(err) }
	}},
	{"AddChecksumDblSha256ToBytes", false, func(r *rand.Rand, s *shared) (string, func() string) {
		_, b := pk(r, s.bufs)
		return hx(b), func() string { h, err := bip32.AddChecksumDblSha256ToBytes(b); return hx(h) + " " + es(err) }
	}},
	{"ValuesAtDepth", false, func(r *rand.Rand, s *shared) (string, func() string) {
		_, p := pk(r, s.paths)
		return string(p), func() string { v, err := p.ValuesAtDepth(); return fmt.Sprint(v) + " " + es(err) }
	}},
	{"Path", false, func(r *rand.Rand, s *shared) (string, func() string) {
		_, p := pk(r, s.paths)
		return string(p), func() string { return fmt.Sprint(p.IsValid(), " ", p.String(), " ", p.Formatted()) }
	}},
	{"ValueAtDepth", false, func(r *rand.Rand, s *shared) (string, func() string) {
		_, p := pk(r, s.paths)
		d := byte(r.Intn(9))
		return fmt.Sprint(string(p), " ", d), func() string { v, err := p.ValueAtDepth(d); return fmt.Sprint(v) + " " + es(err) }
	}},
	{"ReplaceValueAtDepth", false, func(r *rand.Rand, s *shared) (string, func() string) {
		_, p := pk(r, s.paths)
		d, x := byte(r.Intn(9)), genIndex(r)
		return fmt.Sprint(string(p), " ", d, " ", x), func() string { v, err := p.ReplaceValueAtDepth(d, x); return string(v) + " " + es(err) }
	}},
	{"SharedGenerator", false, func(r *rand.Rand, s *shared) (string, func() string) {
		i, g := pk(r, s.gens)
		_, p := pk(r, s.paths)
		return fmt.Sprint(i, " ", string(p)), func() string {
			o, err := g.DeriveBIP32Result(p)
			k := *g.RootKey()
			return showKPs(o) + " " + es(err) + hx(k[:])
		}
	}},
	{"OwnGenerator", false, func(r *rand.Rand, s *shared) (string, func() string) {
		k := pkey(r, s)
		root := *k
		if r.Intn(3) > 0 {
			root = bip32.Key(genRoot(r))
		}
		_, p := pk(r, s.paths)
		return fmt.Sprintf("%x %s", root[:], string(p)), func() string {
			var g util.Generator
			g.SetRootKey(root)
			runtime.Gosched()
			o, err := g.DeriveBIP32Result(p)
			runtime.Gosched()
			k := *g.RootKey()
			return showKPs(o) + " " + es(err) + hx(k[:])
		}
	}},
	{"GenerateRange", false, func(r *rand.Rand, s *shared) (string, func() string) {
		k := pkey(r, s)
		_, p := pk(r, s.paths)
		a := genIndex(r)
		b := a + uint32(r.Intn(4))
		switch r.Intn(24) {
		case 0:
			b = a + uint32(r.Intn(40))
		case 1:
			b = a + uint32(r.Intn(150))
		case 3, 4: // a long one that has all of its children
			x := genRoot(r)
			k, p, a = (*bip32.Key)(&x), "m/44'/0'", pick[uint32](r, 0, 1, 90, 1<<31-100, r.Uint32()>>1)
			b = a + pick[uint32](r, 100, 101, 128, 129, 257, uint32(r.Intn(300)))
		case 2: // a range of more than half the indices, below a key that has no children
			x := *k
			x[4] = 255
			k, a, b = &x, uint32(r.Intn(3)), 0xffffffff-uint32(r.Intn(1<<30))
		}
		return fmt.Sprintf("%x %s %d %d", k[:], string(p), a, b), func() string {
			kr := util.KeyPathRange{StartIndex: a, EndIndex: b, KeyPath: util.KeyPath{Path: p, Key: *k}}
			err := kr.GenerateRange()
			runtime.Gosched()
			return showKPs(kr.KeyPaths) + " " + es(err) + " " + hx(kr.Key[:])
		}
	}},
	{"AddrHex", false, func(r *rand.Rand, s *shared) (string, func() string) {
		k, p := pkey(r, s), walletPath(r)
		return fmt.Sprintf("%x %q", k[:], p), func() string { return util.KeyPath{Path: p, Key: *k}.AddrHex() }
	}},
	{"AddrP2SH", false, func(r *rand.Rand, s *shared) (string, func() string) {
		k, p := pkey(r, s), walletPath(r)
		v := byte(r.Intn(256))
		return fmt.Sprintf("%x %d %q", k[:], v, p), func() string { return util.KeyPath{Path: p, Key: *k}.AddrP2SH(v) }
	}},
	{"VersionBytes", false, func(r *rand.Rand, s *shared) (string, func() string) {
		_, v := pk(r, s.rows)
		return fmt.Sprintf("%#v", v), func() string {
			a, e1 := v.PurposeVal()
			b, e2 := v.CoinVal()
			c, e3 := v.PurposeValFull()
			d, e4 := v.CoinValFull()
			return fmt.Sprint(v.IsValid(), v.IsRegistered(), a, b, c, d, es(e1), es(e2), es(e3), es(e4), v.PvtKeyFlagBytes(), v.PubKeyFlagBytes())
		}
	}},
	{"Coin", false, func(r *rand.Rand, s *shared) (string, func() string) {
		_, v := pk(r, s.coins)
		return fmt.Sprintf("%#v", v), func() string { return fmt.Sprint(v.IsValid(), v.String(), v.StringForMD()) }
	}},
	{"Lookup", false, func(r *rand.Rand, s *shared) (string, func() string) {
		_, v := pk(r, s.coins)
		pv := oracle.PrivVersions[r.Intn(len(oracle.PrivVersions))]
		return fmt.Sprint(v.Type, pv), func() string {
			a, ok1 := bip44.RegBip44CoinsTypeToValMap[v.Type]
			b, ok2 := bip44.RegBip44CoinsPathCompToValMap[v.Type|1<<31]
			c, ok3 := bip44.RegBip44CoinsNameToValMap["Bitcoin"]
			return fmt.Sprint(a, ok1, b, ok2, c, ok3, len(bip32.PvtFlagToHDBytesSlice[pv]), len(bip32.PathToHDBytesSlice["m/44'/0'"]), len(bip44.RegCoins))
		}
	}},
}

// mkCall makes call n of operation op.
func mkCall(r *rand.Rand, s *shared, op int) call {
	d, f := table[op].mk(r, s)
	name := table[op].name
	return call{name, d, func() (out string) {
		if p := guard(func() { out = f() }); p != "" {
			out = "panic: " + p
		}
		return
	}}
}

// callList makes n calls over all operations, slow ones rarely.
func callList(r *rand.Rand, s *shared, n int) []call {
	var out []call
	for len(out) < n {
		op := len(out) % len(table)
		if len(out) >= len(table) {
			op = r.Intn(len(table))
		}
		if table[op].slow && len(out) >= 2*len(table) && r.Intn(5) > 0 {
			continue
		}
		out = append(out, mkCall(r, s, op))
	}
	return out
}

func pkey(r *rand.Rand, s *shared) *bip32.Key { return s.keys[r.Intn(len(s.keys))] }
