package main

import (
	"strings"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/util"

	"verifharness/oracle"
)

// pool is what a long history keeps referring to: later calls reuse earlier arguments and results.
type pool struct {
	lang  string
	keys  []XKey
	ents  [][]byte
	sents []string
	pass  []string
	paths []string
	seeds []string
	texts []string
	gens  []*Gen
	rng   util.KeyPathRange
}

func newPool(w *W, lang string) *pool {
	r := w.R
	p := &pool{lang: lang}
	p.keys = family(r, genPriv(r))
	p.keys = append(p.keys, family(r, genPubKey(r))...)
	p.keys = append(p.keys, genRoot(r), genRoot(r), corpusKey(r.Intn(1000)), genKey(r))
	for i := 0; i < 4; i++ {
		e := genEntropy(r, entLens[r.Intn(5)])
		p.ents = append(p.ents, e, nearEntropy(r, e))
	}
	for _, e := range p.ents {
		s := oracle.Sentence(lang, e)
		p.sents = append(p.sents, s)
	}
	p.sents = append(p.sents, damage(r, lang, strings.Fields(p.sents[0])), damage(r, lang, strings.Fields(p.sents[1])), joinWS(r, strings.Fields(p.sents[2])))
	p.pass = []string{"", "TREZOR", genStablePass(r), genStablePass(r)}
	for i := 0; i < 6; i++ {
		p.paths = append(p.paths, genPathText(r, genIdxs(r, 6)))
	}
	b := genBadPath(r)
	if len(b) < 300 {
		p.paths = append(p.paths, b)
	}
	for i := 0; i < 4; i++ {
		p.seeds = append(p.seeds, oracle.Hex(genSeed(r)))
	}
	for _, k := range p.keys[:4] {
		p.texts = append(p.texts, oracle.B58Encode(oracle.Serialize(k)))
	}
	for i := 0; i < 3; i++ {
		g := &Gen{}
		p.gens = append(p.gens, g)
		w.SetRootKey(g, genRoot(r))
	}
	if r.Intn(3) == 0 {
		plantPair(r, p)
	}
	return p
}

func one[T any](w *W, xs []T) T { return xs[w.R.Intn(len(xs))] }

// addKey keeps a result for later calls; the pool is bounded.
func (p *pool) addKey(w *W, k XKey) {
	if k == (XKey{}) {
		return
	}
	if len(p.keys) < 48 {
		p.keys = append(p.keys, k)
	} else {
		p.keys[w.R.Intn(48)] = k
	}
}

type mixOp struct {
	ops  []string // operations the step calls
	slow bool
	f    func(w *W, p *pool)
}

var mixOps = []mixOp{
	{[]string{"NewMnemonic"}, false, func(w *W, p *pool) { w.NewMnemonic(one(w, p.ents)) }},
	{[]string{"EntropyFromMnemonic"}, false, func(w *W, p *pool) { w.EntropyFromMnemonic(one(w, p.sents)) }},
	{[]string{"MnemonicToByteArray"}, false, func(w *W, p *pool) { w.MnemonicToByteArray(one(w, p.sents)) }},
	{[]string{"MnemonicToByteArrayRaw"}, false, func(w *W, p *pool) { w.MnemonicToByteArray(one(w, p.sents), true) }},
	{[]string{"IsMnemonicValid"}, false, func(w *W, p *pool) { w.IsMnemonicValid(one(w, p.sents)) }},
	{[]string{"NewSeedWithErrorChecking"}, true, func(w *W, p *pool) {
		if s := one(w, p.sents); stable(s) {
			w.NewSeedWithErrorChecking(s, kinPass(w.R, s, one(w, p.pass)))
		}
	}},
	{[]string{"DeriveSeedFromMnemonic"}, true, func(w *W, p *pool) {
		if s := one(w, p.sents); stable(s) {
			if h, err := w.DeriveSeed(s, kinPass(w.R, s, one(w, p.pass))); err == nil && len(p.seeds) < 12 {
				p.seeds = append(p.seeds, h)
			}
		}
	}},
	{[]string{"bip39.NewSeed"}, true, func(w *W, p *pool) {
		if s := one(w, p.sents); stable(s) {
			w.Bip39Seed(s, kinPass(w.R, s, one(w, p.pass)))
		}
	}},
	{[]string{"GetWordIndex"}, false, func(w *W, p *pool) {
		w.GetWordIndex(oracle.Lists[pick(w.R, p.lang, p.lang, "french")][w.R.Intn(2048)])
	}},
	{[]string{"GetWordList"}, false, func(w *W, p *pool) {
		if w.R.Intn(10) == 0 {
			w.GetWordList()
		}
	}},
	{[]string{"NewEntropy"}, false, func(w *W, p *pool) { w.NewEntropy(pick(w.R, 128, 160, 192, 224, 256, 129, 0)) }},
	{[]string{"GenerateMnemonic"}, false, func(w *W, p *pool) {
		if m, err := w.GenerateMnemonic(pick[byte](w.R, 12, 15, 18, 21, 24, 13)); err == nil && len(p.sents) < 24 {
			p.sents = append(p.sents, m)
		}
	}},
	{[]string{"bip32.NewSeed"}, false, func(w *W, p *pool) { w.Bip32Seed() }},
	{[]string{"NewMasterKey"}, false, func(w *W, p *pool) {
		b, _ := oracle.UnHex(one(w, p.seeds))
		k, _ := w.NewMasterKey(b)
		p.addKey(w, k)
	}},
	{[]string{"NewChildKey"}, false, func(w *W, p *pool) {
		k := one(w, p.keys)
		k, err := w.NewChildKey(k, kinIndex(w.R, k))
		if err == nil {
			p.addKey(w, k)
		}
	}},
	{[]string{"NewChildKey"}, false, func(w *W, p *pool) {
		k, err := w.NewChildKey(one(w, p.keys), uint32(w.R.Intn(3))|pick[uint32](w.R, 0, 0x80000000))
		if err == nil {
			p.addKey(w, k)
		}
	}},
	{[]string{"PublicKeyExtended"}, false, func(w *W, p *pool) { p.addKey(w, w.PublicKeyExtended(one(w, p.keys))) }},
	{[]string{"IsPrivate"}, false, func(w *W, p *pool) { w.IsPrivate(one(w, p.keys)) }},
	{[]string{"PrivateKeyHex"}, false, func(w *W, p *pool) { w.PrivateKeyHex(one(w, p.keys)) }},
	{[]string{"PublicKeyHex"}, false, func(w *W, p *pool) { w.PublicKeyHex(one(w, p.keys)) }},
	{[]string{"Serialize"}, false, func(w *W, p *pool) { w.Serialize(one(w, p.keys)) }},
	{[]string{"B58Serialize"}, false, func(w *W, p *pool) {
		if s := w.B58Serialize(one(w, p.keys)); len(p.texts) < 16 {
			p.texts = append(p.texts, s)
		}
	}},
	{[]string{"Key.IsValid"}, false, func(w *W, p *pool) { w.IsValid(one(w, p.keys)) }},
	{[]string{"Fields"}, false, func(w *W, p *pool) { w.Fields(one(w, p.keys)) }},
	{[]string{"SetVersion"}, false, func(w *W, p *pool) {
		w.SetVersion(one(w, p.keys), pick(w.R, genPrivVersion(w.R), genPubVersion(w.R)), w.R.Intn(2) == 0)
	}},
	{[]string{"Deserialize"}, false, func(w *W, p *pool) {
		b := oracle.Serialize(one(w, p.keys))
		switch w.R.Intn(4) {
		case 0:
			b[w.R.Intn(82)] ^= 1 << w.R.Intn(8)
		case 1:
			b = b[:w.R.Intn(83)]
		}
		w.Deserialize(b)
	}},
	{[]string{"B58Deserialize"}, false, func(w *W, p *pool) {
		s := one(w, p.texts)
		if len(s) > 2 && w.R.Intn(3) == 0 {
			k := w.R.Intn(len(s))
			s = s[:k] + "2" + s[k+1:]
		}
		w.B58Deserialize(s)
	}},
	{[]string{"ValidatePrivateKey"}, false, func(w *W, p *pool) { var b [32]byte; k := one(w, p.keys); copy(b[:], k[46:]); w.ValidatePrivateKey(b) }},
	{[]string{"ExpandPublicKey"}, false, func(w *W, p *pool) {
		if k := one(w, p.keys); !k.Private() && k.MaterialOK() {
			w.ExpandPublicKey(k[45:])
		}
	}},
	{[]string{"HashRipeMD160onSha256"}, false, func(w *W, p *pool) { w.Hash160(one(w, p.ents)) }},
	{[]string{"ChecksumDblSha256"}, false, func(w *W, p *pool) { w.Checksum(one(w, p.ents)) }},
	{[]string{"AddChecksumDblSha256ToBytes"}, false, func(w *W, p *pool) { w.AddChecksum(one(w, p.ents)) }},
	{[]string{"ValuesAtDepth"}, false, func(w *W, p *pool) { w.PathValues(one(w, p.paths)) }},
	{[]string{"Path.IsValid"}, false, func(w *W, p *pool) { w.PathValid(one(w, p.paths)) }},
	{[]string{"Path.String"}, false, func(w *W, p *pool) { w.PathString(one(w, p.paths)) }},
	{[]string{"ValueAtDepth"}, false, func(w *W, p *pool) { w.PathValue(one(w, p.paths), byte(w.R.Intn(8))) }},
	{[]string{"ReplaceValueAtDepth"}, false, func(w *W, p *pool) {
		if s, err := w.PathReplace(one(w, p.paths), byte(w.R.Intn(7)), genIndex(w.R)); err == nil {
			p.paths[w.R.Intn(len(p.paths))] = s
		}
	}},
	{[]string{"RootKeyFromSeed"}, false, func(w *W, p *pool) {
		s := one(w, p.seeds)
		if w.R.Intn(4) == 0 {
			s = s[:w.R.Intn(len(s)+1)]
		}
		k, _ := w.RootKeyFromSeed(s)
		p.addKey(w, k)
	}},
	{[]string{"SetRootKey"}, false, func(w *W, p *pool) { w.SetRootKey(one(w, p.gens), one(w, p.keys)) }},
	{[]string{"SetRootKey"}, false, func(w *W, p *pool) { w.SetRootKey(one(w, p.gens), genRoot(w.R)) }},
	{[]string{"RootKey"}, false, func(w *W, p *pool) { w.RootKey(one(w, p.gens)) }},
	{[]string{"DeriveBIP32Result"}, false, func(w *W, p *pool) {
		if out, err := w.DerivePath(one(w, p.gens), one(w, p.paths)); err == nil && len(out) > 0 {
			p.addKey(w, out[len(out)-1].Key)
		}
	}},
	{[]string{"GenerateRange"}, false, func(w *W, p *pool) {
		p.rng.StartIndex = genIndex(w.R)
		p.rng.EndIndex = p.rng.StartIndex + uint32(w.R.Intn(4))
		p.rng.Path, p.rng.Key = bip32.Path(one(w, p.paths)), bip32.Key(one(w, p.keys))
		if out, err := w.GenerateRange(&p.rng); err == nil && len(out) > 0 {
			p.addKey(w, out[0].Key)
		}
	}},
	{[]string{"AddrHex"}, false, func(w *W, p *pool) { w.AddrHex(one(w, p.keys)) }},
	{[]string{"AddrP2SH"}, false, func(w *W, p *pool) { w.AddrP2SH(one(w, p.keys), byte(w.R.Intn(256))) }},
}

// mixed runs n long histories of all operations over shared pools, most of the calls on the operations being monitored.
func (c *Check) mixed(n int) {
	var mine, rest []mixOp
	all := len(c.monitors["*"]) > 0
	for _, o := range mixOps {
		m := all
		for _, x := range o.ops {
			m = m || len(c.monitors[x]) > 0
		}
		if m {
			mine = append(mine, o)
		} else {
			rest = append(rest, o)
		}
	}
	langs := []string{"japanese", "english"}
	for _, lang := range langs {
		c.selectLang(lang)
		c.Par("mixed-"+lang, (n+1)/2, func(w *W, i int) {
			p := newPool(w, lang)
			for s := 0; s < 120; s++ {
				src := rest
				if w.R.Intn(4) > 0 || len(rest) == 0 {
					src = mine
				}
				if len(src) == 0 {
					src = mixOps
				}
				o := src[w.R.Intn(len(src))]
				if o.slow && w.R.Intn(6) > 0 {
					continue
				}
				o.f(w, p)
			}
			w.Feat("mixed-history")
		})
	}
	c.selectLang("english")
	c.collisions()
}
