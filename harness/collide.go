package main

// Arguments that differ although a 32-bit digest of them is the same: a table keyed by one would mistake them for each other.

import (
	"fmt"
	"math/rand"
	"strings"
	"time"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/util"

	"verifharness/oracle"
)

// collKeys are the two keys of a pair, for kinds that make keys.
func collKeys(x oracle.Coll) (out []XKey) {
	for _, i := range []int{x.A, x.B} {
		var k XKey
		switch x.Kind {
		case "key", "ser", "b58", "keyidx":
			k = oracle.CollKey(i)
		case "point":
			k = oracle.CollKey(x.A)
			s := oracle.CollScalar(i)
			copy(k[46:], s[:])
		case "b32": // the scalar or the chain code
			k = oracle.CollKey(x.A)
			copy(k[46-33*(x.A%2):], oracle.CollItem("b32", i))
		default:
			return nil
		}
		out = append(out, k)
	}
	return
}

// plantPair puts two items of which a digest is the same into a pool.
func plantPair(r *rand.Rand, p *pool) {
	for n := 0; n < 3; n++ {
		x := oracle.Colls[r.Intn(len(oracle.Colls))]
		if ks := collKeys(x); ks != nil && len(p.keys) > 0 {
			p.keys = append(p.keys, ks...)
			if r.Intn(2) == 0 {
				p.keys = append(p.keys, oracle.PubForm(ks[0]), oracle.PubForm(ks[1]))
			}
			continue
		}
		for _, i := range []int{x.A, x.B} {
			switch x.Kind {
			case "sentence", "b16", "sentpass":
				if p.lang == "english" {
					p.sents = append(p.sents, oracle.CollSent(i))
				}
				p.ents = append(p.ents, oracle.CollItem("b16", i))
				p.pass = append(p.pass, oracle.CollPass(i))
			case "pass":
				p.pass = append(p.pass, oracle.CollPass(i))
			case "path", "wallet":
				p.paths = append(p.paths, string(oracle.CollItem(x.Kind, i)))
			case "b64", "hex64":
				p.seeds = append(p.seeds, oracle.Hex(oracle.CollItem("b64", i)))
			case "hex16":
				p.seeds = append(p.seeds, oracle.Hex(oracle.CollItem("b16", i)))
			}
		}
	}
}

// collisions makes the calls that are monitored with each such pair in turn: the one, the other, and both again.
func (c *Check) collisions() {
	all := len(c.monitors["*"]) > 0
	has := func(ops ...string) bool {
		for _, o := range ops {
			if all || len(c.monitors[o]) > 0 {
				return true
			}
		}
		return false
	}
	type call struct {
		kinds string
		ops   []string
		f     func(w *W, x oracle.Coll, i int, k XKey)
	}
	text := func(x oracle.Coll, i int) string { return string(oracle.CollItem(x.Kind, i)) }
	const keys = "key ser b58 keyidx point b32"
	idx := func(w *W, x oracle.Coll, i int) uint32 {
		if x.Kind == "keyidx" {
			return oracle.CollIndex(i)
		}
		return uint32(x.A % 3)
	}
	calls := []call{
		{keys, []string{"NewChildKey"}, func(w *W, x oracle.Coll, i int, k XKey) { w.NewChildKey(k, idx(w, x, i)) }},
		{keys, []string{"NewChildKey"}, func(w *W, x oracle.Coll, i int, k XKey) { w.NewChildKey(k, idx(w, x, i)|1<<31) }},
		{keys, []string{"NewChildKey"}, func(w *W, x oracle.Coll, i int, k XKey) { w.NewChildKey(oracle.PubForm(k), idx(w, x, i)&^(1<<31)) }},
		{keys, []string{"PublicKeyExtended"}, func(w *W, x oracle.Coll, i int, k XKey) {
			w.PublicKeyExtended(k)
			w.PublicKeyExtended(oracle.PubForm(k))
		}},
		{keys, []string{"PrivateKeyHex"}, func(w *W, x oracle.Coll, i int, k XKey) { w.PrivateKeyHex(k) }},
		{keys, []string{"PublicKeyHex"}, func(w *W, x oracle.Coll, i int, k XKey) { w.PublicKeyHex(k); w.PublicKeyHex(oracle.PubForm(k)) }},
		{keys, []string{"Serialize", "B58Serialize"}, func(w *W, x oracle.Coll, i int, k XKey) { w.Serialize(k); w.B58Serialize(k) }},
		{keys, []string{"Key.IsValid"}, func(w *W, x oracle.Coll, i int, k XKey) { w.IsValid(k) }},
		{keys, []string{"AddrHex"}, func(w *W, x oracle.Coll, i int, k XKey) { w.AddrHex(k); w.AddrHex(oracle.PubForm(k)) }},
		{keys, []string{"AddrP2SH"}, func(w *W, x oracle.Coll, i int, k XKey) { w.AddrP2SH(k, 5); w.AddrP2SH(oracle.PubForm(k), 5) }},
		{keys, []string{"Deserialize"}, func(w *W, x oracle.Coll, i int, k XKey) { w.Deserialize(oracle.Serialize(k)) }},
		{keys, []string{"B58Deserialize"}, func(w *W, x oracle.Coll, i int, k XKey) { w.B58Deserialize(oracle.B58Encode(oracle.Serialize(k))) }},
		{keys, []string{"ExpandPublicKey"}, func(w *W, x oracle.Coll, i int, k XKey) { k = oracle.PubForm(k); w.ExpandPublicKey(k[45:]) }},
		{keys, []string{"GenerateRange"}, func(w *W, x oracle.Coll, i int, k XKey) {
			a := idx(w, x, i)
			if a > 1<<32-4 {
				a = 0
			}
			w.GenerateRange(&util.KeyPathRange{StartIndex: a, EndIndex: a + 2, KeyPath: util.KeyPath{Path: "m/1", Key: bip32.Key(k)}})
		}},
		{keys, []string{"DeriveBIP32Result"}, func(w *W, x oracle.Coll, i int, k XKey) {
			g := &Gen{}
			copy(k[4:13], make([]byte, 9))
			w.SetRootKey(g, k)
			w.DerivePath(g, "m/44'/0'/1")
		}},
		{"path wallet", []string{"ValuesAtDepth", "Path.IsValid", "Path.String", "ValueAtDepth", "ReplaceValueAtDepth"}, func(w *W, x oracle.Coll, i int, k XKey) {
			p := text(x, i)
			w.PathValues(p)
			w.PathValid(p)
			w.PathString(p)
			w.PathValue(p, byte(1+x.A%3))
			w.PathReplace(p, byte(1+x.A%3), uint32(x.B))
		}},
		{"path wallet", []string{"DeriveBIP32Result", "GenerateRange"}, func(w *W, x oracle.Coll, i int, k XKey) {
			g := &Gen{}
			k = oracle.CollKey(x.A)
			copy(k[4:13], make([]byte, 9))
			w.SetRootKey(g, k)
			w.DerivePath(g, text(x, i))
			w.GenerateRange(&util.KeyPathRange{EndIndex: 1, KeyPath: util.KeyPath{Path: bip32.Path(text(x, i)), Key: bip32.Key(k)}})
		}},
		{"b16 b32", []string{"NewMnemonic"}, func(w *W, x oracle.Coll, i int, k XKey) { w.NewMnemonic(oracle.CollItem(x.Kind, i)) }},
		{"sentence sentpass b16", []string{"EntropyFromMnemonic", "MnemonicToByteArray", "MnemonicToByteArrayRaw", "IsMnemonicValid"}, func(w *W, x oracle.Coll, i int, k XKey) {
			m := oracle.CollSent(i)
			w.EntropyFromMnemonic(m)
			w.IsMnemonicValid(m)
			w.MnemonicToByteArray(m)
			w.MnemonicToByteArray(m, true)
		}},
		{"sentence sentpass b16 pass", []string{"bip39.NewSeed", "NewSeedWithErrorChecking", "DeriveSeedFromMnemonic"}, func(w *W, x oracle.Coll, i int, k XKey) {
			m, p := oracle.CollSent(i), oracle.CollPass(i)
			switch x.Kind {
			case "pass":
				m = oracle.CollSent(x.A)
			case "sentence", "b16":
				p = oracle.CollPass(x.A)
			}
			if has("bip39.NewSeed") {
				w.Bip39Seed(m, p)
			}
			if has("NewSeedWithErrorChecking") {
				w.NewSeedWithErrorChecking(m, p)
			}
			if has("DeriveSeedFromMnemonic") {
				w.DeriveSeed(m, p)
			}
		}},
		{"b16 b32 b64 hex16 hex64", []string{"NewMasterKey", "RootKeyFromSeed"}, func(w *W, x oracle.Coll, i int, k XKey) {
			b := oracle.CollItem(strings.Replace(x.Kind, "hex", "b", 1), i)
			w.NewMasterKey(b)
			w.RootKeyFromSeed(oracle.Hex(b))
		}},
		{"b16 b32 b64 key", []string{"HashRipeMD160onSha256", "ChecksumDblSha256", "AddChecksumDblSha256ToBytes"}, func(w *W, x oracle.Coll, i int, k XKey) {
			b := oracle.CollItem(x.Kind, i)
			w.Hash160(b)
			w.Checksum(b)
			w.AddChecksum(b)
		}},
		{"word", []string{"GetWordIndex", "EntropyFromMnemonic", "IsMnemonicValid", "MnemonicToByteArray"}, func(w *W, x oracle.Coll, i int, k XKey) {
			word := oracle.Lists["english"][x.A]
			other := word
			if i == x.B {
				other = x.Text
			}
			f := strings.Fields(oracle.Sentence("english", entropyOfIndices(16, func(p int) int { return (x.A + p*37) % 2048 })))
			for k := range f {
				if f[k] == word {
					f[k] = other
				}
			}
			m := strings.Join(f, " ")
			w.GetWordIndex(other)
			w.EntropyFromMnemonic(m)
			w.IsMnemonicValid(m)
			w.MnemonicToByteArray(m)
		}},
	}
	type job struct {
		x    oracle.Coll
		call call
	}
	var jobs []job
	for _, cl := range calls {
		if !has(cl.ops...) {
			continue
		}
		for _, x := range oracle.Colls {
			if strings.Contains(" "+cl.kinds+" ", " "+x.Kind+" ") {
				if x.Kind == "word" {
					x.B = -1
				}
				jobs = append(jobs, job{x, cl})
			}
		}
	}
	// each worker keeps to one pair until it is done; what a table holds by then is what this pair has put there, or a like one
	c.Par("same-digest", len(jobs), func(w *W, n int) {
		j := jobs[n]
		ks := collKeys(j.x)
		order := []int{0, 1, 0, 1}
		if (w.R.Intn(2) == 0) != c.flip {
			order = []int{1, 0, 1, 0}
		}
		for _, o := range order {
			var k XKey
			if ks != nil {
				k = ks[o]
			}
			j.call.f(w, j.x, []int{j.x.A, j.x.B}[o], k)
		}
		w.Feat(fmt.Sprint("same-digest-", j.x.Kind))
	})
}

// otherFirst: in a fresh process that makes these calls the other way round, and in one that makes them like this one, they
// give what they give here.
func (c *Check) otherFirst(m *memo) {
	c.Par("same-digest-other-first", 2, func(w *W, i int) {
		res := c.child(w, childCfg{Mode: "digests", Seed: c.Seed, Shuffle: int64(i)}, childOpt{timeout: 300 * time.Second})
		if res == nil {
			return
		}
		for _, b := range res.Mismatch {
			w.Fail(nil, b, nil, nil)
		}
		bad := 0
		for key, out := range res.Memo {
			here, ok := m.get(key)
			if !ok {
				continue
			}
			w.evals++
			w.distinct[key] = struct{}{}
			if here.out != out && bad < 3 {
				bad++
				w.Fail(nil, "a call gives another result in a process where a call with other arguments came first: "+here.call, fmt.Sprintf("digest %x", out), fmt.Sprintf("digest %x, %s", here.out, here.txt))
			}
		}
		if len(res.Memo) > 0 {
			w.Feat("like-calls-in-another-process")
		}
	})
}

// digests is the child's part.
func digests(cfg childCfg, res *childRes) {
	c := newCheck("X02")
	c.Seed, c.Tier, c.flip = cfg.Seed, "quick", cfg.Shuffle == 1
	m := &memo{}
	c.On("*", m.check)
	c.collisions()
	for _, v := range c.viols {
		res.Mismatch = append(res.Mismatch, fmt.Sprint(v.What, ": ", v.Got))
	}
	res.Memo = map[uint64]uint64{}
	for i := range m.sh {
		for k, e := range m.sh[i].m {
			res.Memo[k] = e.out
		}
	}
	res.Calls = len(res.Memo)
}

func (m *memo) get(key uint64) (memoEntry, bool) {
	s := &m.sh[key%64]
	s.Lock()
	defer s.Unlock()
	e, ok := s.m[key]
	return e, ok
}
