package main

import (
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"math/big"
	"math/rand"
	"slices"
	"strings"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/util"

	"verifharness/oracle"
)

// corpusDerive runs f on every rare (parent, index) pair and on its public form.
func (c *Check) corpusDerive(f func(w *W, par XKey, idx uint32)) {
	d := oracle.C.Derive
	c.Par("corpus-derive", len(d), func(w *W, i int) {
		f(w, oracle.FromHex(d[i].Parent), d[i].Index)
		w.Feat("corpus-" + d[i].Why)
	})
}

func corpusKey(i int) XKey {
	ks := oracle.C.Keys
	var k XKey
	k.SetVersion(oracle.PrivVersions[i%len(oracle.PrivVersions)])
	k[4] = 1
	for j := 13; j < 45; j++ {
		k[j] = byte(i + j)
	}
	b, _ := oracle.UnHex(ks[i%len(ks)].Scalar)
	copy(k[46:], b)
	return k
}

// corpusKeys runs f on keys with rare points, hashes or addresses, private and public.
func (c *Check) corpusKeys(f func(w *W, k XKey)) {
	n := len(oracle.C.Keys)
	c.Par("corpus-keys", 2*n+len(specialPubs), func(w *W, i int) {
		if i < 2*n {
			k := corpusKey(i / 2)
			w.Feat("corpus-" + oracle.C.Keys[i/2].Why)
			if i%2 == 1 {
				k = oracle.PubForm(k)
			}
			f(w, k)
			return
		}
		k := genPubKey(w.R)
		copy(k[45:], specialPubs[i-2*n][:])
		f(w, k)
		w.Feat("special-point")
	})
}

var edgeIdx = []uint32{0, 1, 2, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0x100, 0x10000, 0x1000000, 0x80000100, 0x80010000}

func init() {
	props["K01"] = func(c *Check) {
		c.Rule = "NewMasterKey on seeds of every length 0..300 and up to 1 MiB (32 MiB thorough), structured seeds, near-duplicates through one reused buffer, and seeds found by search whose private key or chain code has 2-3 leading zero or ff bytes; ValidatePrivateKey at every boundary of [1,n-1]; non-trivial: distinct seeds"
		c.Require = []string{"private-key-2-leading-zeros", "chain-code-leading-zero", "empty-seed", "seed-longer-than-hash-block", "invalid-scalar-refused", "scalar-next-to-order"}
		monK01(c)
		c.Par("lengths", 301*3, func(w *W, i int) {
			n := i / 3
			switch i % 3 {
			case 0:
				w.NewMasterKey(make([]byte, n))
			case 1:
				w.NewMasterKey(rbytes(w.R, n))
			default:
				b := rbytes(w.R, n)
				w.NewMasterKey(b)
				if n > 0 {
					b2 := nearEntropy(w.R, b)
					w.NewMasterKey(b2)
					w.NewMasterKey(b)
					w.NewMasterKey(b[:n-1])
				}
				w.NewMasterKey(append(cp(b), 0)) // HMAC pads short keys with zeros: a trailing zero must still matter here
			}
		})
		c.Par("nil", 1, func(w *W, i int) { w.NewMasterKey(nil); w.NewMasterKey([]byte{}) })
		szs := sizes(300, c.N(1<<20, 1<<25))
		c.Par("big", len(szs), func(w *W, i int) {
			b := rbytes(w.R, szs[i])
			w.NewMasterKey(b)
			b[len(b)-1] ^= 1
			w.NewMasterKey(b)
			b[len(b)-1] ^= 1
			b[0] ^= 0x80
			w.NewMasterKey(b)
		})
		c.Par("corpus", len(oracle.C.Seeds), func(w *W, i int) {
			b, _ := oracle.UnHex(oracle.C.Seeds[i].Seed)
			w.NewMasterKey(b)
		})
		c.Par("random", c.N(12000, 1500000), func(w *W, i int) {
			s := genSeed(w.R)
			w.NewMasterKey(s)
			w.NewMasterKey(append(s, byte(i)))
		})
		c.Par("scalars", c.N(3000, 100000), func(w *W, i int) {
			var b [32]byte
			switch i % 5 {
			case 0: // around 0 and n
				x := new(big.Int).Add(oracle.N, big.NewInt(int64(i/5%600-300)))
				b = fill32(x)
			case 1:
				b[31] = byte(i / 5)
			case 2:
				b = genScalar(w.R)
			case 3: // above n
				d := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), oracle.N)
				x := new(big.Int).SetBytes(rbytes(w.R, 1+w.R.Intn(17)))
				x.Mod(x, d)
				b = fill32(x.Add(x, oracle.N))
			case 4: // n with one byte changed
				b = fill32(oracle.N)
				b[w.R.Intn(32)] ^= 1 << w.R.Intn(8)
			}
			w.ValidatePrivateKey(b)
		})
		c.mixed(c.N(60, 2000))
	}

	props["K02"] = func(c *Check) {
		c.Rule = "private NewChildKey against independent arithmetic: parents with boundary scalars, leading zeros, all versions and depths, edge and random indices, near-duplicate parents in sequence, chains, and searched pairs with 2-3 zero bytes in IL, chain code or child key; non-trivial: distinct (parent, index)"
		c.Require = []string{"hardened", "plain", "sum-wraps-order", "sum-below-order", "child-key-2-leading-zeros", "parent-key-leading-zero", "chain-code-leading-zero", "il-leading-zero"}
		monK02(c)
		c.corpusDerive(func(w *W, par XKey, idx uint32) { w.NewChildKey(par, idx); w.NewChildKey(par, idx^0x80000000) })
		if len(oracle.C.Keys) > 0 {
			c.Par("corpus-parents", len(oracle.C.Keys)*4, func(w *W, i int) {
				w.NewChildKey(corpusKey(i/4), edgeIdx[w.R.Intn(len(edgeIdx))])
			})
		}
		c.Par("hostile", c.N(5000, 400000), func(w *W, i int) {
			k := genPriv(w.R)
			w.NewChildKey(k, kinIndex(w.R, k))
			w.NewChildKey(k, kinIndex(w.R, k)|0x80000000)
		})
		c.Par("families", c.N(250, 20000), func(w *W, i int) {
			fam := family(w.R, genPriv(w.R))
			idx := genIndex(w.R)
			for _, k := range fam {
				w.NewChildKey(k, idx)
			}
			for _, x := range []uint32{idx ^ 0x80000000, idx ^ 1, idx ^ 0x100, idx ^ 0x10000, idx ^ 0x1000000} {
				w.NewChildKey(fam[0], x)
			}
		})
		c.Par("chains", c.N(60, 3000), func(w *W, i int) {
			k := genRoot(w.R)
			for d := 0; d < 24; d++ {
				var err error
				if k, err = w.NewChildKey(k, kinIndex(w.R, k)); err != nil {
					break
				}
			}
		})
		c.Par("indices", c.N(2048, 200000), func(w *W, i int) { // one parent, many indices
			k, _ := oracle.Master([]byte{byte(c.Seed)})
			w.NewChildKey(k, uint32(i))
			w.NewChildKey(k, 0x80000000+uint32(i))
			if i < 32 {
				w.NewChildKey(k, 1<<i)
				w.NewChildKey(k, 1<<i-1)
				w.NewChildKey(k, ^uint32(0)<<i)
			}
		})
		c.mixed(c.N(60, 2000))
	}

	props["K03"] = func(c *Check) {
		c.Rule = "public NewChildKey against independent arithmetic and against the neutered private derivation of the same step: special points (tiny/huge X, tiny Y), searched children with zero bytes, near-duplicate parents incl. the negated point, commuting chains; non-trivial: distinct (parent, index)"
		c.Require = []string{"plain", "child-x-leading-zero", "parent-x-2-leading-zeros", "chain-code-leading-zero", "il-leading-zero", "commuted"}
		monK03(c)
		commute := func(w *W, k XKey, idx uint32) (XKey, bool) {
			a, err1 := w.NewChildKey(k, idx)
			pa := w.PublicKeyExtended(a)
			b, err2 := w.NewChildKey(w.PublicKeyExtended(k), idx)
			if err1 != nil || err2 != nil {
				return a, false
			}
			w.Feat("commuted")
			w.EvalKey(fmt.Sprintf("commute %x %d", k[:], idx), true)
			if pa != b {
				w.Fail(nil, fmt.Sprintf("neuter(derive) differs from derive(neuter) for %x index %d", k[:], idx), pa, b)
			}
			return a, true
		}
		c.corpusDerive(func(w *W, par XKey, idx uint32) {
			w.NewChildKey(oracle.PubForm(par), idx&0x7fffffff)
			commute(w, par, idx&0x7fffffff)
		})
		c.corpusKeys(func(w *W, k XKey) {
			if k.Private() {
				commute(w, k, genPlain(w.R))
				return
			}
			w.NewChildKey(k, kinIndex(w.R, k)&^(1<<31))
		})
		c.Par("hostile", c.N(2500, 250000), func(w *W, i int) {
			w.NewChildKey(genPubKey(w.R), genPlain(w.R))
			if i%4 == 0 {
				commute(w, genPriv(w.R), genPlain(w.R))
			}
		})
		c.Par("families", c.N(150, 15000), func(w *W, i int) {
			idx := genPlain(w.R)
			fam := family(w.R, genPubKey(w.R))
			for _, k := range fam {
				w.NewChildKey(k, idx)
			}
			w.NewChildKey(fam[0], idx^1)
			w.NewChildKey(fam[0], idx^0x01000000)
		})
		c.Par("chains", c.N(40, 2000), func(w *W, i int) {
			k := genRoot(w.R)
			pub := w.PublicKeyExtended(k)
			for d := 0; d < 12; d++ {
				idx := genPlain(w.R)
				var ok bool
				if k, ok = commute(w, k, idx); !ok {
					break
				}
				var err error
				if pub, err = w.NewChildKey(pub, idx); err != nil {
					break
				}
				if x := oracle.PubForm(k); pub != x {
					w.Fail(nil, "public chain diverged from the private chain", pub, x)
				}
			}
		})
		c.mixed(c.N(60, 2000))
	}

	props["K04"] = func(c *Check) {
		c.Rule = "every kind of public key (imported, published, derived) asked for hardened children over the whole hardened half of the index range, for private hex, for its public form twice, and its serialization searched for the private key; non-trivial: distinct (operation, key, index)"
		c.Require = []string{"hardened-from-public", "plain-from-public", "published", "hex-of-public", "no-private-bytes", "published-with-version-of-other-kind"}
		monK04(c)
		probe := func(w *W, k XKey) {
			pub := w.PublicKeyExtended(k)
			if k.Private() {
				ser, _ := w.Serialize(pub)
				s := w.B58Serialize(pub)
				hexs := w.PublicKeyHex(pub)
				priv := k[46:]
				// where a public field happens to show the same bytes (a chain code equal to the key), no leak can be told
				if x := oracle.PubForm(k); !bytesZeroHeavy(priv) && !strings.Contains(string(x[:]), string(priv)) {
					w.Feat("no-private-bytes")
					w.EvalKey(fmt.Sprintf("leak %x", priv), true)
					if strings.Contains(string(ser), string(priv)) || strings.Contains(hexs, oracle.Hex(priv)) || strings.Contains(string(pub[:]), string(priv)) {
						w.Fail(nil, "the public form or one of its exports contains the private key", s, "no private bytes")
					}
				}
			}
			w.PrivateKeyHex(pub)
			w.IsPrivate(pub)
			p2 := w.PublicKeyExtended(pub)
			w.EvalKey(fmt.Sprintf("twice %x", pub[:]), true)
			if p2 != pub {
				w.Fail(nil, "the public form taken twice differs", p2, pub)
			}
			for _, idx := range []uint32{edgeIdx[w.R.Intn(len(edgeIdx))], genIndex(w.R) | 0x80000000, genPlain(w.R)} {
				ch, err := w.NewChildKey(pub, idx)
				if err == nil {
					w.PrivateKeyHex(ch)
					w.NewChildKey(ch, kinIndex(w.R, ch)|0x80000000)
				}
			}
		}
		c.corpusKeys(probe)
		c.Par("hostile", c.N(1500, 100000), func(w *W, i int) {
			k := genKey(w.R)
			probe(w, k)
		})
		c.Par("wrong-kind", c.N(400, 20000), func(w *W, i int) { probe(w, genWrongKind(w.R)) })
		c.Par("every-hardened-bit", 32*40, func(w *W, i int) {
			k := genPubKey(w.R)
			w.NewChildKey(k, 0x80000000|1<<(i%32))
			w.NewChildKey(k, ^uint32(0)<<(i%32)|0x80000000)
			w.NewChildKey(k, 0x80000000+uint32(i))
		})
		c.Par("families", c.N(100, 5000), func(w *W, i int) {
			for _, k := range family(w.R, genPriv(w.R)) {
				w.PublicKeyExtended(k)
				w.IsPrivate(k)
			}
			for _, k := range family(w.R, genPubKey(w.R)) {
				w.PublicKeyExtended(k)
				w.IsPrivate(k)
				w.PrivateKeyHex(k)
				w.NewChildKey(k, 0x80000000|genIndex(w.R))
			}
		})
		c.mixed(c.N(60, 2000))
	}

	props["K05"] = func(c *Check) {
		c.Rule = "depth, fingerprint and child number of every derivation: parents at every depth 0..255, chains followed from depth 0 to 255 and beyond, edge indices, both kinds; non-trivial: distinct (parent, index)"
		c.Require = []string{"depth-255-refused", "depth-above-127", "fingerprint-leading-zero", "private-parent", "public-parent", "hardened"}
		monK05(c)
		c.Par("depths", 256*8, func(w *W, i int) {
			k := genPriv(w.R)
			if i%2 == 1 {
				k = genPubKey(w.R)
			}
			k[4] = byte(i / 8)
			if k[4] == 0 {
				copy(k[5:13], make([]byte, 8))
			}
			w.NewChildKey(k, kinIndex(w.R, k))
			w.NewChildKey(k, kinIndex(w.R, k)&^(1<<31))
			w.PublicKeyExtended(k)
		})
		c.Par("long-chains", c.N(8, 200), func(w *W, i int) {
			k := genRoot(w.R)
			if i%2 == 1 {
				k = w.PublicKeyExtended(k)
			}
			for d := 0; d < 260; d++ {
				idx := genIndex(w.R)
				if !k.Private() {
					idx &= 0x7fffffff
				}
				n, err := w.NewChildKey(k, idx)
				if err != nil {
					break
				}
				k = n
			}
		})
		c.corpusDerive(func(w *W, par XKey, idx uint32) {
			w.NewChildKey(par, idx)
			w.NewChildKey(oracle.PubForm(par), idx&0x7fffffff)
		})
		c.corpusKeys(func(w *W, k XKey) { w.NewChildKey(k, kinIndex(w.R, k)&^(1<<31)); w.PublicKeyExtended(k) })
		c.Par("indices", c.N(3000, 100000), func(w *W, i int) {
			k := genPriv(w.R)
			if i < 2*len(edgeIdx) {
				w.NewChildKey(k, edgeIdx[i/2])
			}
			w.NewChildKey(k, kinIndex(w.R, k))
			w.PublicKeyExtended(genKey(w.R))
		})
		c.Par("families", c.N(80, 4000), func(w *W, i int) {
			idx := genPlain(w.R)
			for _, k := range family(w.R, genKey(w.R)) {
				w.NewChildKey(k, idx)
			}
		})
		c.mixed(c.N(60, 2000))
	}

	props["K06"] = func(c *Check) {
		c.Rule = "derivation and publication of keys under every registered version, both kinds, and under unregistered versions (bit flips of registered ones, byte-swapped, wrong kind, random); non-trivial: distinct (operation, key, index)"
		c.Require = []string{"unregistered-refused", "unregistered-published", "version-of-other-kind-refused", "wallet-path"}
		for v := range oracle.PrivToPub {
			c.Require = append(c.Require, fmt.Sprintf("version-%08x", v))
		}
		for v := range oracle.PubToPriv {
			c.Require = append(c.Require, fmt.Sprintf("version-%08x", v))
		}
		monK06(c)
		nv := len(oracle.PrivVersions)
		c.Par("registered", nv*60, func(w *W, i int) {
			k := genPriv(w.R)
			k.SetVersion(oracle.PrivVersions[i%nv])
			w.NewChildKey(k, kinIndex(w.R, k))
			pub := w.PublicKeyExtended(k)
			w.PublicKeyExtended(pub)
			p2 := genPubKey(w.R)
			p2.SetVersion(oracle.PubVersions[i%nv])
			w.NewChildKey(p2, kinIndex(w.R, p2)&^(1<<31))
			w.PublicKeyExtended(p2)
		})
		c.Par("unregistered", c.N(2500, 100000), func(w *W, i int) {
			k := genPriv(w.R)
			p := genPubKey(w.R)
			v := genUnregistered(w.R)
			k.SetVersion(v)
			p.SetVersion(v)
			w.NewChildKey(k, kinIndex(w.R, k))
			w.PublicKeyExtended(k)
			w.PublicKeyExtended(p)
			w.NewChildKey(p, kinIndex(w.R, p)&^(1<<31))
		})
		c.Par("wrong-kind", c.N(800, 20000), func(w *W, i int) {
			k := genWrongKind(w.R)
			w.NewChildKey(k, kinIndex(w.R, k))
			w.NewChildKey(k, kinIndex(w.R, k)&^(1<<31))
			w.PublicKeyExtended(k)
		})
		c.Par("bitflips", nv*32*2, func(w *W, i int) {
			k := genPriv(w.R)
			p := genPubKey(w.R)
			k.SetVersion(oracle.PrivVersions[i/64] ^ 1<<(i%32))
			p.SetVersion(oracle.PubVersions[i/64] ^ 1<<(i%32))
			w.PublicKeyExtended(k)
			w.PublicKeyExtended(p)
			w.NewChildKey(k, kinIndex(w.R, k))
			w.NewChildKey(p, kinIndex(w.R, p)&^(1<<31))
		})
		c.Par("chains", nv*4, func(w *W, i int) { // one chain per version, publishing half way
			k := genRoot(w.R)
			k.SetVersion(oracle.PrivVersions[i%nv])
			want := oracle.PrivToPub[k.Version()]
			for d := 0; d < 6; d++ {
				k, _ = w.NewChildKey(k, kinIndex(w.R, k))
			}
			p := w.PublicKeyExtended(k)
			for d := 0; d < 6; d++ {
				p, _ = w.NewChildKey(p, kinIndex(w.R, p)&^(1<<31))
			}
			w.EvalKey(fmt.Sprintf("chain %x", p[:]), true)
			if p.Version() != want {
				w.Fail(nil, "version at the end of a chain", fmt.Sprintf("%08x", p.Version()), fmt.Sprintf("%08x", want))
			}
		})
		c.Par("wallets", nv*40, func(w *W, i int) { // the paths that wallets derive along, from one generator
			g := &Gen{}
			k := genRoot(w.R)
			if i%3 > 0 {
				k.SetVersion(oracle.PrivVersions[i%nv])
			}
			if i%16 == 15 {
				k.SetVersion(genUnregistered(w.R))
			}
			w.SetRootKey(g, k)
			idx := walletIdxs(w.R)
			w.DerivePath(g, pathOf(idx))
			w.DerivePath(g, pathOf(idx[:1+w.R.Intn(5)]))
			idx[0] = pick[uint32](w.R, 44, 49, 84, 86) | 1<<31
			out, err := w.DerivePath(g, pathOf(idx))
			if err == nil && len(out) > 0 {
				last := out[w.R.Intn(len(out))]
				s := genPlain(w.R) % (1<<31 - 4)
				w.GenerateRange(&util.KeyPathRange{StartIndex: s, EndIndex: s + 2, KeyPath: util.KeyPath{Path: bip32.Path(last.Path), Key: bip32.Key(last.Key)}})
			}
		})
		c.Par("set", 400, func(w *W, i int) {
			k := genKey(w.R)
			v := pick(w.R, genPrivVersion(w.R), genPubVersion(w.R), genUnregistered(w.R))
			w.SetVersion(k, v, i%2 == 0)
		})
		c.mixed(c.N(60, 2000))
	}

	props["K07"] = func(c *Check) {
		c.Rule = "serialize, encode, decode, import of well-formed keys of both kinds, any version (incl. leading zero bytes), every depth, searched checksums with zero bytes, and near-duplicates; text and bytes compared with an independent Base58Check; non-trivial: distinct (operation, key or text)"
		c.Require = []string{"all-zero-key", "leading-ones", "checksum-leading-zero", "checksum-trailing-zero", "imported-Deserialize", "imported-B58Deserialize"}
		monK07(c)
		rt := func(w *W, k XKey) {
			w.Serialize(k)
			w.B58Serialize(k)
			b := oracle.Serialize(k)
			w.Deserialize(b)
			w.B58Deserialize(oracle.B58Encode(b))
			w.Fields(k)
			w.IsValid(k)
		}
		c.corpusKeys(rt)
		c.Par("corpus-serial", len(oracle.C.Serial), func(w *W, i int) { rt(w, oracle.FromHex(oracle.C.Serial[i].Key)) })
		c.Par("hostile", c.N(6000, 300000), func(w *W, i int) {
			k := genKey(w.R)
			if i%5 == 0 {
				k.SetVersion(pick[uint32](w.R, 0, 1, 0xff, 0x1234, 0xabcdef))
			}
			rt(w, k)
		})
		c.Par("families", c.N(300, 10000), func(w *W, i int) {
			for _, k := range family(w.R, genKey(w.R)) {
				rt(w, k)
			}
		})
		c.Par("derived", c.N(300, 10000), func(w *W, i int) { // the library's own keys
			k := genRoot(w.R)
			for d := 0; d < 4; d++ {
				b, _ := w.Serialize(k)
				w.Deserialize(b)
				s := w.B58Serialize(k)
				if k2, err := w.B58Deserialize(s); err != nil || k2 != k {
					w.Fail(nil, "round trip lost the key", k2, k)
				}
				k, _ = w.NewChildKey(k, kinIndex(w.R, k))
			}
		})
		c.Par("zero", 3, func(w *W, i int) { w.Serialize(XKey{}); w.B58Serialize(XKey{}); w.Fields(XKey{}) })
		c.Par("checksums", c.N(2000, 50000), func(w *W, i int) {
			b := rbytes(w.R, dictLen(w.R, w.R.Intn(200), 1<<16))
			plant(w.R, b)
			w.Checksum(b)
			w.AddChecksum(b)
		})
		szs := sizes(200, c.N(1<<20, 1<<24))
		c.Par("big-checksums", len(szs), func(w *W, i int) {
			b := rbytes(w.R, szs[i])
			w.Checksum(b)
			w.AddChecksum(b)
			w.Hash160(b)
		})
		c.mixed(c.N(60, 2000))
	}

	props["K08"] = func(c *Check) {
		c.Rule = "every single-bit flip of 82-byte serializations, every length 0..200 (cut, extended, zero-filled), swapped/zeroed/rotated bytes, all-zero input, and Base58 texts with one character changed, inserted, deleted, doubled, outside the alphabet, padded with ones or white space; non-trivial: damaged inputs, distinct"
		c.Require = []string{"refused-length", "refused-checksum", "intact-accepted", "b58-refused-length", "b58-refused-checksum", "b58-refused-alphabet"}
		monK08(c)
		c.Par("bitflips", 656*c.N(4, 60), func(w *W, i int) {
			k := c.keyFor("bitflips", i/656)
			b := oracle.Serialize(k)
			b[i%656/8] ^= 1 << (i % 8)
			w.Deserialize(b)
			if i%5 == 0 {
				w.B58Deserialize(oracle.B58Encode(b))
			}
		})
		c.Par("bytes", 82*256, func(w *W, i int) { // every byte value at every position
			b := oracle.Serialize(c.keyFor("bytes", 0))
			b[i/256] = byte(i)
			w.Deserialize(b)
		})
		c.Par("lengths", 201*4, func(w *W, i int) {
			k := c.keyFor("lengths", i%4)
			b := oracle.Serialize(k)
			n := i / 4
			if n <= 82 {
				b = b[:n]
			} else {
				b = append(b, make([]byte, n-82)...)
			}
			w.Deserialize(b)
			w.B58Deserialize(oracle.B58Encode(b))
			// a body of another length with its own correct checksum
			x := rbytes(w.R, n)
			copy(x, k[:])
			w.Deserialize(append(x, oracle.Checksum(x)...))
			w.B58Deserialize(oracle.B58Encode(append(x, oracle.Checksum(x)...)))
			w.Deserialize(make([]byte, n))
		})
		c.Par("damage", c.N(6000, 200000), func(w *W, i int) {
			r := w.R
			k := genKey(r)
			b := oracle.Serialize(k)
			switch i % 12 {
			case 9, 10:
				copy(b[78:], otherChecksum(r, b[:78]))
			case 11: // of another part of the key
				x := r.Intn(78)
				y := x + r.Intn(79-x)
				if r.Intn(2) == 0 {
					x, y = pick(r, 0, 4, 5, 9, 13, 45, 46), pick(r, 45, 77, 78)
				}
				copy(b[78:], oracle.Checksum(b[min(x, y):max(x, y)]))
			case 0:
				x, y := r.Intn(82), r.Intn(82)
				b[x], b[y] = b[y], b[x]
			case 1:
				copy(b[78:], []byte{0, 0, 0, 0})
			case 2: // only one byte of the checksum wrong
				b[78+r.Intn(4)] ^= byte(1 + r.Intn(255))
			case 3:
				b = append(b[1:], b[0])
			case 4:
				b = append([]byte{0}, b[:81]...)
			case 5: // other key's checksum
				copy(b[78:], oracle.Serialize(genKey(r))[78:])
			case 6:
				b[78], b[81] = b[81], b[78]
				b[79], b[80] = b[80], b[79]
			case 7:
				r.Read(b)
			case 8: // two bytes changed by the same mask (an XOR or sum checksum would miss it)
				m := byte(1 + r.Intn(255))
				b[r.Intn(39)] ^= m
				b[39+r.Intn(39)] ^= m
			}
			w.Deserialize(b)
			w.B58Deserialize(oracle.B58Encode(b))
		})
		szs := append(sizes(200, 1<<20), 256+82, 512+82, 65536+82, 1<<20+82)
		c.Par("long", len(szs), func(w *W, i int) { // longer inputs that begin or end with a sound key, or carry a right checksum
			ser := oracle.Serialize(genKey(w.R))
			b := make([]byte, szs[i])
			copy(b, ser)
			w.Deserialize(b)
			copy(b[len(b)-82:], ser)
			w.Deserialize(b)
			w.Deserialize(append(b[:len(b)-4:len(b)-4], oracle.Checksum(b[:len(b)-4])...))
			if len(b) <= 5000 {
				w.B58Deserialize(oracle.B58Encode(ser) + strings.Repeat(" ", len(b)))
				w.B58Deserialize(strings.Repeat("1", len(b)) + oracle.B58Encode(ser))
				w.B58Deserialize(oracle.B58Encode(ser) + strings.Repeat("1", len(b)))
				w.B58Deserialize(strings.Repeat("\n", len(b)) + oracle.B58Encode(ser))
			}
		})
		c.Par("intact", c.N(500, 10000), func(w *W, i int) {
			k := genKey(w.R)
			w.Deserialize(oracle.Serialize(k))
			w.B58Deserialize(oracle.B58Encode(oracle.Serialize(k)))
		})
		c.Par("text", c.N(6000, 200000), func(w *W, i int) {
			r := w.R
			s := oracle.B58Encode(oracle.Serialize(genKey(r)))
			k := r.Intn(len(s))
			al := "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
			switch i % 17 {
			case 14:
				s = foreignText(r, "english")
			case 15, 16:
				s = wrapText(r, s)
			case 0:
				s = s[:k] + string(al[r.Intn(58)]) + s[k+1:]
			case 1:
				s = s[:k] + string(al[r.Intn(58)]) + s[k:]
			case 2:
				s = s[:k] + s[k+1:]
			case 3:
				s = s[:k] + pick(r, "0", "O", "I", "l", "+", "/", " ", "\n", "\x00", "\xff", "é", "=") + s[k+1:]
			case 4:
				s = s[:k] + pick(r, "0", "O", "I", "l", "+", "/", " ", "\n", "\x00", "\xff", "é", "=") + s[k:]
			case 5:
				s = strings.Repeat("1", 1+r.Intn(4)) + s
			case 6:
				s = pick(r, " ", "\n", "\t", "") + s + pick(r, " ", "\n", "\r\n", "\x00", "1", "=")
			case 7:
				s += s
			case 8:
				s = strings.ToLower(s)
			case 9:
				s = strings.ToUpper(s)
			case 10:
				s = s[:k]
			case 11:
				s = s[k:]
			case 12:
				if k+1 < len(s) {
					s = s[:k] + string(s[k+1]) + string(s[k]) + s[k+2:]
				}
			case 13:
				s = pick(r, "", "1", "11", strings.Repeat("1", 82), strings.Repeat("1", 111), strings.Repeat("z", 111), "xprv", "xpub")
			}
			w.B58Deserialize(s)
		})
		c.mixed(c.N(40, 1000))
	}

	props["K09"] = func(c *Check) {
		c.Rule = "correctly checksummed keys with one BIP-32 defect each (all BIP-32 test vector 5 kinds: scalar 0 and n..2^256-1, prefixes 00..ff, X off the curve or above p, registered version over the other kind, depth 0 with fingerprint or child number), next to valid neighbours which must pass and be usable; non-trivial: distinct keys"
		c.Require = []string{"refused-private-zero", "refused-private-too-large", "refused-public-prefix", "refused-off-curve", "refused-depth0-child-number", "refused-depth0-fingerprint", "refused-version-kind-mismatch", "valid-imported", "usable"}
		monK09(c)
		monK02(c)
		monK03(c)
		imp := func(w *W, k XKey) {
			b := oracle.Serialize(k)
			w.IsValid(k)
			w.Deserialize(b)
			w.B58Deserialize(oracle.B58Encode(b))
		}
		c.Par("prefixes", 256*6, func(w *W, i int) {
			k := genPubKey(w.R)
			k[45] = byte(i / 6)
			imp(w, k)
			k.SetVersion(genUnregistered(w.R))
			imp(w, k)
		})
		c.Par("scalars", c.N(2500, 100000), func(w *W, i int) {
			k := genPriv(w.R)
			switch i % 5 {
			case 0:
				x := new(big.Int).Add(oracle.N, big.NewInt(int64(i/5%200-100)))
				x.FillBytes(k[46:])
			case 1:
				copy(k[46:], make([]byte, 32))
				k[77] = byte(i / 5 % 3)
			case 2:
				for j := 46; j < 78; j++ {
					k[j] = 0xff
				}
				k[46+w.R.Intn(32)] = byte(w.R.Intn(256))
			case 3:
				d := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), oracle.N)
				x := new(big.Int).SetBytes(rbytes(w.R, 1+w.R.Intn(17)))
				x.Mod(x, d).Add(x, oracle.N).FillBytes(k[46:])
			}
			if i%3 == 0 {
				k.SetVersion(genUnregistered(w.R))
			}
			imp(w, k)
		})
		c.Par("points", c.N(2500, 100000), func(w *W, i int) {
			k := genPubKey(w.R)
			switch i % 4 {
			case 0:
				w.R.Read(k[46:])
			case 1: // X >= p
				x := new(big.Int).Add(oracle.P, big.NewInt(int64(w.R.Intn(0x3d1))))
				x.FillBytes(k[46:])
			case 2:
				copy(k[46:], make([]byte, 32))
				k[77] = byte(i / 4)
			case 3:
				k[46+w.R.Intn(32)] ^= 1 << w.R.Intn(8)
			}
			imp(w, k)
		})
		nv := len(oracle.PrivVersions)
		c.Par("kind-mismatch", nv*16, func(w *W, i int) {
			k, p := genPriv(w.R), genPubKey(w.R)
			k.SetVersion(oracle.PubVersions[i%nv])
			p.SetVersion(oracle.PrivVersions[i%nv])
			imp(w, k)
			imp(w, p)
		})
		c.Par("lineage", c.N(1200, 40000), func(w *W, i int) {
			k := genKey(w.R)
			k[4] = 0
			copy(k[5:13], make([]byte, 8))
			if i%3 > 0 {
				k[5+w.R.Intn(8)] ^= 1 << w.R.Intn(8)
			}
			if i%7 == 0 { // more than one byte, fields that repeat others
				fields(w.R, &k)
				k[4] = 0
				copy(k[9:13], pick(w.R, k[9:13], k[9:13], k[5:9], k[13:17], []byte{0, 0, 0, 0}, rbytes(w.R, 4)))
				copy(k[5:9], pick(w.R, k[5:9], k[9:13], k[9:13], k[13:17], []byte{0, 0, 0, 0}))
			}
			imp(w, k)
			k[4] = byte(1 + w.R.Intn(255))
			imp(w, k)
		})
		c.corpusKeys(imp)
		c.Par("usable", c.N(500, 20000), func(w *W, i int) { // what passes import works
			k, err := w.Deserialize(oracle.Serialize(genKey(w.R)))
			if err != nil || !oracle.CanDerive(k) || k.Depth() == 255 {
				return
			}
			w.Feat("usable")
			if _, err := w.NewChildKey(k, kinIndex(w.R, k)&^(1<<31)); err != nil {
				w.Fail(nil, "an imported key cannot derive", err, "child")
			}
			w.PublicKeyExtended(k)
		})
		c.mixed(c.N(60, 2000))
	}

	props["K10"] = func(c *Check) {
		c.Rule = "public and private hex of keys with boundary scalars and searched points (2-3 zero bytes in X, Y), of their public forms, and expansion of compressed points at the edges of the field; non-trivial: distinct (operation, key)"
		c.Require = []string{"from-private", "from-public", "x-2-leading-zeros", "even", "odd", "private-leading-zero", "y-leading-zero"}
		monK10(c)
		probe := func(w *W, k XKey) {
			a := w.PublicKeyHex(k)
			w.PrivateKeyHex(k)
			pub := w.PublicKeyExtended(k)
			if b := w.PublicKeyHex(pub); a != b {
				w.Fail(nil, "key and public form export different public keys", b, a)
			}
			w.ExpandPublicKey(pub[45:])
			w.Hash160(pub[45:])
		}
		c.corpusKeys(probe)
		c.Par("hostile", c.N(4000, 300000), func(w *W, i int) { probe(w, genKey(w.R)) })
		c.Par("small", 600, func(w *W, i int) {
			k := genPriv(w.R)
			x := big.NewInt(int64(1 + i/2))
			if i%2 == 1 {
				x.Sub(oracle.N, x)
			}
			x.FillBytes(k[46:])
			probe(w, k)
		})
		c.Par("powers", 512, func(w *W, i int) {
			k := genPriv(w.R)
			x := new(big.Int).Lsh(big.NewInt(1), uint(i/2))
			if i%2 == 1 {
				x.Sub(x, big.NewInt(1))
			}
			x.Mod(x, oracle.N)
			if x.Sign() == 0 {
				return
			}
			x.FillBytes(k[46:])
			probe(w, k)
		})
		c.Par("families", c.N(100, 5000), func(w *W, i int) {
			for _, k := range family(w.R, genKey(w.R)) {
				probe(w, k)
			}
		})
		c.mixed(c.N(60, 2000))
	}

	props["A01"] = func(c *Check) {
		c.Rule = "AddrHex of private and public keys with searched points (leading zero bytes in X, Y and in the address), special points and random ones, against an independent Keccak over padded coordinates; non-trivial: distinct keys"
		c.Require = []string{"x-leading-zero", "y-leading-zero", "2-leading-zeros", "private", "public", "odd-y", "address-leading-zero"}
		monA01(c)
		probe := func(w *W, k XKey) {
			a := w.AddrHex(k)
			if k.Private() {
				if b := w.AddrHex(oracle.PubForm(k)); a != b {
					w.Fail(nil, "key and public form have different addresses", b, a)
				}
			}
		}
		c.corpusKeys(probe)
		c.Par("hostile", c.N(6000, 400000), func(w *W, i int) { probe(w, genKey(w.R)) })
		c.Par("families", c.N(150, 8000), func(w *W, i int) {
			for _, k := range family(w.R, genKey(w.R)) {
				probe(w, k)
			}
		})
		c.Par("derived", c.N(200, 10000), func(w *W, i int) {
			k := genRoot(w.R)
			for d := 0; d < 5; d++ {
				k, _ = w.NewChildKey(k, kinIndex(w.R, k))
				probe(w, k)
			}
		})
		c.mixed(c.N(60, 2000))
	}

	props["A02"] = func(c *Check) {
		c.Rule = "AddrP2SH of private and public keys for every prefix byte, searched keys whose hash has leading zero bytes, special points, near-duplicates, against an independent Base58Check; non-trivial: distinct (key, prefix)"
		c.Require = []string{"prefix-zero", "prefix-ff", "several-leading-ones", "private", "public", "x-leading-zero"}
		monA02(c)
		probe := func(w *W, k XKey, p byte) {
			a := w.AddrP2SH(k, p)
			if k.Private() {
				if b := w.AddrP2SH(oracle.PubForm(k), p); a != b {
					w.Fail(nil, "key and public form have different addresses", b, a)
				}
			}
		}
		c.corpusKeys(func(w *W, k XKey) {
			probe(w, k, 0)
			probe(w, k, 5)
			probe(w, k, byte(w.R.Intn(256)))
		})
		c.Par("prefixes", 256*6, func(w *W, i int) { probe(w, genKey(w.R), byte(i/6)) })
		c.Par("same-key", 256, func(w *W, i int) { k := c.keyFor("a02", 0); probe(w, k, byte(i)); probe(w, k, byte(i+1)) })
		c.Par("hostile", c.N(5000, 300000), func(w *W, i int) {
			probe(w, genKey(w.R), dictByte(w.R, pick(w.R, 0, 0, 5, 0x6f, 0xc4, 0xff, byte(w.R.Intn(256)))))
		})
		c.Par("families", c.N(150, 8000), func(w *W, i int) {
			p := byte(w.R.Intn(256))
			for _, k := range family(w.R, genKey(w.R)) {
				probe(w, k, p)
			}
		})
		c.mixed(c.N(60, 2000))
	}

	// ------------------------------------------------------------ paths and derivation

	props["P01"] = func(c *Check) {
		c.Rule = "path texts with numbers at every power-of-two and decimal boundary up to 2^66, apostrophes, leading zeros, white space anywhere, up to 600 components and again up to 2^15 components and 2^17 characters, and damaged texts, parsed and compared with an arbitrary-precision parser; non-trivial: distinct texts"
		c.Require = []string{"parsed", "refused", "out-of-range-refused", "edge-value", "white-space", "long-path"}
		monP01(c)
		c.paths(func(w *W, p string) { w.PathValues(p); w.PathValid(p) })
		c.mixed(c.N(40, 1000))
	}
	props["P02"] = func(c *Check) {
		c.Rule = "the same texts plus exhaustive short texts over the alphabet {m,M,/,',0,1,space,x}: validity, parsing, formatting and (on a good root) derivation must agree with the grammar; library-produced paths fed back; non-trivial: distinct (operation, text)"
		c.Require = []string{"valid", "invalid", "hardened-after-plain", "derivation-agrees", "library-made-path"}
		monP02(c)
		c.paths(func(w *W, p string) {
			w.PathValid(p)
			w.PathValues(p)
			s := w.PathString(p)
			if s2 := w.PathString(s); s2 != s && !ambiguousWS(p) {
				w.Fail(nil, "formatting is not idempotent", s2, s)
			}
		})
		// all texts of up to 6 characters over a small alphabet
		al := "mM/'01 x"
		total := 0
		for n, k := 0, 1; n <= 6; n, k = n+1, k*8 {
			total += k
		}
		c.Par("short-texts", total, func(w *W, i int) {
			n, k := 0, 1
			for i >= k {
				i -= k
				k *= 8
				n++
			}
			b := make([]byte, n)
			for j := range b {
				b[j] = al[i%8]
				i /= 8
			}
			w.PathValid(string(b))
			w.PathValues(string(b))
		})
		c.extra["exhaustive_part"] = fmt.Sprintf("all %d texts of length 0..6 over %q", total, al)
		c.Par("derivation", c.N(300, 10000), func(w *W, i int) {
			g := &Gen{}
			root := genRoot(w.R)
			w.SetRootKey(g, root)
			p := genPathText(w.R, genIdxs(w.R, 6))
			if i%3 == 0 {
				p = genBadPath(w.R)
				if len(p) > 200 {
					return
				}
			}
			out, err := w.DerivePath(g, p)
			if err != nil {
				return
			}
			for _, k := range out {
				w.libPath(k.Path)
			}
			if p2, err := w.PathReplace(p, byte(1+w.R.Intn(4)), genIndex(w.R)); err == nil {
				w.libPath(p2)
			}
			r := util.KeyPathRange{StartIndex: genIndex(w.R)}
			if r.StartIndex == 0xffffffff {
				return
			}
			r.EndIndex = r.StartIndex + 1
			r.Path, r.Key = bip32.Path(p), bip32.Key(root)
			if kp, err := w.GenerateRange(&r); err == nil {
				for _, k := range kp {
					w.libPath(k.Path)
				}
			}
		})
		c.mixed(c.N(60, 1000))
	}
	props["P03"] = func(c *Check) {
		c.Rule = "every level 0..255 of paths of 0..600 components read and replaced by edge and random values, on odd spellings too; result re-parsed and compared level by level; non-trivial: distinct (operation, path, level, value)"
		c.Require = []string{"missing-level-refused", "read", "path-of-256-levels-or-more", "refused", "root-level-refused", "replaced", "replaced-by-hardened", "hardened-replaced-by-plain"}
		monP03(c)
		c.Par("levels", c.N(3000, 100000), func(w *W, i int) {
			p := genPathText(w.R, genIdxs(w.R, 8))
			for d := 0; d < 11; d++ {
				w.PathValue(p, byte(d))
				w.PathReplace(p, byte(d), genIndex(w.R))
			}
			w.PathValue(p, dictByte(w.R, byte(w.R.Intn(256))))
			w.PathReplace(p, dictByte(w.R, byte(w.R.Intn(256))), genIndex(w.R))
		})
		c.Par("long", c.N(160, 3000), func(w *W, i int) {
			n := dictLen(w.R, pick(w.R, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 100+w.R.Intn(500)), 4000)
			p := pathOf(longIdxs(w.R, n))
			for _, d := range []byte{0, 1, 2, 127, 128, 253, 254, 255, byte(w.R.Intn(256))} {
				w.PathValue(p, d)
				w.PathReplace(p, d, genIndex(w.R))
			}
		})
		c.Par("bad", c.N(2000, 50000), func(w *W, i int) {
			p := genBadPath(w.R)
			w.PathValue(p, byte(w.R.Intn(6)))
			w.PathReplace(p, byte(w.R.Intn(6)), genIndex(w.R))
		})
		c.Par("same-number-twice", 600, func(w *W, i int) { // equal components, prefixes of each other, M
			v := genIndex(w.R)
			idx := []uint32{v, v, v ^ 0x80000000, v, 1, 11, 111, 1}
			p := genPathText(w.R, idx)
			if i%3 == 0 {
				p = "M" + strings.TrimLeft(pathOf(idx), "m")
			}
			for d := 0; d < 10; d++ {
				w.PathReplace(p, byte(d), pick(w.R, v, v^0x80000000, 1, 11, genIndex(w.R)))
				w.PathValue(p, byte(d))
			}
		})
		c.mixed(c.N(40, 1000))
	}

	props["D01"] = func(c *Check) {
		c.Rule = "DeriveBIP32Result on master keys of every private version along random valid paths (0..255 components, mixed order, odd spellings, shared prefixes, repeated calls, several generators), every entry compared with independent derivation; non-trivial: distinct (root, path)"
		c.Require = []string{"root-only", "ten-levels-or-more", "255-levels", "hardened-after-plain", "key-leading-zero", "root-set-by-reference"}
		monD01(c)
		c.Par("paths", c.N(1400, 60000), func(w *W, i int) {
			g := &Gen{}
			w.SetRootKey(g, genRoot(w.R))
			idx := genIdxs(w.R, 10)
			w.DerivePath(g, genPathText(w.R, idx))
			if len(idx) > 0 { // neighbouring paths on the same generator
				j := append([]uint32{}, idx...)
				j[w.R.Intn(len(j))] ^= pick[uint32](w.R, 0x80000000, 1, 0x100)
				w.DerivePath(g, pathOf(j))
				w.DerivePath(g, pathOf(idx[:len(idx)-1]))
				w.DerivePath(g, pathOf(idx))
			}
			w.RootKey(g)
		})
		c.Par("deep", c.N(30, 400), func(w *W, i int) {
			g := &Gen{}
			w.SetRootKey(g, genRoot(w.R))
			n := []int{255, 254, 128, 127, 200, 255, 253, 129, dictLen(w.R, 1+w.R.Intn(255), 255)}[i%9]
			w.DerivePath(g, pathOf(longIdxs(w.R, n)))
		})
		c.Par("generators", c.N(60, 3000), func(w *W, i int) { // interleaved generators, same path; root replaced
			var gs [4]*Gen
			base := genRoot(w.R)
			fam := family(w.R, base)
			for j := range gs {
				gs[j] = &Gen{}
				k := fam[w.R.Intn(len(fam))]
				copy(k[4:13], make([]byte, 9))
				w.SetRootKey(gs[j], k)
			}
			p := genPathText(w.R, genIdxs(w.R, 5))
			for j := 0; j < 8; j++ {
				g := gs[w.R.Intn(4)]
				w.DerivePath(g, p)
				if w.R.Intn(3) == 0 {
					w.SetRootKey(g, genRoot(w.R))
					w.DerivePath(g, p)
				}
				w.RootKey(g)
			}
		})
		// histories: few roots and paths, so that every combination returns under changed circumstances
		c.Par("histories", c.N(60, 4000), func(w *W, i int) {
			roots := append(family(w.R, genRoot(w.R))[:2:2], genRoot(w.R), genRoot(w.R))
			for j := range roots {
				copy(roots[j][4:13], make([]byte, 9))
			}
			paths := []string{genPathText(w.R, genIdxs(w.R, 4)), genPathText(w.R, genIdxs(w.R, 3)), "m", "m/x", "m/0'/1"}
			gs := [2]*Gen{{}, {}}
			for j := 0; j < 30; j++ {
				g := gs[w.R.Intn(2)]
				switch w.R.Intn(6) {
				case 0:
					w.SetRootKey(g, roots[w.R.Intn(len(roots))])
				case 1:
					w.SetRootByRef(g, roots[w.R.Intn(len(roots))])
					w.Feat("root-set-by-reference")
				case 2:
					if w.R.Intn(4) == 0 { // something that cannot be derived from in between
						w.SetRootKey(g, pick(w.R, XKey{}, oracle.PubForm(roots[0])))
					} else if k := g.Root; true {
						k.SetVersion(genPrivVersion(w.R))
						w.SetRootByRef(g, k)
					}
				default:
					w.DerivePath(g, paths[w.R.Intn(len(paths))])
				}
			}
		})
		c.corpusDerive(func(w *W, par XKey, idx uint32) {
			if par.Depth() == 0 {
				g := &Gen{}
				w.SetRootKey(g, par)
				w.DerivePath(g, pathOf([]uint32{idx, genIndex(w.R)}))
			}
		})
		c.Par("standard", c.N(200, 5000), func(w *W, i int) { // BIP-44 shaped
			g := &Gen{}
			w.SetRootKey(g, genRoot(w.R))
			coin := pick(w.R, oracle.Rows[w.R.Intn(len(oracle.Rows))].Path, "m/44'/60'")
			if coin == "" {
				coin = "m/84'/0'"
			}
			w.DerivePath(g, fmt.Sprintf("%s/%d'/%d/%d", coin, w.R.Intn(3), w.R.Intn(2), w.R.Intn(1000)))
		})
		c.mixed(c.N(40, 1000))
	}

	props["D02"] = func(c *Check) {
		c.Rule = "derivations and ranges that cannot be done - empty, invalid, public or non-master roots, unregistered versions, invalid paths, more than 255 components, depth-255 bases, hardened ranges from public keys - next to feasible neighbours: must be errors without keys; every key of every success re-validated; non-trivial: distinct requests"
		c.Require = []string{"path-root-empty", "path-root-invalid", "path-root-public", "path-root-not-master", "path-path-invalid", "path-version-unregistered", "path-too-deep", "path-derived",
			"range-empty", "range-inverted", "range-base-empty", "range-base-invalid", "range-path-invalid", "range-version-unregistered", "range-too-deep", "range-hardened-from-public", "range-derived"}
		monD02(c)
		c.Par("roots", c.N(1500, 60000), func(w *W, i int) {
			g := &Gen{}
			r := w.R
			var k XKey
			switch i % 9 {
			case 0:
			case 1:
				k = genPubKey(r)
				copy(k[4:13], make([]byte, 9))
			case 2:
				k = genPriv(r)
				k[4] = byte(1 + r.Intn(255))
			case 3:
				k = genRoot(r)
				k.SetVersion(genUnregistered(r))
			case 4:
				k = badKey(w)
			case 5:
				k = genRoot(r)
				k[5+r.Intn(8)] ^= 1 << r.Intn(8)
			case 6:
				r.Read(k[:])
			default:
				k = genRoot(r)
			}
			w.SetRootKey(g, k)
			p := genPathText(r, genIdxs(r, 4))
			if i%9 >= 7 && r.Intn(2) == 0 {
				p = genBadPath(r)
				if len(p) > 300 {
					p = "m/0/"
				}
			}
			w.DerivePath(g, p)
		})
		c.Par("deep", c.N(72, 1000), func(w *W, i int) {
			g := &Gen{}
			w.SetRootKey(g, genRoot(w.R))
			n := []int{256, 256, 257, 255, 300, 511, 512, 513, 768}[i%9]
			w.DerivePath(g, pathOf(longIdxs(w.R, n)))
		})
		c.Par("huge", c.N(1, 4), func(w *W, i int) {
			r := util.KeyPathRange{StartIndex: pick[uint32](w.R, 0, 0x80000000-66037, 0x7fff8000, 0xffff0000-3000)}
			r.EndIndex = r.StartIndex + 66037 // a prime
			r.Key, r.Path = bip32.Key(genRoot(w.R)), "m"
			w.GenerateRange(&r)
		})
		c.ranges(c.N(1500, 60000))
		c.rangeHistories(c.N(80, 4000))
		c.mixed(c.N(40, 1000))
	}

	props["D03"] = func(c *Check) {
		c.Rule = "ranges of 1..40 indices around 0, 2^31, 2^32-1 and random starts, from private and public bases at any depth, on base paths of any spelling, reusing one range object after success and failure, with one request field changed at a time and with the entries of the last call cut, edited or preset by the caller; every entry compared with independent derivation; inverted/empty/invalid requests; non-trivial: distinct requests"
		c.Require = []string{"generated", "several-entries", "crosses-hardened-boundary", "public-base", "ends-at-last-index", "refused-empty", "refused-inverted", "refused-base-invalid", "refused-path-invalid", "refused-with-earlier-results", "more-than-65536-entries", "one-field-changed", "entries-changed-by-caller"}
		monD03(c)
		c.Par("huge", c.N(1, 4), func(w *W, i int) {
			r := util.KeyPathRange{StartIndex: pick[uint32](w.R, 0, 0x80000000-66037, 0x7fff8000, 0xffff0000-3000)}
			r.EndIndex = r.StartIndex + 66037 // a prime
			r.Key, r.Path = bip32.Key(genRoot(w.R)), "m"
			w.GenerateRange(&r)
		})
		c.ranges(c.N(1500, 60000))
		c.rangeHistories(c.N(150, 8000))
		c.Par("big", c.N(6, 60), func(w *W, i int) { // long ranges
			r := util.KeyPathRange{StartIndex: pick[uint32](w.R, 0, 0x80000000-150, 250)}
			r.EndIndex = r.StartIndex + uint32(dictLen(w.R, int(pick(w.R, 300, 257, 513, 1103, 1000+uint32(w.R.Intn(200)))), 5000))
			k := genRoot(w.R)
			if i%2 == 1 && r.EndIndex <= 0x80000000 {
				k = oracle.PubForm(k)
			}
			r.Key, r.Path = bip32.Key(k), "m/44'/0'/0'/0"
			w.GenerateRange(&r)
		})
		c.mixed(c.N(40, 1000))
	}

	props["D04"] = func(c *Check) {
		c.Rule = "RootKeyFromSeed on hex of every length 0..300 bytes and up to 1 MiB in lower, upper and mixed case, odd lengths, non-hex characters anywhere, prefixes, white space, empty; searched seeds; non-trivial: distinct texts"
		c.Require = []string{"opened", "not-hex-refused", "short-refused", "upper-case", "exactly-16-bytes", "longer-than-64"}
		monD04(c)
		c.Par("lengths", 301*4, func(w *W, i int) {
			b := rbytes(w.R, i/4)
			plant(w.R, b)
			s := oracle.Hex(b)
			switch i % 4 {
			case 1:
				s = strings.ToUpper(s)
			case 2:
				s = mixCase(w, s)
			case 3:
				s = oracle.Hex(make([]byte, i/4))
			}
			w.RootKeyFromSeed(s)
			if len(s) > 0 {
				w.RootKeyFromSeed(s[:len(s)-1])
			}
		})
		c.Par("corpus", len(oracle.C.Seeds), func(w *W, i int) { w.RootKeyFromSeed(oracle.C.Seeds[i].Seed) })
		szs := sizes(600, c.N(1<<20, 1<<24))
		c.Par("big", len(szs), func(w *W, i int) {
			s := []byte(oracle.Hex(rbytes(w.R, szs[i]/2)))
			if szs[i]%2 == 1 {
				s = append(s, 'a')
			}
			w.RootKeyFromSeed(string(s))
			s[len(s)-1] = pick[byte](w.R, '0', 'z', ' ', 'F')
			w.RootKeyFromSeed(string(s))
		})
		c.Par("hostile", c.N(8000, 500000), func(w *W, i int) {
			r := w.R
			s := oracle.Hex(genSeed(r))
			k := r.Intn(len(s) + 1)
			switch i % 12 {
			case 8, 9:
				s = foreignText(r, oracle.Langs[r.Intn(len(oracle.Langs))])
			case 10:
				s = foreignText(r, "english")
			case 11:
				s = wrapText(r, s)
			case 0:
				s = s[:k] + pick(r, "g", "G", "x", " ", "\n", "\x00", "é", ":", "-", "０", "O", "l", "/", "@", "`") + s[k:]
			case 1:
				s = pick(r, "0x", "0X", " ", "\t", "") + s + pick(r, " ", "\n", "h", "")
			case 2:
				s = s[:k]
			case 3:
				s = mixCase(w, s)
			case 4:
				s = pick(r, "", "0", "00", "zz", strings.Repeat("0", 31), strings.Repeat("0", 32), strings.Repeat("f", 33), strings.Repeat("F", 32), "null")
			}
			w.RootKeyFromSeed(s)
		})
		c.Par("neighbours", c.N(1500, 50000), func(w *W, i int) { // refused right after accepted, shared prefixes
			b := genSeed(w.R)
			s := oracle.Hex(b)
			w.RootKeyFromSeed(s)
			w.RootKeyFromSeed(s + "zz")
			w.RootKeyFromSeed(s + "00")
			w.RootKeyFromSeed(strings.ToUpper(s))
			w.RootKeyFromSeed(s[:min(len(s), 30)])
			w.RootKeyFromSeed(s)
		})
		c.mixed(c.N(60, 2000))
	}

	props["D05"] = func(c *Check) {
		c.Rule = "every word count 0..255 of GenerateMnemonic under every list, and full pipelines mnemonic -> hex seed -> root -> path -> keys and addresses, every stage compared with an independent pipeline; non-trivial: distinct generated mnemonics and pipeline inputs"
		c.Require = []string{"generated-12", "generated-15", "generated-18", "generated-21", "generated-24", "count-refused", "pipeline"}
		monD05(c)
		c.forLangs(func(lang string) {
			c.Par("counts-"+lang, 256, func(w *W, i int) { w.GenerateMnemonic(byte(i)) })
			c.Par("generate-"+lang, c.N(150, 6000), func(w *W, i int) { w.GenerateMnemonic([]byte{12, 15, 18, 21, 24}[i%5]) })
			c.Par("pipeline-"+lang, c.N(48, 3000), func(w *W, i int) {
				r := w.R
				var m string
				if i%2 == 0 {
					m, _ = w.GenerateMnemonic([]byte{12, 15, 18, 21, 24}[i/2%5])
				} else {
					m = oracle.Sentence(lang, genEntropy(r, entLens[i/2%5]))
				}
				pass := kinPass(r, m, genStablePass(r))
				if !stable(m) || !stable(pass) {
					return
				}
				idx := genIdxs(r, 5)
				c.pipeline(w, m, pass, idx)
				if i%4 == 1 {
					c.pipeline(w, m, pass+"2", idx)
				}
			})
		})
		c.mixed(c.N(40, 1000))
	}
}

// otherChecksum: four bytes that another format, or a slip, would put in the place of the checksum.
func otherChecksum(r *rand.Rand, b []byte) []byte {
	one := sha256.Sum256(b)
	two := sha256.Sum256(one[:])
	three := sha256.Sum256(two[:])
	h512 := sha512.Sum512(b)
	var out [4]byte
	switch r.Intn(14) {
	case 0, 1:
		return one[:4]
	case 2:
		return two[28:]
	case 3:
		return three[:4]
	case 4:
		return h512[:4]
	case 5:
		return oracle.Keccak(b)[:4]
	case 6:
		return oracle.Hash160(b)[:4]
	case 7:
		binary.BigEndian.PutUint32(out[:], crc32.ChecksumIEEE(b))
	case 8:
		binary.LittleEndian.PutUint32(out[:], crc32.ChecksumIEEE(b))
	case 9:
		return two[4:8]
	case 10:
		return one[28:]
	case 11: // the four bytes in another order
		for i, j := range r.Perm(4) {
			out[i] = two[j]
		}
	case 12: // inverted
		for i := range out {
			out[i] = ^two[i]
		}
	case 13:
		return slices.Repeat(two[:1], 4)
	}
	return out[:]
}

func bytesZeroHeavy(b []byte) bool {
	n := 0
	for _, x := range b {
		if x == 0 || x == 0xff {
			n++
		}
	}
	return n > 20
}

func mixCase(w *W, s string) string {
	b := []byte(s)
	for i := range b {
		if w.R.Intn(2) == 0 && b[i] >= 'a' && b[i] <= 'f' {
			b[i] -= 32
		}
	}
	return string(b)
}

// badKey returns a key BIP-32 declares invalid.
func badKey(w *W) XKey {
	r := w.R
	k := genRoot(r)
	switch r.Intn(5) {
	case 0:
		copy(k[46:], make([]byte, 32))
	case 1:
		x := new(big.Int).Add(oracle.N, big.NewInt(int64(r.Intn(1000))))
		x.FillBytes(k[46:])
	case 2:
		k[45] = byte(4 + r.Intn(252))
	case 3:
		k.SetVersion(genPubVersion(r))
	case 4:
		p := genPubKey(r)
		for {
			r.Read(p[46:])
			if !p.MaterialOK() {
				return p
			}
		}
	}
	return k
}

// keyFor is a fixed well-formed key of a phase.
func (c *Check) keyFor(phase string, i int) XKey {
	r := c.caseRand("key-"+phase, i)
	if i%2 == 1 {
		return genPubKey(r)
	}
	return genPriv(r)
}

func (w *W) libPath(p string) {
	e := w.ev("#library-path", p)
	var ok bool
	e.Panic = guard(func() { ok = bip32.Path(p).IsValid() })
	e.Out = []any{ok}
	w.emit(e)
}

// paths runs f over path texts.
func (c *Check) paths(f func(w *W, p string)) {
	c.Par("texts", c.N(30000, 1000000), func(w *W, i int) { f(w, genPathAny(w.R)) })
	c.Par("numbers", 67*9*2, func(w *W, i int) {
		x := new(big.Int).Lsh(big.NewInt(1), uint(i/18))
		x.Add(x, big.NewInt(int64(i/2%9-4)))
		if x.Sign() < 0 {
			return
		}
		t := x.String()
		if i%2 == 1 {
			t += "'"
		}
		f(w, "m/"+t)
		f(w, "m/0/"+t+"/0")
		f(w, "m/"+strings.Repeat("0", 1+i%40)+t)
		f(w, "M/44'/"+t+"/1'")
	})
	c.Par("decimals", 24*10*2, func(w *W, i int) {
		t := strings.Repeat(fmt.Sprint(i/2%10), 1+i/20)
		if i%2 == 1 {
			t += "'"
		}
		f(w, "m/"+t)
		f(w, "m/1/"+t)
	})
	c.Par("multiples", c.N(4000, 100000), func(w *W, i int) { // indices plus multiples of 2^32, 2^31, 2^64
		x := new(big.Int).SetUint64(uint64(genIndex(w.R)))
		m := new(big.Int).Lsh(big.NewInt(int64(1+w.R.Intn(5))), uint(pick(w.R, 31, 32, 33, 63, 64, 65, 128)))
		x.Add(x, m)
		f(w, "m/"+x.String()+pick(w.R, "", "'"))
	})
	// every byte and some other characters put in at, or in place of, every position
	bases := []string{"m", "M/0", "m/44'/60'/0'", "m/1000", "m/1000000'/5", "m/2147483648/1", "m/12345678/4294967295"}
	odd := []string{"\u0660", "\uff11", "\u00b9", "\u2019", "\u2032", "\uff07", "\u02b9", "\u2212", "\u00a0", "\u2009", "\u202f", "\u2044", "\u2215", "\uff0f", "__", "''", "//", "0x", "1e", "+-", "\xef\xbb\xbf", "\u0301", "\u200d", "\u00ad"}
	for _, b := range bases {
		c.Par("edits-"+b, (256+len(odd))*(len(b)+1), func(w *W, i int) {
			pos, k := i%(len(b)+1), i/(len(b)+1)
			var x string
			if k < 256 {
				x = string([]byte{byte(k)})
			} else {
				x = odd[k-256]
			}
			f(w, b[:pos]+x+b[pos:])
			if pos < len(b) {
				f(w, b[:pos]+x+b[pos+1:])
			}
		})
	}
	c.Par("long", c.N(300, 3000), func(w *W, i int) {
		n := dictLen(w.R, pick(w.R, 120, 200, 254, 255, 256, 257, 300, 511, 512, 600, 1+w.R.Intn(300)), 2000)
		f(w, genPathText(w.R, longIdxs(w.R, n)))
	})
	szs := sizes(600, c.N(1<<17, 1<<20))
	c.Par("big", len(szs)*4, func(w *W, i int) { // texts of that many characters or components, sound and spoiled at the end
		n := szs[i/4]
		t := fmt.Sprint(genPlain(w.R)) + pick(w.R, "", "'")
		var p string
		switch i % 4 {
		case 0:
			p = "m/" + strings.Repeat("0", n) + t
		case 1:
			p = "m/" + t + strings.Repeat(pick(w.R, " ", "\n"), n) + "/0'"
		case 2:
			if n > c.N(1<<15, 1<<18) {
				return
			}
			p = "m" + strings.Repeat(pick(w.R, "/0", "/1'", "/2147483648", "/00"), n)
		default:
			if n < 2000 {
				p = "m/" + strings.Repeat("9", n) + pick(w.R, "", "'")
			} else {
				p = "m" + strings.Repeat("/44'/0/7'", n/9)
			}
		}
		f(w, p)
		f(w, p+pick(w.R, "/", "x", "/4294967296", "/2147483648'", "/'", "m"))
		f(w, p+"/1'")
	})
}

// ranges drives GenerateRange with reused objects.
func (c *Check) ranges(n int) {
	c.Par("ranges", n, func(w *W, i int) {
		r := w.R
		var kr util.KeyPathRange
		calls := 1 + r.Intn(3)
		for j := 0; j < calls; j++ {
			k := genPriv(r)
			if r.Intn(2) == 0 {
				k = genPubKey(r)
			}
			if k[4] == 255 && r.Intn(3) > 0 {
				k[4] = 7
			}
			switch r.Intn(12) {
			case 0:
				k.SetVersion(genUnregistered(r))
			case 1:
				k = badKey(w)
			case 2:
				k = XKey{}
			case 3:
				k = genPriv(r)
				k[4] = 255
			}
			p := genPathText(r, genIdxs(r, 4))
			if r.Intn(8) == 0 {
				p = genBadPath(r)
				if len(p) > 300 {
					p = "x"
				}
			}
			s := pick[uint32](r, 0, 1, 0x80000000-3, 0x80000000, 0x7fffffff, 0xffffffff-4, 0xfffffffe, r.Uint32(), genIndex(r), genPlain(r))
			if r.Intn(6) == 0 { // what the path and the key have to do with
				s = kinIndex(r, k)
				if v, ok := oracle.ParsePath(p); ok && len(v) > 0 && r.Intn(2) == 0 {
					s = v[r.Intn(len(v))] + pick[uint32](r, 0, 0, 1, 0xffffffff)
				}
			}
			if v, ok := dictIndex(r); ok {
				s = v
			}
			n := uint32(dictLen(r, 1+r.Intn(6), 150))
			t := s + n
			if t < s {
				t = 0xffffffff
			}
			switch r.Intn(10) {
			case 0:
				t = s
			case 1:
				s, t = t, s
			case 2:
				s, t = 1+uint32(r.Intn(5)), 0
			}
			if t > s && t-s > 2000 {
				t = s + 1
			}
			kr.StartIndex, kr.EndIndex = s, t
			kr.Path, kr.Key = bip32.Path(p), bip32.Key(k)
			w.GenerateRange(&kr)
		}
	})
}

// pipeline checks the whole chain from mnemonic to addresses.
func (c *Check) pipeline(w *W, m, pass string, idx []uint32) {
	w.Feat("pipeline")
	w.EvalKey(fmt.Sprint("pipeline ", m, "|", pass, idx), true)
	seed := oracle.Seed(m, pass)
	hexSeed, err := w.DeriveSeed(m, pass)
	if err != nil || hexSeed != oracle.Hex(seed) {
		w.Fail(nil, fmt.Sprintf("pipeline: hex seed of %q / %q", m, pass), fmt.Sprint(hexSeed, err), oracle.Hex(seed))
		return
	}
	root, err := w.RootKeyFromSeed(hexSeed)
	wantRoot, _ := oracle.Master(seed)
	if err != nil || root != wantRoot {
		w.Fail(nil, "pipeline: root key", root, wantRoot)
		return
	}
	g := &Gen{}
	w.SetRootKey(g, root)
	out, err := w.DerivePath(g, pathOf(idx))
	want, ok := deriveOracle(wantRoot, idx)
	if !ok {
		return
	}
	if err != nil || len(out) != len(want) {
		w.Fail(nil, "pipeline: derivation "+pathOf(idx), fmt.Sprint(len(out), err), len(want))
		return
	}
	for i := range want {
		if out[i] != want[i] {
			w.Fail(nil, "pipeline: key "+want[i].Path, out[i].String(), want[i].String())
			return
		}
	}
	last := want[len(want)-1].Key
	pub := last.Pub()
	if a, b := w.AddrHex(out[len(out)-1].Key), oracle.EthAddr(last.Point()); a != b {
		w.Fail(nil, "pipeline: Ethereum address", a, b)
	}
	if a, b := w.AddrP2SH(out[len(out)-1].Key, 5), oracle.B58Addr(5, pub[:]); a != b {
		w.Fail(nil, "pipeline: Base58 address", a, b)
	}
	if a, b := w.B58Serialize(out[len(out)-1].Key), oracle.B58Encode(oracle.Serialize(last)); a != b {
		w.Fail(nil, "pipeline: extended key text", a, b)
	}
	if a, b := w.PublicKeyHex(out[len(out)-1].Key), oracle.Hex(pub[:]); a != b {
		w.Fail(nil, "pipeline: public key", a, b)
	}
}

// rangeHistories reuses few range objects with few bases, paths and limits: one request field changes between two calls.
func (c *Check) rangeHistories(n int) {
	c.Par("histories", n, func(w *W, i int) {
		r := w.R
		bases := []XKey{genPriv(r), genPriv(r), genPubKey(r), {}, badKey(w)}
		for j := range bases[:3] {
			if bases[j][4] == 255 {
				bases[j][4] = 9
			}
		}
		bases = append(bases, family(r, bases[0])[:3]...)
		bases = append(bases, family(r, bases[2])[:2]...)
		if oracle.CanDerive(bases[0]) {
			bases = append(bases, oracle.PubForm(bases[0]))
		}
		paths := []string{genPathText(r, genIdxs(r, 3)), pathOf(genIdxs(r, 3)), "m", "M", "m/0", "m/ 0", "x", "m/0/"}
		at := genPlain(r) &^ 0xf
		limits := []uint32{at, at + 1, at + 3, at + 5, at + 1, 0x80000000, 0x80000002, 0x80000001}
		objs := [2]*util.KeyPathRange{{}, {}}
		for _, o := range objs {
			o.Key, o.Path = bip32.Key(bases[0]), bip32.Path(paths[0])
			o.StartIndex, o.EndIndex = limits[0], limits[2]
		}
		for j := 0; j < 14; j++ {
			o := objs[r.Intn(2)]
			switch r.Intn(9) {
			case 0, 1:
				o.Key = bip32.Key(bases[r.Intn(len(bases))])
				w.Feat("one-field-changed")
			case 2:
				o.Path = bip32.Path(paths[r.Intn(len(paths))])
			case 3:
				o.StartIndex = limits[r.Intn(len(limits))]
			case 4:
				o.EndIndex = limits[r.Intn(len(limits))]
			case 5: // same length, other place
				o.StartIndex, o.EndIndex = o.StartIndex^2, o.EndIndex^2
			case 6: // the caller owns the entries of the last call
				if n := len(o.KeyPaths); n > 0 {
					o.KeyPaths = append([]util.KeyPath{}, o.KeyPaths...) // earlier results are still watched
					switch r.Intn(5) {
					case 0:
						o.KeyPaths = o.KeyPaths[:r.Intn(n)]
					case 1:
						o.KeyPaths[r.Intn(n)].Key = bip32.Key(genPriv(r))
					case 2:
						o.KeyPaths[r.Intn(n)].Path = "m/7"
					case 3:
						o.KeyPaths = append(o.KeyPaths, o.KeyPaths[0])
					default:
						o.KeyPaths = append([]util.KeyPath{}, objs[0].KeyPaths...)
					}
					w.Feat("entries-changed-by-caller")
				}
			case 7: // back to something that works
				o.Key, o.Path = bip32.Key(bases[r.Intn(2)]), bip32.Path(paths[1])
				o.StartIndex, o.EndIndex = limits[r.Intn(2)], limits[2+r.Intn(2)]
			}
			if o.EndIndex > o.StartIndex && o.EndIndex-o.StartIndex > 40 {
				o.EndIndex = o.StartIndex + 3
			}
			w.GenerateRange(o)
		}
	})
}
