package main

// Monitors: one oracle per property over observed events.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"strings"
	"unicode/utf8"

	"verifharness/oracle"
)

func asErr(x any) error {
	if x == nil {
		return nil
	}
	return x.(error)
}

func (w *W) eq(e *Event, what string, got, want []byte) bool {
	if !bytes.Equal(got, want) || (got == nil) != (want == nil) && len(want) > 0 {
		w.Fail(e, what, got, want)
		return false
	}
	return true
}

func leadZeros(b []byte) int {
	n := 0
	for _, c := range b {
		if c != 0 {
			break
		}
		n++
	}
	return n
}

// ---------------------------------------------------------------- BIP-39

func monB01(c *Check) {
	c.On("NewMnemonic", func(w *W, e *Event) {
		ent := e.In[0].([]byte)
		out, err := e.Out[0].(string), asErr(e.Out[1])
		if !oracle.EntropyLenOK(len(ent)) {
			w.Feat("illegal-length-refused")
			w.Eval(e, true)
			if err == nil || out != "" {
				w.Fail(e, "entropy of illegal length was encoded", out, "error and no sentence")
			}
			return
		}
		w.Eval(e, true)
		if err != nil {
			w.Fail(e, "legal entropy refused", err, oracle.Sentence(e.Lang, ent))
			return
		}
		if want := oracle.Sentence(e.Lang, ent); out != want {
			w.Fail(e, "sentence is not the BIP-39 sentence", out, want)
		}
		w.Feat("lang-" + e.Lang)
		w.Feat(fmt.Sprintf("bytes-%d", len(ent)))
		w.FeatIf(leadZeros(ent) > 0, "leading-zero-bytes")
		w.FeatIf(leadZeros(ent) == len(ent), "all-zero")
	})
}

func monB02(c *Check) {
	dec := func(kind int) Monitor {
		return func(w *W, e *Event) {
			m := e.In[0].(string)
			ent, ok := oracle.Decode(e.Lang, m)
			if !ok || oracle.Sentence(e.Lang, ent) != m { // canonical sentences only; layout is B05, refusal is B03
				return
			}
			out, err := e.Out[0].([]byte), asErr(e.Out[1])
			w.Eval(e, true)
			if err != nil {
				w.Fail(e, "the sentence of a legal entropy was refused", err, ent)
				return
			}
			want := ent
			if kind == 1 {
				want = oracle.ByteArray(ent)
			}
			w.eq(e, "decoded bytes differ", out, want)
			w.Feat("lang-" + e.Lang)
			w.FeatIf(leadZeros(ent) > 0, "leading-zero-bytes")
			w.FeatIf(leadZeros(ent) > 8, "many-leading-zero-bytes")
			w.Feat(fmt.Sprintf("bytes-%d", len(ent)))
		}
	}
	c.On("EntropyFromMnemonic", dec(0))
	c.On("MnemonicToByteArrayRaw", dec(0))
	c.On("MnemonicToByteArray", dec(1))
}

func monB03(c *Check) {
	judge := func(w *W, e *Event, accepted bool, yields bool) {
		m := e.In[0].(string)
		_, ok := oracle.Decode(e.Lang, m)
		w.Eval(e, true)
		if ok {
			w.Feat("valid-accepted")
		} else {
			w.Feat("invalid-refused")
			w.Feat("refused-" + refusal(e.Lang, m))
		}
		if accepted != ok {
			w.Fail(e, "acceptance verdict is not BIP-39's", accepted, ok)
		} else if !ok && yields {
			w.Fail(e, "a refused sentence yielded output", "output", "none")
		}
	}
	c.On("IsMnemonicValid", func(w *W, e *Event) { judge(w, e, e.Out[0].(bool), false) })
	for _, op := range []string{"EntropyFromMnemonic", "MnemonicToByteArray", "MnemonicToByteArrayRaw", "NewSeedWithErrorChecking"} {
		c.On(op, func(w *W, e *Event) { judge(w, e, asErr(e.Out[1]) == nil, len(e.Out[0].([]byte)) > 0) })
	}
	c.On("DeriveSeedFromMnemonic", func(w *W, e *Event) { judge(w, e, asErr(e.Out[1]) == nil, e.Out[0].(string) != "") })
}

func refusal(lang, m string) string {
	ws := strings.Fields(m)
	switch len(ws) {
	case 12, 15, 18, 21, 24:
	default:
		return "word-count"
	}
	for _, x := range ws {
		if _, ok := oracle.WordIndex(lang, x); !ok {
			return "unknown-word"
		}
	}
	return "checksum"
}

// knownSeedKey names a non-normalized input whose wrong (raw) seed is a recorded finding.
func knownSeedKey(id string) string { return "nfkd:" + id }

var nfkdCases = map[string][2]string{} // (sentence, pass) -> finding id; filled by the B04 workload

func monB04(c *Check) {
	plain := func(w *W, e *Event, got []byte) {
		m, p := e.In[0].(string), e.In[1].(string)
		want := oracle.Seed(m, p)
		w.Eval(e, true)
		w.FeatIf(len(m) > 128, "sentence-longer-than-hash-block")
		w.FeatIf(len(m) < 128, "sentence-shorter-than-hash-block")
		w.FeatIf(len(p) == 0, "empty-passphrase")
		w.FeatIf(len(p) > 120, "long-passphrase")
		w.FeatIf(!stable(m) || !stable(p), "not-nfkd")
		for _, r := range p {
			if r > 127 {
				w.Feat("non-ascii-passphrase")
				break
			}
		}
		if bytes.Equal(got, want) {
			return
		}
		if !stable(m) || !stable(p) {
			if bytes.Equal(got, oracle.RawSeed(m, p)) {
				for id, x := range nfkdCases {
					if x == [2]string{m, p} {
						w.Known(e, knownSeedKey(id), "seed is not over the NFKD form", got, want)
						return
					}
				}
			}
		}
		w.Fail(e, "seed is not PBKDF2-HMAC-SHA512(NFKD sentence, \"mnemonic\"+NFKD passphrase, 2048)", got, want)
	}
	c.On("bip39.NewSeed", func(w *W, e *Event) { plain(w, e, e.Out[0].([]byte)) })
	c.On("NewSeedWithErrorChecking", func(w *W, e *Event) {
		m := e.In[0].(string)
		if _, ok := oracle.Decode(e.Lang, m); !ok || oracle.Canonical(m) != m {
			return
		}
		if err := asErr(e.Out[1]); err != nil {
			w.Fail(e, "seed of a valid sentence refused", err, "seed")
			return
		}
		w.Feat("checked-seed")
		plain(w, e, e.Out[0].([]byte))
	})
	c.On("DeriveSeedFromMnemonic", func(w *W, e *Event) {
		m := e.In[0].(string)
		if _, ok := oracle.Decode(e.Lang, m); !ok || oracle.Canonical(m) != m {
			return
		}
		if err := asErr(e.Out[1]); err != nil {
			w.Fail(e, "seed of a valid sentence refused", err, "seed")
			return
		}
		s := e.Out[0].(string)
		b, ok := oracle.UnHex(s)
		if !ok || strings.ToLower(s) != s {
			w.Fail(e, "hex seed is not lower-case hex", s, "lower-case hex")
			return
		}
		w.Feat("hex-seed")
		plain(w, e, b)
	})
}

func monB05(c *Check) {
	differs := func(w *W, e *Event) ([]byte, bool) {
		m := e.In[0].(string)
		ent, ok := oracle.Decode(e.Lang, m)
		if !ok {
			return nil, false
		}
		canon := oracle.Canonical(m) == m
		w.Eval(e, !canon)
		w.FeatIf(!canon, "layout-"+e.Op)
		return ent, true
	}
	c.On("EntropyFromMnemonic", func(w *W, e *Event) {
		if ent, ok := differs(w, e); ok && asErr(e.Out[1]) == nil {
			w.eq(e, "layout changed the recovered entropy", e.Out[0].([]byte), ent)
		}
	})
	c.On("MnemonicToByteArrayRaw", func(w *W, e *Event) {
		if ent, ok := differs(w, e); ok && asErr(e.Out[1]) == nil {
			w.eq(e, "layout changed the raw byte array", e.Out[0].([]byte), ent)
		}
	})
	c.On("MnemonicToByteArray", func(w *W, e *Event) {
		if ent, ok := differs(w, e); ok && asErr(e.Out[1]) == nil {
			w.eq(e, "layout changed the byte array", e.Out[0].([]byte), oracle.ByteArray(ent))
		}
	})
	seed := func(w *W, e *Event, got []byte) {
		m, p := e.In[0].(string), e.In[1].(string)
		if _, ok := differs(w, e); ok && asErr(e.Out[1]) == nil {
			cm := oracle.Canonical(m)
			if bytes.Equal(got, oracle.Seed(cm, p)) || bytes.Equal(got, oracle.RawSeed(cm, p)) { // normalization is B04's concern
				return
			}
			w.Fail(e, "an accepted layout of the words opens a different wallet than the canonical sentence", got, oracle.Seed(cm, p))
		}
	}
	c.On("NewSeedWithErrorChecking", func(w *W, e *Event) { seed(w, e, e.Out[0].([]byte)) })
	c.On("DeriveSeedFromMnemonic", func(w *W, e *Event) {
		b, _ := oracle.UnHex(e.Out[0].(string))
		seed(w, e, b)
	})
}

func monB08(c *Check) {
	c.On("GetWordList", func(w *W, e *Event) {
		got, want := e.Out[0].([]string), oracle.Lists[e.Lang]
		w.EvalKey("list "+e.Lang, true)
		if len(got) != len(want) {
			w.Fail(e, "reported list has the wrong length", len(got), len(want))
			return
		}
		for i := range got {
			if got[i] != want[i] {
				w.Fail(e, fmt.Sprintf("reported list differs from the selected one (%s) at word %d", e.Lang, i), got[i], want[i])
				return
			}
		}
	})
	c.On("GetWordIndex", func(w *W, e *Event) {
		word := e.In[0].(string)
		idx, ok := oracle.WordIndex(e.Lang, word)
		w.Eval(e, true)
		w.FeatIf(!ok, "foreign-word")
		w.FeatIf(ok, "own-word")
		if e.Out[1].(bool) != ok || ok && e.Out[0].(int) != idx {
			w.Fail(e, "word lookup disagrees with the selected list "+e.Lang, fmt.Sprint(e.Out...), fmt.Sprint(idx, ok))
		}
	})
	c.On("NewMnemonic", func(w *W, e *Event) {
		ent := e.In[0].([]byte)
		if !oracle.EntropyLenOK(len(ent)) {
			return
		}
		w.Eval(e, true)
		if out, want := e.Out[0].(string), oracle.Sentence(e.Lang, ent); out != want || asErr(e.Out[1]) != nil {
			w.Fail(e, "encoding does not use the selected list "+e.Lang, out, want)
		}
	})
	dec := func(w *W, e *Event) {
		m := e.In[0].(string)
		ent, ok := oracle.Decode(e.Lang, m)
		w.Eval(e, true)
		out, err := e.Out[0].([]byte), asErr(e.Out[1])
		if (err == nil) != ok || ok && !bytes.Equal(out, ent) {
			w.Fail(e, "decoding does not use the selected list "+e.Lang, fmt.Sprintf("%x %v", out, err), fmt.Sprintf("%x ok=%v", ent, ok))
		}
		w.FeatIf(ok, "decoded")
		w.FeatIf(!ok, "refused")
	}
	c.On("EntropyFromMnemonic", dec)
	c.On("MnemonicToByteArrayRaw", dec)
	c.On("IsMnemonicValid", func(w *W, e *Event) {
		_, ok := oracle.Decode(e.Lang, e.In[0].(string))
		w.Eval(e, true)
		if e.Out[0].(bool) != ok {
			w.Fail(e, "validity does not use the selected list "+e.Lang, e.Out[0], ok)
		}
	})
}

// ---------------------------------------------------------------- BIP-32

func monK01(c *Check) {
	c.On("NewMasterKey", func(w *W, e *Event) {
		seed := e.In[0].([]byte)
		k, err := e.Out[0].(XKey), asErr(e.Out[1])
		want, ok := oracle.Master(seed)
		w.Eval(e, true)
		if !ok {
			if err == nil {
				w.Fail(e, "invalid master key accepted", k, "error")
			}
			return
		}
		if err != nil || k != want {
			w.Fail(e, "not BIP-32's master key", fmt.Sprintf("%x %v", k[:], err), fmt.Sprintf("%x", want[:]))
		}
		w.FeatIf(leadZeros(want[46:]) >= 1, "private-key-leading-zero")
		w.FeatIf(leadZeros(want[46:]) >= 2, "private-key-2-leading-zeros")
		w.FeatIf(leadZeros(want[13:45]) >= 1, "chain-code-leading-zero")
		w.FeatIf(len(seed) == 0, "empty-seed")
		w.FeatIf(len(seed) > 128, "seed-longer-than-hash-block")
		w.FeatIf(want[46] == 0xff, "private-key-high")
	})
	c.On("ValidatePrivateKey", func(w *W, e *Event) {
		b := e.In[0].([]byte)
		ok := oracle.ScalarOK(new(big.Int).SetBytes(b))
		w.Eval(e, true)
		w.FeatIf(!ok, "invalid-scalar-refused")
		w.FeatIf(ok && new(big.Int).Sub(oracle.N, new(big.Int).SetBytes(b)).BitLen() < 10, "scalar-next-to-order")
		if (asErr(e.Out[0]) == nil) != ok {
			w.Fail(e, "scalar validity (1 <= k < n) is judged wrongly", e.Out[0], ok)
		}
	})
}

func childFeats(w *W, par, ch XKey, info oracle.DeriveInfo) {
	w.FeatIf(par.Private() && ch.Child() >= 0x80000000, "hardened")
	w.FeatIf(ch.Child() < 0x80000000, "plain")
	if par.Private() {
		w.FeatIf(info.Wrapped, "sum-wraps-order")
		w.FeatIf(!info.Wrapped, "sum-below-order")
		w.FeatIf(leadZeros(ch[46:]) >= 1, "child-key-leading-zero")
		w.FeatIf(leadZeros(ch[46:]) >= 2, "child-key-2-leading-zeros")
		w.FeatIf(leadZeros(par[46:]) >= 1, "parent-key-leading-zero")
	} else {
		w.FeatIf(leadZeros(ch[46:]) >= 1, "child-x-leading-zero")
		w.FeatIf(leadZeros(par[46:]) >= 2, "parent-x-2-leading-zeros")
	}
	w.FeatIf(leadZeros(ch[13:45]) >= 1, "chain-code-leading-zero")
	w.FeatIf(leadZeros(fill(info.IL)) >= 1, "il-leading-zero")
}

func fill(x *big.Int) []byte { b := fill32(x); return b[:] }

// okParent: a well-formed parent whose version is registered for its kind.
func okParent(k XKey) bool { return oracle.Valid(k) && oracle.CanDerive(k) }

func monK02(c *Check) {
	c.On("NewChildKey", func(w *W, e *Event) {
		par, idx := e.In[0].(XKey), e.In[1].(uint32)
		if !par.Private() || !okParent(par) || par.Depth() == 255 {
			return
		}
		want, info, ok := oracle.CKD(par, idx)
		if !ok {
			w.Feat("bip32-invalid-child")
			return
		}
		w.Eval(e, true)
		got, err := e.Out[0].(XKey), asErr(e.Out[1])
		if err != nil {
			w.Fail(e, "derivation refused", err, want)
			return
		}
		w.eq(e, "child private key", got[45:], want[45:])
		w.eq(e, "child chain code", got[13:45], want[13:45])
		childFeats(w, par, want, info)
	})
}

func monK03(c *Check) {
	c.On("NewChildKey", func(w *W, e *Event) {
		par, idx := e.In[0].(XKey), e.In[1].(uint32)
		if par.Private() || !okParent(par) || par.Depth() == 255 || idx >= 0x80000000 {
			return
		}
		want, info, ok := oracle.CKD(par, idx)
		if !ok {
			return
		}
		w.Eval(e, true)
		got, err := e.Out[0].(XKey), asErr(e.Out[1])
		if err != nil {
			w.Fail(e, "public derivation refused", err, want)
			return
		}
		if got != want {
			w.Fail(e, "public child is not BIP-32's", got, want)
		}
		childFeats(w, par, want, info)
	})
	c.On("PublicKeyExtended", func(w *W, e *Event) {
		k := e.In[0].(XKey)
		if !okParent(k) {
			return
		}
		w.Eval(e, true)
		if got, want := e.Out[0].(XKey), oracle.PubForm(k); got != want {
			w.Fail(e, "public form", got, want)
		}
	})
}

func wrongKind(k XKey) bool {
	v := k.Version()
	return k.Private() && oracle.IsPub(v) && !oracle.IsPriv(v) || !k.Private() && oracle.IsPriv(v) && !oracle.IsPub(v)
}

func monK04(c *Check) {
	c.On("NewChildKey", func(w *W, e *Event) {
		par, idx := e.In[0].(XKey), e.In[1].(uint32)
		if par.Private() {
			return
		}
		got, err := e.Out[0].(XKey), asErr(e.Out[1])
		w.Eval(e, true)
		if idx >= 0x80000000 {
			w.Feat("hardened-from-public")
			if err == nil {
				w.Fail(e, "hardened child of a public key was derived", got, "error")
			}
			if oracle.Valid(got) {
				w.Fail(e, "refused derivation returned a usable key", got, "unusable key")
			}
			return
		}
		if !par.MaterialOK() {
			return
		}
		w.Feat("plain-from-public")
		if err == nil && got.Private() {
			w.Fail(e, "child of a public key is private", got, "public key")
		}
	})
	c.On("PublicKeyExtended", func(w *W, e *Event) {
		k := e.In[0].(XKey)
		if !k.MaterialOK() {
			return
		}
		got := e.Out[0].(XKey)
		w.Eval(e, true)
		if got.Private() {
			w.Fail(e, "public form is private", got, "public key")
		}
		if priv := oracle.Hex(k[46:]); k.Private() && strings.Contains(oracle.Hex(got[:]), priv) {
			if x := oracle.PubForm(k); !strings.Contains(oracle.Hex(x[:]), priv) { // not by coincidence of public fields
				w.Fail(e, "public form contains the private key", got, "no private bytes")
			}
		}
		pub := k.Pub()
		w.eq(e, "public form material", got[45:], pub[:])
		w.Feat("published")
		w.FeatIf(wrongKind(k), "published-with-version-of-other-kind")
	})
	c.On("PrivateKeyHex", func(w *W, e *Event) {
		k := e.In[0].(XKey)
		if !k.Private() {
			w.Eval(e, true)
			w.Feat("hex-of-public")
			if e.Out[0].(string) != "" {
				w.Fail(e, "private export of a public key is not empty", e.Out[0], "")
			}
		}
	})
	c.On("IsPrivate", func(w *W, e *Event) {
		k := e.In[0].(XKey)
		if oracle.Valid(k) {
			w.Eval(e, true)
			if e.Out[0].(bool) != k.Private() {
				w.Fail(e, "kind of key misjudged", e.Out[0], k.Private())
			}
		}
	})
}

func monK05(c *Check) {
	c.On("NewChildKey", func(w *W, e *Event) {
		par, idx := e.In[0].(XKey), e.In[1].(uint32)
		if !okParent(par) || !par.Private() && idx >= 0x80000000 {
			return
		}
		got, err := e.Out[0].(XKey), asErr(e.Out[1])
		w.Eval(e, true)
		if par.Depth() == 255 {
			w.Feat("depth-255-refused")
			if err == nil {
				w.Fail(e, "a key at depth 255 was given a child", fmt.Sprintf("depth %d", got.Depth()), "error")
			}
			return
		}
		if err != nil {
			return // K02/K03 judge refusals
		}
		pub := par.Pub()
		if got.Depth() != par.Depth()+1 {
			w.Fail(e, "depth", got.Depth(), par.Depth()+1)
		}
		w.eq(e, "parent fingerprint", got.FP(), oracle.Hash160(pub[:])[:4])
		if got.Child() != idx {
			w.Fail(e, "child number", got.Child(), idx)
		}
		w.FeatIf(par.Depth() >= 127, "depth-above-127")
		w.FeatIf(leadZeros(got.FP()) >= 1, "fingerprint-leading-zero")
		w.FeatIf(par.Private(), "private-parent")
		w.FeatIf(!par.Private(), "public-parent")
		w.FeatIf(idx >= 0x80000000, "hardened")
	})
	c.On("PublicKeyExtended", func(w *W, e *Event) {
		k := e.In[0].(XKey)
		if !k.MaterialOK() {
			return
		}
		got := e.Out[0].(XKey)
		w.Eval(e, true)
		w.eq(e, "depth, fingerprint, child number and chain code after publication", got[4:45], k[4:45])
	})
}

func monK06(c *Check) {
	c.On("NewChildKey", func(w *W, e *Event) {
		par, idx := e.In[0].(XKey), e.In[1].(uint32)
		if !par.MaterialOK() || par.Depth() == 255 || !par.Private() && idx >= 0x80000000 {
			return
		}
		got, err := e.Out[0].(XKey), asErr(e.Out[1])
		w.Eval(e, true)
		if !oracle.CanDerive(par) {
			w.Feat("unregistered-refused")
			w.FeatIf(wrongKind(par), "version-of-other-kind-refused")
			if err == nil {
				w.Fail(e, fmt.Sprintf("version %08x is not registered for this kind of key but was derived from", par.Version()), got, "error")
			}
			return
		}
		w.Feat(fmt.Sprintf("version-%08x", par.Version()))
		if err != nil {
			w.Fail(e, fmt.Sprintf("registered version %08x cannot be derived from", par.Version()), err, "child")
		} else if got.Version() != par.Version() {
			w.Fail(e, "child version", fmt.Sprintf("%08x", got.Version()), fmt.Sprintf("%08x", par.Version()))
		}
	})
	c.On("PublicKeyExtended", func(w *W, e *Event) {
		k := e.In[0].(XKey)
		if !k.MaterialOK() {
			return
		}
		got, want := e.Out[0].(XKey), oracle.PubForm(k)
		w.Eval(e, true)
		w.FeatIf(!oracle.CanDerive(k), "unregistered-published")
		if got.Version() != want.Version() {
			w.Fail(e, fmt.Sprintf("public version of %08x", k.Version()), fmt.Sprintf("%08x", got.Version()), fmt.Sprintf("%08x", want.Version()))
		}
	})
	chain := func(w *W, e *Event, root XKey, out []KP, derived int) {
		if !root.MaterialOK() {
			return
		}
		w.Eval(e, true)
		if !oracle.CanDerive(root) {
			w.Feat("unregistered-refused-by-path")
			if len(out) > derived {
				w.Fail(e, fmt.Sprintf("version %08x is not registered for this kind of key but was derived from", root.Version()), len(out), "error")
			}
			return
		}
		w.FeatIf(len(out) > 3, "wallet-path")
		for _, x := range out {
			if x.Key.Version() != root.Version() {
				w.Fail(e, "version of the key at "+x.Path, fmt.Sprintf("%08x", x.Key.Version()), fmt.Sprintf("%08x", root.Version()))
				return
			}
		}
	}
	c.On("DeriveBIP32Result", func(w *W, e *Event) {
		if asErr(e.Out[1]) == nil {
			chain(w, e, e.In[0].(XKey), e.Out[0].([]KP), 1)
		}
	})
	c.On("GenerateRange", func(w *W, e *Event) {
		if asErr(e.Out[1]) == nil {
			chain(w, e, e.In[0].(XKey), e.Out[0].([]KP), 0)
		}
	})
	c.On("SetVersion", func(w *W, e *Event) {
		k := e.In[0].(XKey)
		k.SetVersion(e.In[1].(uint32))
		w.Eval(e, true)
		if got := e.Out[0].(XKey); got != k {
			w.Fail(e, "setting the version changed something else or nothing", got, k)
		}
	})
}

func monK07(c *Check) {
	c.On("Serialize", func(w *W, e *Event) {
		k := e.In[0].(XKey)
		out, err := e.Out[0].([]byte), asErr(e.Out[1])
		w.Eval(e, true)
		if k == (XKey{}) {
			w.Feat("all-zero-key")
			if err == nil || len(out) > 0 {
				w.Fail(e, "an all-zero key was serialized", out, "error")
			}
			return
		}
		if !oracle.Valid(k) {
			return
		}
		if err != nil {
			w.Fail(e, "serialization refused", err, oracle.Serialize(k))
			return
		}
		w.eq(e, "serialized bytes", out, oracle.Serialize(k))
		w.FeatIf(oracle.Checksum(k[:])[0] == 0, "checksum-leading-zero")
		w.FeatIf(oracle.Checksum(k[:])[3] == 0, "checksum-trailing-zero")
	})
	c.On("B58Serialize", func(w *W, e *Event) {
		k := e.In[0].(XKey)
		out, str := e.Out[0].(string), e.Out[1].(string)
		w.Eval(e, true)
		want := ""
		if k != (XKey{}) {
			if !oracle.Valid(k) {
				return
			}
			want = oracle.B58Encode(oracle.Serialize(k))
		}
		if out != want || str != want {
			w.Fail(e, "Base58 text", out+" / "+str, want)
		}
		w.FeatIf(strings.HasPrefix(want, "1"), "leading-ones")
	})
	round := func(w *W, e *Event, b []byte) {
		k, ok := oracle.ImportOK(b, oracle.IsPriv, oracle.IsPub)
		if !ok {
			return
		}
		w.Eval(e, true)
		w.Feat("imported-" + e.Op)
		got, err := e.Out[0].(XKey), asErr(e.Out[1])
		if err != nil || got != k {
			w.Fail(e, "import of a well-formed key's serialization", fmt.Sprintf("%x %v", got[:], err), fmt.Sprintf("%x", k[:]))
		}
	}
	c.On("Deserialize", func(w *W, e *Event) { round(w, e, e.In[0].([]byte)) })
	c.On("B58Deserialize", func(w *W, e *Event) {
		if b, ok := oracle.B58Decode(e.In[0].(string)); ok {
			round(w, e, b)
		}
	})
	c.On("Fields", func(w *W, e *Event) {
		k := e.In[0].(XKey)
		f := e.Out[0].(Fields)
		w.Eval(e, true)
		var o []byte
		o = binary.BigEndian.AppendUint32(o, f.Version)
		o = append(o, f.Depth[:]...)
		o = append(o, f.FP[:]...)
		o = append(o, f.Child[:]...)
		o = append(o, f.Chain[:]...)
		o = append(o, f.Key[:]...)
		if !bytes.Equal(o, k[:]) || !bytes.Equal(f.Pvt[:], k[46:]) {
			w.Fail(e, "field accessors do not return the serialized fields", o, k[:])
		}
	})
	c.On("Key.IsValid", func(w *W, e *Event) {
		k := e.In[0].(XKey)
		if oracle.Valid(k) {
			w.Eval(e, true)
			if !e.Out[0].(bool) {
				w.Fail(e, "a well-formed key is called invalid", false, true)
			}
		}
	})
	c.On("ChecksumDblSha256", func(w *W, e *Event) {
		w.Eval(e, true)
		if asErr(e.Out[1]) != nil {
			w.Fail(e, "checksum refused", e.Out[1], nil)
		}
		w.eq(e, "checksum", e.Out[0].([]byte), oracle.Checksum(e.In[0].([]byte)))
	})
	c.On("AddChecksumDblSha256ToBytes", func(w *W, e *Event) {
		w.Eval(e, true)
		in := e.In[0].([]byte)
		w.eq(e, "bytes followed by checksum", e.Out[0].([]byte), append(cp(in), oracle.Checksum(in)...))
	})
}

func monK08(c *Check) {
	damaged := func(b []byte) (string, bool) {
		if len(b) != 82 {
			return "length", true
		}
		if !bytes.Equal(oracle.Checksum(b[:78]), b[78:]) {
			return "checksum", true
		}
		return "", false
	}
	c.On("Deserialize", func(w *W, e *Event) {
		b := e.In[0].([]byte)
		why, bad := damaged(b)
		w.Eval(e, bad)
		if bad {
			w.Feat("refused-" + why)
			if asErr(e.Out[1]) == nil {
				w.Fail(e, "a damaged serialization was imported ("+why+")", e.Out[0], "error")
			}
		} else if _, ok := oracle.ImportOK(b, oracle.IsPriv, oracle.IsPub); ok {
			w.Feat("intact-accepted")
			if asErr(e.Out[1]) != nil {
				w.Fail(e, "an intact serialization was refused", e.Out[1], "key")
			}
		}
	})
	c.On("B58Deserialize", func(w *W, e *Event) {
		s := e.In[0].(string)
		b, ok := oracle.B58Decode(s)
		why := "alphabet"
		bad := !ok
		if ok {
			why, bad = damaged(b)
		}
		w.Eval(e, bad)
		if bad {
			w.Feat("b58-refused-" + why)
			if asErr(e.Out[1]) == nil {
				w.Fail(e, "damaged Base58 text was imported ("+why+")", e.Out[0], "error")
			}
		} else if _, ok := oracle.ImportOK(b, oracle.IsPriv, oracle.IsPub); ok && asErr(e.Out[1]) != nil {
			w.Fail(e, "intact Base58 text was refused", e.Out[1], "key")
		}
	})
}

func whyInvalid(k XKey) string {
	switch {
	case k.Private() && !oracle.ScalarOK(k.Scalar()):
		if k.Scalar().Sign() == 0 {
			return "private-zero"
		}
		return "private-too-large"
	case !k.Private() && k[45] != 2 && k[45] != 3:
		return "public-prefix"
	case !k.Private() && !k.MaterialOK():
		return "off-curve"
	case k.Depth() == 0 && k.Child() != 0:
		return "depth0-child-number"
	case k.Depth() == 0 && !bytes.Equal(k.FP(), []byte{0, 0, 0, 0}):
		return "depth0-fingerprint"
	case !oracle.Valid(k):
		return "version-kind-mismatch"
	}
	return ""
}

func monK09(c *Check) {
	imp := func(w *W, e *Event, b []byte) {
		if len(b) != 82 || !bytes.Equal(oracle.Checksum(b[:78]), b[78:]) {
			return
		}
		k, ok := oracle.ImportOK(b, oracle.IsPriv, oracle.IsPub)
		w.Eval(e, true)
		err := asErr(e.Out[1])
		if !ok {
			w.Feat("refused-" + whyInvalid(k))
			if err == nil {
				w.Fail(e, "a key BIP-32 declares invalid was imported: "+whyInvalid(k), e.Out[0], "error")
			}
			return
		}
		w.Feat("valid-imported")
		if err != nil {
			w.Fail(e, "a valid key was refused", err, k)
		}
	}
	c.On("Deserialize", func(w *W, e *Event) { imp(w, e, e.In[0].([]byte)) })
	c.On("B58Deserialize", func(w *W, e *Event) {
		if b, ok := oracle.B58Decode(e.In[0].(string)); ok {
			imp(w, e, b)
		}
	})
	c.On("Key.IsValid", func(w *W, e *Event) {
		k := e.In[0].(XKey)
		w.Eval(e, true)
		if want := k != (XKey{}) && oracle.Valid(k); e.Out[0].(bool) != want {
			w.Fail(e, "validity test: "+whyInvalid(k), e.Out[0], want)
		}
	})
}

func monK10(c *Check) {
	c.On("PublicKeyHex", func(w *W, e *Event) {
		k := e.In[0].(XKey)
		if !k.MaterialOK() {
			return
		}
		w.Eval(e, true)
		pub := k.Pub()
		if got, want := e.Out[0].(string), oracle.Hex(pub[:]); got != want {
			w.Fail(e, "public key hex", got, want)
		}
		w.FeatIf(k.Private(), "from-private")
		w.FeatIf(!k.Private(), "from-public")
		w.FeatIf(pub[1] == 0, "x-leading-zero")
		w.FeatIf(pub[1] == 0 && pub[2] == 0, "x-2-leading-zeros")
		w.FeatIf(pub[0] == 2, "even")
		w.FeatIf(pub[0] == 3, "odd")
	})
	c.On("PrivateKeyHex", func(w *W, e *Event) {
		k := e.In[0].(XKey)
		if !k.Private() {
			return
		}
		w.Eval(e, true)
		if got, want := e.Out[0].(string), oracle.Hex(k[46:]); got != want {
			w.Fail(e, "private key hex", got, want)
		}
		w.FeatIf(k[46] == 0, "private-leading-zero")
	})
	c.On("ExpandPublicKey", func(w *W, e *Event) {
		p, ok := oracle.Decompress(e.In[0].([]byte))
		if !ok {
			return
		}
		w.Eval(e, true)
		x, y := e.Out[0].(*big.Int), e.Out[1].(*big.Int)
		if x == nil || y == nil || x.Cmp(p.X) != 0 || y.Cmp(p.Y) != 0 {
			w.Fail(e, "expanded coordinates", fmt.Sprintf("%x %x", x, y), fmt.Sprintf("%x %x", p.X, p.Y))
		}
		w.FeatIf(leadZeros(fill(p.Y)) > 0, "y-leading-zero")
	})
	c.On("HashRipeMD160onSha256", func(w *W, e *Event) {
		w.Eval(e, true)
		w.eq(e, "RIPEMD160(SHA256())", e.Out[0].([]byte), oracle.Hash160(e.In[0].([]byte)))
	})
}

// ---------------------------------------------------------------- paths

func monP01(c *Check) {
	c.On("ValuesAtDepth", func(w *W, e *Event) {
		p := e.In[0].(string)
		if ambiguousWS(p) {
			return
		}
		vals, ok := oracle.ParsePath(p)
		got, err := e.Out[0].([]uint32), asErr(e.Out[1])
		w.Eval(e, true)
		if !ok {
			w.Feat("refused")
			if strings.ContainsAny(p, "mM") && syntaxOK(p) {
				w.Feat("out-of-range-refused")
			}
			if err == nil {
				w.Fail(e, "text that denotes no path was parsed", fmt.Sprint(got), "error")
			}
			return
		}
		want := append([]uint32{0}, vals...)
		if err != nil || !eqU32(got, want) {
			w.Fail(e, "parsed values", fmt.Sprint(got, err), fmt.Sprint(want))
		}
		w.Feat("parsed")
		for _, v := range vals {
			w.FeatIf(v == 0xffffffff || v == 0x7fffffff || v == 0x80000000, "edge-value")
		}
		w.FeatIf(oracle.StripWS(p) != p, "white-space")
		w.FeatIf(len(vals) > 100, "long-path")
	})
	c.On("Path.IsValid", func(w *W, e *Event) {
		p := e.In[0].(string)
		if ambiguousWS(p) {
			return
		}
		_, ok := oracle.ParsePath(p)
		w.Eval(e, true)
		if e.Out[0].(bool) && !ok {
			w.Fail(e, "a path with a component that does not fit is called valid", true, false)
		}
	})
}

// syntaxOK: the grammar holds, numbers of any size.
func syntaxOK(p string) bool {
	s := oracle.StripWS(p)
	if s == "" || s[0] != 'm' && s[0] != 'M' {
		return false
	}
	for _, c := range strings.Split(s, "/")[1:] {
		c = strings.TrimSuffix(c, "'")
		if c == "" || strings.Trim(c, "0123456789") != "" {
			return false
		}
	}
	return !strings.Contains(strings.Split(s, "/")[0], "'") && len(strings.Split(s, "/")[0]) == 1
}

func eqU32(a, b []uint32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func monP02(c *Check) {
	c.On("Path.IsValid", func(w *W, e *Event) {
		p := e.In[0].(string)
		if ambiguousWS(p) {
			return
		}
		vals, ok := oracle.ParsePath(p)
		w.Eval(e, true)
		if e.Out[0].(bool) != ok {
			w.Fail(e, "path validity", e.Out[0], ok)
		}
		w.FeatIf(ok, "valid")
		w.FeatIf(!ok, "invalid")
		for i := 1; i < len(vals); i++ {
			w.FeatIf(vals[i] >= 0x80000000 && vals[i-1] < 0x80000000, "hardened-after-plain")
		}
	})
	c.On("ValuesAtDepth", func(w *W, e *Event) {
		p := e.In[0].(string)
		if ambiguousWS(p) {
			return
		}
		_, ok := oracle.ParsePath(p)
		w.Eval(e, true)
		if (asErr(e.Out[1]) == nil) != ok {
			w.Fail(e, "parsing disagrees with validity", e.Out[1], ok)
		}
	})
	c.On("Path.String", func(w *W, e *Event) {
		p := e.In[0].(string)
		if ambiguousWS(p) || !utf8.ValidString(p) {
			return
		}
		if _, ok := oracle.ParsePath(p); !ok {
			return
		}
		w.Eval(e, true)
		for _, o := range e.Out {
			s := o.(string)
			v1, _ := oracle.ParsePath(p)
			v2, ok := oracle.ParsePath(s)
			if !ok || !eqU32(v1, v2) || oracle.StripWS(s) != s {
				w.Fail(e, "formatting a valid path changed what it denotes or left white space", s, oracle.StripWS(p))
			}
		}
	})
	c.On("DeriveBIP32Result", func(w *W, e *Event) {
		root, p := e.In[0].(XKey), e.In[1].(string)
		if ambiguousWS(p) || !oracle.Valid(root) || !root.Private() || !oracle.CanDerive(root) || root.Depth() != 0 {
			return
		}
		vals, ok := oracle.ParsePath(p)
		if len(vals) > 255 {
			return
		}
		w.Eval(e, true)
		w.Feat("derivation-agrees")
		if (asErr(e.Out[1]) == nil) != ok {
			w.Fail(e, "derivation and path validity disagree", e.Out[1], ok)
		}
	})
	c.On("#library-path", func(w *W, e *Event) {
		w.Eval(e, true)
		w.Feat("library-made-path")
		if !e.Out[0].(bool) {
			w.Fail(e, "the library produced a path it calls invalid", e.In[0], "valid path")
		}
	})
}

func monP03(c *Check) {
	c.On("ValueAtDepth", func(w *W, e *Event) {
		p, d := e.In[0].(string), e.In[1].(byte)
		if ambiguousWS(p) {
			return
		}
		vals, ok := oracle.ParsePath(p)
		all := append([]uint32{0}, vals...)
		got, err := e.Out[0].(uint32), asErr(e.Out[1])
		w.Eval(e, true)
		if !ok || int(d) >= len(all) {
			w.Feat("missing-level-refused")
			if err == nil {
				w.Fail(e, "a level the path does not have was read", got, "error")
			}
			return
		}
		w.Feat("read")
		w.FeatIf(len(all) > 255, "path-of-256-levels-or-more")
		if err != nil || got != all[d] {
			w.Fail(e, "value at level", fmt.Sprint(got, err), all[d])
		}
	})
	c.On("ReplaceValueAtDepth", func(w *W, e *Event) {
		p, d, v := e.In[0].(string), e.In[1].(byte), e.In[2].(uint32)
		if ambiguousWS(p) {
			return
		}
		vals, ok := oracle.ParsePath(p)
		all := append([]uint32{0}, vals...)
		got, err := e.Out[0].(string), asErr(e.Out[1])
		w.Eval(e, true)
		if !ok || int(d) >= len(all) || d == 0 {
			w.Feat("refused")
			w.FeatIf(ok && d == 0, "root-level-refused")
			if err == nil {
				w.Fail(e, "replacing a level that is the root or that the path does not have succeeded", got, "error")
			}
			return
		}
		w.Feat("replaced")
		w.FeatIf(v >= 0x80000000, "replaced-by-hardened")
		w.FeatIf(v < 0x80000000 && all[d] >= 0x80000000, "hardened-replaced-by-plain")
		want := append([]uint32{}, all...)
		want[d] = v
		gv, gok := oracle.ParsePath(got)
		if err != nil || !gok || !eqU32(append([]uint32{0}, gv...), want) {
			w.Fail(e, "path after replacing a level", fmt.Sprint(got, " ", err), oracle.PathText(want[1:]))
		} else if comp := strings.Split(strings.Join(strings.Fields(got), ""), "/")[d]; strings.HasSuffix(comp, "'") != (v >= 0x80000000) {
			w.Fail(e, "the new level is not written hardened exactly when its value is 2^31 or more", got, oracle.PathText(want[1:]))
		}
	})
}

// ---------------------------------------------------------------- derivation

func deriveOracle(root XKey, vals []uint32) ([]KP, bool) {
	out := []KP{{"m", root}}
	k := root
	for i, v := range vals {
		c, _, ok := oracle.CKD(k, v)
		if !ok {
			return nil, false
		}
		k = c
		out = append(out, KP{oracle.PathText(vals[:i+1]), k})
	}
	return out, true
}

func goodRoot(k XKey) bool {
	return k != (XKey{}) && oracle.Valid(k) && k.Private() && k.Depth() == 0 && oracle.IsPriv(k.Version())
}

func monD01(c *Check) {
	c.On("DeriveBIP32Result", func(w *W, e *Event) {
		root, p := e.In[0].(XKey), e.In[1].(string)
		vals, ok := oracle.ParsePath(p)
		if ambiguousWS(p) || !ok || !goodRoot(root) || len(vals) > 255 {
			return
		}
		want, ok := deriveOracle(root, vals)
		if !ok {
			return
		}
		w.Eval(e, true)
		got, err := e.Out[0].([]KP), asErr(e.Out[1])
		if err != nil || len(got) != len(want) {
			w.Fail(e, "derivation along the path", fmt.Sprintf("%d entries, %v", len(got), err), fmt.Sprintf("%d entries", len(want)))
			return
		}
		for i := range want {
			if got[i] != want[i] {
				w.Fail(e, fmt.Sprintf("entry %d", i), got[i].String(), want[i].String())
				return
			}
		}
		if after := e.Out[2].(XKey); after != root {
			w.Fail(e, "the generator's root key changed", after, root)
		}
		w.FeatIf(len(vals) == 0, "root-only")
		w.FeatIf(len(vals) >= 10, "ten-levels-or-more")
		w.FeatIf(len(vals) >= 255, "255-levels")
		for i := 1; i < len(vals); i++ {
			w.FeatIf(vals[i] >= 0x80000000 && vals[i-1] < 0x80000000, "hardened-after-plain")
		}
		for _, k := range want[1:] {
			w.FeatIf(k.Key[46] == 0, "key-leading-zero")
		}
	})
	c.On("RootKey", func(w *W, e *Event) {
		w.Eval(e, true)
		if got, want := e.Out[0].(XKey), e.In[0].(XKey); got != want {
			w.Fail(e, "the generator holds another root key than the one set", got, want)
		}
	})
}

func monD02(c *Check) {
	c.On("DeriveBIP32Result", func(w *W, e *Event) {
		root, p := e.In[0].(XKey), e.In[1].(string)
		if ambiguousWS(p) {
			return
		}
		vals, ok := oracle.ParsePath(p)
		got, err := e.Out[0].([]KP), asErr(e.Out[1])
		w.Eval(e, true)
		reason := ""
		switch {
		case root == (XKey{}):
			reason = "root-empty"
		case !oracle.Valid(root):
			reason = "root-invalid"
		case !root.Private():
			reason = "root-public"
		case root.Depth() != 0:
			reason = "root-not-master"
		case !ok:
			reason = "path-invalid"
		case !oracle.IsPriv(root.Version()) && len(vals) > 0:
			reason = "version-unregistered"
		case !oracle.IsPriv(root.Version()):
			reason = "" // nothing is derived: root alone may or may not be returned
		case len(vals) > 255:
			reason = "too-deep"
		}
		if reason != "" {
			w.Feat("path-" + reason)
			if err == nil || len(got) > 0 {
				w.Fail(e, "derivation that cannot be done was not reported: "+reason, fmt.Sprintf("%d keys, err %v", len(got), err), "error and no keys")
			}
			return
		}
		if err == nil {
			w.Feat("path-derived")
			for i, k := range got {
				if !oracle.Valid(k.Key) {
					w.Fail(e, fmt.Sprintf("success with an invalid key at entry %d", i), k.String(), "valid key")
					return
				}
			}
			want, ok := deriveOracle(root, vals)
			if ok && len(want) == len(got) && len(got) > 0 && got[len(got)-1].Key != want[len(want)-1].Key || ok && len(want) != len(got) {
				w.Fail(e, "success with a wrong or missing key", fmt.Sprint(len(got)), fmt.Sprint(len(want)))
			}
		}
	})
	c.On("GenerateRange", func(w *W, e *Event) {
		base, p, s, t := e.In[0].(XKey), e.In[1].(string), e.In[2].(uint32), e.In[3].(uint32)
		if ambiguousWS(p) {
			return
		}
		err := asErr(e.Out[1])
		w.Eval(e, true)
		reason := rangeRefusal(base, p, s, t)
		if reason != "" {
			w.Feat("range-" + reason)
			if err == nil {
				w.Fail(e, "a range that cannot be derived was not reported: "+reason, fmt.Sprintf("%d keys", len(e.Out[0].([]KP))), "error")
			}
			return
		}
		if err == nil {
			w.Feat("range-derived")
			for i, k := range e.Out[0].([]KP) {
				if !oracle.Valid(k.Key) {
					w.Fail(e, fmt.Sprintf("success with an invalid key at entry %d", i), k.String(), "valid key")
					return
				}
			}
		}
	})
}

func rangeRefusal(base XKey, p string, s, t uint32) string {
	_, ok := oracle.ParsePath(p)
	switch {
	case s == t:
		return "empty"
	case s > t:
		return "inverted"
	case base == (XKey{}):
		return "base-empty"
	case !oracle.Valid(base):
		return "base-invalid"
	case !ok:
		return "path-invalid"
	case !oracle.CanDerive(base):
		return "version-unregistered"
	case base.Depth() == 255:
		return "too-deep"
	case !base.Private() && t > 0x80000000:
		return "hardened-from-public"
	}
	return ""
}

func monD03(c *Check) {
	c.On("GenerateRange", func(w *W, e *Event) {
		base, p, s, t := e.In[0].(XKey), e.In[1].(string), e.In[2].(uint32), e.In[3].(uint32)
		if ambiguousWS(p) {
			return
		}
		got, err, prev := e.Out[0].([]KP), asErr(e.Out[1]), e.Out[2].([]KP)
		w.Eval(e, true)
		if r := rangeRefusal(base, p, s, t); r != "" {
			w.Feat("refused-" + r)
			w.FeatIf(len(prev) > 0, "refused-with-earlier-results")
			if err == nil {
				w.Fail(e, "range should be refused: "+r, fmt.Sprintf("%d entries", len(got)), "error")
				return
			}
			same := len(got) == len(prev)
			for i := 0; same && i < len(got); i++ {
				same = got[i] == prev[i]
			}
			if !same {
				w.Fail(e, "a refused call changed earlier results", fmt.Sprintf("%d entries", len(got)), fmt.Sprintf("%d entries", len(prev)))
			}
			return
		}
		if err != nil || len(got) != int(t-s) {
			w.Fail(e, "range", fmt.Sprintf("%d entries, %v", len(got), err), fmt.Sprintf("%d entries", t-s))
			return
		}
		w.Feat("generated")
		w.FeatIf(t-s > 1, "several-entries")
		w.FeatIf(s < 0x80000000 && t > 0x80000000, "crosses-hardened-boundary")
		w.FeatIf(!base.Private(), "public-base")
		w.FeatIf(t == 0xffffffff, "ends-at-last-index")
		canon := oracle.StripWS(p)
		for i := range got {
			idx := s + uint32(i)
			if len(got) > 5000 && i%64 > 1 && i%64 < 62 && i < len(got)-3 { // the full comparison of all would take too long
				if want := canon + "/" + oracle.Comp(idx); got[i].Path != want || got[i].Key.Child() != idx || !bytes.Equal(got[i].Key[:9], got[0].Key[:9]) || !oracle.Valid(got[i].Key) {
					w.Fail(e, fmt.Sprintf("entry for index %d", idx), got[i].String(), want)
					return
				}
				continue
			}
			w.FeatIf(i > 65536, "more-than-65536-entries")
			child, _, ok := oracle.CKD(base, idx)
			if !ok {
				return
			}
			want := KP{canon + "/" + oracle.Comp(idx), child}
			if got[i] != want {
				w.Fail(e, fmt.Sprintf("entry for index %d", idx), got[i].String(), want.String())
				return
			}
		}
	})
}

func monD04(c *Check) {
	c.On("RootKeyFromSeed", func(w *W, e *Event) {
		s := e.In[0].(string)
		k, err, isNil := e.Out[0].(XKey), asErr(e.Out[1]), e.Out[2].(bool)
		b, ok := oracle.UnHex(s)
		w.Eval(e, true)
		if isNil {
			w.Fail(e, "nil key reference", "nil", "a key")
			return
		}
		if !ok || len(b) < 16 {
			w.FeatIf(!ok, "not-hex-refused")
			w.FeatIf(ok, "short-refused")
			if err == nil {
				w.Fail(e, "text that is no acceptable seed was accepted", k, "error")
			} else if k != (XKey{}) {
				w.Fail(e, "refused seed left a non-zero key", k, "all-zero key")
			}
			return
		}
		want, mok := oracle.Master(b)
		if !mok {
			return
		}
		w.Feat("opened")
		w.FeatIf(strings.ToUpper(s) == s && strings.ToLower(s) != s, "upper-case")
		w.FeatIf(len(b) == 16, "exactly-16-bytes")
		w.FeatIf(len(b) > 64, "longer-than-64")
		if err != nil || k != want {
			w.Fail(e, "root key of the seed", fmt.Sprintf("%x %v", k[:], err), fmt.Sprintf("%x", want[:]))
		}
	})
}

func monD05(c *Check) {
	c.On("GenerateMnemonic", func(w *W, e *Event) {
		n := e.In[0].(byte)
		out, err := e.Out[0].(string), asErr(e.Out[1])
		w.EvalKey(fmt.Sprint("count ", n, out), true)
		switch n {
		case 12, 15, 18, 21, 24:
			w.Feat(fmt.Sprintf("generated-%d", n))
			if err != nil {
				w.Fail(e, "supported word count refused", err, "mnemonic")
				return
			}
			ent, ok := oracle.Decode(e.Lang, out)
			if !ok || len(strings.Fields(out)) != int(n) || oracle.Sentence(e.Lang, ent) != out {
				w.Fail(e, "generated mnemonic is not a valid sentence of that many words", out, fmt.Sprintf("%d valid words", n))
			}
		default:
			w.Feat("count-refused")
			if err == nil || out != "" {
				w.Fail(e, "unsupported word count accepted", out, "error")
			}
		}
	})
}

// ---------------------------------------------------------------- addresses

func monA01(c *Check) {
	c.On("AddrHex", func(w *W, e *Event) {
		k := e.In[0].(XKey)
		if !k.MaterialOK() {
			return
		}
		p := k.Point()
		w.Eval(e, true)
		if got, want := e.Out[0].(string), oracle.EthAddr(p); got != want {
			w.Fail(e, "Ethereum address", got, want)
		}
		zx, zy := leadZeros(fill(p.X)), leadZeros(fill(p.Y))
		w.FeatIf(zx > 0, "x-leading-zero")
		w.FeatIf(zy > 0, "y-leading-zero")
		w.FeatIf(zx > 1 || zy > 1, "2-leading-zeros")
		w.FeatIf(zx > 0 && zy > 0, "both-leading-zero")
		w.FeatIf(k.Private(), "private")
		w.FeatIf(!k.Private(), "public")
		w.FeatIf(p.Y.Bit(0) == 1, "odd-y")
		w.FeatIf(strings.HasPrefix(oracle.EthAddr(p), "00"), "address-leading-zero")
	})
}

func monA02(c *Check) {
	c.On("AddrP2SH", func(w *W, e *Event) {
		k, pre := e.In[0].(XKey), e.In[1].(byte)
		if !k.MaterialOK() {
			return
		}
		pub := k.Pub()
		w.Eval(e, true)
		want := oracle.B58Addr(pre, pub[:])
		if got := e.Out[0].(string); got != want {
			w.Fail(e, "Base58Check address", got, want)
		}
		w.FeatIf(pre == 0, "prefix-zero")
		w.FeatIf(pre == 0xff, "prefix-ff")
		w.FeatIf(pre == 0 && oracle.Hash160(pub[:])[0] == 0, "several-leading-ones")
		w.FeatIf(k.Private(), "private")
		w.FeatIf(!k.Private(), "public")
		w.FeatIf(pub[1] == 0, "x-leading-zero")
	})
}
