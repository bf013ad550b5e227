package main

// E01: every refusal names its cause by the exported error.

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"io/fs"
	"strconv"
	"strings"
	"syscall"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/util"

	"verifharness/oracle"
)

// cause is one reason why a call may be refused and the test its error has to pass.
type cause struct {
	name string
	is   func(err error) bool
}

func named(name string, errs ...error) cause {
	return cause{name, func(err error) bool {
		for _, x := range errs {
			if errors.Is(err, x) {
				return true
			}
		}
		return false
	}}
}

var exportedErrors = map[string]*error{
	"bip32.ErrSerializedKeyWrongSize": &bip32.ErrSerializedKeyWrongSize, "bip32.ErrHardenedChildPublicKey": &bip32.ErrHardenedChildPublicKey,
	"bip32.ErrInvalidChecksum": &bip32.ErrInvalidChecksum, "bip32.ErrInvalidPrivateKey": &bip32.ErrInvalidPrivateKey,
	"bip32.ErrInvalidPublicKey": &bip32.ErrInvalidPublicKey, "bip32.ErrEmptyKey": &bip32.ErrEmptyKey,
	"bip32.ErrMaxDepthReached": &bip32.ErrMaxDepthReached, "bip32.ErrInvalidRootLineage": &bip32.ErrInvalidRootLineage,
	"bip32.ErrUnSupportedHDVersionBytes": &bip32.ErrUnSupportedHDVersionBytes, "bip32.ErrInvalidPurpose": &bip32.ErrInvalidPurpose,
	"bip32.ErrInvalidCoin": &bip32.ErrInvalidCoin, "bip32.ErrUnSupportedOrInvalidPath": &bip32.ErrUnSupportedOrInvalidPath,
	"bip39.ErrInvalidMnemonic": &bip39.ErrInvalidMnemonic, "bip39.ErrEntropyLengthInvalid": &bip39.ErrEntropyLengthInvalid,
	"bip39.ErrChecksumIncorrect":        &bip39.ErrChecksumIncorrect,
	"util.ErrInvalidMnemonicWordsCount": &util.ErrInvalidMnemonicWordsCount, "util.ErrInvalidBIP39Seed": &util.ErrInvalidBIP39Seed,
	"util.ErrInvalidRootKey": &util.ErrInvalidRootKey, "util.ErrInvalidRangeProvided": &util.ErrInvalidRangeProvided,
	"util.ErrUnSupportedOrInvalidPath": &util.ErrUnSupportedOrInvalidPath,
}

// whatIs lists the exported errors that err is.
func whatIs(err error) string {
	var out []string
	for n, x := range exportedErrors {
		if errors.Is(err, *x) {
			out = append(out, n)
		}
	}
	return fmt.Sprintf("%v %v", err, out)
}

func (w *W) judgeCause(e *Event, err error, causes []cause) {
	if err == nil {
		return // whether the call should have been refused is for other properties
	}
	w.Eval(e, true)
	if err.Error() == "" {
		w.Fail(e, "an error without text", err, "a cause")
		return
	}
	if len(causes) == 0 {
		w.Fail(e, "refused though no cause for a refusal applies", whatIs(err), "no error")
		return
	}
	var names []string
	for _, c := range causes {
		names = append(names, c.name)
		if c.is(err) {
			w.FeatIf(len(causes) > 1, "several-causes-at-once")
			w.Feat(e.Op + ":" + c.name)
			for name, x := range exportedErrors { // it may carry several, all of causes that apply
				if errors.Is(err, *x) {
					ok := false
					for _, c := range causes {
						ok = ok || c.is(*x)
					}
					if !ok {
						w.Fail(e, "the error belongs to a cause that does not apply as well: "+name, whatIs(err), c.name)
					}
				}
			}
			return
		}
	}
	w.Fail(e, "the error is not that of a cause that applies", whatIs(err), strings.Join(names, " or "))
}

// materialCauses: why BIP-32 declares the 78 bytes invalid.
func materialCauses(k XKey) (out []cause) {
	v := k.Version()
	switch {
	case k.Private() && !oracle.ScalarOK(k.Scalar()):
		out = append(out, named("private-key-out-of-range", bip32.ErrInvalidPrivateKey))
	case !k.Private() && !k.MaterialOK():
		out = append(out, named("no-point-of-the-curve", bip32.ErrInvalidPublicKey))
	}
	switch {
	case k.Private() && oracle.IsPub(v) && !oracle.IsPriv(v):
		out = append(out, named("private-key-with-public-version", bip32.ErrInvalidPrivateKey))
	case !k.Private() && oracle.IsPriv(v) && !oracle.IsPub(v):
		out = append(out, named("public-key-with-private-version", bip32.ErrInvalidPublicKey))
	}
	if k.Depth() == 0 && (k.Child() != 0 || !bytes.Equal(k.FP(), []byte{0, 0, 0, 0})) {
		out = append(out, named("master-with-a-parent", bip32.ErrInvalidRootLineage))
	}
	return
}

func childCauses(k XKey, idx uint32) (out []cause) {
	if !k.Private() && idx >= 1<<31 {
		out = append(out, named("hardened-from-public", bip32.ErrHardenedChildPublicKey))
	}
	if k.Depth() == 255 {
		out = append(out, named("too-deep", bip32.ErrMaxDepthReached))
	}
	if !oracle.CanDerive(k) {
		out = append(out, named("version-not-registered", bip32.ErrUnSupportedHDVersionBytes))
	}
	if k.Private() && !oracle.ScalarOK(k.Scalar()) { // not a key at all
		out = append(out, named("#private", bip32.ErrInvalidPrivateKey, bip32.ErrEmptyKey))
	}
	if !k.Private() && !k.MaterialOK() {
		out = append(out, named("#public", bip32.ErrInvalidPublicKey))
	}
	return
}

func pathCauses(p string) []cause {
	if _, ok := oracle.ParsePath(p); ok {
		return nil
	}
	if syntaxOK(p) {
		return []cause{{"number-too-large", func(err error) bool {
			return errors.Is(err, strconv.ErrRange) || errors.Is(err, bip32.ErrUnSupportedOrInvalidPath)
		}}}
	}
	return []cause{named("not-a-path", bip32.ErrUnSupportedOrInvalidPath)}
}

func sentenceCauses(lang, m string) []cause {
	if _, ok := oracle.Decode(lang, m); ok {
		return nil
	}
	switch refusal(lang, m) {
	case "word-count":
		return []cause{named("word-count", bip39.ErrInvalidMnemonic)}
	case "checksum":
		return []cause{named("checksum", bip39.ErrChecksumIncorrect)}
	}
	return []cause{{"unknown-word", func(err error) bool {
		if errors.Is(err, bip39.ErrChecksumIncorrect) { // it was never compared
			return false
		}
		t := err.Error()
		for _, x := range strings.Fields(m) {
			if _, ok := oracle.WordIndex(lang, x); !ok && (strings.Contains(t, x) || strings.Contains(t, strings.Trim(strconv.Quote(x), `"`))) {
				return true
			}
		}
		return false
	}}}
}

func monE01(c *Check) {
	c.On("NewEntropy", func(w *W, e *Event) {
		n := e.In[0].(int)
		var cs []cause
		if n%32 != 0 || n < 128 || n > 256 {
			cs = append(cs, named("entropy-size", bip39.ErrEntropyLengthInvalid))
		}
		w.judgeCause(e, asErr(e.Out[1]), cs)
	})
	c.On("NewMnemonic", func(w *W, e *Event) {
		var cs []cause
		if !oracle.EntropyLenOK(len(e.In[0].([]byte))) {
			cs = append(cs, named("entropy-size", bip39.ErrEntropyLengthInvalid))
		}
		w.judgeCause(e, asErr(e.Out[1]), cs)
	})
	for _, op := range []string{"EntropyFromMnemonic", "MnemonicToByteArray", "MnemonicToByteArrayRaw", "NewSeedWithErrorChecking", "DeriveSeedFromMnemonic"} {
		c.On(op, func(w *W, e *Event) { w.judgeCause(e, asErr(e.Out[1]), sentenceCauses(e.Lang, e.In[0].(string))) })
	}
	c.On("GenerateMnemonic", func(w *W, e *Event) {
		var cs []cause
		switch e.In[0].(byte) {
		case 12, 15, 18, 21, 24:
		default:
			cs = append(cs, named("word-count", util.ErrInvalidMnemonicWordsCount))
		}
		w.judgeCause(e, asErr(e.Out[1]), cs)
	})
	c.On("RootKeyFromSeed", func(w *W, e *Event) {
		s := e.In[0].(string)
		b, ok := oracle.UnHex(s)
		var cs []cause
		if !ok {
			cs = append(cs, cause{"not-hex", func(err error) bool {
				var x hex.InvalidByteError
				return errors.As(err, &x) || errors.Is(err, hex.ErrLength) || len(s) < 32 && errors.Is(err, util.ErrInvalidBIP39Seed)
			}})
		} else if len(b) < 16 {
			cs = append(cs, named("too-short", util.ErrInvalidBIP39Seed))
		}
		w.judgeCause(e, asErr(e.Out[1]), cs)
	})
	c.On("NewMasterKey", func(w *W, e *Event) { w.judgeCause(e, asErr(e.Out[1]), nil) })
	c.On("NewChildKey", func(w *W, e *Event) {
		w.judgeCause(e, asErr(e.Out[1]), childCauses(e.In[0].(XKey), e.In[1].(uint32)))
	})
	c.On("Serialize", func(w *W, e *Event) {
		var cs []cause
		if e.In[0].(XKey) == (XKey{}) {
			cs = append(cs, named("empty", bip32.ErrEmptyKey))
		}
		w.judgeCause(e, asErr(e.Out[1]), cs)
	})
	imp := func(w *W, e *Event, b []byte) {
		var cs []cause
		if len(b) != 82 {
			cs = append(cs, named("size", bip32.ErrSerializedKeyWrongSize))
		} else {
			if !bytes.Equal(oracle.Checksum(b[:78]), b[78:]) {
				cs = append(cs, named("checksum", bip32.ErrInvalidChecksum))
			}
			if len(cs) == 0 { // the content is trusted only if the checksum matches
				cs = append(cs, materialCauses(XKey(b[:78]))...)
			}
		}
		w.judgeCause(e, asErr(e.Out[1]), cs)
	}
	c.On("Deserialize", func(w *W, e *Event) { imp(w, e, e.In[0].([]byte)) })
	c.On("B58Deserialize", func(w *W, e *Event) {
		b, _ := oracle.B58Decode(e.In[0].(string)) // no Base58: nothing was decoded, which is the wrong size
		imp(w, e, b)
	})
	c.On("ValidatePrivateKey", func(w *W, e *Event) {
		var cs []cause
		if !oracle.ScalarOK(new2(e.In[0].([]byte))) {
			cs = append(cs, named("private-key-out-of-range", bip32.ErrInvalidPrivateKey))
		}
		w.judgeCause(e, asErr(e.Out[0]), cs)
	})
	c.On("ValuesAtDepth", func(w *W, e *Event) {
		p := e.In[0].(string)
		if !ambiguousWS(p) {
			w.judgeCause(e, asErr(e.Out[1]), pathCauses(p))
		}
	})
	level := func(root bool) func(w *W, e *Event) {
		return func(w *W, e *Event) {
			p, d := e.In[0].(string), e.In[1].(byte)
			if ambiguousWS(p) {
				return
			}
			cs := pathCauses(p)
			if v, ok := oracle.ParsePath(p); ok && (int(d) > len(v) || root && d == 0) {
				cs = append(cs, named("no-such-level", bip32.ErrUnSupportedOrInvalidPath))
			}
			w.judgeCause(e, asErr(e.Out[1]), cs)
		}
	}
	c.On("ValueAtDepth", level(false))
	c.On("ReplaceValueAtDepth", level(true))
	c.On("DeriveBIP32Result", func(w *W, e *Event) {
		root, p := e.In[0].(XKey), e.In[1].(string)
		if ambiguousWS(p) {
			return
		}
		var cs []cause
		if root == (XKey{}) || !oracle.Valid(root) || !root.Private() || root.Depth() != 0 {
			cs = append(cs, named("root-key", util.ErrInvalidRootKey))
		}
		vals, ok := oracle.ParsePath(p)
		if !ok {
			cs = append(cs, named("path", util.ErrUnSupportedOrInvalidPath))
		}
		if ok && len(vals) > 0 && !oracle.IsPriv(root.Version()) {
			cs = append(cs, named("version-not-registered", bip32.ErrUnSupportedHDVersionBytes))
		}
		if ok && len(vals) > 255 {
			cs = append(cs, named("too-deep", bip32.ErrMaxDepthReached))
		}
		w.judgeCause(e, asErr(e.Out[1]), cs)
	})
	c.On("GenerateRange", func(w *W, e *Event) {
		base, p, s, t := e.In[0].(XKey), e.In[1].(string), e.In[2].(uint32), e.In[3].(uint32)
		if ambiguousWS(p) {
			return
		}
		var cs []cause
		if s >= t {
			cs = append(cs, named("range", util.ErrInvalidRangeProvided))
		}
		if base == (XKey{}) || !oracle.Valid(base) {
			cs = append(cs, named("base-key", util.ErrInvalidRootKey))
		}
		if _, ok := oracle.ParsePath(p); !ok {
			cs = append(cs, named("path", util.ErrUnSupportedOrInvalidPath))
		}
		if s < t && oracle.Valid(base) {
			cs = append(cs, childCauses(base, t-1)...)
		}
		w.judgeCause(e, asErr(e.Out[1]), cs)
	})
	c.On("VersionBytes", func(w *W, e *Event) {
		p := e.In[3].(string)
		v := e.Out[0].(RowView)
		_, _, ok, short := twoHardened(p)
		var cs []cause
		switch {
		case !ok:
			cs = append(cs, named("row-path", bip32.ErrUnSupportedHDVersionBytes))
			if _, valid := oracle.ParsePath(p); !valid && syntaxOK(p) {
				cs = append(cs, named("#number", bip32.ErrInvalidPurpose, bip32.ErrInvalidCoin, strconv.ErrRange))
			}
		case !short:
			cs = append(cs, named("row-digits", bip32.ErrUnSupportedHDVersionBytes, bip32.ErrInvalidPurpose, bip32.ErrInvalidCoin))
		}
		for _, err := range []error{v.EP, v.EC, v.EPF, v.ECF} {
			w.judgeCause(e, err, cs)
		}
	})
}

// ownError is what an application's random source may fail with.
type ownError struct{ n int }

func (o *ownError) Error() string { return fmt.Sprintf("own error %d", o.n) }

func init() {
	props["E01"] = func(c *Check) {
		c.Rule = "one verdict per refused call: errors.Is says that its error is the exported one of a cause that applies (for an unlisted word: its text names one; for a failing random source: it is that source's error); distinct by operation and arguments"
		c.Require = []string{"several-causes-at-once", "random-source", "exported-errors",
			"NewEntropy:entropy-size", "NewMnemonic:entropy-size", "GenerateMnemonic:word-count", "RootKeyFromSeed:not-hex", "RootKeyFromSeed:too-short",
			"NewChildKey:hardened-from-public", "NewChildKey:too-deep", "NewChildKey:version-not-registered", "Serialize:empty",
			"Deserialize:size", "Deserialize:checksum", "Deserialize:private-key-out-of-range", "Deserialize:no-point-of-the-curve",
			"Deserialize:private-key-with-public-version", "Deserialize:public-key-with-private-version", "Deserialize:master-with-a-parent",
			"B58Deserialize:size", "B58Deserialize:checksum", "B58Deserialize:private-key-out-of-range", "B58Deserialize:no-point-of-the-curve",
			"B58Deserialize:private-key-with-public-version", "B58Deserialize:public-key-with-private-version", "B58Deserialize:master-with-a-parent",
			"ValidatePrivateKey:private-key-out-of-range", "ValuesAtDepth:not-a-path", "ValuesAtDepth:number-too-large",
			"ValueAtDepth:no-such-level", "ReplaceValueAtDepth:no-such-level", "ValueAtDepth:not-a-path", "ReplaceValueAtDepth:not-a-path", "VersionBytes:row-path",
			"DeriveBIP32Result:root-key", "DeriveBIP32Result:path", "DeriveBIP32Result:version-not-registered", "DeriveBIP32Result:too-deep",
			"GenerateRange:range", "GenerateRange:base-key", "GenerateRange:path", "GenerateRange:version-not-registered", "GenerateRange:too-deep", "GenerateRange:hardened-from-public"}
		for _, op := range []string{"EntropyFromMnemonic", "MnemonicToByteArray", "MnemonicToByteArrayRaw", "NewSeedWithErrorChecking", "DeriveSeedFromMnemonic"} {
			c.Require = append(c.Require, op+":word-count", op+":unknown-word", op+":checksum")
		}
		monE01(c)
		before := map[string]error{}
		for n, p := range exportedErrors {
			before[n] = *p
		}
		c.Seqn("exported-errors", 1, func(w *W, i int) {
			for n, a := range before {
				w.EvalKey(n, true)
				if a == nil || a.Error() == "" {
					w.Fail(nil, "exported error without text: "+n, a, "an error")
					continue
				}
				for m, b := range before {
					if n != m && strings.Split(n, ".")[0] == strings.Split(m, ".")[0] && errors.Is(a, b) {
						w.Fail(nil, "two exported errors cannot be told apart", n+" is "+m, "distinct errors")
					}
				}
			}
			w.Feat("exported-errors")
		})
		sent := func(w *W, m string) {
			pass := kinPass(w.R, m, genPass(w.R))
			w.EntropyFromMnemonic(m)
			w.MnemonicToByteArray(m)
			w.MnemonicToByteArray(m, true)
			if w.R.Intn(4) == 0 || !w.IsMnemonicValid(m) {
				w.NewSeedWithErrorChecking(m, pass)
				w.DeriveSeed(m, pass)
			}
		}
		c.forLangs(func(lang string) {
			c.Par("sentences-"+lang, c.N(1200, 30000), func(w *W, i int) {
				r := w.R
				ws := oracle.Words(lang, genEntropy(r, entLens[i%5]))
				switch i / 5 % 6 {
				case 0: // a word unlisted at each position, some with several
					for k := r.Intn(3); k >= 0; k-- {
						ws[r.Intn(len(ws))] = pick(r, "zzzz", "Abandon", ws[0]+"x", "\xff", "%s", "%!v(", "word", "`", "not", genStablePass(r)+"q")
					}
				case 1: // checksum: another last word or an exchange
					ws[len(ws)-1] = oracle.Lists[lang][r.Intn(2048)]
				case 2: // counts
					n := r.Intn(40)
					for len(ws) < n {
						ws = append(ws, oracle.Lists[lang][r.Intn(2048)])
					}
					ws = ws[:n]
				case 3: // several causes: wrong count and an unlisted word
					ws[0] = "zzzz"
					ws = ws[:len(ws)-1-r.Intn(3)]
				default:
					sent(w, damage(r, lang, ws))
					return
				}
				sent(w, strings.Join(ws, " "))
			})
			c.Par("sizes-"+lang, 260, func(w *W, i int) {
				w.NewMnemonic(rbytes(w.R, i))
				w.NewEntropy(i)
				w.NewEntropy(i * 8)
				w.GenerateMnemonic(byte(i))
			})
		})
		c.selectLang("english")
		c.Par("keys", c.N(6000, 200000), func(w *W, i int) {
			r := w.R
			var k XKey
			switch i % 8 {
			case 0, 1:
				k = badKey(w)
			case 2:
				k = genKey(r)
				k[4] = 255
			case 3:
				k = genKey(r)
				k.SetVersion(genUnregistered(r))
			case 4:
				k = genWrongKind(r)
			case 5:
				k = genRoot(r)
				k[5+r.Intn(8)] ^= 1 << r.Intn(8)
			case 6:
				k = hostileKey(r)
			case 7:
				k = genPubKey(r)
			}
			if i%64 == 1 {
				k = XKey{}
			}
			w.Serialize(k)
			w.NewChildKey(k, kinIndex(r, k))
			w.NewChildKey(k, kinIndex(r, k)|1<<31)
			b := oracle.Serialize(k)
			w.Deserialize(b)
			w.B58Deserialize(oracle.B58Encode(b))
			if r.Intn(2) == 0 {
				b[r.Intn(82)] ^= 1 << r.Intn(8)
			} else {
				b = append(b, rbytes(r, 5)...)[:r.Intn(88)]
			}
			w.Deserialize(b)
			w.B58Deserialize(oracle.B58Encode(b))
			w.ValidatePrivateKey([32]byte(k[46:]))
			g := &Gen{}
			w.SetRootKey(g, k)
			w.DerivePath(g, pick(r, "m", "m/0", "m/44'/0'/0'", "m/0'", "x"))
		})
		c.Par("paths", c.N(20000, 400000), func(w *W, i int) {
			p := genPathAny(w.R)
			w.PathValues(p)
			w.PathValue(p, byte(w.R.Intn(9)))
			w.PathReplace(p, byte(w.R.Intn(9)), genIndex(w.R))
			if i%4 == 0 {
				g := &Gen{}
				w.SetRootKey(g, pick(w.R, genRoot(w.R), genRoot(w.R), badKey(w)))
				if len(p) < 900 || i%64 == 0 {
					w.DerivePath(g, p)
				}
			}
			w.Row(bip32.VersionBytes{Path: bip32.Path(hostileRowPath(w))})
		})
		c.Par("deep", c.N(16, 200), func(w *W, i int) {
			g := &Gen{}
			w.SetRootKey(g, genRoot(w.R))
			w.DerivePath(g, pathOf(longIdxs(w.R, 254+i%4)))
		})
		c.ranges(c.N(4000, 60000))
		c.Par("seeds", c.N(3000, 60000), func(w *W, i int) {
			s := oracle.Hex(rbytes(w.R, i%40))
			switch i / 40 % 4 {
			case 1:
				k := w.R.Intn(len(s) + 1)
				s = s[:k] + pick(w.R, "g", " ", "0", "0x", "\xff", "é") + s[k:]
			case 2:
				s = hostileText(w.R, "english")
			}
			w.RootKeyFromSeed(s)
		})
		for _, lang := range []string{"english", "japanese"} {
			c.selectLang(lang)
			c.Par("hostile-"+lang, c.N(4000, 100000), func(w *W, i int) {
				for k := 0; k < 12; k++ {
					attack(w, i+k*5, lang)
				}
			})
		}
		c.selectLang("english")
		c.mixed(c.N(300, 5000))
		// an application's own random source fails: its error comes back
		c.Seqn("random-source", c.N(400, 6000), func(w *W, i int) {
			w.quiet = true
			ops := randOps()
			o := ops[i%len(ops)]
			own := &ownError{i}
			var fault error = own
			switch i / len(ops) % 4 {
			case 1:
				fault = syscall.EIO
			case 2:
				fault = &fs.PathError{Op: "read", Path: "/dev/random", Err: own}
			case 3:
				fault = fmt.Errorf("no entropy: %w", own)
			}
			s := &source{stream: rbytes(w.R, o.size), failAt: w.R.Intn(o.size), err: fault, withData: w.R.Intn(2) == 0, chunk: pick(w.R, whole, byteWise, pieces(5))}
			var err error
			with(s, func() { _, err, _ = o.run(w) })
			w.EvalKey(fmt.Sprint(o.name, i), true)
			if err == nil {
				return // B07's concern
			}
			w.Feat("random-source")
			if !errors.Is(err, fault) {
				w.Fail(nil, o.name+": the random source's error was replaced", whatIs(err), fault)
			}
		})
		c.Seqn("exported-errors-afterwards", 1, func(w *W, i int) {
			for n, p := range exportedErrors {
				w.EvalKey("after "+n, true)
				if *p != before[n] {
					w.Fail(nil, "an exported error was replaced during use: "+n, *p, before[n])
				}
			}
		})
	}
}
