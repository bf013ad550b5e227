package main

// The recording boundary: one wrapper per exported operation of the library. Each wrapper snapshots what it passes,
// calls the real code, snapshots what came back and emits an event.

import (
	"bytes"
	"fmt"
	"math/big"
	"time"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/bip39/wordlists"
	"github.com/mearaj/bips/bip44"
	"github.com/mearaj/bips/util"

	"verifharness/oracle"
)

type XKey = oracle.XKey

var shipped = map[string]*[]string{
	"chinese_simplified": &wordlists.ChineseSimplified, "chinese_traditional": &wordlists.ChineseTraditional, "czech": &wordlists.Czech,
	"english": &wordlists.English, "french": &wordlists.French, "italian": &wordlists.Italian, "japanese": &wordlists.Japanese,
	"korean": &wordlists.Korean, "portuguese": &wordlists.Portuguese, "spanish": &wordlists.Spanish,
}

func (w *W) Lang() string { return w.C.lang.Load().(string) }

// in prepares a caller-owned buffer holding b: sometimes exactly sized, sometimes with canary bytes behind it.
func (w *W) in(b []byte) (arg []byte, check func() string) {
	if b == nil {
		return nil, func() string { return "" }
	}
	extra := 0
	if w.R == nil || w.R.Intn(3) != 0 {
		extra = 128
	}
	var buf []byte
	if extra != 0 && w.R != nil && w.R.Intn(2) == 0 && len(b) <= 4096 { // the caller reuses one buffer for all its calls
		if w.scratch == nil {
			w.scratch = make([]byte, 4096+extra)
		}
		buf = w.scratch[:len(b)+extra]
	} else {
		buf = make([]byte, len(b)+extra)
	}
	copy(buf, b)
	for i := len(b); i < len(buf); i++ {
		buf[i] = byte(0xA5 ^ i)
	}
	want := append([]byte{}, buf...)
	arg = buf[:len(b)]
	if extra == 0 {
		arg = buf[:len(b):len(b)]
	}
	return arg, func() string {
		if bytes.Equal(buf, want) {
			return ""
		}
		for i := range buf {
			if buf[i] != want[i] {
				where := "argument"
				if i >= len(b) {
					where = "unused capacity behind the argument"
				}
				return fmt.Sprintf("%s byte %d changed from %02x to %02x", where, i, want[i], buf[i])
			}
		}
		return ""
	}
}

func cp(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

func (w *W) ev(op string, in ...any) *Event {
	e := &Event{Op: op, In: in, Lang: w.Lang()}
	if w.C.outside != nil {
		e.outside = outsideNow()
	}
	w.cur.Store(&inflight{e, time.Now()})
	return e
}

// ---- bip39

func (w *W) SetWordList(lang string) {
	e := w.ev("SetWordList", lang)
	e.Panic = guard(func() { bip39.SetWordList(*shipped[lang]) })
	w.C.lang.Store(lang)
	e.Lang = lang
	w.emit(e)
}

func (w *W) GetWordList() []string {
	e := w.ev("GetWordList")
	var out []string
	e.Panic = guard(func() { out = bip39.GetWordList() })
	e.Out = []any{append([]string{}, out...)}
	w.emit(e)
	return out
}

func (w *W) GetWordIndex(word string) (idx int, ok bool) {
	e := w.ev("GetWordIndex", word)
	e.Panic = guard(func() { idx, ok = bip39.GetWordIndex(word) })
	e.Out = []any{idx, ok}
	w.emit(e)
	return
}

func (w *W) NewEntropy(bits int) (out []byte, err error) {
	e := w.ev("NewEntropy", bits)
	e.Panic = guard(func() { out, err = bip39.NewEntropy(bits) })
	w.hold("NewEntropy", out)
	e.Out = []any{cp(out), err}
	w.emit(e)
	return
}

func (w *W) NewMnemonic(ent []byte) (out string, err error) {
	e := w.ev("NewMnemonic", cp(ent))
	a, chk := w.in(ent)
	e.Panic = guard(func() { out, err = bip39.NewMnemonic(a) })
	e.Mutated = chk()
	e.Out = []any{out, err}
	w.emit(e)
	return
}

func (w *W) EntropyFromMnemonic(m string) (out []byte, err error) {
	e := w.ev("EntropyFromMnemonic", m)
	e.Panic = guard(func() { out, err = bip39.EntropyFromMnemonic(m) })
	w.hold("EntropyFromMnemonic", out)
	e.Out = []any{cp(out), err}
	w.emit(e)
	return
}

func (w *W) MnemonicToByteArray(m string, raw ...bool) (out []byte, err error) {
	op := "MnemonicToByteArray"
	if len(raw) > 0 && raw[0] {
		op = "MnemonicToByteArrayRaw"
	}
	e := w.ev(op, m)
	e.Panic = guard(func() { out, err = bip39.MnemonicToByteArray(m, raw...) })
	w.hold(op, out)
	e.Out = []any{cp(out), err}
	w.emit(e)
	return
}

func (w *W) NewSeedWithErrorChecking(m, pass string) (out []byte, err error) {
	e := w.ev("NewSeedWithErrorChecking", m, pass)
	e.Panic = guard(func() { out, err = bip39.NewSeedWithErrorChecking(m, pass) })
	w.hold("NewSeedWithErrorChecking", out)
	e.Out = []any{cp(out), err}
	w.emit(e)
	return
}

func (w *W) Bip39Seed(m, pass string) (out []byte) {
	e := w.ev("bip39.NewSeed", m, pass)
	e.Panic = guard(func() { out = bip39.NewSeed(m, pass) })
	w.hold("bip39.NewSeed", out)
	e.Out = []any{cp(out)}
	w.emit(e)
	return
}

func (w *W) IsMnemonicValid(m string) (ok bool) {
	e := w.ev("IsMnemonicValid", m)
	e.Panic = guard(func() { ok = bip39.IsMnemonicValid(m) })
	e.Out = []any{ok}
	w.emit(e)
	return
}

// ---- bip32

func (w *W) NewMasterKey(seed []byte) (k XKey, err error) {
	e := w.ev("NewMasterKey", cp(seed))
	a, chk := w.in(seed)
	var kp *bip32.Key
	e.Panic = guard(func() { kp, err = bip32.NewMasterKey(a) })
	e.Mutated = chk()
	if kp != nil {
		w.hold("NewMasterKey", kp[:])
		k = XKey(*kp)
	}
	e.Out = []any{k, err}
	if kp == nil && err == nil && e.Panic == "" {
		e.Panic = "nil key without error"
	}
	w.emit(e)
	return
}

// key runs f on a caller-owned key and checks that f did not modify it.
func (w *W) key(e *Event, k XKey, f func(k *bip32.Key)) {
	kk := bip32.Key(k)
	e.Panic = guard(func() { f(&kk) })
	if XKey(kk) != k {
		e.Mutated = fmt.Sprintf("receiver key changed to %x", kk[:])
	}
}

func (w *W) NewChildKey(k XKey, i uint32) (out XKey, err error) {
	e := w.ev("NewChildKey", k, i)
	w.key(e, k, func(k *bip32.Key) { var o bip32.Key; o, err = k.NewChildKey(i); out = XKey(o) })
	e.Out = []any{out, err}
	w.emit(e)
	return
}

func (w *W) PublicKeyExtended(k XKey) (out XKey) {
	e := w.ev("PublicKeyExtended", k)
	w.key(e, k, func(k *bip32.Key) { out = XKey(k.PublicKeyExtended()) })
	e.Out = []any{out}
	w.emit(e)
	return
}

func (w *W) IsPrivate(k XKey) (out bool) {
	e := w.ev("IsPrivate", k)
	w.key(e, k, func(k *bip32.Key) { out = k.IsPrivate() })
	e.Out = []any{out}
	w.emit(e)
	return
}

func (w *W) PrivateKeyHex(k XKey) (out string) {
	e := w.ev("PrivateKeyHex", k)
	w.key(e, k, func(k *bip32.Key) { out = k.PrivateKeyHex() })
	e.Out = []any{out}
	w.emit(e)
	return
}

func (w *W) PublicKeyHex(k XKey) (out string) {
	e := w.ev("PublicKeyHex", k)
	w.key(e, k, func(k *bip32.Key) { out = k.PublicKeyHex() })
	e.Out = []any{out}
	w.emit(e)
	return
}

func (w *W) Serialize(k XKey) (out []byte, err error) {
	e := w.ev("Serialize", k)
	w.key(e, k, func(k *bip32.Key) { out, err = k.Serialize() })
	w.hold("Serialize", out)
	e.Out = []any{cp(out), err}
	w.emit(e)
	return
}

func (w *W) B58Serialize(k XKey) (out string) {
	e := w.ev("B58Serialize", k)
	var s2 string
	w.key(e, k, func(k *bip32.Key) { out = k.B58Serialize(); s2 = k.String() })
	e.Out = []any{out, s2}
	w.emit(e)
	return
}

func (w *W) IsValid(k XKey) (out bool) {
	e := w.ev("Key.IsValid", k)
	w.key(e, k, func(k *bip32.Key) { out = k.IsValid() })
	e.Out = []any{out}
	w.emit(e)
	return
}

// Fields reads every accessor.
type Fields struct {
	Version uint32
	Depth   bip32.Depth
	FP      bip32.FingerPrint
	Child   bip32.ChildNumber
	Chain   bip32.ChainCode
	Key     bip32.KeyBytes
	Pvt     bip32.PvtKeyBytes
}

func (w *W) Fields(k XKey) (f Fields) {
	e := w.ev("Fields", k)
	w.key(e, k, func(k *bip32.Key) {
		f = Fields{k.GetVersion(), k.GetDepth(), k.GetFingerPrint(), k.GetChildNumber(), k.GetChainCode(), k.GetKeyBytes(), k.GetPvtKeyBytes()}
	})
	e.Out = []any{f}
	w.emit(e)
	return
}

func (w *W) SetVersion(k XKey, v uint32, viaUint bool) (out XKey) {
	e := w.ev("SetVersion", k, v, viaUint)
	kk := bip32.Key(k)
	e.Panic = guard(func() {
		if viaUint {
			kk.SetVersionUint32(v)
		} else {
			kk.SetVersion(bip32.Version{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)})
		}
	})
	out = XKey(kk)
	e.Out = []any{out}
	w.emit(e)
	return
}

func (w *W) Deserialize(b []byte) (k XKey, err error) {
	e := w.ev("Deserialize", cp(b))
	a, chk := w.in(b)
	var o bip32.Key
	e.Panic = guard(func() { o, err = bip32.Deserialize(a) })
	e.Mutated = chk()
	k = XKey(o)
	e.Out = []any{k, err}
	w.emit(e)
	return
}

func (w *W) B58Deserialize(s string) (k XKey, err error) {
	e := w.ev("B58Deserialize", s)
	var o bip32.Key
	e.Panic = guard(func() { o, err = bip32.B58Deserialize(s) })
	k = XKey(o)
	e.Out = []any{k, err}
	w.emit(e)
	return
}

func (w *W) Bip32Seed() (out []byte, err error) {
	e := w.ev("bip32.NewSeed")
	e.Panic = guard(func() { out, err = bip32.NewSeed() })
	w.hold("bip32.NewSeed", out)
	e.Out = []any{cp(out), err}
	w.emit(e)
	return
}

func (w *W) ValidatePrivateKey(b [32]byte) (err error) {
	e := w.ev("ValidatePrivateKey", cp(b[:]))
	e.Panic = guard(func() { err = bip32.ValidatePrivateKey(bip32.PvtKeyBytes(b)) })
	e.Out = []any{err}
	w.emit(e)
	return
}

func (w *W) ExpandPublicKey(b []byte) (x, y *big.Int) {
	e := w.ev("ExpandPublicKey", cp(b))
	a, chk := w.in(b)
	e.Panic = guard(func() { x, y = bip32.ExpandPublicKey(a) })
	e.Mutated = chk()
	e.Out = []any{x, y}
	w.emit(e)
	return
}

func (w *W) Hash160(b []byte) (out []byte, err error) {
	e := w.ev("HashRipeMD160onSha256", cp(b))
	a, chk := w.in(b)
	e.Panic = guard(func() { out, err = bip32.HashRipeMD160onSha256(a) })
	e.Mutated = chk()
	w.hold("HashRipeMD160onSha256", out)
	e.Out = []any{cp(out), err}
	w.emit(e)
	return
}

func (w *W) Checksum(b []byte) (out []byte, err error) {
	e := w.ev("ChecksumDblSha256", cp(b))
	a, chk := w.in(b)
	e.Panic = guard(func() { out, err = bip32.ChecksumDblSha256(a) })
	e.Mutated = chk()
	w.hold("ChecksumDblSha256", out)
	e.Out = []any{cp(out), err}
	w.emit(e)
	return
}

func (w *W) AddChecksum(b []byte) (out []byte, err error) {
	e := w.ev("AddChecksumDblSha256ToBytes", cp(b))
	a, chk := w.in(b)
	e.Panic = guard(func() { out, err = bip32.AddChecksumDblSha256ToBytes(a) })
	e.Mutated = chk()
	w.hold("AddChecksumDblSha256ToBytes", out)
	e.Out = []any{cp(out), err}
	w.emit(e)
	return
}

// ---- paths

func (w *W) PathValues(p string) (out []uint32, err error) {
	e := w.ev("ValuesAtDepth", p)
	e.Panic = guard(func() { out, err = bip32.Path(p).ValuesAtDepth() })
	e.Out = []any{append([]uint32(nil), out...), err}
	w.emit(e)
	return
}

func (w *W) PathValid(p string) (ok bool) {
	e := w.ev("Path.IsValid", p)
	e.Panic = guard(func() { ok = bip32.Path(p).IsValid() })
	e.Out = []any{ok}
	w.emit(e)
	return
}

func (w *W) PathString(p string) (out string) {
	e := w.ev("Path.String", p)
	var f string
	e.Panic = guard(func() { out = bip32.Path(p).String(); f = string(bip32.Path(p).Formatted()) })
	e.Out = []any{out, f}
	w.emit(e)
	return
}

func (w *W) PathValue(p string, d byte) (v uint32, err error) {
	e := w.ev("ValueAtDepth", p, d)
	e.Panic = guard(func() { v, err = bip32.Path(p).ValueAtDepth(d) })
	e.Out = []any{v, err}
	w.emit(e)
	return
}

func (w *W) PathReplace(p string, d byte, v uint32) (out string, err error) {
	e := w.ev("ReplaceValueAtDepth", p, d, v)
	e.Panic = guard(func() { var o bip32.Path; o, err = bip32.Path(p).ReplaceValueAtDepth(d, v); out = string(o) })
	e.Out = []any{out, err}
	w.emit(e)
	return
}

// ---- util

func (w *W) GenerateMnemonic(n byte) (out string, err error) {
	e := w.ev("GenerateMnemonic", n)
	e.Panic = guard(func() { out, err = util.GenerateMnemonic(n) })
	e.Out = []any{out, err}
	w.emit(e)
	return
}

func (w *W) DeriveSeed(m, pass string) (out string, err error) {
	e := w.ev("DeriveSeedFromMnemonic", m, pass)
	e.Panic = guard(func() { out, err = util.DeriveSeedFromMnemonic(m, pass) })
	e.Out = []any{out, err}
	w.emit(e)
	return
}

func (w *W) RootKeyFromSeed(s string) (k XKey, err error) {
	e := w.ev("RootKeyFromSeed", s)
	var kp *bip32.Key
	e.Panic = guard(func() { kp, err = util.RootKeyFromSeed(s) })
	isNil := kp == nil
	if kp != nil {
		w.hold("RootKeyFromSeed", kp[:])
		k = XKey(*kp)
	}
	e.Out = []any{k, err, isNil}
	w.emit(e)
	return
}

// KP is an observed path/key pair.
type KP struct {
	Path string
	Key  XKey
}

func (k KP) String() string { return fmt.Sprintf("%s=%x", k.Path, k.Key[:]) }

func kps(in []util.KeyPath) []KP {
	out := make([]KP, len(in))
	for i, x := range in {
		out[i] = KP{string(x.Path), XKey(x.Key)}
	}
	return out
}

// Gen is a generator object with its model state: the root key last set.
type Gen struct {
	G    util.Generator
	Root XKey
}

func (w *W) SetRootKey(g *Gen, k XKey) {
	e := w.ev("SetRootKey", k)
	e.Panic = guard(func() { g.G.SetRootKey(bip32.Key(k)) })
	g.Root = k
	w.emit(e)
}

// SetRootByRef changes the root key through the reference that RootKey returns.
func (w *W) SetRootByRef(g *Gen, k XKey) {
	e := w.ev("SetRootByRef", k)
	e.Panic = guard(func() { *g.G.RootKey() = bip32.Key(k) })
	g.Root = k
	w.emit(e)
}

func (w *W) RootKey(g *Gen) (k XKey) {
	e := w.ev("RootKey", g.Root)
	e.Panic = guard(func() { k = XKey(*g.G.RootKey()) })
	e.Out = []any{k}
	w.emit(e)
	return
}

// DerivePath emits In = root, path; Out = result, err, root key of the generator afterwards.
func (w *W) DerivePath(g *Gen, p string) (out []KP, err error) {
	e := w.ev("DeriveBIP32Result", g.Root, p)
	var res []util.KeyPath
	var after XKey
	e.Panic = guard(func() {
		res, err = g.G.DeriveBIP32Result(bip32.Path(p))
		after = XKey(*g.G.RootKey())
	})
	out = kps(res)
	if len(res) > 0 {
		w.hold("DeriveBIP32Result", res[len(res)-1].Key[:])
		w.hold("DeriveBIP32Result", res[0].Key[:])
	}
	e.Out = []any{out, err, after}
	w.emit(e)
	return
}

// GenerateRange emits In = base key, base path, start, end; Out = entries, err, previous entries, object fields after.
func (w *W) GenerateRange(r *util.KeyPathRange) (out []KP, err error) {
	prev := kps(r.KeyPaths)
	e := w.ev("GenerateRange", XKey(r.Key), string(r.Path), r.StartIndex, r.EndIndex)
	e.Panic = guard(func() { err = r.GenerateRange() })
	out = kps(r.KeyPaths)
	if XKey(r.Key) != e.In[0].(XKey) || string(r.Path) != e.In[1].(string) || r.StartIndex != e.In[2].(uint32) || r.EndIndex != e.In[3].(uint32) {
		e.Mutated = "request fields of the range changed"
	}
	if n := len(r.KeyPaths); n > 0 {
		w.hold("GenerateRange", r.KeyPaths[n-1].Key[:])
	}
	e.Out = []any{out, err, prev}
	w.emit(e)
	return
}

func (w *W) AddrHex(k XKey) (out string) {
	path := walletPath(w.R) // the address is that of the key, wherever the key is
	e := w.ev("AddrHex", k, string(path))
	kp := util.KeyPath{Path: path, Key: bip32.Key(k)}
	e.Panic = guard(func() { out = kp.AddrHex() })
	if XKey(kp.Key) != k || kp.Path != path {
		e.Mutated = "key or path changed"
	}
	e.Out = []any{out}
	w.emit(e)
	return
}

func (w *W) AddrP2SH(k XKey, prefix byte) (out string) {
	path := walletPath(w.R)
	e := w.ev("AddrP2SH", k, prefix, string(path))
	kp := util.KeyPath{Path: path, Key: bip32.Key(k)}
	e.Panic = guard(func() { out = kp.AddrP2SH(prefix) })
	if XKey(kp.Key) != k || kp.Path != path {
		e.Mutated = "key or path changed"
	}
	e.Out = []any{out}
	w.emit(e)
	return
}

// ---- bip44 / registries

func (w *W) CoinValid(c bip44.Coin) (ok bool) {
	e := w.ev("Coin.IsValid", c.Type, c.PathComponent, c.Symbol, c.Name)
	var s, md string
	e.Panic = guard(func() { ok = c.IsValid(); s = c.String(); md = c.StringForMD() })
	e.Out = []any{ok, s, md}
	w.emit(e)
	return
}

// RowView is what a version row says about itself.
type RowView struct {
	Valid, Registered                    bool
	Purpose, Coin, PurposeFull, CoinFull uint32
	EP, EC, EPF, ECF                     error
	PvtB, PubB                           [4]byte
}

func (w *W) Row(r bip32.VersionBytes) (v RowView) {
	e := w.ev("VersionBytes", r.Coin, r.PvtKeyFlag, r.PubKeyFlag, string(r.Path), fmt.Sprint(r.PvKeyPrefix, r.PubKeyPrefix, r.AddrEncodings))
	e.Panic = guard(func() {
		v.Valid, v.Registered = r.IsValid(), r.IsRegistered()
		v.Purpose, v.EP = r.PurposeVal()
		v.Coin, v.EC = r.CoinVal()
		v.PurposeFull, v.EPF = r.PurposeValFull()
		v.CoinFull, v.ECF = r.CoinValFull()
		v.PvtB, v.PubB = r.PvtKeyFlagBytes(), r.PubKeyFlagBytes()
	})
	e.Out = []any{v}
	w.emit(e)
	return
}
