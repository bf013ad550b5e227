package oracle

import (
	_ "embed"
	"encoding/json"
)

// Row is one registered version row of the published SLIP-0132 table.
type Row struct {
	Coin, PubPrefix, PrivPrefix, Path string
	Pub, Priv                         uint32
	Enc                               []string
}

// Rows is this package's own transcription of the published SLIP-0132 table. Path is empty where the table gives none.
var Rows = []Row{
	{"Bitcoin", "xpub", "xprv", "m/44'/0'", 0x0488b21e, 0x0488ade4, []string{"P2PKH", "P2SH"}},
	{"Bitcoin", "ypub", "yprv", "m/49'/0'", 0x049d7cb2, 0x049d7878, []string{"P2WPKHInP2SH"}},
	{"Bitcoin", "zpub", "zprv", "m/84'/0'", 0x04b24746, 0x04b2430c, []string{"P2WPKH"}},
	{"Bitcoin", "Ypub", "Yprv", "", 0x0295b43f, 0x0295b005, []string{"P2WSHInP2SH"}},
	{"Bitcoin", "Zpub", "Zprv", "", 0x02aa7ed3, 0x02aa7a99, []string{"P2WSH"}},
	{"Bitcoin Testnet", "tpub", "tprv", "m/44'/1'", 0x043587cf, 0x04358394, []string{"P2PKH", "P2SH"}},
	{"Bitcoin Testnet", "upub", "uprv", "m/49'/1'", 0x044a5262, 0x044a4e28, []string{"P2WPKHInP2SH"}},
	{"Bitcoin Testnet", "vpub", "vprv", "m/84'/1'", 0x045f1cf6, 0x045f18bc, []string{"P2WPKH"}},
	{"Bitcoin Testnet", "Upub", "Uprv", "", 0x024289ef, 0x024285b5, []string{"P2WSHInP2SH"}},
	{"Bitcoin Testnet", "Vpub", "Vprv", "", 0x02575483, 0x02575048, []string{"P2WSH"}},
	{"Groestlcoin", "xpub", "xprv", "m/44'/17'", 0x0488b21e, 0x0488ade4, []string{"P2PKH", "P2SH"}},
	{"Groestlcoin", "ypub", "yprv", "m/49'/17'", 0x049d7cb2, 0x049d7878, []string{"P2WPKHInP2SH"}},
	{"Groestlcoin", "zpub", "zprv", "m/84'/17'", 0x04b24746, 0x04b2430c, []string{"P2WPKH"}},
	{"Groestlcoin", "Ypub", "Yprv", "", 0x0295b43f, 0x0295b005, []string{"P2WSHInP2SH"}},
	{"Groestlcoin", "Zpub", "Zprv", "", 0x02aa7ed3, 0x02aa7a99, []string{"P2WSH"}},
	{"Groestlcoin Testnet", "tpub", "tprv", "m/44'/1'", 0x043587cf, 0x04358394, []string{"P2PKH", "P2SH"}},
	{"Groestlcoin Testnet", "upub", "uprv", "m/49'/1'", 0x044a5262, 0x044a4e28, []string{"P2WPKHInP2SH"}},
	{"Groestlcoin Testnet", "vpub", "vprv", "m/84'/1'", 0x045f1cf6, 0x045f18bc, []string{"P2WPKH"}},
	{"Groestlcoin Testnet", "Upub", "Uprv", "", 0x024289ef, 0x024285b5, []string{"P2WSHInP2SH"}},
	{"Groestlcoin Testnet", "Vpub", "Vprv", "", 0x02575483, 0x02575048, []string{"P2WSH"}},
	{"Litecoin", "Ltub", "Ltpv", "m/44'/2'", 0x019da462, 0x019d9cfe, []string{"P2PKH", "P2SH"}},
	{"Litecoin", "Mtub", "Mtpv", "m/49'/2'", 0x01b26ef6, 0x01b26792, []string{"P2WPKHInP2SH"}},
	{"Litecoin Testnet", "ttub", "ttpv", "m/44'/1'", 0x0436f6e1, 0x0436ef7d, []string{"P2PKH", "P2SH"}},
	{"Nexa", "xpub", "xprv", "m/44'/29223'", 0x42696720, 0x426c6b73, []string{"P2PKT", "P2PKH", "P2SH"}},
	{"Nexa Testnet", "xpub", "xprv", "m/44'/1'", 0x043587cf, 0x04358394, []string{"P2PKT", "P2PKH", "P2SH"}},
	{"Vertcoin", "vtcp", "vtcv", "m/44'/28'", 0x0488b21e, 0x0488ade4, []string{"P2PKH", "P2SH"}},
	{"Polis", "ppub", "pprv", "m/44'/1997'", 0x03e25d7e, 0x03e25945, []string{"P2PKH"}},
	{"Syscoin", "zpub", "zprv", "m/84'/57'", 0x04b24746, 0x04b2430c, []string{"P2WPKH"}},
	{"Syscoin", "Zpub", "Zprv", "", 0x02aa7ed3, 0x02aa7a99, []string{"P2WSH"}},
}

// PrivToPub maps registered private versions to their public versions; PubVersions is the set of registered public ones.
var (
	PrivToPub    = map[uint32]uint32{}
	PubToPriv    = map[uint32]uint32{}
	PrivVersions []uint32
	PubVersions  []uint32
)

const DefaultPub = 0x0488b21e
const DefaultPriv = 0x0488ade4

func init() {
	for _, r := range Rows {
		if p, ok := PrivToPub[r.Priv]; ok {
			if p != r.Pub {
				panic("ambiguous private version")
			}
			continue
		}
		PrivToPub[r.Priv] = r.Pub
		if p, ok := PubToPriv[r.Pub]; ok && p != r.Priv {
			panic("ambiguous public version")
		}
		PubToPriv[r.Pub] = r.Priv
		PrivVersions = append(PrivVersions, r.Priv)
		PubVersions = append(PubVersions, r.Pub)
	}
}

func IsPriv(v uint32) bool { _, ok := PrivToPub[v]; return ok }
func IsPub(v uint32) bool  { _, ok := PubToPriv[v]; return ok }

// CanDerive: the version is registered for the kind of key.
func CanDerive(k XKey) bool {
	if k.Private() {
		return IsPriv(k.Version())
	}
	return IsPub(k.Version())
}

func Valid(k XKey) bool { return WellFormed(k, IsPriv, IsPub) }

// PubForm is the key's public form.
func PubForm(k XKey) XKey {
	v := uint32(DefaultPub)
	if k.Private() {
		if p, ok := PrivToPub[k.Version()]; ok {
			v = p
		}
		return Neuter(k, v)
	}
	if IsPub(k.Version()) {
		v = k.Version()
	}
	k.SetVersion(v)
	return k
}

// Corpus holds rare inputs found by search (see grind/).
type Corpus struct {
	// Derive: parent (78 bytes hex) and index whose child has the named feature.
	Derive []struct {
		Parent string
		Index  uint32
		Why    string
	}
	// Keys: private scalars (hex) whose public point, hash or address has the named feature.
	Keys []struct{ Scalar, Why string }
	// Seeds: master seeds (hex).
	Seeds []struct{ Seed, Why string }
	// Serial: keys (78 bytes hex) whose checksum has the named feature.
	Serial []struct{ Key, Why string }
}

// derivations with 32 aligned bits of all ones or zero somewhere (grind/limbs)
//
//go:embed data/limbs.json
var limbsJSON []byte

//go:embed data/corpus.json
var corpusJSON []byte
var C Corpus

func init() {
	if err := json.Unmarshal(corpusJSON, &C); err != nil {
		panic(err)
	}
	n := len(C.Derive)
	limbs := C.Derive[n:]
	if err := json.Unmarshal(limbsJSON, &limbs); err != nil {
		panic(err)
	}
	C.Derive = append(C.Derive, limbs...)
}

func FromHex(s string) (k XKey) {
	b, ok := UnHex(s)
	if !ok || len(b) != 78 {
		panic("corpus key " + s)
	}
	copy(k[:], b)
	return
}
