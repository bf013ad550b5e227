package oracle

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"math/big"

	"golang.org/x/crypto/ripemd160"
	"golang.org/x/crypto/sha3"
)

// XKey is a serialized extended key without checksum:
// version 4 | depth 1 | parent fingerprint 4 | child number 4 | chain code 32 | key 33
type XKey [78]byte

func (k XKey) Version() uint32      { return binary.BigEndian.Uint32(k[0:4]) }
func (k XKey) Depth() int           { return int(k[4]) }
func (k XKey) FP() []byte           { return k[5:9] }
func (k XKey) Child() uint32        { return binary.BigEndian.Uint32(k[9:13]) }
func (k XKey) Chain() []byte        { return k[13:45] }
func (k XKey) Material() []byte     { return k[45:78] }
func (k XKey) Scalar() *big.Int     { return new(big.Int).SetBytes(k[46:78]) }
func (k XKey) Private() bool        { return k[45] == 0 }
func (k *XKey) SetVersion(v uint32) { binary.BigEndian.PutUint32(k[0:4], v) }

func Hash160(b []byte) []byte {
	s := sha256.Sum256(b)
	h := ripemd160.New()
	h.Write(s[:])
	return h.Sum(nil)
}

func Checksum(b []byte) []byte {
	a := sha256.Sum256(b)
	c := sha256.Sum256(a[:])
	return c[:4]
}

func hmac512(key []byte, parts ...[]byte) []byte {
	h := hmac.New(sha512.New, key)
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

// ScalarOK: 1 <= k < n.
func ScalarOK(k *big.Int) bool { return k.Sign() > 0 && k.Cmp(N) < 0 }

// MaterialOK tells whether the 33 bytes are a valid private (0 || scalar) or compressed public key.
func (k XKey) MaterialOK() bool {
	if k.Private() {
		return ScalarOK(k.Scalar())
	}
	_, ok := Decompress(k.Material())
	return ok
}

// Master returns BIP-32's master key with the Bitcoin mainnet private version.
func Master(seed []byte) (XKey, bool) {
	var k XKey
	I := hmac512([]byte("Bitcoin seed"), seed)
	k.SetVersion(0x0488ade4)
	copy(k[13:45], I[32:])
	copy(k[46:78], I[:32])
	return k, ScalarOK(k.Scalar())
}

// Pub returns the compressed public key of a well-formed key.
func (k XKey) Pub() [33]byte {
	if k.Private() {
		return Compress(MulG(k.Scalar()))
	}
	var o [33]byte
	copy(o[:], k.Material())
	return o
}

// Point returns the public point of a well-formed key.
func (k XKey) Point() Pt {
	if k.Private() {
		return MulG(k.Scalar())
	}
	p, _ := Decompress(k.Material())
	return p
}

// DeriveInfo says what happened inside a derivation (for coverage counting).
type DeriveInfo struct {
	IL      *big.Int
	Wrapped bool // IL + parent >= n
}

// CKD derives child i keeping the parent's version. ok is false where BIP-32 says the child is invalid or impossible.
func CKD(par XKey, i uint32) (child XKey, info DeriveInfo, ok bool) {
	if !par.MaterialOK() || par.Depth() == 255 {
		return
	}
	hard := i >= 0x80000000
	if hard && !par.Private() {
		return
	}
	pub := par.Pub()
	var idx [4]byte
	binary.BigEndian.PutUint32(idx[:], i)
	var I []byte
	if hard {
		I = hmac512(par.Chain(), par.Material(), idx[:])
	} else {
		I = hmac512(par.Chain(), pub[:], idx[:])
	}
	il := new(big.Int).SetBytes(I[:32])
	info.IL = il
	if il.Cmp(N) >= 0 {
		return
	}
	copy(child[0:4], par[0:4])
	child[4] = par[4] + 1
	copy(child[5:9], Hash160(pub[:])[:4])
	copy(child[9:13], idx[:])
	copy(child[13:45], I[32:])
	if par.Private() {
		s := new(big.Int).Add(il, par.Scalar())
		if s.Cmp(N) >= 0 {
			s.Sub(s, N)
			info.Wrapped = true
		}
		if s.Sign() == 0 {
			return
		}
		s.FillBytes(child[46:78])
	} else {
		p := Add(MulG(il), par.Point())
		if p.Inf() {
			return
		}
		c := Compress(p)
		copy(child[45:78], c[:])
	}
	return child, info, true
}

// Neuter gives the public form with the given public version.
func Neuter(k XKey, pubVersion uint32) XKey {
	p := k.Pub()
	copy(k[45:78], p[:])
	k.SetVersion(pubVersion)
	return k
}

func Serialize(k XKey) []byte { return append(append([]byte{}, k[:]...), Checksum(k[:])...) }

const b58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func B58Encode(b []byte) string {
	n := new(big.Int).SetBytes(b)
	var rev []byte
	m, base := new(big.Int), big.NewInt(58)
	for n.Sign() > 0 {
		n.DivMod(n, base, m)
		rev = append(rev, b58[m.Int64()])
	}
	for _, c := range b {
		if c != 0 {
			break
		}
		rev = append(rev, '1')
	}
	for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
		rev[i], rev[j] = rev[j], rev[i]
	}
	return string(rev)
}

func B58Decode(s string) ([]byte, bool) {
	n, base := new(big.Int), big.NewInt(58)
	zeros, lead := 0, true
	for i := 0; i < len(s); i++ {
		d := bytes.IndexByte([]byte(b58), s[i])
		if d < 0 {
			return nil, false
		}
		if lead && d == 0 {
			zeros++
		} else {
			lead = false
		}
		n.Mul(n, base)
		n.Add(n, big.NewInt(int64(d)))
	}
	return append(make([]byte, zeros), n.Bytes()...), true
}

// ImportOK is the acceptance rule for a serialized extended key. pubVersions/privVersions are the registered versions.
func ImportOK(b []byte, isPriv, isPub func(uint32) bool) (XKey, bool) {
	var k XKey
	if len(b) != 82 || !bytes.Equal(Checksum(b[:78]), b[78:]) {
		return k, false
	}
	copy(k[:], b)
	return k, WellFormed(k, isPriv, isPub)
}

// WellFormed: BIP-32 validity of the fields, unknown versions being allowed.
func WellFormed(k XKey, isPriv, isPub func(uint32) bool) bool {
	if !k.MaterialOK() {
		return false
	}
	v := k.Version()
	if k.Private() && isPub(v) && !isPriv(v) || !k.Private() && isPriv(v) && !isPub(v) {
		return false
	}
	if k.Depth() == 0 && (k.Child() != 0 || !bytes.Equal(k.FP(), make([]byte, 4))) {
		return false
	}
	return true
}

const hexd = "0123456789abcdef"

func Hex(b []byte) string {
	o := make([]byte, 0, 2*len(b))
	for _, c := range b {
		o = append(o, hexd[c>>4], hexd[c&15])
	}
	return string(o)
}

// UnHex decodes hexadecimal text in either case.
func UnHex(s string) ([]byte, bool) {
	if len(s)%2 != 0 {
		return nil, false
	}
	o := make([]byte, 0, len(s)/2)
	d := func(c byte) int {
		switch {
		case c >= '0' && c <= '9':
			return int(c - '0')
		case c >= 'a' && c <= 'f':
			return int(c-'a') + 10
		case c >= 'A' && c <= 'F':
			return int(c-'A') + 10
		}
		return -1
	}
	for i := 0; i < len(s); i += 2 {
		h, l := d(s[i]), d(s[i+1])
		if h < 0 || l < 0 {
			return nil, false
		}
		o = append(o, byte(h<<4|l))
	}
	return o, true
}

func Keccak(b []byte) []byte {
	h := sha3.NewLegacyKeccak256()
	h.Write(b)
	return h.Sum(nil)
}

func EthAddr(p Pt) string {
	var b [64]byte
	p.X.FillBytes(b[:32])
	p.Y.FillBytes(b[32:])
	h := sha3.NewLegacyKeccak256()
	h.Write(b[:])
	return Hex(h.Sum(nil)[12:])
}

func B58Addr(prefix byte, pub []byte) string {
	b := append([]byte{prefix}, Hash160(pub)...)
	return B58Encode(append(b, Checksum(b)...))
}

func MaterialOKOf(k XKey) bool { return k.MaterialOK() }
