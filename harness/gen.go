package main

// Hostile input generators. All randomness comes from the case's PRNG.

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"math/big"
	"math/rand"
	"net/url"
	"slices"
	"sort"
	"strings"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip44"

	"verifharness/oracle"
)

func rbytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

var entLens = []int{16, 20, 24, 28, 32}

// shape gives b a form that code may take for something else: periods, equal or mirrored parts, text of some alphabet, runs, order.
func shape(r *rand.Rand, b []byte) {
	n := len(b)
	if n < 2 {
		return
	}
	alphabet := func(a string) {
		for i := range b {
			b[i] = a[r.Intn(len(a))]
		}
	}
	switch r.Intn(16) {
	case 0: // a period
		p := pick(r, 1, 2, 3, 4, 4, 5, 8, 8, 16, 32, n/2, 1+r.Intn(n))
		for i := max(p, 1); i < n; i++ {
			b[i] = b[i-max(p, 1)]
		}
	case 1: // a group that occurs once more
		k := pick(r, 1, 1, 2, 4, 4, 8, 16, 1+r.Intn(n))
		if k > n/2 {
			k = n / 2
		}
		i, j := pick(r, 0, 0, k, r.Intn(n-k+1)), pick(r, n-k, k, k, r.Intn(n-k+1))
		copy(b[j:j+k], cp(b[i:i+k]))
	case 2: // mirrored
		for i := 0; i < n/2; i++ {
			b[n-1-i] = b[i]
		}
	case 3: // one half is the other's complement
		for i := 0; i < n/2; i++ {
			b[n/2+i] = ^b[i]
		}
	case 4: // rising or falling
		x, d := byte(r.Intn(256)), pick[byte](r, 1, 0xff, 2, byte(r.Intn(256)))
		for i := range b {
			b[i] = x + byte(i)*d
		}
	case 5:
		sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	case 6:
		alphabet(pick(r, "0123456789abcdef", "0123456789ABCDEF", "0123456789abcdefABCDEF"))
	case 7:
		alphabet(pick(r, "0123456789", "01", "abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "\x00\x01", "\x00\xff", " \t\r\n"))
	case 8:
		alphabet(pick(r, "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", "qpzry9x8gf2tvdw0s3jn54khce6mua7l"))
	case 9: // a sentence, a path, a key text, a hex number
		w := oracle.Lists["english"]
		t := pick(r, "m/44'/0'/0'/0/0 ", "xprv9s21ZrQH143K", "xpub661MyMwAqRbc", "0x", "{\"a\":1}", "-----BEGIN ", "<?xml", "\xef\xbb\xbf")
		if r.Intn(2) == 0 {
			for t = ""; len(t) < n; {
				t += w[r.Intn(2048)] + " "
			}
		}
		copy(b, t)
	case 10: // all below or all above 0x80
		m := pick[byte](r, 0, 0x80)
		for i := range b {
			b[i] = b[i]&0x7f | m
		}
	case 11: // few bytes that are not zero, or not ff
		z := pick[byte](r, 0, 0xff)
		for i := range b {
			if r.Intn(n) > 2 {
				b[i] = z
			}
		}
	case 12: // the last byte, or the last four, tell about the others
		x := byte(0)
		for _, y := range b[:n-1] {
			x ^= y
		}
		b[n-1] = pick(r, x, b[0], byte(n), byte(n-1))
	case 13: // a length in front
		b[0] = byte(pick(r, n-1, n, n/2))
	case 14:
		b[0], b[n-1] = pick[byte](r, 0, 1, 0x7f, 0x80, 0xff, b[0]), pick[byte](r, 0, 1, 0x7f, 0x80, 0xff, '\n', b[n-1])
	default:
		z := pick[byte](r, 0, 0xff, ' ', '=')
		for i := n - 1 - r.Intn(n); i < n; i++ {
			b[i] = z
		}
	}
}

// entropy of n bytes with structure.
func genEntropy(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch r.Intn(12) {
	case 0: // all one value
		v := pick[byte](r, 0, 0xff, 0x80, 0x7f, 0x01, byte(r.Intn(256)))
		for i := range b {
			b[i] = v
		}
	case 1, 2: // leading zeros
		z := 1 + r.Intn(n)
		copy(b[z:], rbytes(r, n-z))
	case 3: // trailing zeros
		z := 1 + r.Intn(n-1)
		copy(b, rbytes(r, z))
	case 4: // single bit
		k := r.Intn(n * 8)
		b[k/8] = 0x80 >> (k % 8)
	case 5: // all bits but one
		for i := range b {
			b[i] = 0xff
		}
		k := r.Intn(n * 8)
		b[k/8] ^= 0x80 >> (k % 8)
	case 6: // leading ff
		z := 1 + r.Intn(n)
		for i := range b {
			b[i] = 0xff
		}
		copy(b[z:], rbytes(r, n-z))
	case 7: // one 11-bit group repeated
		v := uint(r.Intn(2048))
		for i := 0; i < n*8; i++ {
			if v>>(10-uint(i%11))&1 == 1 {
				b[i/8] |= 0x80 >> (i % 8)
			}
		}
	case 8: // ASCII text
		for i := range b {
			b[i] = byte(32 + r.Intn(95))
		}
	default:
		r.Read(b)
	}
	if r.Intn(5) == 0 {
		shape(r, b)
	}
	plant(r, b)
	plantWords(r, b)
	return b
}

// nearEntropy changes e slightly (prefix, suffix or middle kept).
func nearEntropy(r *rand.Rand, e []byte) []byte {
	o := cp(e)
	switch r.Intn(5) {
	case 0:
		o[len(o)-1] ^= 1 << r.Intn(8)
	case 1:
		o[0] ^= 1 << r.Intn(8)
	case 2:
		o[r.Intn(len(o))] ^= 1 << r.Intn(8)
	case 3:
		i, j := r.Intn(len(o)), r.Intn(len(o))
		o[i], o[j] = o[j], o[i]
	case 4:
		k := r.Intn(len(o))
		copy(o[k:], rbytes(r, len(o)-k))
	}
	return o
}

func fill32(x *big.Int) (o [32]byte) {
	x.FillBytes(o[:])
	return
}

// genScalar returns a valid private scalar.
func genScalar(r *rand.Rand) [32]byte {
	one := big.NewInt(1)
	var x *big.Int
	switch r.Intn(14) {
	case 0:
		x = big.NewInt(int64(1 + r.Intn(20)))
	case 1:
		x = new(big.Int).Sub(oracle.N, big.NewInt(int64(1+r.Intn(20))))
	case 2:
		x = new(big.Int).Lsh(one, uint(r.Intn(256)))
	case 3:
		x = new(big.Int).Lsh(one, uint(1+r.Intn(255)))
		x.Sub(x, one)
	case 4, 5:
		x = new(big.Int).SetBytes(rbytes(r, 1+r.Intn(31)))
	case 6:
		x = new(big.Int).SetBytes(rbytes(r, 1+r.Intn(31)))
		x.Lsh(x, uint(8*(32-len(x.Bytes()))))
	case 7, 8:
		if ks := oracle.C.Keys; len(ks) > 0 {
			b, _ := oracle.UnHex(ks[r.Intn(len(ks))].Scalar)
			x = new(big.Int).SetBytes(b)
		} else {
			x = new(big.Int).SetBytes(rbytes(r, 32))
		}
	case 9:
		x = new(big.Int).Rsh(oracle.N, 1)
		x.Add(x, big.NewInt(int64(r.Intn(5)-2)))
	case 10: // long runs
		b := rbytes(r, 32)
		i := r.Intn(32)
		for j := i; j < 32 && j < i+1+r.Intn(16); j++ {
			b[j] = pick[byte](r, 0, 0xff)
		}
		x = new(big.Int).SetBytes(b)
	default:
		x = new(big.Int).SetBytes(rbytes(r, 32))
	}
	x.Mod(x, oracle.N)
	b := fill32(x)
	if r.Intn(12) == 0 {
		shape(r, b[:])
	}
	plant(r, b[:])
	x.SetBytes(b[:])
	x.Mod(x, oracle.N)
	if x.Sign() == 0 {
		x.SetInt64(1)
	}
	return fill32(x)
}

// specialPubs are valid public keys at the edges of the field: tiny and huge X, tiny Y.
var specialPubs [][33]byte

// edgePubs of them are at the very edges.
var edgePubs int

func init() {
	add := func(x *big.Int) bool {
		if x.Sign() <= 0 || x.Cmp(oracle.P) >= 0 {
			return false
		}
		pt, ok := oracle.LiftX(x, false)
		if !ok {
			return false
		}
		for odd := byte(0); odd < 2; odd++ {
			p := oracle.Compress(pt)
			p[0] = 2 + odd
			specialPubs = append(specialPubs, p)
		}
		return true
	}
	for i := int64(1); i < 40; i++ {
		add(big.NewInt(i))
		add(new(big.Int).Sub(oracle.P, big.NewInt(i)))
		add(new(big.Int).Sub(oracle.N, big.NewInt(i)))
		add(new(big.Int).Add(oracle.N, big.NewInt(i)))
	}
	for k := uint(4); k < 256; k += 4 {
		for d := int64(0); d < 4; d++ {
			x := new(big.Int).Lsh(big.NewInt(1), k)
			add(x.Add(x, big.NewInt(d)))
		}
	}
	// tiny Y: x^3 = y^2 - 7
	for i := int64(1); i < 120; i++ {
		for _, y := range []*big.Int{big.NewInt(i), new(big.Int).Lsh(big.NewInt(i), 224), new(big.Int).Lsh(big.NewInt(i), 120)} {
			a := new(big.Int).Mul(y, y)
			a.Sub(a, big.NewInt(7))
			a.Mod(a, oracle.P)
			if x, ok := oracle.CubeRoot(a); ok {
				add(x)
			}
		}
	}
	edgePubs = len(specialPubs)
	// X of every length, at both ends of it and between; X with words of 32 or 64 bits that are all ones or zero
	one, r := big.NewInt(1), rand.New(rand.NewSource(31))
	for b := uint(1); b <= 256; b++ {
		top, end := new(big.Int).Lsh(one, b-1), new(big.Int).Lsh(one, b)
		for _, from := range []*big.Int{top, end, new(big.Int).Add(top, new(big.Int).Mod(new(big.Int).SetBytes(rbytes(r, 32)), top))} {
			for d := int64(1); d < 12; d++ {
				x := new(big.Int).Add(from, big.NewInt(d))
				if from == end {
					x.Sub(end, big.NewInt(d))
				}
				if add(x) {
					break
				}
			}
		}
	}
	for i := 0; i < 160; i++ {
		b := rbytes(r, 32)
		for w, n := 0, 4+4*(i%2); w < 32; w += n {
			if k := r.Intn(3); k > 0 && w+n < 32 || i%8 == 0 && k == 0 {
				for j := w; j < w+n; j++ {
					b[j] = byte(k%2) * 0xff
				}
			}
		}
		for d := int64(0); d < 12; d++ {
			x := new(big.Int).SetBytes(b)
			if add(x.Sub(x, big.NewInt(d))) {
				break
			}
		}
	}
}

func genPub(r *rand.Rand) [33]byte {
	switch r.Intn(4) {
	case 0, 1:
		if r.Intn(2) == 0 {
			return specialPubs[r.Intn(edgePubs)]
		}
		return specialPubs[r.Intn(len(specialPubs))]
	}
	if _, ok := dictBytes(r); ok { // a point whose X shows a constant of the library
		s := genScalar(r)
		p := oracle.Compress(oracle.MulG(new(big.Int).SetBytes(s[:])))
		plant(r, p[1:])
		for k := 0; k < 30; k++ {
			if pt, ok := oracle.LiftX(new(big.Int).SetBytes(p[1:]), p[0] == 3); ok {
				return oracle.Compress(pt)
			}
			if p[8+r.Intn(16)]++; k == 20 {
				plant(r, p[1:])
			}
		}
	}
	s := genScalar(r)
	return oracle.Compress(oracle.MulG(new(big.Int).SetBytes(s[:])))
}

func genChain(r *rand.Rand) (c [32]byte) {
	switch r.Intn(8) {
	case 0:
	case 1:
		for i := range c {
			c[i] = 0xff
		}
	case 2:
		z := pick(r, 1, 1, 2, 8, 24, 31, 1+r.Intn(31))
		copy(c[z:], rbytes(r, 32-z))
	case 4:
		r.Read(c[:])
		for i := 0; i < pick(r, 1, 8, 24, 31); i++ {
			c[i] = 0xff
		}
	case 3:
		z := 1 + r.Intn(31)
		copy(c[:z], rbytes(r, z))
	default:
		r.Read(c[:])
		if r.Intn(6) == 0 {
			shape(r, c[:])
		}
	}
	plant(r, c[:])
	return
}

func genIndex(r *rand.Rand) uint32 {
	if v, ok := dictIndex(r); ok {
		return v
	}
	switch r.Intn(10) {
	case 0:
		return pick[uint32](r, 0, 1, 2, 3, 4, 5, 0x7fffffff, 0x7ffffffe, 0x80000000, 0x80000001, 0xffffffff, 0xfffffffe, 65534, 65535, 65536, 1<<24-1, 1<<24)
	case 1:
		return 1 << r.Intn(32)
	case 2:
		return 1<<r.Intn(32) - 1
	case 3:
		return uint32(r.Intn(256)) << (8 * r.Intn(4))
	case 4:
		return 0x80000000 + uint32(r.Intn(300))
	case 5:
		return uint32(r.Intn(pick(r, 7, 300)))
	case 6:
		return pick[uint32](r, 0, 0x80000000) + pick[uint32](r, 44, 49, 84, 86, 60, 128, 255, 256, 257, 65535, 65536, 1000000, 99999999, 100000000)
	}
	return r.Uint32()
}

func genPlain(r *rand.Rand) uint32 { return genIndex(r) & 0x7fffffff }

// genPrivVersion mostly picks registered versions.
func genPrivVersion(r *rand.Rand) uint32 {
	return oracle.PrivVersions[r.Intn(len(oracle.PrivVersions))]
}
func genPubVersion(r *rand.Rand) uint32 { return oracle.PubVersions[r.Intn(len(oracle.PubVersions))] }

func genUnregistered(r *rand.Rand) uint32 {
	for {
		var v uint32
		if x, ok := dictNum(r); ok && !oracle.IsPriv(uint32(x)) && !oracle.IsPub(uint32(x)) {
			return uint32(x)
		}
		switch r.Intn(5) {
		case 0:
			v = pick[uint32](r, 0, 1, 0xff, 0x100, 0xffffff, 0xffffffff, 0x80000000, 0x7fffffff)
		case 1:
			v = genPrivVersion(r) ^ 1<<r.Intn(32)
		case 2:
			v = genPubVersion(r) ^ 1<<r.Intn(32)
		case 3: // byte-swapped registered version
			var b [4]byte
			binary.LittleEndian.PutUint32(b[:], pick(r, genPrivVersion(r), genPubVersion(r)))
			v = binary.BigEndian.Uint32(b[:])
		default:
			v = r.Uint32()
		}
		if !oracle.IsPriv(v) && !oracle.IsPub(v) {
			return v
		}
	}
}

func setLineage(r *rand.Rand, k *XKey) {
	d := pick(r, 0, 0, 1, 2, 3, 4, 5, 7, 15, 16, 31, 63, 64, 99, 100, 126, 127, 128, 129, 200, 253, 254, 255, r.Intn(256))
	k[4] = dictByte(r, byte(d))
	d = int(k[4])
	if d > 0 {
		copy(k[5:9], pick(r, rbytes(r, 4), rbytes(r, 4), []byte{0, 0, 0, 0}, []byte{0, 0, 0, 1}, []byte{0xff, 0xff, 0xff, 0xff}))
		switch r.Intn(12) {
		case 0:
			k[5] = 0
		case 1:
			k[8] = 0
		case 2:
			k[5], k[6] = 0, 0
		}
		plant(r, k[5:9])
		binary.BigEndian.PutUint32(k[9:13], genIndex(r))
	}
}

// genPriv returns a well-formed private key with a registered version.
func genPriv(r *rand.Rand) (k XKey) {
	if d := oracle.C.Derive; len(d) > 0 && r.Intn(16) == 0 {
		return oracle.FromHex(d[r.Intn(len(d))].Parent)
	}
	k.SetVersion(genPrivVersion(r))
	setLineage(r, &k)
	c, s := genChain(r), genScalar(r)
	copy(k[13:], c[:])
	copy(k[46:], s[:])
	if r.Intn(12) == 0 {
		kin(r, &k)
	}
	return
}

func genPubKey(r *rand.Rand) (k XKey) {
	k.SetVersion(genPubVersion(r))
	setLineage(r, &k)
	c, p := genChain(r), genPub(r)
	copy(k[13:], c[:])
	copy(k[45:], p[:])
	if r.Intn(12) == 0 {
		kin(r, &k)
	}
	return
}

// fields gives some fields of k particular values, whatever comes of it.
func fields(r *rand.Rand, k *XKey) {
	some := func() bool { return r.Intn(5) < 2 }
	if some() {
		k.SetVersion(pick(r, genPrivVersion(r), genPubVersion(r), genUnregistered(r)))
	}
	if some() {
		k[4] = dictByte(r, pick[byte](r, 0, 1, 3, 5, 127, 128, 254, 255, byte(r.Intn(256))))
	}
	if some() {
		copy(k[5:9], pick(r, []byte{0, 0, 0, 0}, []byte{0xff, 0xff, 0xff, 0xff}, rbytes(r, 4)))
		plant(r, k[5:9])
	}
	if some() {
		binary.BigEndian.PutUint32(k[9:13], genIndex(r))
	}
	for _, i := range []int{13, 44, 46, 77} {
		if some() {
			k[i] = dictByte(r, pick[byte](r, 0, 1, 0x7f, 0x80, 0xff, byte(r.Intn(256))))
		}
	}
	if some() {
		k[45] = dictByte(r, pick[byte](r, 0, 1, 2, 3, 4, 5, 6, 7, 0xff, byte(r.Intn(256))))
	}
	if some() {
		d, l := k[4], cp(k[5:13])
		kin(r, k)
		if d == 0 { // not well-formed perhaps
			k[4] = 0
			copy(k[5:13], l)
			if r.Intn(2) == 0 {
				copy(k[5:9], k[9:13])
			}
		}
	}
}

// kin makes some fields of k equal to others, so that it stays well-formed if it was.
func kin(r *rand.Rand, k *XKey) {
	switch r.Intn(12) {
	case 0:
		copy(k[5:9], k[9:13])
	case 1:
		copy(k[9:13], k[5:9])
	case 2:
		copy(k[5:9], pick(r, k[13:17], k[41:45], k[46:50], k[74:78], k[:4]))
	case 3:
		copy(k[9:13], pick(r, k[13:17], k[41:45], k[46:50], k[74:78], k[:4]))
	case 4:
		n := pick(r, 16, 8, 4, 2, 1) // a private key in the chain code would be public
		copy(k[13:13+n], k[46:46+n])
	case 5:
		copy(k[13:17], pick(r, k[5:9], k[9:13], k[:4]))
	case 6:
		k[12] = k[4]
	case 7:
		k[4] = max(pick(r, k[12], k[12]+1, k[9], k[5], k[13], k[77]), 1)
	case 8:
		copy(k[9:13], []byte{pick[byte](r, 0, 0x80), 0, 0, k[4] + pick[byte](r, 0, 1, 0xff)})
	case 9:
		copy(k[29:45], k[13:29])
	case 10:
		copy(k[13:45], bytes.Repeat(k[pick(r, 5, 9, 13, 74):][:4], 8))
	case 11:
		n := pick(r, 1, 2, 4, 8, 16)
		copy(k[45-n:45], k[78-n:])
	}
	if k[4] == 0 {
		copy(k[5:13], make([]byte, 8))
	}
}

// kinIndex returns an index, now and then one that the key has to do with.
func kinIndex(r *rand.Rand, k XKey) uint32 {
	if r.Intn(8) > 0 {
		return genIndex(r)
	}
	at := func(i int) uint32 { return binary.BigEndian.Uint32(k[i : i+4]) }
	v := pick(r, at(9), at(9), at(9), at(5), at(0), at(13), at(41), at(46), at(74), uint32(k[4]), uint32(k[4]), uint32(k[45]), uint32(k[77]))
	return v + pick[uint32](r, 0, 0, 0, 1, 0xffffffff) ^ pick[uint32](r, 0, 0, 1<<31, 0xffffffff)
}

// kinPass returns p, now and then a passphrase that the sentence has to do with.
func kinPass(r *rand.Rand, m, p string) string {
	f := strings.Fields(m)
	if r.Intn(6) > 0 || len(f) == 0 || len(m) > 2000 {
		return p
	}
	rev := append([]string{}, f...)
	slices.Reverse(rev)
	p = pick(r, m, m, f[len(f)-1], f[len(f)-1], f[0], f[len(f)/2], strings.ToUpper(m), strings.Join(f, ""), strings.Join(rev, " "), strings.Join(f[1:], " "), strings.Join(f[:len(f)-1], " "),
		m+" "+m, m+m, "mnemonic"+m, "mnemonic", m[:1], fmt.Sprint(len(f)), fmt.Sprint(len(m)), oracle.Hex([]byte(m)), m+p, p+m, p+p, "mnemonic"+p)
	if !stable(p) {
		return ""
	}
	return p
}

// genKey returns a well-formed key of either kind, registered or (one in four) unregistered version.
func genKey(r *rand.Rand) XKey {
	k := genPriv(r)
	if r.Intn(2) == 0 {
		k = genPubKey(r)
	}
	if r.Intn(4) == 0 {
		k.SetVersion(genUnregistered(r))
	}
	return k
}

// genWrongKind returns a key with sound material under a version registered for the other kind only.
func genWrongKind(r *rand.Rand) XKey {
	for {
		k := genPriv(r)
		if r.Intn(2) == 0 {
			k = genPubKey(r)
			k.SetVersion(genPrivVersion(r))
		} else {
			k.SetVersion(genPubVersion(r))
		}
		if wrongKind(k) {
			return k
		}
	}
}

// genRoot returns a valid master key (depth 0).
func genRoot(r *rand.Rand) XKey {
	if r.Intn(3) == 0 {
		k, _ := oracle.Master(genSeed(r))
		return k
	}
	k := genPriv(r)
	for i := 4; i < 13; i++ {
		k[i] = 0
	}
	return k
}

func genSeed(r *rand.Rand) []byte {
	if s := oracle.C.Seeds; len(s) > 0 && r.Intn(8) == 0 {
		b, _ := oracle.UnHex(s[r.Intn(len(s))].Seed)
		return b
	}
	n := pick(r, 16, 16, 32, 64, 64, 64, 17, 20, 63, 65, 111, 112, 127, 128, 129, 256, r.Intn(300))
	n = dictLen(r, n, 1<<16)
	b := rbytes(r, n)
	switch r.Intn(6) {
	case 0:
		for i := range b {
			b[i] = 0
		}
	case 1:
		for i := 0; i < len(b)/2; i++ {
			b[i] = 0
		}
	case 2:
		for i := range b {
			b[i] = 0xff
		}
	case 3:
		shape(r, b)
	}
	plant(r, b)
	return b
}

// family returns well-formed keys that differ from k in one field only (same cache key under most partial keys).
func family(r *rand.Rand, k XKey) []XKey {
	out := []XKey{k}
	add := func(f func(o *XKey)) {
		o := k
		f(&o)
		if oracle.MaterialOKOf(o) && (o.Depth() != 0 || o == k || o.Child() == 0 && string(o.FP()) == "\x00\x00\x00\x00") {
			out = append(out, o)
		}
	}
	add(func(o *XKey) { // other registered version of the same kind
		if o.Private() {
			o.SetVersion(genPrivVersion(r))
		} else {
			o.SetVersion(genPubVersion(r))
		}
	})
	add(func(o *XKey) { o.SetVersion(genUnregistered(r)) })
	add(func(o *XKey) { o[4]++; o[8] |= 1 })
	add(func(o *XKey) { o[4] = byte(1 + r.Intn(255)) })
	add(func(o *XKey) { o[5+r.Intn(4)] ^= 1 << r.Intn(8) })
	add(func(o *XKey) { o[9+r.Intn(4)] ^= 1 << r.Intn(8) })
	add(func(o *XKey) { o[13+r.Intn(32)] ^= 1 << r.Intn(8) })
	add(func(o *XKey) { o[44] ^= 1 })
	add(func(o *XKey) { o[13] ^= 0x80 })
	if k.Private() {
		add(func(o *XKey) { o[46+r.Intn(32)] ^= 1 << r.Intn(8) })
		add(func(o *XKey) { o[77] ^= 1 })
		add(func(o *XKey) { o[76] ^= 1 })
		add(func(o *XKey) { s := genScalar(r); copy(o[46:], s[:]) })
		add(func(o *XKey) { // same low half
			s := genScalar(r)
			copy(o[46:62], s[:16])
		})
		add(func(o *XKey) { // n - k: the same X coordinate
			s := fill32(new(big.Int).Sub(oracle.N, o.Scalar()))
			copy(o[46:], s[:])
		})
	} else {
		add(func(o *XKey) { o[45] ^= 1 }) // the negated point
		add(func(o *XKey) { p := genPub(r); copy(o[45:], p[:]) })
		for i := 0; i < 8; i++ { // same prefix, near X
			add(func(o *XKey) { o[77] ^= byte(1 + r.Intn(255)) })
			add(func(o *XKey) { o[46] ^= byte(1 + r.Intn(255)) })
		}
	}
	return out
}

// ---- text

var asciiWords = strings.Fields("TREZOR correct horse battery staple p@ss hunter2 a b x 0 _ ~ \\ \" ' 日本 密码")

// genPass returns a passphrase that NFKD leaves unchanged.
func genPass(r *rand.Rand) string {
	if s, ok := dictStr(r); ok {
		return s
	}
	if n := dictLen(r, -1, 1<<16); n >= 0 {
		return string(rbytesASCII(r, n))
	}
	switch r.Intn(14) {
	case 0, 1:
		return ""
	case 2:
		return "TREZOR"
	case 3:
		n := pick(r, 1, 2, 4, 8, 16, 32, 63, 64, 65, 111, 112, 113, 119, 120, 121, 127, 128, 129, 255, 256, 257, 512, 1000, 1024, 2000, 2048, 4096)
		switch r.Intn(4) {
		case 0:
			return string(rbytesASCII(r, n))
		case 1:
			return "ключ" + string(rbytesASCII(r, n))
		case 2:
			return strings.Repeat("密", n)
		}
		return strings.Repeat("x", n)
	case 4:
		return string(rbytesASCII(r, r.Intn(300)))
	case 5:
		return pick(r, " ", "  ", " lead", "trail ", "in ner", "\t", "\n", "\x00", "\x00\x00", "a\x00b", "mnemonic", "Mnemonic", "0", "false", "null")
	case 6:
		return pick(r, "密码", "пароль", "ключ", "🚀🔑", "𝄞", "mnémo"[:2]+"x", "漢字テスト"[:6], "ß", "œ", "\U0001F600 x")
	case 7: // invalid UTF-8
		return string(rbytes(r, 1+r.Intn(20)))
	case 8:
		b := rbytesASCII(r, pick(r, 4, 8, 16, 32, 64, 128, 1+r.Intn(200)))
		shape(r, b)
		return string(b)
	}
	return string(rbytesASCII(r, 1+r.Intn(24)))
}

func rbytesASCII(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(32 + r.Intn(95))
	}
	return b
}

func stable(s string) bool { return oracle.NFKD(s) == s }

func genStablePass(r *rand.Rand) string {
	for {
		if p := genPass(r); stable(p) {
			return p
		}
	}
}

func joinWS(r *rand.Rand, words []string) string {
	ws := []string{" ", "  ", "\t", "\n", "\r\n", "\v", "\f", "\u0085", "\u00a0", "\u1680", "\u2000", "\u2001", "\u2002", "\u2003", "\u2004", "\u2005", "\u2006", "\u2007", "\u2008", "\u2009", "\u200a", "\u2028", "\u2029", "\u202f", "\u205f", "\u3000", " \u3000 ", "\n\n\n"}
	mode := r.Intn(6)
	one := ws[r.Intn(len(ws))]
	var b strings.Builder
	if mode == 0 || r.Intn(3) == 0 {
		b.WriteString(ws[r.Intn(len(ws))])
	}
	for i, w := range words {
		if i > 0 {
			switch mode {
			case 0:
				b.WriteByte(' ')
			case 1:
				b.WriteString(one)
			case 2:
				if r.Intn(len(words)) == 0 {
					b.WriteString(ws[r.Intn(len(ws))])
				} else {
					b.WriteByte(' ')
				}
			default:
				for k := 0; k <= r.Intn(3); k++ {
					b.WriteString(ws[r.Intn(len(ws))])
				}
			}
		}
		b.WriteString(w)
	}
	if r.Intn(2) == 0 {
		b.WriteString(ws[r.Intn(len(ws))])
	}
	return b.String()
}

// ---- paths

func comp(v uint32) string {
	if v >= 0x80000000 {
		return fmt.Sprintf("%d'", v-0x80000000)
	}
	return fmt.Sprint(v)
}

func pathOf(idx []uint32) string {
	var b strings.Builder
	b.WriteByte('m')
	for _, v := range idx {
		b.WriteByte('/')
		b.WriteString(comp(v))
	}
	return b.String()
}

// walletIdxs returns the five levels of a wallet's path: purpose, coin, account, change and address.
func walletIdxs(r *rand.Rand) []uint32 {
	const h = 1 << 31
	coin := pick[uint32](r, 0, 1, 2, 3, 60, 61, 144, 145, 195, 501, uint32(r.Intn(256)), genPlain(r))
	if n := len(bip44.RegCoins); n > 0 && r.Intn(2) == 0 {
		coin = uint32(bip44.RegCoins[r.Intn(n)].Type)
	}
	purpose := pick[uint32](r, 44, 44, 44, 49, 84, 86, 45, 48, 0, 1, 43, 47, 85, 141, 1852, genPlain(r))
	out := []uint32{purpose | h, coin | h, pick[uint32](r, 0, 0, 1, 2, uint32(r.Intn(100)), genPlain(r)) | h, pick[uint32](r, 0, 0, 1, 1, 2, genPlain(r)), pick(r, 0, 1, uint32(r.Intn(30)), genPlain(r))}
	if r.Intn(8) == 0 {
		out[r.Intn(5)] ^= h
	}
	return out
}

// walletPath returns a path for a record whose key is given: the top, a wallet's path, any path, or none.
func walletPath(r *rand.Rand) bip32.Path {
	switch r.Intn(6) {
	case 0:
		return "m"
	case 1:
		return bip32.Path(genPathText(r, genIdxs(r, 6)))
	case 2:
		return bip32.Path(genBadPath(r))
	default:
		return bip32.Path(pathOf(walletIdxs(r)[:1+r.Intn(5)]))
	}
}

func genIdxs(r *rand.Rand, max int) []uint32 {
	n := r.Intn(max + 1)
	if r.Intn(4) == 0 {
		n = pick(r, 0, 1, 2, 3, 4, 5)
	}
	n = dictLen(r, n, 255)
	if n > max && (max < 8 || n > 200) {
		n = max
	}
	out := make([]uint32, n)
	mode, x := r.Intn(6), genIndex(r)
	d := pick[uint32](r, 1, 1, 2, 0xffffffff, 0x80000001, 0x80000000, 256, uint32(r.Intn(1000)))
	for i := range out {
		switch mode {
		case 4: // a list
			out[i] = x
			x += d
		case 5: // something again
			if out[i] = genIndex(r); i > 0 && r.Intn(2) == 0 {
				out[i] = pick(r, out[i-1], out[0], out[i/2], out[i-1]^1<<31, uint32(i), uint32(i)+1, uint32(len(out)), out[i-1]+1)
			}
		case 0: // classic order: hardened first
			out[i] = genPlain(r)
			if i < 3 {
				out[i] |= 0x80000000
			}
		case 1:
			out[i] = uint32(r.Intn(3)) | pick[uint32](r, 0, 0x80000000)
		default:
			out[i] = genIndex(r)
		}
	}
	if r.Intn(6) == 0 && max > 0 { // a wallet's path, or the start of one
		out = walletIdxs(r)
		out = out[:min(1+r.Intn(len(out)), max)]
	}
	if p := dictIdxs(r); len(p) > 0 && len(p) <= max { // a path, or part of one, that the library mentions
		if len(out) < len(p) {
			out = append(out, make([]uint32, len(p)-len(out))...)
		}
		copy(out[pick(r, 0, 0, len(out)-len(p)):], p)
	}
	return out
}

// longIdxs returns n indices, mostly of one kind or any, with particular ones at the ends and around the limits of a byte.
func longIdxs(r *rand.Rand, n int) []uint32 {
	out := make([]uint32, n)
	same, x := r.Intn(3) > 0, pick[uint32](r, 0, 1, 0x80000000, 0x80000001, 7, genIndex(r))
	for i := range out {
		if out[i] = x; !same {
			out[i] = genIndex(r)
		}
	}
	for k := r.Intn(6); k > 0 && n > 0; k-- {
		at := pick(r, n-1, n-1, n-2, 0, 1, 254, 255, 256, 127, 128, 253, r.Intn(n))
		if at = dictLen(r, at, n); at >= 0 && at < n {
			out[at] = pick(r, genIndex(r), genIndex(r), 0x80000000, 0, 0x7fffffff, 0xffffffff, 0x80000000|genIndex(r))
		}
	}
	return out
}

// genPathText writes idx with spelling variety: M, white space, leading zeros.
func genPathText(r *rand.Rand, idx []uint32) string {
	var b strings.Builder
	ws := func() {
		if r.Intn(10) == 0 {
			b.WriteString(pick(r, " ", "\t", "\n", "  ", "\r\n", "\f"))
		}
	}
	plain := r.Intn(2) == 0
	if plain {
		return pathOf(idx)
	}
	ws()
	b.WriteByte(pick[byte](r, 'm', 'M'))
	ws()
	for _, v := range idx {
		b.WriteByte('/')
		ws()
		if r.Intn(8) == 0 {
			b.WriteString(strings.Repeat("0", 1+r.Intn(12)))
		}
		s := fmt.Sprint(v &^ 0x80000000)
		if r.Intn(16) == 0 && len(s) > 1 {
			k := 1 + r.Intn(len(s)-1)
			s = s[:k] + pick(r, " ", "\n") + s[k:]
		}
		if v >= 0x80000000 && r.Intn(4) == 0 {
			s = fmt.Sprint(v) // plain spelling of a hardened index
			b.WriteString(s)
			ws()
			continue
		}
		b.WriteString(s)
		ws()
		if v >= 0x80000000 {
			b.WriteByte('\'')
			ws()
		}
	}
	return b.String()
}

// genBadPath returns text that is usually not a path.
func genBadPath(r *rand.Rand) string {
	base := genPathText(r, genIdxs(r, 5))
	if x, ok := dictStr(r); ok {
		k := r.Intn(len(base) + 1)
		return base[:k] + x + base[k:]
	}
	switch r.Intn(17) {
	case 11:
		if r.Intn(2) == 0 {
			return foreignText(r, "english")
		}
		return wrapText(r, base)
	case 0:
		return pick(r, "", "/", "m/", "M/", "n/0", "0/0", "m//0", "m/0/", "m/'", "m/''", "m/0''", "m/0h", "m/0H", "m'", "mm/0", "m/m", "/0", "m0", "m /", "44'/0'", "x", "m\\0", "m/0'1", "m/'0", "m.0", "m,0", "M/0'/'", "m/0/../1", "m/0\x00", "\x00m/0")
	case 1:
		return base + pick(r, "/", "'", "//", "/'", "x", "/-1", "/+1", "/0x1", "/1e3", "/1_0", "/ ", "/١", "/１", "/1.0", "h", "/∞", "\x00", "\xff", "\u200b")
	case 2: // out of range
		return base + "/" + pick(r, "4294967296", "4294967297", "4294967295'", "2147483648'", "2147483649'", "4294967296'", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999999", "6442450944'", "4294967340'", "8589934592", "1"+strings.Repeat("0", r.Intn(60)), fmt.Sprint(uint64(r.Uint32())+uint64(1+r.Intn(8))<<32), fmt.Sprintf("%d'", uint64(r.Uint32())|1<<31))
	case 3:
		return pick(r, " ", "\t", "\n") + base
	case 4: // mutate one byte
		if len(base) > 0 {
			b := []byte(base)
			b[r.Intn(len(b))] = byte(r.Intn(128))
			return string(b)
		}
		return base
	case 5: // insert one byte
		k := r.Intn(len(base) + 1)
		return base[:k] + string([]byte{pick[byte](r, '\'', '/', 'm', 'M', '-', '+', '0', ' ', 'h', 'x', byte(r.Intn(128)))}) + base[k:]
	case 6: // delete one byte
		if len(base) > 1 {
			k := r.Intn(len(base))
			return base[:k] + base[k+1:]
		}
		return base
	case 7:
		return strings.Repeat(base, 2)
	case 8:
		return strings.ToUpper(base)
	case 9: // in-range edge
		return base + "/" + pick(r, "4294967295", "2147483647'", "2147483648", "0'", "0", "00000000000000000000000000000000000000000001", "0002147483647'", "2147483647", "4294967294")
	case 10:
		return "m" + strings.Repeat("/"+pick(r, "0", "0'", "1"), r.Intn(600))
	}
	return base
}

// foreignText is a text of another kind than the one asked for: what a caller who mixes things up passes.
func foreignText(r *rand.Rand, lang string) string {
	k := genKey(r)
	b58c := func(b []byte) string { return oracle.B58Encode(append(b, oracle.Checksum(b)...)) }
	switch r.Intn(16) {
	case 0, 1:
		return oracle.Sentence(lang, genEntropy(r, entLens[r.Intn(5)]))
	case 2, 3:
		k = genPriv(r)
		return oracle.B58Encode(oracle.Serialize(k))
	case 4:
		return oracle.B58Encode(oracle.Serialize(oracle.PubForm(genPriv(r))))
	case 5: // wallet import format
		k = genPriv(r)
		b := append([]byte{pick[byte](r, 0x80, 0xef, 0xb0, 0x9e)}, k[46:]...)
		if r.Intn(3) > 0 {
			b = append(b, 1)
		}
		return b58c(b)
	case 6: // an address
		return b58c(append([]byte{pick[byte](r, 0, 5, 0x6f, 0x30)}, rbytes(r, 20)...))
	case 7:
		return pick(r, "0x", "", "0X", "xdc") + oracle.Hex(rbytes(r, pick(r, 20, 32, 33, 64, 65, 78, 82)))
	case 8:
		return genPathText(r, genIdxs(r, 6))
	case 9:
		return base64.StdEncoding.EncodeToString(rbytes(r, pick(r, 16, 32, 64, 78, 82)))
	case 10:
		return fmt.Sprint(r.Int63n(1 << uint(1+r.Intn(62))))
	case 11:
		return oracle.Lists[lang][r.Intn(2048)]
	case 12: // as descriptors and key managers write keys
		return fmt.Sprintf("[%08x/44'/0'/0']%s/0/*", r.Uint32(), oracle.B58Encode(oracle.Serialize(k)))
	case 13:
		return oracle.Hex(k[:])
	case 14:
		return oracle.Hex(oracle.Serialize(k))
	}
	return string(k[:])
}

// wrapText puts around a text what it may be copied with.
func wrapText(r *rand.Rand, s string) string {
	switch r.Intn(8) {
	case 0:
		q := pick(r, "\"", "'", "`")
		return q + s + q
	case 1:
		return pick(r, "[", "(", "{", "<") + s + pick(r, "]", ")", "}", ">")
	case 2:
		return pick(r, "bitcoin:", "seed:", "seed=", "xprv:", "bip32:", "bip39:", "ur:", "key=", "mnemonic: ", "#", "//", "0x", "hex:", "base58:", "m/", "pw-") + s
	case 3:
		return s + pick(r, ".", ",", ";", ":", "!", "/0", "/0/*", "/*", "#checksum", "=", "==", "\\", "...", "?a=b", "&", "\x00")
	case 4: // in groups
		n := 2 + r.Intn(7)
		sep := pick(r, " ", "-", ":", ",", "_", "\n", ".")
		var b strings.Builder
		for i, x := range []byte(s) {
			if i > 0 && i%n == 0 {
				b.WriteString(sep)
			}
			b.WriteByte(x)
		}
		return b.String()
	case 5:
		return url.QueryEscape(s)
	case 6: // backwards
		b := []byte(s)
		slices.Reverse(b)
		return string(b)
	}
	return base64.StdEncoding.EncodeToString([]byte(s))
}

func genPathAny(r *rand.Rand) string {
	if r.Intn(2) == 0 {
		return genPathText(r, genIdxs(r, 12))
	}
	return genBadPath(r)
}

// ambiguousWS: white space beyond the path format's ASCII set; whether it is ignored is left open.
func ambiguousWS(s string) bool {
	return strings.ContainsAny(s, "\v\u0085\u00a0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000\ufeff")
}

// sizes lists lengths around powers of two and ten from lo to hi: where a limit, a buffer or a counter may be.
func sizes(lo, hi int) (out []int) {
	add := func(x int) {
		for _, d := range []int{-1, 0, 1} {
			if n := x + d; n >= lo && n <= hi {
				out = append(out, n)
			}
		}
	}
	for x := 1; x <= hi; x *= 2 {
		add(x)
		add(x + x/2)
	}
	for x := 10; x <= hi; x *= 10 {
		add(x)
		add(2 * x)
		add(5 * x)
	}
	return
}
