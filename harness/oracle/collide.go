package oracle

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	_ "embed"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/adler32"
	"hash/crc32"
	"hash/crc64"
	"hash/fnv"
	"math/big"
)

// Things that differ although a digest of 32 bits, as a table might be keyed by, is the same. The pairs were found by grind/collide.

// Coll is a pair of items of one kind, by number; for words the first is an index of the English list, and Text the other word.
type Coll struct {
	Kind, Digest string
	A, B         int
	Text         string `json:",omitempty"`
}

//go:embed data/collide.json
var collData []byte

var Colls []Coll

func init() {
	if err := json.Unmarshal(collData, &Colls); err != nil {
		panic(err)
	}
}

// CollKinds are the kinds of items: seeds, scalars and chain codes; entropies; points; keys and what is made of them; texts.
var CollKinds = []string{"b16", "b32", "b64", "hex16", "hex64", "point", "key", "ser", "b58", "keyidx", "sentence", "pass", "sentpass", "path", "wallet"}

func collBytes(kind string, i, n int) (out []byte) {
	for k := 0; len(out) < n; k++ {
		h := sha256.Sum256([]byte(fmt.Sprint(kind, "/", i, "/", k)))
		out = append(out, h[:]...)
	}
	return out[:n]
}

// CollKey is the i-th private key.
func CollKey(i int) (k XKey) {
	b := collBytes("key", i, 78)
	copy(k[:], b)
	k.SetVersion(0x0488ade4)
	k[4] = 1 + b[4]%200
	k[45], k[46] = 0, b[46]&0x7f|1
	return
}

// CollScalar is the secret of the i-th point.
func CollScalar(i int) (s [32]byte) {
	new(big.Int).Add(new(big.Int).Lsh(big.NewInt(0x5eed), 200), big.NewInt(int64(i))).FillBytes(s[:])
	return
}

// CollPass is the i-th passphrase.
func CollPass(i int) string {
	b := collBytes("pass", i, 8)
	return fmt.Sprintf("%x", b[:5])
}

// CollSent is the i-th sentence.
func CollSent(i int) string { return Sentence("english", collBytes("b16", i, 16)) }

// CollIndex is an index for the i-th key.
func CollIndex(i int) uint32 { return binary.BigEndian.Uint32(collBytes("idx", i, 4)) }

// CollItem is the i-th item of a kind, as the bytes a digest is made of.
func CollItem(kind string, i int) []byte {
	switch kind {
	case "b16":
		return collBytes(kind, i, 16)
	case "b32":
		b := collBytes(kind, i, 32)
		b[0] &= 0x7f
		return b
	case "b64":
		return collBytes(kind, i, 64)
	case "hex16":
		return []byte(Hex(collBytes("b16", i, 16)))
	case "hex64":
		return []byte(Hex(collBytes("b64", i, 64)))
	case "key":
		k := CollKey(i)
		return k[:]
	case "ser":
		return Serialize(CollKey(i))
	case "b58":
		return []byte(B58Encode(Serialize(CollKey(i))))
	case "keyidx":
		k := CollKey(i)
		return binary.BigEndian.AppendUint32(k[:], CollIndex(i))
	case "sentence":
		return []byte(CollSent(i))
	case "pass":
		return []byte(CollPass(i))
	case "sentpass":
		return []byte(CollSent(i) + CollPass(i))
	case "path":
		b := collBytes(kind, i, 12)
		p := "m"
		for k := 0; k < 3; k++ {
			p += fmt.Sprintf("/%d", binary.BigEndian.Uint32(b[4*k:])>>1)
			if b[4*k+3]&1 == 1 {
				p += "'"
			}
		}
		return []byte(p)
	case "wallet":
		return []byte(fmt.Sprintf("m/%d'/%d'/%d'/%d/%d", []int{44, 49, 84, 86}[i&3], []int{0, 1, 60, 2}[i>>2&3], i>>4&63, i>>10&1, i>>11))
	}
	return nil
}

// Digests are what a careless table might be keyed by.
var Digests = []struct {
	Name string
	F    func(b []byte) uint32
}{
	{"crc32", crc32.ChecksumIEEE},
	{"crc32c", func(b []byte) uint32 { return crc32.Checksum(b, castagnoli) }},
	{"adler32", adler32.Checksum},
	{"crc64", func(b []byte) uint32 { return uint32(crc64.Checksum(b, iso)) }},
	{"fnv32", func(b []byte) uint32 { h := fnv.New32(); h.Write(b); return h.Sum32() }},
	{"fnv32a", func(b []byte) uint32 { h := fnv.New32a(); h.Write(b); return h.Sum32() }},
	{"fnv64a", func(b []byte) uint32 { h := fnv.New64a(); h.Write(b); return uint32(h.Sum64()) }},
	{"java", func(b []byte) uint32 { return roll(b, 0, func(h uint32, c byte) uint32 { return h*31 + uint32(c) }) }},
	{"djb2", func(b []byte) uint32 { return roll(b, 5381, func(h uint32, c byte) uint32 { return h*33 + uint32(c) }) }},
	{"djb2x", func(b []byte) uint32 { return roll(b, 5381, func(h uint32, c byte) uint32 { return h*33 ^ uint32(c) }) }},
	{"sdbm", func(b []byte) uint32 {
		return roll(b, 0, func(h uint32, c byte) uint32 { return uint32(c) + h<<6 + h<<16 - h })
	}},
	{"m131", func(b []byte) uint32 { return roll(b, 0, func(h uint32, c byte) uint32 { return h*131 + uint32(c) }) }},
	{"rotxor", func(b []byte) uint32 {
		return roll(b, 0, func(h uint32, c byte) uint32 { return (h<<5 | h>>27) ^ uint32(c) })
	}},
	{"xor", func(b []byte) (h uint32) {
		for i := 0; i+4 <= len(b); i += 4 {
			h ^= binary.BigEndian.Uint32(b[i:])
		}
		return
	}},
	{"sum", func(b []byte) (h uint32) {
		for i := 0; i+4 <= len(b); i += 4 {
			h += binary.BigEndian.Uint32(b[i:])
		}
		return
	}},
	{"sumle", func(b []byte) (h uint32) {
		for i := 0; i+4 <= len(b); i += 4 {
			h += binary.LittleEndian.Uint32(b[i:])
		}
		return
	}},
	{"bytes", func(b []byte) uint32 { return roll(b, 0, func(h uint32, c byte) uint32 { return h + uint32(c) }) }},
	{"sha256", func(b []byte) uint32 { s := sha256.Sum256(b); return binary.BigEndian.Uint32(s[:]) }},
	{"sha256end", func(b []byte) uint32 { s := sha256.Sum256(b); return binary.BigEndian.Uint32(s[28:]) }},
	{"dsha256", func(b []byte) uint32 { return binary.BigEndian.Uint32(Checksum(b)) }},
	{"sha1", func(b []byte) uint32 { s := sha1.Sum(b); return binary.BigEndian.Uint32(s[:]) }},
	{"md5", func(b []byte) uint32 { s := md5.Sum(b); return binary.BigEndian.Uint32(s[:]) }},
	{"hash160", func(b []byte) uint32 { return binary.BigEndian.Uint32(Hash160(b)) }},
	{"keccak", func(b []byte) uint32 { return binary.BigEndian.Uint32(Keccak(b)) }},
}

var castagnoli, iso = crc32.MakeTable(crc32.Castagnoli), crc64.MakeTable(crc64.ISO)

func roll(b []byte, h uint32, f func(h uint32, c byte) uint32) uint32 {
	for _, c := range b {
		h = f(h, c)
	}
	return h
}
