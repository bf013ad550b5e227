// grind searches for rare inputs (results with several leading zero bytes) and writes oracle/data/corpus.json.
// It is an offline tool: the committed corpus is what the checks read.
package main

import (
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"runtime"
	"sync"

	"github.com/decred/dcrd/dcrec/secp256k1/v4"
	"golang.org/x/crypto/ripemd160"
	"golang.org/x/crypto/sha3"

	"verifharness/oracle"
)

var mu sync.Mutex
var out oracle.Corpus
var cnt = map[string]int{}

func want(why string, max int) bool {
	mu.Lock()
	defer mu.Unlock()
	return cnt[why] < max
}
func lead(b []byte) int {
	n := 0
	for _, c := range b {
		if c != 0 {
			break
		}
		n++
	}
	return n
}
func trail(b []byte) int {
	n := 0
	for i := len(b) - 1; i >= 0 && b[i] == 0; i-- {
		n++
	}
	return n
}

func limit(n int) int { // how many examples of n zero bytes to keep
	switch {
	case n >= 3:
		return 6
	case n == 2:
		return 10
	}
	return 0
}

func addDerive(why string, n int, p oracle.XKey, i uint32) {
	why = fmt.Sprintf("%s-%d", why, n)
	mu.Lock()
	defer mu.Unlock()
	if cnt[why] >= limit(n) {
		return
	}
	cnt[why]++
	out.Derive = append(out.Derive, struct {
		Parent string
		Index  uint32
		Why    string
	}{oracle.Hex(p[:]), i, why})
}

func par(f func(g, n int)) {
	var wg sync.WaitGroup
	n := runtime.NumCPU()
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func(g int) { defer wg.Done(); f(g, n) }(g)
	}
	wg.Wait()
}

func main() {
	// 1. Hardened derivation: only HMAC.
	seed := sha256.Sum256([]byte("verif grind"))
	root, _ := oracle.Master(seed[:])
	par(func(g, n int) {
		par := root
		priv := par.Scalar()
		data := make([]byte, 37)
		copy(data, par.Material())
		h := hmac.New(sha512.New, par.Chain())
		var s secp256k1.ModNScalar
		var p secp256k1.ModNScalar
		p.SetByteSlice(priv.Bytes())
		I := make([]byte, 0, 64)
		for j := 0; j < 1<<26; j += 1 {
			if j%n != g {
				continue
			}
			idx := uint32(j) | 0x80000000
			binary.BigEndian.PutUint32(data[33:], idx)
			h.Reset()
			h.Write(data)
			I = h.Sum(I[:0])
			if l := lead(I[:32]); l >= 2 {
				addDerive("hard-il-lead", l, par, idx)
			}
			if l := lead(I[32:]); l >= 2 {
				addDerive("hard-chain-lead", l, par, idx)
			}
			if l := trail(I); l >= 2 {
				addDerive("hard-chain-trail", l, par, idx)
			}
			s.SetByteSlice(I[:32])
			s.Add(&p)
			b := s.Bytes()
			if l := lead(b[:]); l >= 2 {
				addDerive("hard-priv-lead", l, par, idx)
			}
			if l := trail(b[:]); l >= 2 {
				addDerive("hard-priv-trail", l, par, idx)
			}
		}
	})
	fmt.Println("hardened", cnt)
	// 2. Plain derivation.
	par(func(g, n int) {
		par := root
		var p secp256k1.ModNScalar
		p.SetByteSlice(par.Scalar().Bytes())
		pub := par.Pub()
		data := make([]byte, 37)
		copy(data, pub[:])
		h := hmac.New(sha512.New, par.Chain())
		var s secp256k1.ModNScalar
		I := make([]byte, 0, 64)
		for j := g; j < 1<<24; j += n {
			idx := uint32(j)
			binary.BigEndian.PutUint32(data[33:], idx)
			h.Reset()
			h.Write(data)
			I = h.Sum(I[:0])
			if l := lead(I[:32]); l >= 2 {
				addDerive("plain-il-lead", l, par, idx)
			}
			if l := lead(I[32:]); l >= 2 {
				addDerive("plain-chain-lead", l, par, idx)
			}
			s.SetByteSlice(I[:32])
			s.Add(&p)
			b := s.Bytes()
			if l := lead(b[:]); l >= 2 {
				addDerive("plain-priv-lead", l, par, idx)
			}
			if j < 1<<21 {
				var r secp256k1.JacobianPoint
				secp256k1.ScalarBaseMultNonConst(&s, &r)
				r.ToAffine()
				if l := lead(r.X.Bytes()[:]); l >= 2 {
					addDerive("plain-pubx-lead", l, par, idx)
				}
				if l := lead(r.Y.Bytes()[:]); l >= 2 {
					addDerive("plain-puby-lead", l, par, idx)
				}
			}
		}
	})
	fmt.Println("plain", cnt)
	// 3. Points kG: X, Y, hash160, address.
	addKey := func(why string, n int, k uint64, base *big.Int) {
		why = fmt.Sprintf("%s-%d", why, n)
		mu.Lock()
		defer mu.Unlock()
		if cnt[why] >= limit(n) {
			return
		}
		cnt[why]++
		s := new(big.Int).Add(base, new(big.Int).SetUint64(k))
		out.Keys = append(out.Keys, struct{ Scalar, Why string }{fmt.Sprintf("%064x", s), why})
	}
	par(func(g, n int) {
		base := new(big.Int).SetBytes(seed[:])
		base.Rsh(base, 1)
		base.Add(base, new(big.Int).Lsh(big.NewInt(int64(g)), 100))
		var s secp256k1.ModNScalar
		s.SetByteSlice(base.Bytes())
		var r, gen, t secp256k1.JacobianPoint
		secp256k1.ScalarBaseMultNonConst(&s, &r)
		var one secp256k1.ModNScalar
		one.SetInt(1)
		secp256k1.ScalarBaseMultNonConst(&one, &gen)
		rip := ripemd160.New()
		kec := sha3.NewLegacyKeccak256()
		for k := uint64(1); k < (1<<25)/uint64(n); k++ {
			secp256k1.AddNonConst(&r, &gen, &t)
			r = t
			r.ToAffine()
			x, y := r.X.Bytes(), r.Y.Bytes()
			if l := lead(x[:]); l >= 2 {
				addKey("x-lead", l, k, base)
			}
			if l := lead(y[:]); l >= 2 {
				addKey("y-lead", l, k, base)
			}
			if l := trail(x[:]); l >= 2 {
				addKey("x-trail", l, k, base)
			}
			var c [33]byte
			c[0] = 2 + y[31]&1
			copy(c[1:], x[:])
			sh := sha256.Sum256(c[:])
			if l := lead(sh[:]); l >= 2 {
				addKey("pubsha-lead", l, k, base)
			}
			rip.Reset()
			rip.Write(sh[:])
			h := rip.Sum(nil)
			if l := lead(h); l >= 2 {
				addKey("hash160-lead", l, k, base)
			}
			if l := trail(h[:4]); l >= 2 {
				addKey("fp-trail", l, k, base)
			}
			kec.Reset()
			kec.Write(x[:])
			kec.Write(y[:])
			e := kec.Sum(nil)
			if l := lead(e[12:]); l >= 2 {
				addKey("eth-lead", l, k, base)
			}
			if l := lead(e); l >= 2 {
				addKey("keccak-lead", l, k, base)
			}
		}
	})
	fmt.Println("keys", cnt)
	// 4. Master seeds.
	par(func(g, n int) {
		h := hmac.New(sha512.New, []byte("Bitcoin seed"))
		sd := make([]byte, 16)
		for j := g; j < 1<<26; j += n {
			binary.BigEndian.PutUint64(sd[8:], uint64(j))
			h.Reset()
			h.Write(sd)
			I := h.Sum(nil)
			for _, f := range []struct {
				why string
				l   int
			}{{"master-priv-lead", lead(I[:32])}, {"master-chain-lead", lead(I[32:])}, {"master-priv-trail", trail(I[:32])}, {"master-priv-ff", ff(I[:32])}} {
				if f.l >= 2 {
					why := fmt.Sprintf("%s-%d", f.why, f.l)
					mu.Lock()
					if cnt[why] < limit(f.l) {
						cnt[why]++
						out.Seeds = append(out.Seeds, struct{ Seed, Why string }{oracle.Hex(sd), why})
					}
					mu.Unlock()
				}
			}
		}
	})
	// 5. Checksums of serialized keys, varying the last chain code bytes.
	par(func(g, n int) {
		k := root
		for j := g; j < 1<<25; j += n {
			binary.BigEndian.PutUint32(k[41:], uint32(j))
			c := oracle.Checksum(k[:])
			for _, f := range []struct {
				why string
				l   int
			}{{"checksum-lead", lead(c)}, {"checksum-trail", trail(c)}} {
				if f.l >= 2 {
					why := fmt.Sprintf("%s-%d", f.why, f.l)
					mu.Lock()
					if cnt[why] < limit(f.l) {
						cnt[why]++
						out.Serial = append(out.Serial, struct{ Key, Why string }{oracle.Hex(k[:]), why})
					}
					mu.Unlock()
				}
			}
		}
	})
	b, _ := json.MarshalIndent(out, "", " ")
	os.WriteFile("oracle/data/corpus.json", append(b, '\n'), 0o644)
	fmt.Println(cnt, len(b))
}

func ff(b []byte) int {
	n := 0
	for _, c := range b {
		if c != 0xff {
			break
		}
		n++
	}
	return n
}
