// collide searches for pairs of items with the same 32-bit digest (oracle/collide.go) and writes oracle/data/collide.json.
// It is an offline tool: the committed pairs are what the checks read.
package main

import (
	"encoding/json"
	"os"
	"runtime"
	"sort"
	"sync"

	"github.com/decred/dcrd/dcrec/secp256k1/v4"

	"verifharness/oracle"
)

func item(kind string, i int) []byte {
	if kind == "point" {
		s := oracle.CollScalar(i)
		return secp256k1.PrivKeyFromBytes(s[:]).PubKey().SerializeCompressed()
	}
	return oracle.CollItem(kind, i)
}

func main() {
	const n = 1 << 18
	var out []oracle.Coll
	for _, kind := range oracle.CollKinds {
		sums := make([][]uint32, len(oracle.Digests))
		for d := range sums {
			sums[d] = make([]uint32, n)
		}
		var wg sync.WaitGroup
		w := runtime.NumCPU()
		for k := 0; k < w; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := k; i < n; i += w {
					b := item(kind, i)
					for d := range sums {
						sums[d][i] = oracle.Digests[d].F(b)
					}
				}
			}()
		}
		wg.Wait()
		for d, s := range sums {
			name := oracle.Digests[d].Name
			add := func(mask uint32, n, most int) {
				all := make([]uint64, n)
				for i := range all {
					all[i] = uint64(s[i]&mask)<<32 | uint64(i)
				}
				sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
				for i := 1; i < n && most > 0; i++ {
					a, b := int(uint32(all[i-1])), int(uint32(all[i]))
					if all[i]>>32 == all[i-1]>>32 && string(item(kind, a)) != string(item(kind, b)) {
						c := oracle.Coll{Kind: kind, Digest: name, A: a, B: b}
						if mask != ^uint32(0) {
							c.Digest += "/16"
						}
						out = append(out, c)
						most--
						i++
					}
				}
			}
			add(^uint32(0), n, 3)
			add(0xffff, 1<<10, 1)
		}
	}
	// texts that are no words of the list
	words := map[string]bool{}
	for _, x := range oracle.Lists["english"] {
		words[x] = true
	}
	for _, d := range oracle.Digests {
		at := map[uint32]int{}
		for i, x := range oracle.Lists["english"] {
			at[d.F([]byte(x))] = i
		}
		var mu sync.Mutex
		var wg sync.WaitGroup
		found, most := 0, 3
		for k := 0; k < 8; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				b := make([]byte, 7)
				for i := k; i < 12<<20; i += 8 {
					x := i*7919 + 3
					for j := range b {
						b[j] = 'a' + byte(x%26)
						x = x/26 + x%26*7
					}
					if v, ok := at[d.F(b)]; ok && !words[string(b)] {
						mu.Lock()
						if found < most {
							found++
							out = append(out, oracle.Coll{Kind: "word", Digest: d.Name, A: v, Text: string(b)})
						}
						done := found >= most
						mu.Unlock()
						if done {
							return
						}
					}
				}
			}()
		}
		wg.Wait()
	}
	b, _ := json.Marshal(out)
	os.WriteFile("oracle/data/collide.json", append(b, '\n'), 0o644)
}
