package main

// S02: nothing of a call is kept. A child process makes calls with secrets that the parent can work out, drops
// everything, and dumps its heap; the parent searches the dump. Another kind of child measures what stays allocated.

import (
	"bytes"
	crand "crypto/rand"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"slices"
	"strings"
	"time"
	"unsafe"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/util"

	"verifharness/oracle"
)

// secretBytes is reproducible in parent and child and leaves no state behind.
func secretBytes(seed int64, kind string, i, n int) []byte {
	var out []byte
	for k := 0; len(out) < n; k++ {
		h := sha256.Sum256([]byte(fmt.Sprint(seed, "/", kind, "/", i, "/", k)))
		out = append(out, h[:]...)
	}
	return out[:n:n]
}

type secretCase struct {
	ent    []byte
	pass   string
	path   string
	vals   []uint32
	stream []byte // what the random source delivers
	raw    []byte // a seed of any size
	many   uint32 // size of a larger range
}

func secretOf(seed int64, i int) (s secretCase) {
	s.ent = secretBytes(seed, "entropy", i, entLens[i%5])
	s.pass = hex.EncodeToString(secretBytes(seed, "pass", i, 12)) + " p"
	if i%7 == 2 {
		s.pass = ""
	}
	b := secretBytes(seed, "path", i, 24)
	n := 1 + int(b[23])%5
	for k := 0; k < n; k++ {
		v := uint32(b[4*k])<<24 | uint32(b[4*k+1])<<16 | uint32(b[4*k+2])<<8 | uint32(b[4*k+3])
		if b[20]&(1<<k) != 0 {
			v = v&0x80000000 | v&0x3f
		}
		s.vals = append(s.vals, v)
	}
	if i%4 == 0 { // the usual wallet path
		s.vals = []uint32{1<<31 + 44, 1 << 31, 1 << 31, 0, uint32(i)}
	}
	s.stream = secretBytes(seed, "stream", i, 256)
	r := rand.New(rand.NewSource(mix(uint64(seed), uint64(i))))
	n = pick(r, 16, 17, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 256, 300, 512, 1000, 1024, 4096, 16+r.Intn(400))
	s.raw = secretBytes(seed, "raw", i, dictLen(r, n, 4096))
	if len(s.raw) < 16 {
		s.raw = secretBytes(seed, "raw", i, 16)
	}
	s.many = uint32(dictLen(r, pick(r, 2, 3, 5, 10, 20, 21, 32, 33, 50, 64, 65, 100, 101, 128, 130, 200), 300))
	if s.many < 2 {
		s.many = 2
	}
	if i%6 == 5 { // a long path
		for len(s.vals) < dictLen(r, pick(r, 6, 8, 10, 20, 50, 100, 128, 200, 255), 255) {
			s.vals = append(s.vals, genIndex(r))
		}
	}
	if i%3 == 1 && len(s.vals) > 0 {
		s.vals[r.Intn(len(s.vals))] = genIndex(r)
	}
	if i%7 == 3 {
		s.pass = hex.EncodeToString(secretBytes(seed, "pass", i, 12+r.Intn(300)))
	}
	if i%2 == 1 { // constants of the library, each eight bytes at most: the secret around them stays a secret
		plant(r, s.ent)
		plant(r, s.stream)
		plant(r, s.raw)
		if v, ok := dictIndex(r); ok && len(s.vals) > 0 {
			s.vals[0] = v
		}
	}
	s.path = pathOf(s.vals)
	return
}

type hashSource struct{ b []byte }

func (h *hashSource) Read(p []byte) (int, error) {
	n := copy(p, h.b)
	h.b = h.b[n:]
	for i := n; i < len(p); i++ {
		p[i] = 0xAB
	}
	return len(p), nil
}

var (
	kept       any // the control keeps something on purpose
	keptStatic [40]byte
	calls      int
)

// useSecrets makes all kinds of calls with the secrets of case i. It runs in a goroutine of its own whose stack is gone afterwards.
func useSecrets(seed int64, i int, control string, often int64) {
	s := secretOf(seed, i)
	call := func(f func()) {
		t := time.Now()
		guard(f)
		n := 1 + min(often, int64(often)*int64(5*time.Microsecond)/int64(1+time.Since(t)))
		for k := int64(1); k < n; k++ { // what is kept of one call in many
			guard(f)
		}
		calls += int(n)
	}
	var m, hexSeed string
	call(func() { m, _ = bip39.NewMnemonic(s.ent) })
	call(func() { bip39.EntropyFromMnemonic(m) })
	call(func() { bip39.MnemonicToByteArray(m) })
	call(func() { bip39.MnemonicToByteArray(m, true) })
	call(func() { bip39.IsMnemonicValid(m) })
	call(func() { bip39.NewSeedWithErrorChecking(m, s.pass) })
	var sd []byte
	call(func() { sd = bip39.NewSeed(m, s.pass) })
	call(func() { hexSeed, _ = util.DeriveSeedFromMnemonic(m, s.pass) })
	var root bip32.Key
	call(func() { k, _ := util.RootKeyFromSeed(hexSeed); root = *k })
	call(func() { util.RootKeyFromSeed(strings.ToUpper(hexSeed)) })
	call(func() { bip32.NewMasterKey(sd) })
	call(func() { bip32.NewMasterKey(s.raw) })
	call(func() { util.RootKeyFromSeed(hex.EncodeToString(s.raw)) })
	var g util.Generator
	g.SetRootKey(root)
	var kps []util.KeyPath
	call(func() { kps, _ = g.DeriveBIP32Result(bip32.Path(s.path)) })
	other := root
	other.SetVersionUint32(oracle.PrivVersions[i%len(oracle.PrivVersions)])
	var g2 util.Generator
	g2.SetRootKey(other)
	call(func() { g2.DeriveBIP32Result(bip32.Path(strings.Replace(" "+s.path+"/", "m", "M", 1)[:len(s.path)+1])) })
	wide := "\t" + strings.Join(strings.Fields(m), "  ") + "\n"
	call(func() { bip39.EntropyFromMnemonic(wide) })
	call(func() { bip39.NewSeedWithErrorChecking(wide, s.pass) })
	call(func() { util.DeriveSeedFromMnemonic(wide, s.pass) })
	keys := []bip32.Key{root, other}
	if len(kps) > 0 {
		keys = append(keys, kps[len(kps)-1].Key)
	}
	for _, k := range keys {
		kk := k
		var ser []byte
		var txt string
		call(func() { kk.NewChildKey(uint32(i)) })
		call(func() { kk.NewChildKey(1<<31 + uint32(i)) })
		call(func() { kk.PublicKeyExtended() })
		call(func() { ser, _ = kk.Serialize() })
		call(func() { txt = kk.B58Serialize() })
		call(func() { _ = kk.String() })
		call(func() { kk.PrivateKeyHex() })
		call(func() { kk.PublicKeyHex() })
		call(func() { kk.IsValid() })
		call(func() { bip32.Deserialize(ser) })
		call(func() { bip32.B58Deserialize(txt) })
		call(func() { kk.GetPvtKeyBytes(); kk.GetKeyBytes(); kk.GetChainCode() })
		call(func() { bip32.ValidatePrivateKey(kk.GetPvtKeyBytes()) })
		call(func() { bip32.AddChecksumDblSha256ToBytes(kk[:]) })
		call(func() { bip32.ChecksumDblSha256(kk[:]) })
		call(func() { bip32.HashRipeMD160onSha256(kk[:]) })
		kp := util.KeyPath{Path: "m", Key: kk}
		call(func() { kp.AddrHex() })
		call(func() { kp.AddrP2SH(5) })
		r := util.KeyPathRange{StartIndex: uint32(i), EndIndex: uint32(i) + 2, KeyPath: kp}
		call(func() { r.GenerateRange() })
		call(func() { r.GenerateRange() })
		r.EndIndex = r.StartIndex + s.many
		call(func() { r.GenerateRange() })
		// refused inputs
		if len(ser) > 0 {
			ser[80] ^= 1
		}
		call(func() { bip32.Deserialize(ser) })
		if len(txt) > 5 {
			call(func() { bip32.B58Deserialize(txt[:len(txt)-1] + "0") })
			call(func() { bip32.B58Deserialize(txt[:len(txt)-2]) })
		}
		deep := kk
		deep[4] = 255
		call(func() { deep.NewChildKey(0) })
		other := kk
		other.SetVersionUint32(0x01020304)
		call(func() { other.NewChildKey(0) })
	}
	if f := strings.Fields(m); len(f) > 3 {
		f[0], f[2] = f[2], f[0]
		call(func() { bip39.EntropyFromMnemonic(strings.Join(f, " ")) })
		call(func() { util.DeriveSeedFromMnemonic(strings.Join(f, " "), s.pass) })
		f[1] = "zzzz"
		call(func() { bip39.NewSeedWithErrorChecking(strings.Join(f, " "), s.pass) })
		call(func() { bip39.IsMnemonicValid(strings.Join(f[1:], " ")) })
	}
	call(func() { util.RootKeyFromSeed(hexSeed + "g") })
	call(func() { util.RootKeyFromSeed(hexSeed[:min(len(hexSeed), 31)]) })
	call(func() { g.DeriveBIP32Result("x/" + bip32.Path(s.path)) })
	// fresh randomness
	old := crand.Reader
	for _, f := range []func(){func() { bip39.NewEntropy(256) }, func() { util.GenerateMnemonic(24) }, func() { bip32.NewSeed() }} {
		call(func() {
			crand.Reader = &hashSource{append([]byte{}, s.stream...)}
			f()
		})
	}
	crand.Reader = old
	if i == 3 {
		switch control {
		case "bytes":
			kept = sd
		case "text":
			kept = m
		case "number":
			kept = new(big.Int).SetBytes(root[46:])
		case "words":
			var ws []string
			for _, x := range strings.Fields(m) {
				j, _ := bip39.GetWordIndex(x)
				ws = append(ws, bip39.GetWordList()[j])
			}
			kept = ws
		case "static":
			copy(keptStatic[:], sd)
		case "stack":
			ready := make(chan bool)
			go func(k bip32.Key) { ready <- true; select {}; println(k[50]) }(root)
			<-ready
		}
	}
}

// retain makes the calls and writes the heap dump.
func retain(cfg childCfg, res *childRes) {
	base := runtime.NumGoroutine()
	for _, x := range bip39.GetWordList() {
		res.Words = append(res.Words, uint64(uintptr(unsafe.Pointer(unsafe.StringData(x)))))
	}
	later, alive := make(chan bool), (cfg.N+1)/2
	defer close(later)
	for i := 0; i < cfg.N; i++ {
		done := make(chan bool)
		go func() {
			useSecrets(cfg.Seed, i, cfg.Order, cfg.Shuffle)
			done <- true
			if i%2 == 0 { // this goroutine lives on
				<-later
			}
		}()
		<-done
	}
	res.Calls = calls
	for k := 0; k < 40 && runtime.NumGoroutine() > base+alive; k++ {
		time.Sleep(25 * time.Millisecond)
	}
	res.Left = runtime.NumGoroutine() - base - alive
	for k := 0; k < 4; k++ {
		runtime.GC()
	}
	f, err := os.Create(cfg.Dump)
	if err != nil {
		res.Mismatch = append(res.Mismatch, err.Error())
		return
	}
	debug.WriteHeapDump(f.Fd())
	if n := writeStatics(f); n < 10000 {
		res.Mismatch = append(res.Mismatch, fmt.Sprint("static variables not found, ", n))
	}
	f.Close()
}

// writeStatics adds the variables of the program itself; the heap dump leaves out those without pointers.
func writeStatics(f *os.File) (n int) {
	maps, err := os.ReadFile("/proc/self/maps")
	if err != nil {
		return
	}
	exe, _ := os.Executable()
	var end uintptr
	for _, l := range strings.Split(string(maps), "\n") {
		var a, b uintptr
		var perm, off, dev, inode, file string
		if k, _ := fmt.Sscanf(l, "%x-%x %s %s %s %s %s", &a, &b, &perm, &off, &dev, &inode, &file); k < 6 {
			continue
		}
		if file == exe || file == "" && a == end { // its file mappings and the zeroed memory right behind them
			end = b
			if perm[:2] == "rw" {
				mem := unsafe.Slice((*byte)(unsafe.Pointer(a)), b-a)
				f.Write(mem)
				n += len(mem)
			}
		}
	}
	return
}

// grow measures what stays allocated after rounds of calls.
func grow(cfg childCfg, res *childRes) {
	base := runtime.NumGoroutine()
	for round := 0; round < cfg.N; round++ {
		done := make(chan bool)
		go func() {
			r := rand.New(rand.NewSource(mix(uint64(cfg.Seed), uint64(round))))
			s := newShared(r, cfg.Lang)
			n := 250
			if len(cfg.Ops) > 0 {
				n = 120
			}
			for k := 0; k < n; k++ {
				if k%60 == 59 {
					s = newShared(r, cfg.Lang)
				}
				op := k % len(table)
				if len(cfg.Ops) > 0 {
					op = cfg.Ops[k%len(cfg.Ops)]
				}
				if table[op].slow && k >= 60 {
					continue
				}
				mkCall(r, s, op).f()
				res.Calls++
			}
			done <- true
		}()
		<-done
		runtime.GC()
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		res.Objects = append(res.Objects, int64(m.HeapObjects))
		res.Bytes = append(res.Bytes, int64(m.HeapAlloc))
	}
	for k := 0; k < 40 && runtime.NumGoroutine() > base; k++ {
		time.Sleep(25 * time.Millisecond)
	}
	res.Left = runtime.NumGoroutine() - base
}

// grown judges the live heap after each round. What the runtime itself adds comes to some ten objects in all.
func grown(res *childRes) string {
	n := len(res.Objects)
	if n < 10 {
		return ""
	}
	rises := func(x []int64) (k int) {
		for i := n/3 + 1; i < n; i++ {
			if x[i] > x[i-1] {
				k++
			}
		}
		return
	}
	if d := res.Objects[n-1] - res.Objects[n/3]; d > 60 && rises(res.Objects) > n/6 {
		return fmt.Sprintf("%d live objects more: %v", d, res.Objects)
	}
	if d := res.Bytes[n-1] - res.Bytes[n/3]; d > 32<<10 && (rises(res.Bytes) > n/6 || d > 1<<20) {
		return fmt.Sprintf("%d bytes more: %v", d, res.Bytes)
	}
	return ""
}

const window = 16

// needles are all 16-byte pieces of the secrets, by their first 8 bytes.
type needles map[uint64][]needle

type needle struct {
	b    [window]byte
	what string
	rest string // further bytes that must follow
}

func (n needles) add(b []byte, what string) {
	for i := 0; i+window <= len(b); i++ {
		if !varied(b[i : i+window]) {
			continue
		}
		x := needle{[window]byte(b[i : i+window]), what, ""}
		k := le64(b[i:])
		n[k] = append(n[k], x)
	}
}

// varied says that b has at least six different bytes, as all but a few pieces of a random secret: others occur anywhere.
func varied(b []byte) bool {
	var seen [256]bool
	n := 0
	for _, x := range b {
		if !seen[x] {
			seen[x] = true
			n++
		}
	}
	return n >= 6
}

func le64(b []byte) uint64 {
	_ = b[7]
	return uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24 | uint64(b[4])<<32 | uint64(b[5])<<40 | uint64(b[6])<<48 | uint64(b[7])<<56
}

// bin adds bytes as they are, backwards (machine words of numbers) and as hex.
func (n needles) bin(b []byte, what string) {
	n.add(b, what)
	rev := make([]byte, len(b))
	for i, x := range b {
		rev[len(b)-1-i] = x
	}
	n.add(rev, what+" (as a number)")
	n.add([]byte(hex.EncodeToString(b)), what+" (as hex)")
	n.add([]byte(strings.ToUpper(hex.EncodeToString(b))), what+" (as hex)")
	for k := 0; k < 3 && k < len(b); k++ { // wherever it begins in a longer text
		for _, e := range []*base64.Encoding{base64.RawStdEncoding, base64.RawURLEncoding} {
			n.add([]byte(e.EncodeToString(b[k:])[:len(b[k:])/3*4]), what+" (as base64)")
		}
	}
	not := make([]byte, len(b))
	for i, x := range b {
		not[i] = ^x
	}
	n.add(not, what+" (each bit inverted)")
	if len(b) <= 64 {
		if s := []byte(new(big.Int).SetBytes(b).String()); len(s) > 20 {
			n.add(s[2:], what+" (as a decimal number)")
		}
		for _, s := range []string{fmt.Sprint(b), fmt.Sprintf("% x", b)} { // a longer piece: these have little in 16 characters
			for i := 0; i+40 < len(s); i++ {
				k := le64([]byte(s[i:]))
				n[k] = append(n[k], needle{[window]byte([]byte(s[i : i+window])), what + " (as text)", s[i+window : i+40]})
			}
		}
	}
}

// references adds the words as four strings in a row that refer to the list.
func (n needles) references(lang, m string, at []uint64, what string) {
	var all []byte
	for _, x := range strings.Fields(m) {
		i, ok := oracle.WordIndex(lang, x)
		if !ok || i >= len(at) {
			return
		}
		all = binary.LittleEndian.AppendUint64(all, at[i])
		all = binary.LittleEndian.AppendUint64(all, uint64(len(x)))
	}
	for i := 0; i+64 <= len(all); i += 16 {
		seen := map[string]bool{}
		for j := i; j < i+64; j += 16 {
			seen[string(all[j:j+8])] = true
		}
		if len(seen) == 4 {
			k := le64(all[i:])
			n[k] = append(n[k], needle{[window]byte(all[i : i+window]), what + " (as references to the word list)", string(all[i+window : i+64])})
		}
	}
}

// masked adds what HMAC keeps of a key of at most one block.
func (n needles) masked(b []byte, what string) {
	for _, m := range []byte{0x36, 0x5c} {
		x := make([]byte, len(b))
		for i := range b {
			x[i] = b[i] ^ m
		}
		n.add(x, what+" (as HMAC keeps its key)")
	}
}

// numbers adds the positions of the words, four in a row or as many as 16 bytes hold, as integers of every size.
func (n needles) numbers(lang, m, what string) {
	ws := strings.Fields(m)
	for _, size := range []int{2, 4, 8} {
		var le, be []byte
		var idx []int
		for _, x := range ws {
			i, _ := oracle.WordIndex(lang, x)
			idx = append(idx, i)
			b := make([]byte, 8)
			binary.BigEndian.PutUint64(b, uint64(i))
			be = append(be, b[8-size:]...)
			slices.Reverse(b)
			le = append(le, b[:size]...)
		}
		per := max(4*size, window) // bytes that decide
		for _, all := range [][]byte{le, be} {
			for i := 0; i+per <= len(all); i += size {
				if telling(idx[i/size : (i+per)/size]) {
					k := le64(all[i:])
					n[k] = append(n[k], needle{[window]byte(all[i : i+window]), what + " (as numbers)", string(all[i+window : i+per])})
				}
			}
		}
	}
}

// telling says that at least four of the numbers differ and three are not small: those occur anywhere.
func telling(x []int) bool {
	seen, large := map[int]bool{}, 0
	for _, v := range x {
		if v >= 256 {
			large++
		}
		seen[v] = true
	}
	return len(seen) >= 4 && large >= 3
}

func (n needles) sentence(m, what string) {
	b := []byte(m)
	for i := 0; i+window <= len(b); i++ {
		if w := b[i : i+window]; bytes.IndexByte(w, ' ') > 0 && w[window-1] != ' ' { // pieces of single words are in the word list
			k := le64(w)
			n[k] = append(n[k], needle{[window]byte(w), what, ""})
		}
	}
}

// wide adds twelve letters in a row of a text that is kept as runes or as UTF-16; of sentences only what is more than a word.
func (n needles) wide(text, what string, words bool) {
	rs := []rune(text)
	for _, size := range []int{2, 4} {
		var all []byte
		for _, x := range rs {
			all = binary.LittleEndian.AppendUint32(all, uint32(x))
			all = all[:len(all)-4+size]
		}
		for i := 0; i+12 <= len(rs); i++ {
			if p := rs[i : i+12]; words && (!slices.Contains(p[2:10], ' ') || slices.Contains(p, '\t')) || !varied([]byte(string(p))) {
				continue
			}
			b := all[i*size : (i+12)*size]
			k := le64(b)
			n[k] = append(n[k], needle{[window]byte(b[:window]), what + " (as wide characters)", string(b[window:])})
		}
	}
}

func (n needles) find(dump []byte) (found []string) {
	var bloom [1 << 16]uint64
	for k := range n {
		h := k * 0x9e3779b97f4a7c15 >> 42
		bloom[h>>6] |= 1 << (h & 63)
	}
	seen := map[string]bool{}
	for i := 0; i+window <= len(dump); i++ {
		k := le64(dump[i:])
		h := k * 0x9e3779b97f4a7c15 >> 42
		if bloom[h>>6]&(1<<(h&63)) == 0 {
			continue
		}
		for _, x := range n[k] {
			if string(dump[i:i+window]) == string(x.b[:]) && !seen[x.what] && bytes.HasPrefix(dump[i+window:], []byte(x.rest)) {
				seen[x.what] = true
				found = append(found, x.what)
			}
		}
	}
	return
}

func needlesFor(seed int64, lang string, n int, words []uint64) needles {
	out := needles{}
	for i := 0; i < n; i++ {
		s := secretOf(seed, i)
		out.bin(s.ent, "entropy")
		out.bin(oracle.ByteArray(s.ent), "entropy with its checksum")
		m := oracle.Sentence(lang, s.ent)
		out.sentence(m, "sentence")
		out.numbers(lang, m, "sentence")
		out.references(lang, m, words, "sentence")
		if len(m) <= 128 {
			out.masked([]byte(m), "sentence")
		}
		out.wide(m, "sentence", true)
		out.add([]byte(s.pass), "passphrase")
		out.wide(s.pass, "passphrase", false)
		seed := oracle.Seed(m, s.pass)
		out.bin(seed, "seed")
		out.bin(s.stream, "random bytes")
		gen := oracle.Sentence(lang, s.stream[:32])
		out.sentence(gen, "generated sentence")
		out.numbers(lang, gen, "generated sentence")
		out.references(lang, gen, words, "generated sentence")
		out.wide(gen, "generated sentence", true)
		out.wide(hex.EncodeToString(seed), "seed (as hex)", false)
		out.bin(s.raw, "seed of another size")
		root, _ := oracle.Master(seed)
		other, _ := oracle.Master(s.raw)
		keys := []XKey{root, other}
		if ks, ok := deriveOracle(root, s.vals); ok {
			for _, k := range ks[1:] {
				keys = append(keys, k.Key)
			}
		}
		for _, k := range []XKey{root, keys[len(keys)-1]} {
			for _, idx := range []uint32{uint32(i), uint32(i) + 1, uint32(i) + s.many/2, uint32(i) + s.many - 1, 1<<31 + uint32(i)} {
				if c, _, ok := oracle.CKD(k, idx); ok {
					keys = append(keys, c)
				}
			}
		}
		for _, k := range keys {
			out.bin(k[46:], "private key")
			out.bin(k[13:45], "chain code")
			out.masked(k[13:45], "chain code")
			txt := oracle.B58Encode(oracle.Serialize(k))[30:]
			out.add([]byte(txt), "extended private key")
			out.wide(txt, "extended private key", false)
		}
	}
	return out
}

func init() {
	props["S02"] = func(c *Check) {
		c.Rule = "one verdict per call of a child process: none of its secrets (entropy, sentence, passphrase, seed, keys, chain codes; as bytes, hex, numbers, Base58; any 16 bytes in a row) was found in the dump of everything still reachable, and the number of live objects, bytes and goroutines did not grow with the number of calls; distinct: secrets and rounds"
		c.Require = []string{"dump-searched", "control-bytes", "control-text", "control-number", "control-static", "control-stack", "control-words", "growth-measured", "other-language", "each-operation"}
		c.Assumptions = []string{"GODEBUG=clobberfree=1 overwrites what the collector frees, so what is found in the dump is reachable"}
		scratch := os.Getenv("VERIF_SCRATCH")
		if scratch == "" {
			scratch = os.TempDir()
		}
		env := append(os.Environ(), "GODEBUG=clobberfree=1", "GOMAXPROCS=2", "VERIF_CHILD_PLAIN=1")
		langs := []string{"english", "japanese", "french", "english", "korean", "english", "czech", "chinese_simplified", "spanish", "english"}
		type job struct {
			control string
			n       int
			lang    string
		}
		jobs := []job{{"bytes", 6, "english"}, {"text", 6, "english"}, {"number", 6, "english"}, {"static", 6, "english"}, {"stack", 6, "english"}, {"words", 6, "english"}}
		for i := 0; i < c.N(10, 60); i++ {
			jobs = append(jobs, job{"", []int{1, 2, 8, 24, 60, 12}[i%6], langs[i%len(langs)]})
		}
		c.Par("dumps", len(jobs), func(w *W, i int) {
			j := jobs[i]
			cfg := childCfg{Mode: "retain", Seed: mix(uint64(c.Seed), strHash("S02"), uint64(i)), Lang: j.lang, N: j.n, Order: j.control, Dump: filepath.Join(scratch, fmt.Sprintf("heap-%d", i))}
			if j.n == 24 || j.n == 12 {
				cfg.Shuffle = 200
			}
			size := 0
			var res *childRes
			var found []string
			for attempt := 0; attempt < 2; attempt++ {
				if res = c.child(w, cfg, childOpt{env: env, timeout: 300 * time.Second}); res == nil {
					return
				}
				dump, err := os.ReadFile(cfg.Dump)
				os.Remove(cfg.Dump)
				if err != nil || len(dump) < 100000 || !bytes.HasPrefix(dump, []byte("go1.7 heap dump\n")) {
					c.Inconclusive(fmt.Sprint("no heap dump: ", err, len(dump)))
					return
				}
				size = len(dump)
				if found = needlesFor(cfg.Seed, j.lang, j.n, res.Words).find(dump); len(found) == 0 || j.control != "" {
					break // what was found must be found again
				}
			}
			if j.control != "" {
				if len(found) == 0 {
					c.Inconclusive("a secret kept on purpose was not found: " + j.control)
				} else {
					w.Feat("control-" + j.control)
				}
				return
			}
			w.Feat("dump-searched")
			w.FeatIf(j.lang != "english", "other-language")
			w.evals += int64(res.Calls)
			w.events += int64(res.Calls)
			for k := 0; k < j.n; k++ {
				w.distinct[strHash(fmt.Sprint(cfg.Seed, k))] = struct{}{}
			}
			if i < 8 {
				w.samples = append(w.samples, fmt.Sprintf("%d calls with %d sets of secrets (%s), dump of %d bytes searched, found: %v", res.Calls, j.n, j.lang, size, found))
			}
			if len(found) > 0 {
				w.Fail(nil, fmt.Sprintf("after %d calls, all their arguments and results dropped, secrets are still reachable in the process (seed %d, language %s)", res.Calls, cfg.Seed, j.lang), strings.Join(found, ", "), "none")
			}
			if res.Left > 0 {
				w.Fail(nil, "goroutines still run after all calls returned", res.Left, 0)
			}
		})
		// what stays allocated
		rounds := c.N(40, 160)
		per := c.N(30, 100)
		nops := len(table)
		c.Par("growth", 4+nops, func(w *W, i int) {
			cfg := childCfg{Mode: "grow", Seed: mix(uint64(c.Seed), strHash("S02-growth"), uint64(i)), Lang: langs[i%len(langs)], N: rounds}
			what := "all operations"
			if i >= 4 {
				cfg.Ops, cfg.N, what = []int{i - 4}, per, table[i-4].name
				cfg.Lang = "english"
			}
			res := c.child(w, cfg, childOpt{env: env, timeout: 400 * time.Second})
			if res == nil {
				return
			}
			w.Feat("growth-measured")
			w.FeatIf(i >= 4, "each-operation")
			w.evals += int64(res.Calls)
			w.events += int64(res.Calls)
			for k := range res.Objects {
				w.distinct[strHash(fmt.Sprint("round", i, k))] = struct{}{}
			}
			if len(w.samples) < 2 {
				w.samples = append(w.samples, fmt.Sprintf("%s: live objects after each round: %v", what, res.Objects))
			}
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Println(what, res.Objects, res.Bytes)
			}
			if res.Left > 0 {
				w.Fail(nil, "goroutines still run after all calls returned ("+what+")", res.Left, 0)
			}
			if grown(res) == "" {
				return
			}
			cfg.Seed++ // once more, with other inputs and for longer
			cfg.N = cfg.N * 3 / 2
			if res = c.child(w, cfg, childOpt{env: env, timeout: 400 * time.Second}); res == nil {
				return
			}
			if g := grown(res); g != "" {
				w.Fail(nil, fmt.Sprintf("what stays allocated grows with the number of calls (%s, %d calls in %d rounds)", what, res.Calls, cfg.N), g, "a bounded amount")
			}
		})
	}
}
