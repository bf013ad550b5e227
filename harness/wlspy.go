package main

// S01: secrets stay in the process. The program is built with a standard library that counts system calls and prints.

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode"
	"unicode/utf8"

	"verifharness/oracle"
)

// drawing randomness is all that an operation may ask of the outside.
var randomTraps = map[int]bool{318: true}

const printTrap = 1023

// outsideNow sums up what this process has done outside itself so far.
func outsideNow() (n uint64) {
	t := trapCounts()
	for i, x := range t {
		if !randomTraps[i] {
			n += uint64(x)
		}
	}
	return
}

type outsideWatch struct {
	mu   sync.Mutex
	last [1024]uint32
}

// news names what happened outside since the last time.
func (o *outsideWatch) news() string {
	o.mu.Lock()
	defer o.mu.Unlock()
	now := trapCounts()
	var out []string
	for i := range now {
		if d := now[i] - o.last[i]; d != 0 && !randomTraps[i] {
			if i == printTrap {
				out = append(out, fmt.Sprintf("print or println (%d pieces)", d))
			} else {
				out = append(out, fmt.Sprintf("system call %d%s (%d times)", i, trapName[i], d))
			}
		}
	}
	o.last = now
	sort.Strings(out)
	return strings.Join(out, ", ")
}

var trapName = map[int]string{0: " read", 1: " write", 2: " open", 257: " openat", 41: " socket", 42: " connect", 44: " sendto", 59: " execve", 62: " kill", 82: " rename", 83: " mkdir", 87: " unlink",
	258: " mkdirat", 263: " unlinkat", 87 + 2: " readlink", 3: " close", 5: " fstat", 262: " newfstatat", 8: " lseek", 72: " fcntl", 16: " ioctl", 232: " epoll_wait", 435: " clone3", 56: " clone"}

func (o *outsideWatch) after(w *W, e *Event) {
	if outsideNow() == e.outside {
		return
	}
	if n := o.news(); n != "" { // otherwise another call in flight has reported it
		w.Fail(e, "the process acted outside itself during this call (or one in flight with it)", n, "nothing but drawing randomness")
	}
}

// ---- error texts

var plainTexts = func() map[string]bool { // words of the exported error texts and of the other fixed texts
	out := map[string]bool{}
	add := func(s string) {
		for _, x := range strings.FieldsFunc(s, func(r rune) bool { return !unicode.IsLetter(r) && r != '\'' }) {
			out[strings.ToLower(x)] = true
		}
	}
	for _, e := range exportedErrors {
		add((*e).Error())
	}
	add("word not found in reverse map encoding/hex: invalid byte odd length hex string strconv.ParseUint: parsing value out of range invalid syntax nil error failed wrong bad key seed path sentence")
	return out
}()

// holds says how much of the secret bytes the text contains.
func holds(text string, sec []byte) string {
	if len(sec) < 8 {
		return ""
	}
	flat := func(b []byte) bool { // eight equal bytes are no secret
		for _, x := range b[1:] {
			if x != b[0] {
				return false
			}
		}
		return true
	}
	low := strings.ToLower(text)
	for i := 0; i+8 <= len(sec) && i < 4096; i++ {
		win := sec[i : i+8]
		if flat(win) {
			continue
		}
		if strings.Contains(low, hex.EncodeToString(win)) {
			return "hex digits"
		}
		if strings.Contains(text, string(win)) {
			return "raw bytes"
		}
		if b := base64.RawStdEncoding.EncodeToString(win[:6]); strings.Contains(text, b) || strings.Contains(text, base64.RawURLEncoding.EncodeToString(win[:6])) {
			return "base64"
		}
		for _, sep := range []string{" ", ", ", ","} {
			var d []string
			for _, x := range win[:6] {
				d = append(d, fmt.Sprint(x))
			}
			if strings.Contains(text, strings.Join(d, sep)) {
				return "decimal bytes"
			}
		}
	}
	return ""
}

// quotes says whether text repeats 12 or more characters of a secret text.
func quotes(text, sec string, except ...string) bool {
	for i := 0; i+12 <= len(sec) && i < 8192; i++ {
		win := sec[i : i+12]
		if strings.Trim(win, win[:1]) == "" || !strings.Contains(text, win) {
			continue
		}
		ok := false
		for _, x := range except {
			ok = ok || strings.Contains(x, win)
		}
		if !ok {
			return true
		}
	}
	return false
}

// sentenceForms are the sentence as related passphrases repeat it (kinPass): what of them a text may say is for tellsWords.
func sentenceForms(m string) []string {
	f := strings.Fields(m)
	rev := append([]string{}, f...)
	slices.Reverse(rev)
	return []string{m, strings.Join(f, " "), strings.Join(f, ""), strings.Join(rev, " "), strings.ToUpper(m), m + m, m + " " + m,
		"mnemonic" + m, "mnemonicmnemonic", oracle.Hex([]byte(m))}
}

// tellsWords says whether text contains more than one white-space separated token of the sentence, however it may be quoted.
func tellsWords(text, m string) bool {
	seen, tokens := map[string]bool{}, map[string]bool{}
	var hits []string
	for _, f := range strings.Fields(m) {
		tokens[f] = true
		if len(f) < 3 || seen[f] || plainTexts[strings.ToLower(f)] || !utf8.ValidString(f) || strings.Trim(f, f[:1]) == "" {
			continue
		}
		seen[f] = true
		if wholeWord(text, f) {
			hits = append(hits, f)
		}
	}
	if len(hits) < 2 {
		return false
	}
	for f := range tokens { // one token is allowed, and whatever is part of it
		rest := text
		for _, x := range []string{f, strings.Trim(strconv.Quote(f), `"`), strings.Trim(strconv.QuoteToASCII(f), `"`), strings.ToValidUTF8(f, "\ufffd")} {
			rest = strings.ReplaceAll(rest, x, " ")
		}
		if rest == text {
			continue
		}
		other := false
		for _, g := range hits {
			other = other || g != f && wholeWord(rest, g)
		}
		if !other {
			return false
		}
	}
	return true
}

func wholeWord(text, f string) bool {
	for i := 0; ; {
		k := strings.Index(text[i:], f)
		if k < 0 {
			return false
		}
		k += i
		before, _ := utf8.DecodeLastRuneInString(text[:k])
		after, _ := utf8.DecodeRuneInString(text[k+len(f):])
		if (k == 0 || !unicode.IsLetter(before)) && (k+len(f) == len(text) || !unicode.IsLetter(after) && !unicode.IsMark(after)) {
			return true
		}
		i = k + len(f)
	}
}

// ownText takes out of an error text what the library's code says itself: it may be in the inputs too (see dict.go).
func ownText(t string) string {
	for _, d := range []*dictFile{&dictOld, &dictNew} {
		for _, s := range d.Strs {
			for _, f := range verbs.Split(s, -1) {
				if len(f) >= 4 {
					t = strings.ReplaceAll(t, f, "\x00")
				}
			}
		}
	}
	return t
}

var verbs = regexp.MustCompile(`%[-+# 0]*[0-9.*]*[a-zA-Z]`)

func monS01(c *Check) {
	c.On("*", func(w *W, e *Event) {
		w.Eval(e, true)
		w.Feat("watched-" + e.Op)
		for _, o := range e.Out {
			err, ok := o.(error)
			if !ok || err == nil {
				if v, is := o.(RowView); is {
					for _, x := range []error{v.EP, v.EC, v.EPF, v.ECF} {
						if x != nil {
							w.Feat("error-text")
						}
					}
				}
				continue
			}
			w.Feat("error-text")
			t := ownText(err.Error() + "\n" + fmt.Sprintf("%+v", err))
			bad := func(what string) { w.Fail(e, "the error text tells a secret: "+what, t, "a text without it") }
			switch e.Op {
			case "EntropyFromMnemonic", "MnemonicToByteArray", "MnemonicToByteArrayRaw", "NewSeedWithErrorChecking", "DeriveSeedFromMnemonic":
				m := e.In[0].(string)
				if len(m) > 20000 {
					continue
				}
				w.Feat("error-text-sentence")
				if tellsWords(t, m) {
					bad("words of the sentence")
				}
				if len(e.In) > 1 {
					if p := e.In[1].(string); len(p) <= 20000 && quotes(t, p, sentenceForms(m)...) {
						bad("the passphrase")
					}
				}
			case "RootKeyFromSeed":
				s := e.In[0].(string)
				w.Feat("error-text-seed")
				if len(s) <= 20000 && quotes(t, s) {
					bad("the seed")
				}
				if b, ok := oracle.UnHex(s); ok && len(b) <= 4096 {
					if how := holds(t, b); how != "" {
						bad("the seed as " + how)
					}
				}
			case "B58Deserialize":
				s := e.In[0].(string)
				w.Feat("error-text-key")
				if len(s) <= 20000 && quotes(t, s) {
					bad("the key text")
				}
				if b, ok := oracle.B58Decode(s); ok {
					if how := holds(t, b); how != "" {
						bad("the key as " + how)
					}
				}
			}
			for _, x := range e.In {
				switch v := x.(type) {
				case XKey:
					w.FeatIf(v.Private(), "error-text-private-key")
					if how := holds(t, v[13:]); how != "" {
						bad("the key as " + how)
					}
					if quotes(t, oracle.B58Encode(oracle.Serialize(v))) {
						bad("the key as Base58")
					}
				case []byte:
					if len(v) <= 4096 {
						if how := holds(t, v); how != "" {
							bad("the bytes passed as " + how)
						}
					}
				}
			}
		}
	})
}

// harmlessStart are the system calls that any program with this standard library makes before main.
var harmlessStart = map[int]bool{3: true, 5: true, 72: true, 97: true, 160: true, 302: true, 233: true, 291: true, 262: true, 318: true, 39: true, 13: true, 14: true}

// ownReads are variables that the standard library or this harness asks for.
var ownReads = map[string]bool{"PATH": true, "HOME": true, "TMPDIR": true, "TZ": true, "ZONEINFO": true, "GODEBUG": true, "PWD": true, "GORACE": true, "GOMAXPROCS": true}

func init() {
	props["S01"] = func(c *Check) {
		c.Rule = "one verdict per recorded call: the standard library's counters of system calls (all but drawing randomness) and of print/println did not move during it, and an error text contains no 8 bytes of key, chain code, seed or entropy (hex, decimal, base64, raw), no 12 characters of a key text, hex seed or passphrase, and not more than one word of the sentence"
		c.Require = []string{"error-text-sentence", "error-text-seed", "error-text-key", "error-text-private-key", "sensor-file", "sensor-print", "loading", "environment-unchanged", "silent-child", "variable-set", "mixed-history"}
		c.Assumptions = []string{"actions outside the process go through Go's syscall package (the library has no C or assembly of its own and runs no other runtime)"}
		if !spying {
			c.Inconclusive("not built with the instrumented standard library (run through check.sh)")
			return
		}
		w0 := c.NewW("loading")
		for i, n := range startTraps {
			w0.EvalKey(fmt.Sprint("start ", i), n > 0)
			if n > 0 && !harmlessStart[i] {
				w0.Fail(nil, "loading the packages acts outside the process", fmt.Sprintf("system call %d%s (%d times)", i, trapName[i], n), "nothing")
			}
		}
		w0.Feat("loading")
		// the sensors work
		n := outsideNow()
		os.ReadFile("/dev/null")
		if outsideNow() == n {
			c.Inconclusive("the system call counter does not move")
			return
		}
		w0.Feat("sensor-file")
		t := trapCounts()
		print("")
		if trapCounts()[printTrap] == t[printTrap] {
			print("\n")
			if trapCounts()[printTrap] == t[printTrap] {
				c.Inconclusive("the print counter does not move")
				return
			}
		}
		w0.Feat("sensor-print")
		w0.merge()
		env := strings.Join(os.Environ(), "\x00")
		c.outside = &outsideWatch{last: trapCounts()}
		monS01(c)
		for _, lang := range []string{"english", "japanese", "chinese_simplified"} {
			c.selectLang(lang)
			c.Par("hostile-"+lang, c.N(7000, 200000), func(w *W, i int) {
				for k := 0; k < 12; k++ {
					attack(w, i+k*5, lang)
				}
			})
			c.Par("sentences-"+lang, c.N(3000, 60000), func(w *W, i int) {
				r := w.R
				m := damage(r, lang, oracle.Words(lang, genEntropy(r, entLens[i%5])))
				p := genPass(r)
				w.EntropyFromMnemonic(m)
				w.MnemonicToByteArray(m)
				if !w.IsMnemonicValid(m) || i%8 == 0 {
					w.NewSeedWithErrorChecking(m, p)
					w.DeriveSeed(m, p)
				}
			})
		}
		c.selectLang("english")
		c.Par("keys", c.N(4000, 100000), func(w *W, i int) {
			r := w.R
			k := pick(r, genKey(r), badKey(w), genWrongKind(r), hostileKey(r), genRoot(r))
			if i%5 == 0 {
				k[4] = 255
			}
			if i%7 == 0 {
				k.SetVersion(genUnregistered(r))
			}
			b := oracle.Serialize(k)
			switch i % 3 {
			case 1:
				b[r.Intn(82)] ^= 1 << r.Intn(8)
			case 2:
				b = b[:r.Intn(83)]
			}
			w.Deserialize(b)
			w.B58Deserialize(oracle.B58Encode(b))
			w.NewChildKey(k, kinIndex(r, k))
			w.ValidatePrivateKey([32]byte(k[46:]))
			w.IsValid(k)
			w.Serialize(k)
			g := &Gen{}
			w.SetRootKey(g, k)
			w.DerivePath(g, pick(r, "m/44'/0'/0'/0/0", "m", "m/1", "m/2147483648", genPathAny(r), genPathText(r, genIdxs(r, 6))))
			w.SetRootKey(g, genRoot(r))
			w.DerivePath(g, genPathText(r, genIdxs(r, 6)))
			s := oracle.Hex(rbytes(r, r.Intn(40)))
			if i%4 == 0 && len(s) > 0 {
				z := []byte(s)
				z[r.Intn(len(z))] = 'g'
				s = string(z)
			}
			w.RootKeyFromSeed(s)
		})
		c.ranges(c.N(1500, 30000))
		c.rangeHistories(c.N(200, 4000))
		c.Par("levels", c.N(100, 2000), func(w *W, i int) { // long paths and other large requests
			g := &Gen{}
			w.SetRootKey(g, genRoot(w.R))
			w.DerivePath(g, "m"+strings.Repeat(pick(w.R, "/0", "/1'", "/7"), pick(w.R, 20, 50, 100, 128, 200, 254, 255, 256, 300)))
		})
		c.mixed(c.N(600, 10000))
		c.Seqn("afterwards", 1, func(w *W, i int) {
			time.Sleep(1500 * time.Millisecond) // what was started in the background
			w.EvalKey("afterwards", true)
			if n := c.outside.news(); n != "" {
				w.Fail(nil, "after all calls had returned the process acted outside itself", n, "nothing")
			}
			w.Feat("environment-unchanged")
			if s := strings.Join(os.Environ(), "\x00"); s != env {
				w.Fail(nil, "the process environment was changed", "another environment than at the start", "the same")
			}
		})
		c.outside = nil
		// fresh processes: nothing on their output but our own report
		names := map[string]bool{}
		read := func(ns []string) {
			c.mu.Lock()
			defer c.mu.Unlock()
			for _, k := range ns {
				if k != "*" && !strings.HasPrefix(k, "VERIF_") && !ownReads[k] {
					names[k] = true
				}
			}
		}
		read(envReads())
		silent := func(w *W, i int, env []string, what string) {
			n := c.N(1200, 4000)
			cfg := childCfg{Mode: "transcript", Seed: mix(uint64(c.Seed), strHash("S01"), uint64(i)), Lang: pick(w.R, "english", "japanese", "french"), N: n, Order: pick(w.R, "forward", "reverse", "by-operation")}
			out, errs := c.childRaw(w, cfg, childOpt{env: append(os.Environ(), env...), timeout: 300 * time.Second})
			if out == nil {
				return
			}
			w.Feat("silent-child")
			w.EvalKey(fmt.Sprint("child ", i), true)
			if len(errs) > 0 {
				w.Fail(nil, what+"the library wrote to standard error", string(errs), "nothing")
			}
			if k := strings.Count(string(out), "\n"); len(out) == 0 || out[0] != '{' || k != 1 {
				w.Fail(nil, what+"the library wrote to standard output", string(out[:min(len(out), 2000)]), "nothing")
				return
			}
			var res childRes
			if json.Unmarshal(out, &res) == nil {
				addMarks(res.Marks)
				read(res.EnvReads)
				if res.Outside != "" {
					w.Fail(nil, what+"a process that only calls the library acted outside itself", res.Outside, "nothing")
				}
			}
		}
		c.Par("children", c.N(6, 40), func(w *W, i int) { silent(w, i, nil, "") })
		// an environment variable that is read could switch on a log: give each a value
		var keys []string
		for k := range names {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		vals := []string{"1", "true", "debug", "/dev/stderr", "all", "verbose,trace"}
		c.Par("variables", len(keys)*len(vals), func(w *W, i int) {
			kv := keys[i/len(vals)] + "=" + vals[i%len(vals)]
			silent(w, i, []string{kv}, "with "+kv+" in its environment: ")
			w.Feat("variable-set")
		})
		c.Par("usual-variables", len(usualSwitches), func(w *W, i int) {
			silent(w, i, usualSwitches[i], fmt.Sprint("with ", usualSwitches[i], " in its environment: "))
			w.Feat("variable-set")
		})
		c.extra["environment_variables_read"] = keys
	}
}

var usualSwitches = [][]string{
	{"DEBUG=1", "VERBOSE=1", "TRACE=1", "LOG_LEVEL=debug", "LOGLEVEL=trace", "LOG=debug", "CI=true", "ENV=development"},
	{"DEBUG=*", "BIPS_DEBUG=1", "BIP39_DEBUG=1", "BIP32_DEBUG=1", "BIPS_LOG=/dev/stderr", "BIPS_TRACE=1", "WALLET_DEBUG=1", "BIPS_VERBOSE=1"},
}
