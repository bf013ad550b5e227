package main

import (
	"fmt"
	"math/rand"
	"strings"
	"unicode"

	"github.com/mearaj/bips/bip39/wordlists"

	"verifharness/oracle"
)

// selectLang switches the package-wide list between phases.
func (c *Check) selectLang(lang string) {
	w := c.NewW("select")
	w.R = rand.New(rand.NewSource(1))
	w.SetWordList(lang)
	w.merge()
}

// forLangs runs f once per language with that list selected, English last.
func (c *Check) forLangs(f func(lang string)) {
	for _, l := range oracle.Langs {
		if l != "english" && !c.stop.Load() {
			c.selectLang(l)
			f(l)
		}
	}
	c.selectLang("english")
	f("english")
}

func entropyOfIndices(n int, idx func(p int) int) []byte {
	e := make([]byte, n)
	for i := 0; i < n*8; i++ {
		if idx(i/11)>>(10-i%11)&1 == 1 {
			e[i/8] |= 0x80 >> (i % 8)
		}
	}
	return e
}

// latin gives the entropy of length entLens[l] whose word p has index s + 97p (mod 2048): over all s every word occurs at
// every position.
func latin(l, s int) []byte {
	return entropyOfIndices(entLens[l], func(p int) int { return (s + 97*p) % 2048 })
}

// entropyWithWords: the first 11-word groups are the given indices, the rest random.
func entropyPrefix(r *rand.Rand, n int, idx []int) []byte {
	fix := rbytes(r, 60)
	return entropyOfIndices(n, func(p int) int {
		if p < len(idx) {
			return idx[p]
		}
		return int(fix[2*p]&7)<<8 | int(fix[2*p+1])
	})
}

func init() {
	props["B01"] = func(c *Check) {
		c.Rule = "NewMnemonic on Latin-square entropies (every word at every position, five lengths, ten lists), structured and random entropies, near-duplicates through one reused buffer, and illegal lengths; a case is one call compared with an independent bit-string encoder over this harness's own copies of the published lists; non-trivial: distinct (list, entropy)"
		c.Require = []string{"illegal-length-refused", "leading-zero-bytes", "all-zero"}
		for _, l := range oracle.Langs {
			c.Require = append(c.Require, "lang-"+l)
		}
		monB01(c)
		c.Par("lists", len(oracle.Langs), func(w *W, i int) {
			l := oracle.Langs[i]
			got, want := *shipped[l], oracle.Lists[l]
			w.EvalKey("published list "+l, true)
			if len(got) != 2048 {
				w.Fail(nil, "shipped list "+l+" has the wrong length", len(got), 2048)
				return
			}
			seen := map[string]bool{}
			for j := range got {
				if got[j] != want[j] || seen[got[j]] {
					w.Fail(nil, fmt.Sprintf("shipped list %s word %d is not the published one", l, j), got[j], want[j])
					return
				}
				seen[got[j]] = true
			}
		})
		c.forLangs(func(lang string) {
			c.Par("latin-"+lang, 5*2048, func(w *W, i int) { w.NewMnemonic(latin(i%5, i/5)) })
			c.Par("hostile-"+lang, c.N(400, 40000), func(w *W, i int) {
				e := genEntropy(w.R, entLens[w.R.Intn(5)])
				w.NewMnemonic(e)
				for j := 0; j < 6; j++ {
					w.NewMnemonic(nearEntropy(w.R, e))
				}
				w.NewMnemonic(e)
				w.NewMnemonic(rbytes(w.R, pick(w.R, 0, 1, 4, 8, 12, 15, 17, 18, 19, 31, 33, 36, 40, 48, 64, w.R.Intn(70))))
			})
			c.Par("lengths-"+lang, 140, func(w *W, i int) {
				n := i
				if i > 100 {
					n = 100 + (i-100)*32
				}
				w.NewMnemonic(make([]byte, n))
				w.NewMnemonic(rbytes(w.R, n))
				w.NewMnemonic(nil)
			})
			wide := append(sizes(1400, 1<<20), 65536+16, 65536+20, 65536+32, 1<<20+16, 8192+16, 8192+32)
			c.Par("long-"+lang, len(wide), func(w *W, i int) { w.NewMnemonic(make([]byte, wide[i])) })
		})
		c.switching(c.N(40, 400))
		c.mixed(c.N(60, 2000))
	}

	props["B02"] = func(c *Check) {
		c.Rule = "decode oracle-made sentences back through EntropyFromMnemonic and both byte-array modes: Latin-square sentences, entropies with leading/trailing zeros and single bits, near-duplicate sentences, and the library's own sentences; non-trivial: distinct (operation, list, sentence)"
		c.Require = []string{"leading-zero-bytes", "many-leading-zero-bytes"}
		for _, l := range oracle.Langs {
			c.Require = append(c.Require, "lang-"+l)
		}
		monB02(c)
		all := func(w *W, m string) {
			w.EntropyFromMnemonic(m)
			w.MnemonicToByteArray(m)
			w.MnemonicToByteArray(m, true)
		}
		c.forLangs(func(lang string) {
			c.Par("latin-"+lang, 5*2048, func(w *W, i int) {
				e := latin(i%5, i/5)
				switch i / 5 % 3 {
				case 0:
					w.EntropyFromMnemonic(oracle.Sentence(lang, e))
				case 1:
					w.MnemonicToByteArray(oracle.Sentence(lang, e))
				default:
					w.MnemonicToByteArray(oracle.Sentence(lang, e), true)
				}
			})
			c.Par("hostile-"+lang, c.N(500, 30000), func(w *W, i int) {
				e := genEntropy(w.R, entLens[i%5])
				all(w, oracle.Sentence(lang, e))
				for j := 0; j < 4; j++ {
					all(w, oracle.Sentence(lang, nearEntropy(w.R, e)))
				}
				if m, err := w.NewMnemonic(e); err == nil {
					all(w, m)
				}
				w.MnemonicToByteArray(oracle.Sentence(lang, e), false)
			})
			c.Par("zeros-"+lang, 5*33, func(w *W, i int) {
				n := entLens[i%5]
				e := make([]byte, n)
				if z := i / 5; z < n {
					copy(e[z:], rbytes(w.R, n-z))
					e[z] |= 1
				}
				all(w, oracle.Sentence(lang, e))
			})
		})
		c.switching(c.N(40, 400))
		c.mixed(c.N(60, 2000))
	}

	props["B03"] = func(c *Check) {
		c.Rule = "verdicts of all six accepting operations against the BIP-39 acceptance rule: every single-word substitution of sentences of every length, word swaps, rotations, deletions, insertions, every word count 0..60, case and Unicode-form variants, abbreviations, words of other lists, other scripts' spaces, garbage; non-trivial: distinct (operation, list, text)"
		c.Require = []string{"valid-accepted", "refused-word-count", "refused-unknown-word", "refused-checksum", "near-spelling"}
		monB03(c)
		verdict := func(w *W, m string, seeds bool) {
			w.IsMnemonicValid(m)
			w.EntropyFromMnemonic(m)
			if seeds {
				w.MnemonicToByteArray(m)
				w.MnemonicToByteArray(m, true)
				w.NewSeedWithErrorChecking(m, "")
				w.DeriveSeed(m, "")
			}
		}
		c.forLangs(func(lang string) {
			list := oracle.Lists[lang]
			full := c.Thorough() || lang == "czech" || lang == "japanese" || lang == "english"
			// every substitution of one word
			for li := 0; li < 5; li++ {
				base := oracle.Words(lang, latin(li, int(c.Seed)*31%2048))
				if !full && li > 0 {
					continue
				}
				c.Par(fmt.Sprintf("substitute-%s-%d", lang, len(base)), len(base)*2048, func(w *W, i int) {
					ws := append([]string{}, base...)
					ws[i/2048] = list[i%2048]
					m := strings.Join(ws, " ")
					w.IsMnemonicValid(m)
					if i%7 == 0 {
						w.EntropyFromMnemonic(m)
					}
				})
			}
			// every word of the list in spellings that somebody might be tempted to accept
			c.Par("spellings-"+lang, 2048, func(w *W, i int) {
				ws := oracle.Words(lang, latin(i%5, i))
				for _, x := range spellings(lang, ws[0]) {
					w.Feat("near-spelling")
					w.IsMnemonicValid(strings.Join(append([]string{x}, ws[1:]...), " "))
				}
			})
			c.Par("spellings-all-"+lang, c.N(60, 2048), func(w *W, i int) { // all words respelt, all operations
				ws := oracle.Words(lang, genEntropy(w.R, entLens[i%5]))
				k := i % len(spellings(lang, ws[0]))
				for j := range ws {
					if x := spellings(lang, ws[j]); k < len(x) {
						ws[j] = x[k]
					}
				}
				verdict(w, strings.Join(ws, " "), true)
			})
			c.Par("counts-"+lang, 61*4, func(w *W, i int) {
				n := i / 4
				ws := make([]string, n)
				e := oracle.Words(lang, make([]byte, 16))
				for j := range ws {
					ws[j] = list[w.R.Intn(2048)]
					if i%4 == 0 {
						ws[j] = list[0]
					}
					if i%4 == 1 {
						ws[j] = e[j%12]
					}
				}
				verdict(w, strings.Join(ws, " "), true)
			})
			many := append(sizes(61, c.N(70000, 1<<20)), 256+12, 256+24, 512+15, 1024+18, 65536+12, 65536+15, 65536+24)
			if full {
				c.Par("many-words-"+lang, len(many), func(w *W, i int) {
					ws := make([]string, many[i])
					e := oracle.Words(lang, genEntropy(w.R, entLens[i%5]))
					for j := range ws {
						ws[j] = e[j%len(e)]
					}
					verdict(w, strings.Join(ws, " "), true)
				})
			}
			c.Par("damage-"+lang, c.N(900, 40000), func(w *W, i int) {
				r := w.R
				ws := oracle.Words(lang, genEntropy(r, entLens[r.Intn(5)]))
				m := damage(r, lang, ws)
				verdict(w, m, true)
			})
		})
		c.mixed(c.N(60, 2000))
	}

	props["B04"] = func(c *Check) {
		c.Rule = "seeds against an independent PBKDF2-HMAC-SHA512: raw texts of every length around the hash block size, all lists, passphrases and sentences up to 256 KiB (8 MiB thorough) around powers of two and ten, including NUL, non-ASCII and invalid UTF-8, and pairs with equal concatenation; plus the recorded non-NFKD inputs; non-trivial: distinct (operation, sentence, passphrase)"
		c.Require = []string{"sentence-longer-than-hash-block", "sentence-shorter-than-hash-block", "empty-passphrase", "long-passphrase", "non-ascii-passphrase", "checked-seed", "hex-seed", "not-nfkd", "passphrase-or-sentence-above-300-bytes"}
		initNFKD()
		monB04(c)
		c.forLangs(func(lang string) {
			c.Par("valid-"+lang, c.N(300, 6000), func(w *W, i int) {
				r := w.R
				m := oracle.Sentence(lang, genEntropy(r, entLens[i%5]))
				if !stable(m) {
					return
				}
				p := kinPass(r, m, genStablePass(r))
				switch i % 3 {
				case 0:
					w.NewSeedWithErrorChecking(m, p)
				case 1:
					w.DeriveSeed(m, p)
				default:
					w.Bip39Seed(m, p)
				}
				// same sentence, neighbouring passphrases; same passphrase, neighbouring sentence
				if i%4 == 0 {
					w.NewSeedWithErrorChecking(m, p+"x")
					w.DeriveSeed(m, "x"+p)
					w.Bip39Seed(m, "")
					w.NewSeedWithErrorChecking(m, p)
				}
			})
		})
		c.Par("raw", c.N(900, 30000), func(w *W, i int) {
			r := w.R
			m := string(rbytesASCII(r, dictLen(r, i%300, 1<<16)))
			if s, ok := dictStr(r); ok {
				m = s
			}
			if r.Intn(4) == 0 {
				m = string(rbytes(r, r.Intn(200)))
			}
			if !stable(m) {
				m = ""
			}
			w.Bip39Seed(m, kinPass(r, m, genStablePass(r)))
		})
		c.Par("concat", c.N(120, 2000), func(w *W, i int) {
			s := string(rbytesASCII(w.R, 20+w.R.Intn(200)))
			k := 1 + w.R.Intn(len(s)-1)
			w.Bip39Seed(s[:k], s[k:])
			w.Bip39Seed(s[:k-1], s[k-1:])
			w.Bip39Seed(s, "")
			w.Bip39Seed("", s)
			w.Bip39Seed(strings.ToUpper(s), "")
		})
		c.Par("boundary", 330, func(w *W, i int) { // every password and salt length around the block size
			w.Bip39Seed(strings.Repeat("a", i), "")
			w.Bip39Seed("abandon", strings.Repeat("b", i))
		})
		szs := sizes(300, c.N(1<<18, 1<<23)+1)
		c.Par("big", len(szs), func(w *W, i int) { // the bytes at the very end count too
			x := rbytesASCII(w.R, szs[i])
			m := oracle.Sentence("english", genEntropy(w.R, entLens[i%5]))
			switch i % 4 {
			case 0:
				w.NewSeedWithErrorChecking(m, string(x))
			case 1:
				w.DeriveSeed(m, string(x))
			case 2:
				w.Bip39Seed(m, string(x))
			}
			w.Bip39Seed(string(x), "")
			x[len(x)-1] ^= 1
			w.Bip39Seed(m, string(x))
			w.Feat("passphrase-or-sentence-above-300-bytes")
		})
		var ids []string
		for id := range nfkdCases {
			ids = append(ids, id)
		}
		c.Seqn("non-nfkd", 1, func(w *W, i int) {
			for _, id := range ids {
				w.Bip39Seed(nfkdCases[id][0], nfkdCases[id][1])
			}
		})
		c.mixed(c.N(60, 2000))
	}

	props["B05"] = func(c *Check) {
		c.Rule = "accepted sentences rewritten with leading, trailing, repeated, ASCII and Unicode white space; every output compared with that of the single-space form; non-trivial: distinct non-canonical layouts per operation"
		c.Require = []string{"layout-EntropyFromMnemonic", "layout-MnemonicToByteArray", "layout-MnemonicToByteArrayRaw", "layout-NewSeedWithErrorChecking", "layout-DeriveSeedFromMnemonic"}
		monB05(c)
		c.forLangs(func(lang string) {
			c.Par("layouts-"+lang, c.N(220, 10000), func(w *W, i int) {
				r := w.R
				ws := oracle.Words(lang, genEntropy(r, entLens[i%5]))
				m := joinWS(r, ws)
				w.EntropyFromMnemonic(m)
				w.MnemonicToByteArray(m)
				w.MnemonicToByteArray(m, true)
				p := kinPass(r, m, genStablePass(r))
				w.NewSeedWithErrorChecking(m, p)
				w.DeriveSeed(m, p)
				if i%5 == 0 { // passphrases keep their own white space
					w.NewSeedWithErrorChecking(m, " "+p+" ")
					w.DeriveSeed(m, "a  b")
				}
				// byte arrays are cheap: many more layouts
				for j := 0; j < 12; j++ {
					m2 := joinWS(r, ws)
					w.MnemonicToByteArray(m2)
					w.EntropyFromMnemonic(m2)
				}
			})
		})
		c.Par("lengths", 400, func(w *W, i int) { // very long runs of white space
			ws := oracle.Words("english", genEntropy(w.R, entLens[i%5]))
			m := strings.Join(ws, strings.Repeat(" ", 1+i))
			w.MnemonicToByteArray(m)
			w.MnemonicToByteArray(m, true)
			w.EntropyFromMnemonic(strings.Repeat("\n", i) + strings.Join(ws, "\t"))
			w.MnemonicToByteArray(strings.Repeat(" ", i) + strings.Join(ws, " ") + strings.Repeat(" ", i%7))
		})
		szs := sizes(400, c.N(1<<18, 1<<22))
		c.Par("big", len(szs)*3, func(w *W, i int) {
			ws := oracle.Words("english", genEntropy(w.R, entLens[i%5]))
			n := szs[i/3]
			gap := strings.Repeat(pick(w.R, " ", "\n", "\t", "\u3000"), n)
			var m string
			switch i % 3 {
			case 0:
				m = gap + strings.Join(ws, " ")
			case 1:
				m = strings.Join(ws, " ") + gap
			default:
				k := 1 + w.R.Intn(len(ws)-1)
				m = strings.Join(ws[:k], " ") + gap + strings.Join(ws[k:], "\t")
			}
			w.EntropyFromMnemonic(m)
			w.MnemonicToByteArray(m)
			w.MnemonicToByteArray(m, true)
			w.NewSeedWithErrorChecking(m, "p")
			w.DeriveSeed(m, "p")
		})
		c.mixed(c.N(40, 1000))
	}

	props["B08"] = func(c *Check) {
		c.Rule = "random sequences of list selections (shipped lists, and permutations of them as custom lists) each followed by lookups, encodings and decodings, including words and whole sentences shared by several lists; non-trivial: distinct (operation, list, argument)"
		c.Require = []string{"own-word", "foreign-word", "decoded", "refused", "shared-sentence", "list-changed-by-caller"}
		monB08(c)
		// exhaustive lookup of all words of all lists under each list
		c.forLangs(func(lang string) {
			c.Par("lookup-"+lang, len(oracle.Langs)*64, func(w *W, i int) {
				l := oracle.Lists[oracle.Langs[i/64]]
				for j := i % 64; j < 2048; j += 64 {
					w.GetWordIndex(l[j])
				}
				if i == 0 {
					w.GetWordList()
					for _, x := range []string{"", " ", "abandon ", "ABANDON", "aban", "\xff", "0"} {
						w.GetWordIndex(x)
					}
				}
			})
		})
		c.switching(c.N(400, 6000))
		c.collisions()
	}
}

// spellings of a word that differ from it.
func spellings(lang, x string) (out []string) {
	rs := []rune(x)
	kana := func(d rune) string {
		return strings.Map(func(r rune) rune {
			if r >= 0x3041 && r <= 0x3096 {
				return r + d
			}
			return r
		}, x)
	}
	bare := strings.Map(func(r rune) rune { // without accents
		if unicode.Is(unicode.Mn, r) {
			return -1
		}
		return r
	}, x)
	prefix := x
	if len(rs) > 4 {
		prefix = string(rs[:4])
	}
	i, _ := oracle.WordIndex(lang, x)
	other := map[string]string{"chinese_simplified": "chinese_traditional", "chinese_traditional": "chinese_simplified"}[lang]
	twin := x
	if other != "" {
		twin = oracle.Lists[other][i]
	}
	for _, v := range []string{strings.ToUpper(x), strings.Title(x), nfc(x), bare, prefix, string(rs[:len(rs)-1]), x + "s", x + "\u200b", "\ufeff" + x, "\u2060" + x, x + ".", x + ",", `"` + x + `"`,
		"1." + x, x + "\x00", x + "\u0301", kana(0x60), twin, fmt.Sprint(i), fmt.Sprint(i + 1), strings.ReplaceAll(x, "o", "0"), strings.ReplaceAll(x, "l", "1"), wide(x), x + x, x[:len(x)-1], "\xff" + x} {
		if v != x && v != "" {
			out = append(out, v)
		}
	}
	return
}

// wide spells ASCII letters in their full-width forms.
func wide(x string) string {
	return strings.Map(func(r rune) rune {
		if r > 32 && r < 127 {
			return r + 0xfee0
		}
		return r
	}, x)
}

// damage turns words into text that is usually not a valid sentence.
func damage(r *rand.Rand, lang string, ws []string) string {
	ws = append([]string{}, ws...)
	list := oracle.Lists[lang]
	switch r.Intn(19) {
	case 18: // a numbered list
		f := pick(r, "%d. %s", "%d %s", "%d)%s", "%d.%s", "(%d) %s", "%02d: %s", "#%d %s", "%d\t%s", "- %.0d%s", "* %.0d%s")
		for k := range ws {
			ws[k] = fmt.Sprintf(f, k+r.Intn(2), ws[k])
		}
	case 16:
		return foreignText(r, lang)
	case 17:
		return wrapText(r, strings.Join(ws, " "))
	case 0:
		i, j := r.Intn(len(ws)), r.Intn(len(ws))
		ws[i], ws[j] = ws[j], ws[i]
	case 1:
		k := r.Intn(len(ws))
		ws = append(ws[k:], ws[:k]...)
	case 2:
		k := r.Intn(len(ws))
		ws = append(ws[:k], ws[k+1:]...)
	case 3:
		k := r.Intn(len(ws) + 1)
		ws = append(ws[:k], append([]string{list[r.Intn(2048)]}, ws[k:]...)...)
	case 4:
		k := r.Intn(len(ws))
		ws[k] = pick(r, strings.ToUpper(ws[k]), strings.Title(ws[k]), ws[k]+"s", ws[k][:len(ws[k])-1], ws[k]+"\u200b", "\ufeff"+ws[k], ws[k]+".", ws[k]+"\x00", "", ws[k]+ws[k])
	case 5: // first four letters
		for k := range ws {
			if rs := []rune(ws[k]); len(rs) > 4 {
				ws[k] = string(rs[:4])
			}
		}
	case 6: // composed form
		k := r.Intn(len(ws))
		ws[k] = nfc(ws[k])
	case 7:
		k := r.Intn(len(ws))
		ws[k] = oracle.Lists[oracle.Langs[r.Intn(10)]][r.Intn(2048)]
	case 8:
		return strings.Join(ws, pick(r, "", ",", "-", "_", "\u200b", "\x00", "/", " , "))
	case 9: // three words more or fewer
		if r.Intn(2) == 0 {
			ws = ws[:len(ws)-3]
		} else {
			ws = append(ws, ws[:3]...)
		}
	case 10:
		return string(rbytes(r, r.Intn(200)))
	case 11: // last word only
		ws[len(ws)-1] = list[r.Intn(2048)]
	case 12: // the neighbouring word
		k := r.Intn(len(ws))
		i, _ := oracle.WordIndex(lang, ws[k])
		ws[k] = list[(i+1)%2048]
	case 13:
		k := r.Intn(len(ws))
		for i := range ws {
			ws[i] = ws[k]
		}
	case 14: // the same sentence in another list's words
		o := oracle.Lists[oracle.Langs[r.Intn(10)]]
		for k := range ws {
			i, _ := oracle.WordIndex(lang, ws[k])
			ws[k] = o[i]
		}
	}
	return strings.Join(ws, " ")
}

// sharedWords of two lists.
func sharedWords(a, b string) (out []string) {
	for _, x := range oracle.Lists[a] {
		if _, ok := oracle.WordIndex(b, x); ok {
			out = append(out, x)
		}
	}
	return
}

// sharedSentence makes a 12-word sentence valid under list a whose words are all in list b too.
func sharedSentence(r *rand.Rand, a, b string, common []string) (string, bool) {
	if len(common) < 16 {
		return "", false
	}
	ws := make([]string, 12)
	for try := 0; try < 4; try++ {
		for i := range ws {
			ws[i] = common[r.Intn(len(common))]
		}
		off := r.Intn(len(common))
		for k := range common {
			ws[11] = common[(off+k)%len(common)]
			m := strings.Join(ws, " ")
			if _, ok := oracle.Decode(a, m); ok {
				return m, true
			}
		}
	}
	return "", false
}

// switching runs long histories of list selections; it is one goroutine because the selection is package-wide.
func (c *Check) switching(n int) {
	pairs := [][2]string{{"chinese_simplified", "chinese_traditional"}, {"english", "french"}, {"chinese_traditional", "chinese_simplified"}, {"french", "english"}}
	common := map[[2]string][]string{}
	for _, p := range pairs {
		common[p] = sharedWords(p[0], p[1])
	}
	var history []string
	c.Seqn("switching", n, func(w *W, i int) {
		r := w.R
		if r.Intn(3) == 0 {
			p := pairs[r.Intn(len(pairs))]
			if m, ok := sharedSentence(r, p[0], p[1], common[p]); ok {
				w.Feat("shared-sentence")
				for _, l := range []string{p[0], p[1], p[0]} {
					w.SetWordList(l)
					w.IsMnemonicValid(m)
					w.EntropyFromMnemonic(m)
					w.MnemonicToByteArray(m, true)
					w.MnemonicToByteArray(m)
					w.GetWordIndex(common[p][r.Intn(len(common[p]))])
				}
			}
		}
		lang := oracle.Langs[r.Intn(len(oracle.Langs))]
		if i%4 == 3 {
			lang = c.customList(r)
		}
		if i%5 == 2 {
			// the caller changes the words of a list it had set, and sets it again
			lang = c.changedList(w, r, i)
		}
		w.SetWordList(lang)
		if r.Intn(4) == 0 {
			w.GetWordList()
		}
		e := genEntropy(r, entLens[r.Intn(5)])
		m, _ := w.NewMnemonic(e)
		w.EntropyFromMnemonic(m)
		w.MnemonicToByteArray(m, true)
		history = append(history, m, oracle.Sentence(lang, e))
		for k := 0; k < 6; k++ {
			l := oracle.Langs[r.Intn(10)]
			w.GetWordIndex(oracle.Lists[l][r.Intn(2048)])
			w.GetWordIndex(oracle.Lists[lang][r.Intn(2048)])
		}
		for k := 0; k < 4; k++ { // sentences of earlier lists
			h := history[r.Intn(len(history))]
			w.IsMnemonicValid(h)
			w.EntropyFromMnemonic(h)
		}
		// encode the same entropy again under yet another list
		l2 := oracle.Langs[r.Intn(10)]
		w.SetWordList(l2)
		w.NewMnemonic(e)
		w.EntropyFromMnemonic(oracle.Sentence(l2, e))
		w.EntropyFromMnemonic(m)
		w.GetWordIndex(oracle.Lists[lang][r.Intn(2048)])
	})
	c.selectLang("english")
}

var changing []string // the slice that changedList sets again and again

// changedList gives the caller's own slice other words, sometimes while it is the selected list.
var changingIs string // the registered name of what it holds now

func (c *Check) changedList(w *W, r *rand.Rand, i int) string {
	name := fmt.Sprintf("changed%d", i)
	if changing == nil {
		changing = append([]string{}, oracle.Lists["english"]...)
	}
	if oracle.Lists["changed-first"] == nil {
		oracle.Register("changed-first", append([]string{}, changing...))
		shipped["changed-first"] = &changing
		w.SetWordList("changed-first")
		w.GetWordIndex("zoo")
	}
	if changingIs != "" && r.Intn(3) > 0 { // it was the selected list a moment ago
		w.SetWordList(changingIs)
		w.GetWordIndex(changing[r.Intn(2048)])
		for k := r.Intn(3); k > 0; k-- {
			l := pick(r, "french", "english", "spanish", "korean")
			w.SetWordList(l)
			w.GetWordIndex(oracle.Lists[l][r.Intn(2048)])
		}
	}
	changingIs = name
	if r.Intn(2) == 0 {
		l := oracle.Lists[pick(r, "english", "french", "italian", "korean", "chinese_simplified")]
		copy(changing, l)
	}
	switch r.Intn(3) {
	case 0:
		r.Shuffle(2048, func(a, b int) { changing[a], changing[b] = changing[b], changing[a] })
	case 1: // ends unchanged
		r.Shuffle(2046, func(a, b int) { changing[a+1], changing[b+1] = changing[b+1], changing[a+1] })
	}
	oracle.Register(name, append([]string{}, changing...))
	shipped[name] = &changing
	w.Feat("list-changed-by-caller")
	return name
}

// customList registers a permutation of a shipped list as a list of its own.
func (c *Check) customList(r *rand.Rand) string {
	name := fmt.Sprintf("custom%d", r.Intn(6))
	if oracle.Lists[name] == nil {
		base := oracle.Lists[pick(r, "english", "english", "italian", "korean")]
		l := append([]string{}, base...)
		switch (len(name) + int(name[len(name)-1])) % 5 {
		case 0: // same first and last words
			r.Shuffle(2046, func(i, j int) { l[i+1], l[j+1] = l[j+1], l[i+1] })
		case 1:
			for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
				l[i], l[j] = l[j], l[i]
			}
		case 2:
			k := r.Intn(2047)
			l[k], l[k+1] = l[k+1], l[k]
		case 4: // words of unusual lengths
			for i := range l {
				switch {
				case i%3 == 0:
					l[i] = fmt.Sprint(i) // digits
				case i%97 == 1 || i == 2047:
					l[i] = fmt.Sprintf("w%d", i) + strings.Repeat("x", pick(r, 10, 30, 50, 60, 120, 250, 300))
				}
			}
			l[0] = "w" + strings.Repeat("a", pick(r, 20, 40, 80, 255))
		case 3: // words that differ in case, accents, length or script only
			for i := range l {
				switch i % 7 {
				case 1:
					l[i] = strings.ToUpper(l[i-1])
				case 2:
					l[i] = strings.Title(l[i])
				case 3:
					l[i] = wide(l[i-1])
				case 4:
					l[i] = l[i-1][:len(l[i-1])-1] + "\u00e9"
				case 5:
					l[i] = l[i] + l[i-1]
				}
			}
			seen := map[string]bool{}
			for i := range l {
				for seen[l[i]] {
					l[i] += "x"
				}
				seen[l[i]] = true
			}
		}
		oracle.Register(name, l)
		own := append([]string{}, l...)
		shipped[name] = &own
	}
	return name
}

var _ = wordlists.English
