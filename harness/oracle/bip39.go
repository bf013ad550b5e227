package oracle

import (
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"embed"
	"fmt"
	"strings"
	"unicode"

	"golang.org/x/text/unicode/norm"
)

//go:embed data/*.txt
var dataFS embed.FS

// Langs are the shipped languages.
var Langs = []string{"chinese_simplified", "chinese_traditional", "czech", "english", "french", "italian", "japanese", "korean", "portuguese", "spanish"}

// Lists holds this package's own copies of the published word lists.
var Lists = map[string][]string{}
var index = map[string]map[string]int{}

func init() {
	for _, l := range Langs {
		b, err := dataFS.ReadFile("data/" + l + ".txt")
		if err != nil {
			panic(err)
		}
		w := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
		if len(w) != 2048 {
			panic(l)
		}
		Lists[l] = w
		m := map[string]int{}
		for i, x := range w {
			m[x] = i
		}
		if len(m) != 2048 {
			panic(l)
		}
		index[l] = m
	}
}

func WordIndex(lang, w string) (int, bool) { i, ok := index[lang][w]; return i, ok }

func bits(b []byte) string {
	var sb strings.Builder
	for _, c := range b {
		fmt.Fprintf(&sb, "%08b", c)
	}
	return sb.String()
}

func EntropyLenOK(n int) bool { return n == 16 || n == 20 || n == 24 || n == 28 || n == 32 }

func checksumBits(e []byte) string {
	h := sha256.Sum256(e)
	return bits(h[:])[:len(e)*8/32]
}

// Words encodes entropy of legal length.
func Words(lang string, e []byte) []string {
	s := bits(e) + checksumBits(e)
	var out []string
	for i := 0; i < len(s); i += 11 {
		v := 0
		for _, c := range s[i : i+11] {
			v = v<<1 | int(c-'0')
		}
		out = append(out, Lists[lang][v])
	}
	return out
}

func Sentence(lang string, e []byte) string { return strings.Join(Words(lang, e), " ") }

// Decode applies the BIP-39 acceptance rule to the words of the sentence (split at Unicode white space).
func Decode(lang, sentence string) ([]byte, bool) {
	ws := strings.FieldsFunc(sentence, unicode.IsSpace)
	switch len(ws) {
	case 12, 15, 18, 21, 24:
	default:
		return nil, false
	}
	var sb strings.Builder
	for _, w := range ws {
		i, ok := index[lang][w]
		if !ok {
			return nil, false
		}
		fmt.Fprintf(&sb, "%011b", i)
	}
	s := sb.String()
	nb := len(s) * 32 / 33
	e := make([]byte, nb/8)
	for i := range e {
		for _, c := range s[8*i : 8*i+8] {
			e[i] = e[i]<<1 | byte(c-'0')
		}
	}
	return e, checksumBits(e) == s[nb:]
}

// ByteArray is entropy bits || checksum bits as a fixed-width big-endian number.
func ByteArray(e []byte) []byte {
	s := bits(e) + checksumBits(e)
	n := len(e) + 1
	s = strings.Repeat("0", n*8-len(s)) + s
	out := make([]byte, n)
	for i := range out {
		for _, c := range s[8*i : 8*i+8] {
			out[i] = out[i]<<1 | byte(c-'0')
		}
	}
	return out
}

// PBKDF2 is PBKDF2-HMAC-SHA512 with a 64-byte output (one block).
func PBKDF2(password, salt []byte, rounds int) []byte {
	h := hmac.New(sha512.New, password)
	h.Write(salt)
	h.Write([]byte{0, 0, 0, 1})
	u := h.Sum(nil)
	out := append([]byte{}, u...)
	for r := 1; r < rounds; r++ {
		h.Reset()
		h.Write(u)
		u = h.Sum(u[:0])
		for i := range out {
			out[i] ^= u[i]
		}
	}
	return out
}

func NFKD(s string) string { return norm.NFKD.String(s) }

func Seed(sentence, pass string) []byte {
	return PBKDF2([]byte(NFKD(sentence)), []byte("mnemonic"+NFKD(pass)), 2048)
}

// RawSeed is Seed without Unicode normalization.
func RawSeed(sentence, pass string) []byte {
	return PBKDF2([]byte(sentence), []byte("mnemonic"+pass), 2048)
}

// Canonical joins the words by single spaces.
func Canonical(s string) string { return strings.Join(strings.FieldsFunc(s, unicode.IsSpace), " ") }

// Register adds a list.
func Register(name string, w []string) {
	Lists[name] = w
	m := map[string]int{}
	for i, x := range w {
		m[x] = i
	}
	index[name] = m
}
