package oracle

import (
	"math/big"
	"strconv"
	"strings"
)

// StripWS removes ASCII white space (what the path format ignores).
func StripWS(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case ' ', '\t', '\n', '\r', '\f':
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

// ParsePath returns the indices (root excluded) the text denotes.
func ParsePath(text string) ([]uint32, bool) {
	s := StripWS(text)
	if s == "" || (s[0] != 'm' && s[0] != 'M') {
		return nil, false
	}
	s = s[1:]
	var out []uint32
	for s != "" {
		if s[0] != '/' {
			return nil, false
		}
		s = s[1:]
		n := 0
		for n < len(s) && s[n] >= '0' && s[n] <= '9' {
			n++
		}
		if n == 0 {
			return nil, false
		}
		v, _ := new(big.Int).SetString(s[:n], 10)
		s = s[n:]
		hard := false
		if s != "" && s[0] == '\'' {
			hard = true
			s = s[1:]
		}
		lim := new(big.Int).Lsh(big.NewInt(1), 32)
		if hard {
			lim.Rsh(lim, 1)
		}
		if v.Cmp(lim) >= 0 {
			return nil, false
		}
		u := uint32(v.Uint64())
		if hard {
			u += 1 << 31
		}
		out = append(out, u)
	}
	return out, true
}

// Comp is the canonical text of one index.
func Comp(v uint32) string {
	if v >= 1<<31 {
		return strconv.FormatUint(uint64(v-1<<31), 10) + "'"
	}
	return strconv.FormatUint(uint64(v), 10)
}

// PathText is the canonical text of a list of indices.
func PathText(vals []uint32) string {
	s := "m"
	for _, v := range vals {
		s += "/" + Comp(v)
	}
	return s
}
