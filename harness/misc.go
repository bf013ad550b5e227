package main

import (
	"math/big"

	"golang.org/x/text/unicode/norm"
)

func nfc(s string) string { return norm.NFC.String(s) }

// initNFKD lists the inputs that are not in NFKD form and are recorded as known findings when the library seeds them raw.
func initNFKD() {
	en := "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about"
	es := "ábaco ábaco ábaco ábaco ábaco ábaco ábaco ábaco ábaco ábaco ábaco abierto"
	for id, x := range map[string][2]string{
		"composed-acute":   {en, "caf\u00e9"},
		"composed-umlaut":  {en, "M\u00fcller"},
		"ligature":         {en, "\ufb01sh"},
		"fullwidth":        {en, "\uff34\uff32\uff25\uff3a\uff2f\uff32"},
		"kana-voiced":      {en, "\u30ac\u3071\u3048"},
		"hangul":           {en, "\ud55c\uae00"},
		"angstrom":         {en, "\u212b"},
		"nbsp":             {en, "a\u00a0b"},
		"bip39-jp-vector":  {en, "㍍ガバヴァぱばぐゞちぢ十人十色"},
		"mark-order":       {en, "q\u0307\u0323"},
		"sentence-es-nfc":  {nfc(es), ""},
		"sentence-ideospc": {"あいこくしん\u3000あいこくしん", ""},
	} {
		nfkdCases[id] = x
	}
}

func bigInt(x int64) *big.Int { return big.NewInt(x) }

func new2(b []byte) *big.Int { return new(big.Int).SetBytes(b) }
