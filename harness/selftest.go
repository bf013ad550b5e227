package main

import (
	"fmt"

	"verifharness/oracle"
)

// selfTest checks the oracle against published vectors before it judges anything.
func selfTest() error {
	const H = 0x80000000
	cases := []struct {
		seed     string
		idx      []uint32
		prv, pub string
	}{
		{"000102030405060708090a0b0c0d0e0f", nil, "xprv9s21ZrQH143K3QTDL4LXw2F7HEK3wJUD2nW2nRk4stbPy6cq3jPPqjiChkVvvNKmPGJxWUtg6LnF5kejMRNNU3TGtRBeJgk33yuGBxrMPHi", "xpub661MyMwAqRbcFtXgS5sYJABqqG9YLmC4Q1Rdap9gSE8NqtwybGhePY2gZ29ESFjqJoCu1Rupje8YtGqsefD265TMg7usUDFdp6W1EGMcet8"},
		{"000102030405060708090a0b0c0d0e0f", []uint32{H, 1, H + 2, 2, 1000000000}, "xprvA41z7zogVVwxVSgdKUHDy1SKmdb533PjDz7J6N6mV6uS3ze1ai8FHa8kmHScGpWmj4WggLyQjgPie1rFSruoUihUZREPSL39UNdE3BBDu76", "xpub6H1LXWLaKsWFhvm6RVpEL9P4KfRZSW7abD2ttkWP3SSQvnyA8FSVqNTEcYFgJS2UaFcxupHiYkro49S8yGasTvXEYBVPamhGW6cFJodrTHy"},
		{"fffcf9f6f3f0edeae7e4e1dedbd8d5d2cfccc9c6c3c0bdbab7b4b1aeaba8a5a29f9c999693908d8a8784817e7b7875726f6c696663605d5a5754514e4b484542", []uint32{0, H + 2147483647, 1, H + 2147483646, 2}, "xprvA2nrNbFZABcdryreWet9Ea4LvTJcGsqrMzxHx98MMrotbir7yrKCEXw7nadnHM8Dq38EGfSh6dqA9QWTyefMLEcBYJUuekgW4BYPJcr9E7j", "xpub6FnCn6nSzZAw5Tw7cgR9bi15UV96gLZhjDstkXXxvCLsUXBGXPdSnLFbdpq8p9HmGsApME5hQTZ3emM2rnY5agb9rXpVGyy3bdW6EEgAtqt"},
		{"4b381541583be4423346c643850da4b320e46a87ae3d2a4e6da11eba819cd4acba45d239319ac14f863b8d5ab5a0d0c64d2e8a1e7d1457df2e5a3c51c73235be", []uint32{H}, "xprv9uPDJpEQgRQfDcW7BkF7eTya6RPxXeJCqCJGHuCJ4GiRVLzkTXBAJMu2qaMWPrS7AANYqdq6vcBcBUdJCVVFceUvJFjaPdGZ2y9WACViL4L", "xpub68NZiKmJWnxxS6aaHmn81bvJeTESw724CRDs6HbuccFQN9Ku14VQrADWgqbhhTHBaohPX4CjNLf9fq9MYo6oDaPPLPxSb7gwQN3ih19Zm4Y"},
	}
	for _, t := range cases {
		b, _ := oracle.UnHex(t.seed)
		k, ok := oracle.Master(b)
		if !ok {
			return fmt.Errorf("master of %s", t.seed)
		}
		for _, i := range t.idx {
			if k, _, ok = oracle.CKD(k, i); !ok {
				return fmt.Errorf("child %d", i)
			}
		}
		if s := oracle.B58Encode(oracle.Serialize(k)); s != t.prv {
			return fmt.Errorf("private key %s is not %s", s, t.prv)
		}
		if s := oracle.B58Encode(oracle.Serialize(oracle.PubForm(k))); s != t.pub {
			return fmt.Errorf("public key %s is not %s", s, t.pub)
		}
		if d, ok := oracle.B58Decode(t.pub); !ok || oracle.Hex(d) != oracle.Hex(oracle.Serialize(oracle.PubForm(k))) {
			return fmt.Errorf("decoding %s", t.pub)
		}
	}
	for _, t := range []struct{ ent, sent, seed string }{
		{"00000000000000000000000000000000", "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about", "c55257c360c07c72029aebc1b53c05ed0362ada38ead3e3e9efa3708e53495531f09a6987599d18264c1e1c92f2cf141630c7a3c4ab7c81b2f001698e7463b04"},
		{"7f7f7f7f7f7f7f7f7f7f7f7f7f7f7f7f", "legal winner thank year wave sausage worth useful legal winner thank yellow", "2e8905819b8723fe2c1d161860e5ee1830318dbf49a83bd451cfb8440c28bd6fa457fe1296106559a3c80937a1c1069be3a3a5bd381ee6260e8d9739fce1f607"},
		{"ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo vote", "dd48c104698c30cfe2b6142103248622fb7bb0ff692eebb00089b32d22484e1613912f0a5b694407be899ffd31ed3992c456cdf60f5d4564b8ba3f05a69890ad"},
	} {
		e, _ := oracle.UnHex(t.ent)
		if s := oracle.Sentence("english", e); s != t.sent {
			return fmt.Errorf("sentence %q", s)
		}
		if d, ok := oracle.Decode("english", t.sent); !ok || oracle.Hex(d) != t.ent {
			return fmt.Errorf("decode %q", t.sent)
		}
		if s := oracle.Hex(oracle.Seed(t.sent, "TREZOR")); s != t.seed {
			return fmt.Errorf("seed %s", s)
		}
	}
	// Ethereum address of private key 1 and Bitcoin address of the generator point.
	one := oracle.MulG(bigInt(1))
	if a := oracle.EthAddr(one); a != "7e5f4552091a69125d5dfcb7b8c2659029395bdf" {
		return fmt.Errorf("ethereum address %s", a)
	}
	g := oracle.Compress(one)
	if a := oracle.B58Addr(0, g[:]); a != "1BgGZ9tcN4rm9KBzDn7KprQz87SZ26SAMH" {
		return fmt.Errorf("bitcoin address %s", a)
	}
	return nil
}
