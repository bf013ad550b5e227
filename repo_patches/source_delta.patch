From 013d5aaa0df685e599af9ef97e5776d60f4cdb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:55 +0000
Subject: [PATCH 01/18] fix: AddrHex hashes each coordinate as 32 bytes

A coordinate with a leading zero byte was hashed short, which gave a wrong
Ethereum address for about one key in 128.
---
 util/key_path.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/key_path.go b/util/key_path.go
index 3795f01..6b1ce85 100644
--- a/util/key_path.go
+++ b/util/key_path.go
@@ -19,7 +19,10 @@ func (b KeyPath) AddrHex() string {
 		return ""
 	}
 	x, y := bip32.ExpandPublicKey(pbs)
-	addrBs := append(x.Bytes(), y.Bytes()...)
+	// each coordinate is hashed as 32 bytes, leading zeros included
+	addrBs := make([]byte, 64)
+	x.FillBytes(addrBs[:32])
+	y.FillBytes(addrBs[32:])
 	kckHash := sha3.NewLegacyKeccak256()
 	kckHash.Write(addrBs)
 	return hex.EncodeToString(kckHash.Sum(nil)[12:])
-- 
2.43.0


From 54453742bd4c28f7db51a3a9a30f9e9dccce148b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:57 +0000
Subject: [PATCH 02/18] fix: refuse path indexes that do not fit 32 bits

They were truncated silently, so m/4294967296 was the same path as m/0.
---
 bip32/path.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bip32/path.go b/bip32/path.go
index 691e40a..69a58b9 100644
--- a/bip32/path.go
+++ b/bip32/path.go
@@ -55,7 +55,7 @@ func (p Path) ValuesAtDepth() ([]uint32, error) {
 		isHardened := strings.Contains(s, "'")
 		if isHardened {
 			fmtStr := strings.ReplaceAll(s, "'", "")
-			val, err := strconv.Atoi(fmtStr)
+			val, err := strconv.ParseUint(fmtStr, 10, 32)
 			if err != nil {
 				return pathArr, err
 			}
@@ -64,7 +64,7 @@ func (p Path) ValuesAtDepth() ([]uint32, error) {
 			}
 			pathArr = append(pathArr, uint32(val)+FirstHardenedChild)
 		} else {
-			val, err := strconv.Atoi(s)
+			val, err := strconv.ParseUint(s, 10, 32)
 			if err != nil {
 				return pathArr, err
 			}
-- 
2.43.0


From 71b244408461d8169854f4458440c9eddcd4161b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:10 +0000
Subject: [PATCH 03/18] fix: compare path levels without wrapping at 256 values

byte(len(vals)) wraps, so levels of a path with 255 or more components were
reported as missing.
---
 bip32/path.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bip32/path.go b/bip32/path.go
index 69a58b9..bf34600 100644
--- a/bip32/path.go
+++ b/bip32/path.go
@@ -83,7 +83,7 @@ func (p Path) ValueAtDepth(b byte) (uint32, error) {
 	if err != nil {
 		return 0, err
 	}
-	if !(b < byte(len(vals))) {
+	if int(b) >= len(vals) {
 		return 0, ErrUnSupportedOrInvalidPath
 	}
 	return vals[b], nil
@@ -94,7 +94,7 @@ func (p Path) ReplaceValueAtDepth(b byte, val uint32) (Path, error) {
 	if err != nil {
 		return newPath, err
 	}
-	if !(b < byte(len(vals))) {
+	if int(b) >= len(vals) {
 		return newPath, ErrUnSupportedOrInvalidPath
 	}
 	valsArr := strings.Split(newPath.String(), "/")
-- 
2.43.0


From a77abfe0c2ed0e54e27278086c736109b94efc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:12 +0000
Subject: [PATCH 04/18] fix: ReplaceValueAtDepth refuses level 0

Level 0 is the root itself; replacing it produced text that is no path.
---
 bip32/path.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bip32/path.go b/bip32/path.go
index bf34600..364a9f7 100644
--- a/bip32/path.go
+++ b/bip32/path.go
@@ -94,7 +94,8 @@ func (p Path) ReplaceValueAtDepth(b byte, val uint32) (Path, error) {
 	if err != nil {
 		return newPath, err
 	}
-	if int(b) >= len(vals) {
+	// level 0 is the root m, which has no value to replace
+	if b == 0 || int(b) >= len(vals) {
 		return newPath, ErrUnSupportedOrInvalidPath
 	}
 	valsArr := strings.Split(newPath.String(), "/")
-- 
2.43.0


From b59c9a58d85dbfcd70e50eb61841ebeef3b406d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 05/18] fix: accept hardened path components after plain ones

BIP-32 allows any order, and the library itself produces such paths
(DeriveBIP32Result on plain spellings of hardened indexes, GenerateRange,
ReplaceValueAtDepth), which it then called invalid.
---
 bip32/path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bip32/path.go b/bip32/path.go
index 364a9f7..c4366a0 100644
--- a/bip32/path.go
+++ b/bip32/path.go
@@ -19,7 +19,7 @@ var (
 // than or equal to FirstHardenedChild or if it's value is lesser but contains apostrophe(')
 type Path string
 
-var PathRegex = regexp.MustCompile(`^[mM](/\d+')*(/\d+)*$`)
+var PathRegex = regexp.MustCompile(`^[mM](/\d+'?)*$`)
 
 func (p Path) String() string {
 	reg := regexp.MustCompile(`\s`)
-- 
2.43.0


From b09326633675fa9511a4b9cc45b0a016e29dd81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 06/18] fix: report failed child derivations instead of
 returning empty keys

DeriveBIP32Result and GenerateRange dropped the error of NewChildKey and
returned all-zero or half-filled keys as a success.
---
 util/key_path.go | 6 +++++-
 util/util.go     | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/util/key_path.go b/util/key_path.go
index 6b1ce85..5596a22 100644
--- a/util/key_path.go
+++ b/util/key_path.go
@@ -98,7 +98,11 @@ func (k *KeyPathRange) GenerateRange() error {
 		if i >= bip32.FirstHardenedChild {
 			derivedPath += "'"
 		}
-		currentKey, _ = currentKey.NewChildKey(i)
+		var err error
+		currentKey, err = currentKey.NewChildKey(i)
+		if err != nil {
+			return err
+		}
 		keyPaths = append(keyPaths, KeyPath{
 			Path: Path(derivedPath).Formatted(),
 			Key:  currentKey,
diff --git a/util/util.go b/util/util.go
index 4e31e0f..838c200 100644
--- a/util/util.go
+++ b/util/util.go
@@ -116,7 +116,10 @@ func (g *Generator) DeriveBIP32Result(p bip32.Path) ([]KeyPath, error) {
 			if val >= bip32.FirstHardenedChild {
 				derivedPath += "'"
 			}
-			currentKey, _ = currentKey.NewChildKey(val)
+			currentKey, err = currentKey.NewChildKey(val)
+			if err != nil {
+				return nil, err
+			}
 			keyPaths = append(keyPaths, KeyPath{
 				Path: Path(derivedPath).Formatted(),
 				Key:  currentKey,
-- 
2.43.0


From 96d759f4bb1f024057577fde629c42d7d18567d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:43 +0000
Subject: [PATCH 07/18] fix: GenerateRange refuses inverted ranges

The unsigned difference of an inverted range is not below one, so the call
succeeded and discarded the earlier results.
---
 util/key_path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/key_path.go b/util/key_path.go
index 5596a22..5f385a7 100644
--- a/util/key_path.go
+++ b/util/key_path.go
@@ -80,7 +80,7 @@ func (k *KeyPathRange) GenerateRange() error {
 	startIndex := k.StartIndex
 	endIndex := k.EndIndex
 
-	if endIndex-startIndex < 1 {
+	if startIndex >= endIndex {
 		return ErrInvalidRangeProvided
 	}
 	if !k.Key.IsValid() {
-- 
2.43.0


From a29384cf537f3d1669e388ae96b15742343e1407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:44 +0000
Subject: [PATCH 08/18] fix: GenerateRange derives siblings, not a chain

Every entry was derived from the previous one, so a range of indexes gave
m/0, m/0/1, m/0/1/2 instead of the children 0, 1, 2 of the base key.
---
 util/key_path.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/util/key_path.go b/util/key_path.go
index 5f385a7..2c46c5a 100644
--- a/util/key_path.go
+++ b/util/key_path.go
@@ -90,22 +90,20 @@ func (k *KeyPathRange) GenerateRange() error {
 		return ErrUnSupportedOrInvalidPath
 	}
 
-	currentKey := k.Key
-	derivedPath := k.Path.String()
+	basePath := k.Path.String()
 	keyPaths := make([]KeyPath, 0)
 	for i := startIndex; i < endIndex; i++ {
-		derivedPath = fmt.Sprintf("%s/%d", derivedPath, i%bip32.FirstHardenedChild)
+		derivedPath := fmt.Sprintf("%s/%d", basePath, i%bip32.FirstHardenedChild)
 		if i >= bip32.FirstHardenedChild {
 			derivedPath += "'"
 		}
-		var err error
-		currentKey, err = currentKey.NewChildKey(i)
+		childKey, err := k.Key.NewChildKey(i)
 		if err != nil {
 			return err
 		}
 		keyPaths = append(keyPaths, KeyPath{
 			Path: Path(derivedPath).Formatted(),
-			Key:  currentKey,
+			Key:  childKey,
 		})
 	}
 	k.KeyPaths = keyPaths
-- 
2.43.0


From 6620a5f28264e829fb6297998fcb332cfbaa73b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 09/18] fix: refuse children of keys at depth 255

The depth wrapped to zero, so a deeply derived key looked like a master key.
---
 bip32/bip32.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bip32/bip32.go b/bip32/bip32.go
index 4e3c220..d8e4a76 100644
--- a/bip32/bip32.go
+++ b/bip32/bip32.go
@@ -72,6 +72,10 @@ var (
 	ErrInvalidPublicKey = errors.New("invalid public key")
 
 	ErrEmptyKey = errors.New("key is empty")
+
+	// ErrMaxDepthReached is returned when trying to create a child of a key
+	// at the largest depth a key can have
+	ErrMaxDepthReached = errors.New("can't create child beyond depth 255")
 )
 
 // NewMasterKey creates a new master extended key from a seed
@@ -111,6 +115,10 @@ func (key *Key) NewChildKey(childIdx uint32) (Key, error) {
 	if !key.IsPrivate() && childIdx >= FirstHardenedChild {
 		return childKey, ErrHardenedChildPublicKey
 	}
+	// the depth is one byte and must not wrap around to zero
+	if key[DepthStartIndex] == 255 {
+		return childKey, ErrMaxDepthReached
+	}
 	intermediary, err := key.getIntermediary(childIdx)
 	if err != nil {
 		return childKey, err
-- 
2.43.0


From 68a4ffe20b568fc91c8eb4e4f92a9272f954c205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:01 +0000
Subject: [PATCH 10/18] fix: Deserialize leaves the memory behind short data
 alone

---
 bip32/bip32.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/bip32/bip32.go b/bip32/bip32.go
index d8e4a76..eac8a6c 100644
--- a/bip32/bip32.go
+++ b/bip32/bip32.go
@@ -300,11 +300,10 @@ func (key *Key) IsValid() bool {
 // Deserialize a byte slice into a Key
 func Deserialize(data []byte) (Key, error) {
 	if len(data) != 82 {
-		if len(data) < 82 {
-			exData := make([]byte, 82-len(data))
-			data = append(data, exData...)
-		}
-		return Key(data[:78]), ErrSerializedKeyWrongSize
+		// copy, data may have spare capacity that belongs to the caller
+		var key Key
+		copy(key[:], data)
+		return key, ErrSerializedKeyWrongSize
 	}
 	// validate ChecksumDblSha256
 	cs1, err := ChecksumDblSha256(data[0 : len(data)-4])
-- 
2.43.0


From ae8bc309469964f5329dde73f704cc17d69345d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 11/18] fix: AddChecksumDblSha256ToBytes leaves the memory
 behind data alone

---
 bip32/utils.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bip32/utils.go b/bip32/utils.go
index 9881523..cdf0b8c 100644
--- a/bip32/utils.go
+++ b/bip32/utils.go
@@ -48,7 +48,10 @@ func AddChecksumDblSha256ToBytes(data []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	return append(data, checksum...), nil
+	// a new slice, data may have spare capacity that belongs to the caller
+	result := make([]byte, 0, len(data)+len(checksum))
+	result = append(result, data...)
+	return append(result, checksum...), nil
 }
 
 func ValidatePrivateKey(key PvtKeyBytes) error {
-- 
2.43.0


From 0523772cbec33d2ec2222e98eea318e3f5a10ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:05 +0000
Subject: [PATCH 12/18] fix: NewEntropy reports a failing random source

---
 bip39/bip39.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bip39/bip39.go b/bip39/bip39.go
index df29b82..3412f57 100644
--- a/bip39/bip39.go
+++ b/bip39/bip39.go
@@ -104,7 +104,9 @@ func NewEntropy(bitSize int) ([]byte, error) {
 	}
 
 	entropy := make([]byte, bitSize/8)
-	_, _ = rand.Read(entropy) // err is always nil
+	if _, err := rand.Read(entropy); err != nil {
+		return nil, err
+	}
 
 	return entropy, nil
 }
-- 
2.43.0


From 0eff1ee17dda0efa34ac4f03e77582c7e348a430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:06 +0000
Subject: [PATCH 13/18] fix: MnemonicToByteArray counts words the way they are
 split

---
 bip39/bip39.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bip39/bip39.go b/bip39/bip39.go
index 3412f57..188bf11 100644
--- a/bip39/bip39.go
+++ b/bip39/bip39.go
@@ -218,7 +218,7 @@ func NewMnemonic(entropy []byte) (string, error) {
 // An error is returned if the mnemonic is invalid.
 func MnemonicToByteArray(mnemonic string, raw ...bool) ([]byte, error) {
 	var (
-		mnemonicSlice   = strings.Split(mnemonic, " ")
+		mnemonicSlice   = strings.Fields(mnemonic)
 		entropyBitSize  = len(mnemonicSlice) * 11
 		checksumBitSize = entropyBitSize % 32
 		fullByteSize    = (entropyBitSize-checksumBitSize)/8 + 1
-- 
2.43.0


From 37e10f466d6d93384fb251a44b1f2a1c6f6a9aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:08 +0000
Subject: [PATCH 14/18] fix: derive the same seed for every white-space layout
 of a mnemonic

---
 bip39/bip39.go | 3 +++
 util/util.go   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/bip39/bip39.go b/bip39/bip39.go
index 188bf11..fe0804d 100644
--- a/bip39/bip39.go
+++ b/bip39/bip39.go
@@ -247,6 +247,9 @@ func NewSeedWithErrorChecking(mnemonic string, password string) ([]byte, error)
 		return nil, err
 	}
 
+	// the white space between the words is not part of the mnemonic
+	mnemonic = strings.Join(strings.Fields(mnemonic), " ")
+
 	return NewSeed(mnemonic, password), nil
 }
 
diff --git a/util/util.go b/util/util.go
index 838c200..03ea908 100644
--- a/util/util.go
+++ b/util/util.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"github.com/mearaj/bips/bip32"
 	"github.com/mearaj/bips/bip39"
+	"strings"
 )
 
 const (
@@ -49,6 +50,8 @@ func DeriveSeedFromMnemonic(mnemonic string, mnemonicPassphrase string) (string,
 	if err != nil {
 		return "", err
 	}
+	// the white space between the words is not part of the mnemonic
+	mnemonic = strings.Join(strings.Fields(mnemonic), " ")
 	return hex.EncodeToString(bip39.NewSeed(mnemonic, mnemonicPassphrase)), nil
 }
 
-- 
2.43.0


From ee3d3dfab12f7cdc761a0d3ff4af18e1fce3e261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:10 +0000
Subject: [PATCH 15/18] fix: a version path without purpose or coin number is
 not valid

---
 bip32/reg_ver_bytes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bip32/reg_ver_bytes.go b/bip32/reg_ver_bytes.go
index 036d09f..2fd004f 100644
--- a/bip32/reg_ver_bytes.go
+++ b/bip32/reg_ver_bytes.go
@@ -72,7 +72,7 @@ func (h VersionBytes) PubKeyFlagBytes() [4]byte {
 }
 
 func (h VersionBytes) IsValid() bool {
-	regex := regexp.MustCompile(`^m/\d{0,8}'/\d{0,8}'$`)
+	regex := regexp.MustCompile(`^m/\d{1,8}'/\d{1,8}'$`)
 	return regex.MatchString(h.Path.String())
 }
 
-- 
2.43.0


From ae8641055efa6b8287a29c3c418840454435a955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:11 +0000
Subject: [PATCH 16/18] fix: Nexa Testnet supports P2PKT as in SLIP-0132

---
 bip32/reg_ver_bytes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bip32/reg_ver_bytes.go b/bip32/reg_ver_bytes.go
index 2fd004f..9496c28 100644
--- a/bip32/reg_ver_bytes.go
+++ b/bip32/reg_ver_bytes.go
@@ -361,7 +361,7 @@ var (
 		PvKeyPrefix:   "xprv",
 		PubKeyFlag:    0x043587cf,
 		PubKeyPrefix:  "xpub",
-		AddrEncodings: []AddrEncoding{P2PKH, P2SH},
+		AddrEncodings: []AddrEncoding{P2PKT, P2PKH, P2SH},
 		Path:          "m/44'/1'",
 	}
 	Polispprvppub = VersionBytes{
-- 
2.43.0


From 1609121f37779fda59976bf9dc03b567d4a9d348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:31 +0000
Subject: [PATCH 17/18] fix: ExpandPublicKey does not panic on an empty key

---
 bip32/utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bip32/utils.go b/bip32/utils.go
index cdf0b8c..243a88d 100644
--- a/bip32/utils.go
+++ b/bip32/utils.go
@@ -110,6 +110,9 @@ func compressPublicKey(x *big.Int, y *big.Int) []byte {
 func ExpandPublicKey(key []byte) (*big.Int, *big.Int) {
 	Y := big.NewInt(0)
 	X := big.NewInt(0)
+	if len(key) == 0 {
+		return X, Y
+	}
 	X.SetBytes(key[1:])
 
 	// y^2 = x^3 + ax^2 + b
-- 
2.43.0


From 6ec2060d66921a2885cbc509c65920a6f3b18cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:33 +0000
Subject: [PATCH 18/18] fix: refuse to import extended keys that bip32 declares
 invalid

---
 bip32/bip32.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/bip32/bip32.go b/bip32/bip32.go
index eac8a6c..00bcab7 100644
--- a/bip32/bip32.go
+++ b/bip32/bip32.go
@@ -8,6 +8,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"github.com/btcsuite/btcutil/base58"
+	"github.com/decred/dcrd/dcrec/secp256k1/v4"
 )
 
 type Version [4]byte
@@ -76,6 +77,10 @@ var (
 	// ErrMaxDepthReached is returned when trying to create a child of a key
 	// at the largest depth a key can have
 	ErrMaxDepthReached = errors.New("can't create child beyond depth 255")
+
+	// ErrInvalidRootLineage is returned when deserializing a key of depth zero
+	// that has a parent fingerprint or a child number
+	ErrInvalidRootLineage = errors.New("key of depth 0 can't have a parent fingerprint or child number")
 )
 
 // NewMasterKey creates a new master extended key from a seed
@@ -316,7 +321,35 @@ func Deserialize(data []byte) (Key, error) {
 			return Key(data[:78]), ErrInvalidChecksum
 		}
 	}
-	return Key(data[:78]), nil
+	key := Key(data[:78])
+	return key, key.validateImported()
+}
+
+// validateImported returns an error if key is one of the keys that bip32
+// requires an import to refuse. Unregistered versions are not refused
+func (key *Key) validateImported() error {
+	_, isPvtVersion := PvtFlagToHDBytesSlice[key.GetVersion()]
+	_, isPubVersion := PubFlagToHDBytesSlice[key.GetVersion()]
+	if key.IsPrivate() {
+		if isPubVersion && !isPvtVersion {
+			return ErrInvalidPrivateKey
+		}
+		if err := ValidatePrivateKey(key.GetPvtKeyBytes()); err != nil {
+			return err
+		}
+	} else {
+		if isPvtVersion && !isPubVersion {
+			return ErrInvalidPublicKey
+		}
+		if _, err := secp256k1.ParsePubKey(key[PubKeyStartIndex:PubKeyEndIndex]); err != nil {
+			return ErrInvalidPublicKey
+		}
+	}
+	if key[DepthStartIndex] == 0 &&
+		(key.GetFingerPrint() != FingerPrint{} || key.GetChildNumber() != ChildNumber{}) {
+		return ErrInvalidRootLineage
+	}
+	return nil
 }
 
 func (key *Key) SetVersionUint32(v uint32) {
-- 
2.43.0

