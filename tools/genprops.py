#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids, titles, statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": hook}})

B39 = "bip39/bip39.go"; B32 = "bip32/bip32.go"; UT = "bip32/utils.go"; PT = "bip32/path.go"; RV = "bip32/reg_ver_bytes.go"
UU = "util/util.go"; KP = "util/key_path.go"

p("B01", "Every entropy encodes to exactly the BIP-39 sentence, in every language",
  "For every 16, 20, 24, 28 or 32 byte entropy and every shipped word list, the mnemonic produced is exactly the BIP-39 sentence: the 11-bit groups of entropy followed by the first bits of its SHA-256, looked up in the published list for that language and joined by single spaces. Entropy of any other length is refused with an error and no sentence. The shipped lists are the published ones: 2048 distinct words in the published order.",
  ["inputs", "configurations"], "all entropies of all lengths (including leading zero bytes and all-zero/all-one patterns), all ten shipped lists, every word index at every position",
  "The tests encode some thirty fixed English vectors; no other language is ever encoded, and 2^128..2^256 entropies exist.",
  [B39, "bip39/wordlists"], [("NewMnemonic/addChecksum", B39), ("CRC32 check of each list at start", "bip39/wordlists/*.go")],
  ["bip39.NewMnemonic", "wordlists.*"], [{"name": "wordList", "meaning": "package-wide selected list", "where": B39}])
p("B02", "Decoding a mnemonic recovers exactly the entropy that made it",
  "For every legal entropy and every shipped word list, decoding the sentence made from it returns that same entropy byte for byte, with its length and leading zero bytes preserved. The byte-array form returns the same entropy in raw mode and, otherwise, the fixed-width big-endian number formed by the entropy bits followed by the checksum bits.",
  ["inputs", "configurations"], "all entropies x all lengths x all languages",
  "Tests round-trip a few dozen English sentences; leading-zero handling is sampled on one size only.",
  [B39], [("EntropyFromMnemonic, padByteSlice", B39), ("MnemonicToByteArray", B39)], ["bip39.EntropyFromMnemonic", "bip39.MnemonicToByteArray"])
p("B03", "A mnemonic is accepted exactly when BIP-39 says it is valid",
  "Under the selected word list a sentence is accepted if and only if it has 12, 15, 18, 21 or 24 words, every one is in the list (exact spelling), and its checksum bits match its entropy. Every operation that validates a sentence (validity test, entropy recovery, byte-array conversion, checked seed derivation, the hex-seed helper) gives the same verdict, and a refused sentence never yields entropy or a seed.",
  ["inputs", "configurations"], "all word sequences of all lengths over all lists, plus near-miss spellings and foreign words",
  "Sixteen bad sentences are tested; the accept set is 2^128..2^256 of 2048^12..2048^24 sentences.",
  [B39, UU], [("splitMnemonicWords", B39), ("checksum comparison", B39), ("DeriveSeedFromMnemonic", UU)],
  ["bip39.IsMnemonicValid", "bip39.EntropyFromMnemonic", "bip39.MnemonicToByteArray", "bip39.NewSeedWithErrorChecking", "util.DeriveSeedFromMnemonic"])
p("B04", "The wallet seed is BIP-39's key stretching of sentence and passphrase",
  "For every sentence and passphrase the seed is the 64-byte PBKDF2-HMAC-SHA512 output, 2048 rounds, over the UTF-8 NFKD sentence with salt \"mnemonic\" plus the NFKD passphrase. The checked variant and the hex helper return that same seed for every valid sentence in canonical single-space form, hex encoded in the helper's case.",
  ["inputs"], "all sentences and passphrases, of every length (shorter and longer than the HMAC block), ASCII and non-ASCII",
  "Only the fixed passphrase TREZOR over ASCII English sentences is tested; the hex helper has no test at all.",
  [B39, UU], [("NewSeed (pbkdf2)", B39), ("DeriveSeedFromMnemonic", UU)], ["bip39.NewSeed", "bip39.NewSeedWithErrorChecking", "util.DeriveSeedFromMnemonic"])
p("B05", "White-space layout never changes what an accepted mnemonic means",
  "If a sentence is accepted when written with leading, trailing, repeated or non-ASCII white space between its words, then the recovered entropy, the byte-array form, the checked seed and the hex seed are all identical to those of the same words separated by single spaces. No accepted spelling of the same words silently opens a different wallet.",
  ["inputs"], "all accepted sentences x all Unicode white-space layouts around and between the words",
  "No test uses anything but single spaces; the set of layouts is unbounded.",
  [B39, UU], [("strings.Fields in splitMnemonicWords", B39), ("MnemonicToByteArray width", B39), ("seed derivation input", UU)],
  ["bip39.EntropyFromMnemonic", "bip39.MnemonicToByteArray", "bip39.NewSeedWithErrorChecking", "util.DeriveSeedFromMnemonic"])
p("B06", "Fresh entropy carries every bit of the secure random source",
  "Fresh entropy, fresh mnemonics and fresh master seeds have exactly the requested size, and every one of their bytes comes from the cryptographic random source drawn during that call, even when the source delivers its bytes in small pieces: changing any bit of what the source delivers changes the result, and no two calls share output. Requests for unsupported sizes are refused.",
  ["inputs", "histories"], "all request sizes, all random-source contents and read granularities, all call histories",
  "Tests only check that a call succeeds and the length is right; predictability is invisible to them.",
  [B39, B32, UU], [("crypto/rand reads", B39 + ", " + B32), ("size validation", B39 + ", " + UU)],
  ["bip39.NewEntropy", "bip32.NewSeed", "util.GenerateMnemonic", "crypto/rand.Reader"])
p("B07", "A failing random source never yields a mnemonic, entropy or seed",
  "If the cryptographic random source fails or ends at any point while entropy, a mnemonic or a master seed is being generated, the operation reports an error; it never reports success with partially filled or zero secret material. Once the source works again, later calls succeed normally.",
  ["fault_sequences"], "a failure at every byte offset of every generating operation, of every kind an io.Reader can report, followed by recovery",
  "The tests never make the random source fail.",
  [B39, B32, UU], [("error propagation from crypto/rand", B39 + ", " + B32 + ", " + UU)], ["bip39.NewEntropy", "bip32.NewSeed", "util.GenerateMnemonic"])
p("B08", "Selecting a word list switches encoding, decoding and lookup together",
  "After any sequence of list selections, the list reported, word-to-index lookup, encoding and decoding all use exactly the most recently selected list: word i of the list is looked up as i, every word outside it is unknown, and nothing of an earlier list remains. Sentences are interpreted by position in the selected list even for words that several lists share.",
  ["histories", "configurations"], "all sequences of selections of shipped lists interleaved with encode/decode/lookup calls",
  "Tests only ever use the default English list and never switch.",
  [B39], [("SetWordList rebuilds list and reverse map", B39)], ["bip39.SetWordList", "bip39.GetWordList", "bip39.GetWordIndex"],
  [{"name": "wordList/wordMap", "meaning": "selected list and its reverse index", "where": B39}])

p("K01", "The master key is BIP-32's for every seed",
  "For every seed byte string, the master key is the BIP-32 master: private key and chain code are the two halves of HMAC-SHA512 of the seed under the key \"Bitcoin seed\", with depth zero, zero parent fingerprint, zero child number and the Bitcoin mainnet private version. A half that is zero or not below the curve order is refused.",
  ["inputs"], "all seeds of all lengths from 0 bytes up, including seeds shorter and longer than the hash block",
  "Six fixed seeds are tested.", [B32, UT], [("NewMasterKey", B32), ("ValidatePrivateKey", UT)], ["bip32.NewMasterKey", "bip32.ValidatePrivateKey"])
p("K02", "Private child derivation is BIP-32's for every parent and index",
  "For every well-formed private extended key of depth below 255 with a registered version and every 32-bit index, hardened or not, the child has exactly BIP-32's child private key (reduced modulo the curve order, always 32 bytes including leading zeros) and chain code. Derivation never fails for such a parent except in the cases BIP-32 itself calls invalid.",
  ["inputs", "histories"], "all private keys (including 1, n-1 and keys with leading zero bytes), all chain codes, all 2^32 indices, all chains of derivations",
  "Three published vectors, eleven steps; the leading-zero and wrap-around cases are hit once.",
  [B32, UT], [("NewChildKey/getIntermediary", B32), ("addPrivateKeys", UT)], ["Key.NewChildKey", "Key.GetPvtKeyBytes", "Key.GetChainCode"])
p("K03", "Public derivation gives the public half of private derivation",
  "For every well-formed extended private key and every non-hardened index, deriving the child and then taking its public key gives exactly the same extended public key as taking the public key first and then deriving, and both equal BIP-32's child public key. This holds along every chain of non-hardened indices and for public keys imported without their private key.",
  ["inputs", "histories"], "all parents (private, or public points with any coordinates), all 2^31 non-hardened indices, all chains",
  "Twenty indices under one fixed parent are tested, and only the public key bytes.",
  [B32, UT], [("NewChildKey public branch", B32), ("addPublicKeys/ExpandPublicKey/compressPublicKey", UT)], ["Key.NewChildKey", "Key.PublicKeyExtended"])
p("K04", "A public extended key never yields private or hardened material",
  "Every hardened derivation from a public extended key is refused with an error and an unusable child; every non-hardened child of a public key is itself public. The public version of a key, its serialization, its hex export and everything derived from it contain no private key: the private-key export is empty and the public form is the same key again when taken twice.",
  ["inputs", "histories"], "all keys, all indices at or above 2^31, all chains mixing publication and derivation",
  "Two hardened indices on one key are tested.",
  [B32], [("hardened check in NewChildKey", B32), ("PublicKeyExtended", B32), ("PrivateKeyHex", B32)], ["Key.NewChildKey", "Key.PublicKeyExtended", "Key.PrivateKeyHex", "Key.String"])
p("K05", "Depth, parent fingerprint and child number always record the true lineage",
  "Every derived key, private or public, carries depth one more than its parent, the first four bytes of RIPEMD160(SHA256(parent compressed public key)) as parent fingerprint, and exactly the index it was derived with; taking the public form leaves all three and the chain code unchanged. A key at depth 255 has no children: derivation from it is refused rather than wrapping the depth to zero.",
  ["inputs", "histories"], "all parents at every depth 0..255, all indices, all chains",
  "Published vectors reach depth 5; nothing looks at the depth limit.",
  [B32, UT], [("setDepth/setFingerPrint/setChildNumber in NewChildKey", B32)], ["Key.GetDepth", "Key.GetFingerPrint", "Key.GetChildNumber", "Key.NewChildKey"])
p("K06", "Network and script version survive derivation and publication",
  "Children keep their parent's version bytes, and the public form of a private key with a registered version carries that registration's public version, so Base58 prefixes stay in the same family through any chain of derivations and publications. A key whose version is not registered for its kind (private or public) cannot be derived from, and its public form falls back to the Bitcoin mainnet public version.",
  ["inputs", "configurations"], "all registered versions x private/public x derivation chains, plus unregistered and mismatched versions",
  "Only the Bitcoin mainnet version is ever used in tests; the pairing tables are filled in random map order at start.",
  [B32, RV], [("PvtFlagToHDBytesSlice/PubFlagToHDBytesSlice lookup", B32 + ", " + RV)], ["Key.NewChildKey", "Key.PublicKeyExtended", "Key.GetVersion", "Key.String"])
p("K07", "Extended keys round-trip through bytes and Base58 without loss",
  "For every well-formed extended key, the binary form is its 78 bytes followed by the first four bytes of their double SHA-256, the text form is the Base58 of that, and importing either form returns the identical key without error. An all-zero key has no serialization, and field accessors return exactly the serialized fields.",
  ["inputs"], "all well-formed keys: all versions (including leading zero bytes), depths, fingerprints, indices, chain codes and key material",
  "About fifteen fixed keys are round-tripped.",
  [B32, UT], [("Serialize/B58Serialize/Deserialize/B58Deserialize", B32), ("AddChecksumDblSha256ToBytes", UT)], ["Key.Serialize", "Key.String", "bip32.Deserialize", "bip32.B58Deserialize"])
p("K08", "No damaged or truncated extended key is ever imported",
  "Importing accepts a byte string only if it is exactly 82 bytes long and its last four bytes are the double SHA-256 checksum of the rest; every other length and every altered byte is refused with an error, whatever the content, in binary and in Base58 form. Base58 text with characters outside the alphabet, extra characters or missing characters is refused.",
  ["inputs", "fault_sequences"], "all corruptions (bit flips, swaps, substitutions, truncations, extensions, foreign characters) of all serialized keys, and arbitrary byte strings",
  "Three bad strings are tested.",
  [B32, UT], [("length and checksum test in Deserialize", B32)], ["bip32.Deserialize", "bip32.B58Deserialize", "Key.IsValid"])
p("K09", "Import refuses every extended key that BIP-32 declares invalid",
  "Even with a correct checksum, importing refuses a private key that is zero or not below the curve order, a public key whose prefix is not 02/03 or whose X is not on the curve, a registered private version over public material or the reverse, and depth zero with a non-zero parent fingerprint or child number. Every key that passes import is usable: the validity test agrees with import, and derivation and publication give BIP-32's results.",
  ["inputs"], "all 78-byte payloads with a correct checksum, in particular boundary scalars (0, n-1, n, n+1, 2^256-1), off-curve X, X >= p, all prefix bytes, all version/kind combinations",
  "No test imports a well-checksummed invalid key.",
  [B32, UT], [("Deserialize", B32), ("ValidatePrivateKey, ExpandPublicKey", UT)], ["bip32.Deserialize", "bip32.B58Deserialize", "Key.IsValid"])
p("K10", "Exported public keys are the compressed curve point of the private key",
  "For every well-formed extended key, the exported public key hex is the 33-byte compressed secp256k1 point of its private key (or the stored point of a public key), identical for the key and its public form, and expanding any compressed point returns the on-curve coordinates with the parity its prefix states. Private key hex is the 64-digit scalar, including leading zeros.",
  ["inputs"], "all scalars in [1, n-1] and all curve points, including coordinates with leading zero bytes and both parities",
  "Expansion has no test of its own; about twenty public keys are compared.",
  [B32, UT], [("publicKeyForPrivateKey/compressPublicKey/ExpandPublicKey", UT)], ["Key.PublicKeyHex", "Key.PrivateKeyHex", "bip32.ExpandPublicKey"])

p("P01", "A derivation path denotes exactly the indices written in it, or is refused",
  "For every path text, the parsed values are zero for the root followed by exactly the written number for each plain component and the written number plus 2^31 for each apostrophe component, white space ignored. A component that does not fit (2^32 or more, or 2^31 or more with an apostrophe) makes the whole path invalid; no number is ever reduced, wrapped or truncated to another index.",
  ["inputs"], "all component values including 2^31-1, 2^31, 2^32-1, 2^32, 2^63, 2^64 and longer, with leading zeros, at every depth",
  "Paths have no tests at all.", [PT], [("ValuesAtDepth", PT)], ["Path.ValuesAtDepth", "Path.IsValid"])
p("P02", "Exactly the well-formed paths are valid, and validity is consistent",
  "A path is valid if and only if, after removing white space, it is m or M followed by any number of /number components, each optionally hardened with one trailing apostrophe and in range, hardened and plain components in any order. Validity, parsing, formatting and derivation agree on every text, formatting is idempotent, and every path the library itself produces is valid.",
  ["inputs"], "all texts, including empty, unicode, control characters, doubled separators, doubled or misplaced apostrophes, signs, and very long paths",
  "Paths have no tests at all.", [PT, UU], [("PathRegex", PT), ("Path.String", PT)], ["Path.IsValid", "Path.String", "Path.Formatted", "Generator.DeriveBIP32Result"])
p("P03", "Reading or replacing one path level touches that level only",
  "For every valid path, reading level d returns the d-th parsed value, and replacing level d with a value gives a valid path whose parsed values equal the original's except that level d is the new value, written hardened (with an apostrophe) exactly when the value is 2^31 or more. Levels the path does not have, and replacing the root level itself, are refused with an error.",
  ["inputs"], "all valid paths of 0..255 components, all levels 0..255, all 32-bit values",
  "Paths have no tests at all.", [PT], [("ValueAtDepth/ReplaceValueAtDepth", PT)], ["Path.ValueAtDepth", "Path.ReplaceValueAtDepth"])

p("D01", "Deriving along a path returns the true key at every level",
  "For every valid master private key and every valid path of up to 255 components, the result has one entry per level from the root to the full path, in order; entry i's key is the BIP-32 key reached from the root by the first i indices, and its label is the canonical text of exactly those indices. The root key held by the generator is unchanged and repeated derivations give the same result.",
  ["inputs", "histories"], "all master keys, all valid paths, all sequences of root changes and derivations on one generator",
  "The util package has no tests.", [UU, B32], [("Generator.DeriveBIP32Result", UU)], ["Generator.DeriveBIP32Result", "Generator.RootKey"])
p("D02", "Derivation that cannot be done is reported, never papered over with bad keys",
  "Deriving along a path from a root that is not a valid depth-zero private key, along an invalid path, with a version that cannot be derived from, or past the maximum depth returns an error and no keys. No call ever returns success with an empty, invalid or wrong key in its result, for paths and for ranges alike.",
  ["inputs"], "all root keys (public, deeper, corrupt, unregistered version, zero), all path texts, all ranges",
  "The util package has no tests.", [UU, KP], [("root validation in DeriveBIP32Result", UU), ("GenerateRange validation", KP)], ["Generator.DeriveBIP32Result", "KeyPathRange.GenerateRange"])
p("D03", "A key range yields exactly the children in the half-open index range",
  "For a valid base key and path and start < end, generating a range yields exactly one entry for each index from start up to but not including end, in order, each being the BIP-32 child of the base key at that index and labelled with the base path extended by that index. Empty or inverted ranges, invalid base keys and invalid base paths are refused, and a refused call leaves earlier results untouched.",
  ["inputs", "histories"], "all base keys (private or public), all index windows including those around 2^31 and 2^32, repeated use of one range object",
  "The util package has no tests.", [KP], [("KeyPathRange.GenerateRange", KP)], ["KeyPathRange.GenerateRange"])
p("D04", "A hex seed opens exactly its BIP-32 root, or is refused",
  "For every text that is the hex form of at least 16 bytes, in either letter case, the root key returned is the BIP-32 master key of those bytes; all other texts are refused with an error. The returned key reference is never nil, so a refused seed leaves an unusable all-zero key and never a usable one.",
  ["inputs"], "all hex strings of all lengths and all non-hex strings",
  "The util package has no tests.", [UU], [("RootKeyFromSeed", UU)], ["util.RootKeyFromSeed"])
p("D05", "Mnemonic to addressable key agrees with the standards end to end",
  "For every supported word count the generated mnemonic has exactly that many words of the selected list and is valid, and every other count is refused. From any valid mnemonic, passphrase and path, the chain mnemonic, seed, root, path derivation, addresses gives exactly the keys and addresses that BIP-39, BIP-32 and the address rules prescribe.",
  ["inputs", "configurations"], "all 256 word-count requests; all mnemonics x passphrases x languages x paths",
  "The util package has no tests; nothing tests the pipeline.", [UU, KP, B39, B32], [("GenerateMnemonic, DeriveSeedFromMnemonic, RootKeyFromSeed, DeriveBIP32Result", UU)],
  ["util.GenerateMnemonic", "util.DeriveSeedFromMnemonic", "util.RootKeyFromSeed", "Generator.DeriveBIP32Result", "KeyPath.AddrHex"])
p("A01", "The Ethereum address is right for every key",
  "For every well-formed key, private or public, the hex address is the last 20 bytes of Keccak-256 over the 64-byte uncompressed point with both coordinates padded to 32 bytes, in 40 lower-case hex digits without prefix. The key and its public form have the same address.",
  ["inputs"], "all keys, in particular points whose X or Y begins with zero bytes",
  "The util package has no tests; about one key in 128 has a short coordinate.", [KP, UT], [("KeyPath.AddrHex", KP), ("ExpandPublicKey", UT)], ["KeyPath.AddrHex"])
p("A02", "The Base58Check address commits to the prefix and the key hash",
  "For every well-formed key and every version prefix, the Base58 address decodes to exactly 25 bytes: the prefix, RIPEMD160(SHA256(compressed public key)), and the first four bytes of the double SHA-256 of those 21 bytes. The key and its public form have the same address, and leading zero bytes are kept as leading ones.",
  ["inputs"], "all keys x all 256 prefixes, including hashes with leading zero bytes",
  "The util package has no tests.", [KP, UT], [("KeyPath.AddrP2SH", KP), ("HashRipeMD160onSha256/ChecksumDblSha256", UT)], ["KeyPath.AddrP2SH", "bip32.HashRipeMD160onSha256", "bip32.ChecksumDblSha256"])
p("R01", "The coin registry is consistent, complete and matches SLIP-0044",
  "Every registered coin is valid (its path component is its type plus 2^31), types and path components are unique, and looking a coin up by type, by path component or by name returns a registered coin with that type, path component or name, for every registered coin and nothing else. The registry contains exactly the non-reserved named rows of the shipped SLIP-0044 document, and a coin is judged valid exactly when it has a non-blank name or symbol and matching type and path component.",
  ["inputs", "configurations"], "all registered coins, all lookups, all possible coin records",
  "The test only checks validity of each row after start-up; lookups and the document are never compared.",
  ["bip44/coins.go", "bip44/coin.go", "bip44/slip-0044.md"], [("init of lookup maps", "bip44/coins.go"), ("Coin.IsValid", "bip44/coin.go")], ["bip44.RegCoins", "bip44.RegBip44Coins*Map", "Coin.IsValid"])
p("R02", "The HD version registry matches SLIP-0132 and all its indexes agree",
  "Every registered version row carries the coin, version bytes, prefixes, address encodings and (where the table gives one) path of the shipped SLIP-0132 table, its prefixes are what keys serialized under it really begin with, and each index (by path, purpose, hardened purpose, coin type, private version, public version) lists exactly the rows that have that value. For any row, registered or not, purpose and coin values are exactly the two hardened indices of its path, and a row is called valid only if both can be read.",
  ["inputs", "configurations"], "all registered rows and all six indexes, all candidate row paths",
  "The test checks two of the six indexes for membership and never the version bytes or prefixes.",
  [RV, "bip32/slip-0132.md"], [("init building the indexes", RV), ("PurposeVal/CoinVal", RV)], ["bip32.HDVersionBytesSlice", "bip32.*ToHDBytesSlice", "VersionBytes.*"])

p("R03", "A coin's text forms name exactly that coin, and records survive JSON",
  "The text of a coin is its symbol, \" - \", its name and \" (Type N)\" with its type in decimal, the symbol part left out when there is none; its source form gives type, path component (in hex), symbol and name verbatim as {Type: N, PathComponent: 0xH, Symbol: \"S\", Name: \"T\"}. Both hold for every possible coin, and no two registered coins share a text. A coin (of UTF-8 texts) written as JSON under type, pathComponent, symbol and name, and every key, key path, key range and version row, reads back as the same record.",
  ["inputs"], "all coin records, registered or not, and all keys, paths and ranges",
  "No test looks at any text or JSON form.", ["bip44/coin.go", "bip44/coins.go", KP],
  [("Coin.String, Coin.StringForMD, field tags", "bip44/coin.go"), ("KeyPath, KeyPathRange", KP)], ["Coin.String", "Coin.StringForMD", "JSON of Coin, Key, KeyPath, KeyPathRange, VersionBytes"])

p("X01", "No input makes the library crash",
  "Every public operation, given any bytes, text, numbers, key contents, row or path, returns a value or an error: it never panics, never hangs and never allocates out of proportion to its input. This includes arbitrary 78-byte key contents, malformed UTF-8, and very long inputs.",
  ["inputs"], "all arguments of all public operations, well-formed or not",
  "Tests pass a handful of malformed values.", [B39, B32, UT, PT, RV, UU, KP, "bip44/coin.go"], [("length and format checks before slicing", "all packages")], ["every exported function"])
p("X02", "Operations are pure: inputs untouched, results stable, history irrelevant",
  "No operation other than an explicit setter modifies memory its caller passed in, including unused capacity behind a slice, or any result handed out earlier, no two results share memory (spare capacity included), and changing a returned value never changes what the library does later (the selected word list itself and a generator's RootKey reference are live views and excepted). Apart from fresh randomness and the selected word list, every operation's result depends only on its arguments, never on which calls came before.",
  ["histories", "inputs"], "all sequences of calls on shared and reused buffers, keys, generators and ranges",
  "Tests look at each call once, with fresh exactly-sized buffers.", [B39, B32, UT, UU, KP], [("value-typed keys, fresh slices", "all packages")], ["every exported function", "caller-owned buffers"])
p("X03", "Concurrent use is race-free and gives the sequential answers",
  "With the word list fixed, any number of goroutines may call any operation at once, sharing input buffers, keys, generators (read-only) and mnemonic strings, without a data race; every call returns the result it would have returned alone, and distinct generators and ranges do not influence one another.",
  ["schedules"], "all interleavings of concurrent calls over shared read-only inputs and separate mutable objects",
  "The tests are single-threaded and are not run under the race detector.", [B39, B32, UT, PT, RV, UU, KP], [("no shared mutable state after init", "all packages")], ["every exported function under the race detector"])
p("X04", "Every start of the program gives the same answers",
  "All results, apart from fresh randomness, are the same in every process (the version and coin tables as sets; the order inside one index entry is not fixed): they do not depend on the order in which start-up fills the version and coin tables, on the number of processors, on the environment, time zone or locale, or on memory-management settings.",
  ["configurations", "schedules"], "all process starts (map iteration orders), GOMAXPROCS, GC and environment settings",
  "The tests run in one process per package; table order is random per process and never compared across processes.", [RV, "bip44/coins.go", B32], [("init over maps", RV)], ["transcripts of repeated processes"])
p("X05", "The same answers on every platform and under every compiler setting",
  "The library builds for 32-bit and WebAssembly platforms as well as 64-bit ones, and every operation (and both registries) gives the same results in all those builds, and in builds without compiler optimisations or without assembly code: the width of machine integers, byte order and processor features never show in a key, seed, sentence, address, index, path or refusal.",
  ["configurations", "inputs"], "all operations and inputs on every platform the toolchain can build for and run here (amd64, 386, wasm; unoptimised; purego; and any code the library has for another system or byte order, built so that it runs here)",
  "The tests run on the developer's machine only; the project ships a WebAssembly build that no test runs.", [B39, B32, UT, PT, RV, "bip44/coins.go", UU, KP],
  [("integer conversions of indices, bit sizes and lengths", "all packages")], ["transcripts of builds for other platforms"])
p("S01", "Secrets stay in the process",
  "No operation acts outside the process except to draw randomness: it opens no file, socket or terminal, starts no program, changes no environment variable and writes nothing to standard output or standard error, during the call or later; neither does loading the packages. The text of a returned error never contains a private key, chain code, seed, entropy or passphrase, or more than one word of a sentence.",
  ["inputs", "histories"], "all operations on all inputs, well-formed, damaged and hostile, and everything still running after they return",
  "Tests compare return values; a stray log line, cache file or talkative error passes all of them.", [B39, B32, UT, PT, UU, KP, "bip32/err.go", "util/err.go"],
  [("no I/O in any package", "all packages"), ("errors made of fixed texts", "bip39/bip39.go, bip32/err.go, util/err.go")], ["system calls and prints of the process", "error texts"])
p("S02", "Nothing of a call is kept",
  "After an operation has returned and its caller has dropped arguments and results, the library keeps nothing of the call: no entropy, sentence, passphrase, seed, private key, chain code or extended key stays reachable in the process's memory, no goroutine keeps running, and the memory in use does not grow with the number of calls, for accepted and refused inputs alike. (The word list set and the root key a generator was given are the caller's own.)",
  ["histories", "inputs"], "all histories of calls, on accepted and refused inputs, in every language",
  "Tests never look at memory; a cache or a leak changes no result.", [B39, B32, UT, PT, UU, KP],
  [("no package-level state but the word list and the registries", "all packages")], ["heap after the calls", "number of goroutines", "live objects after many calls"])
p("E01", "Every refusal names its cause by the exported error",
  "When an operation refuses its input, errors.Is identifies the exported error of a cause that applies: bip39 entropy size, word count (ErrInvalidMnemonic) and checksum; util word count, hex-seed length, root key, path and range; bip32 hardened child of a public key, depth 255, unregistered version, serialized size, checksum, private key, public key, master lineage, empty key and path (a number too large may instead be strconv's range error). Text that is not hex gives the hex decoder's error. An unlisted word is named in the error text. With several causes the error of any one will do. A failing random source's own error is passed on. The exported errors keep their identity and no error belongs to a cause that does not apply.",
  ["inputs"], "all refused calls of all operations, with one cause or several",
  "Tests mostly assert that there is an error, rarely which, and never for combined causes.", [B39, B32, UT, PT, RV, "bip32/err.go", UU, KP, "util/err.go"],
  [("error returns of every operation", "all packages")], ["errors.Is on every returned error"])
p("U01", "The wallet screen always shows keys of exactly the inputs on screen",
  "In the example application, after any sequence of edits to mnemonic, passphrase, seed, root key and derivation path, the shown seed, root key and derived keys are those of the inputs shown; input that is not valid leaves no keys of an earlier input on screen. Whenever there are derived keys, one of them is selected for display.",
  ["histories"], "all sequences of field edits, including invalid intermediate text",
  "The example has no tests.", ["examples/ui/one/main.go"], [("on*Change handlers", "examples/ui/one/main.go")], ["field texts, root key, tabs, selected tab after each edit"],
  [{"name": "keyPathTabs", "meaning": "derived keys on display and selected tab", "where": "examples/ui/one/main.go"}])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
