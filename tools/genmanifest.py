#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below (properties without an entry are not claimed yet)."""
import json, os, subprocess, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ORACLE = "recorded calls of the real code judged by an independent oracle (own BIP-39/BIP-32/secp256k1/Base58 over math/big, checked against published vectors at every start)"
T = {
 "B01": ("runtime monitor with independent BIP-39 encoder over all languages", ""),
 "B02": ("runtime monitor: recorded encode/decode pairs vs independent decoder", ""),
 "B03": ("runtime monitor: accept/refuse verdicts vs independent validator", ""),
 "B04": ("runtime monitor: seeds vs independent PBKDF2-HMAC-SHA512", " Twelve inputs outside NFKD form are listed as known findings."),
 "B05": ("runtime monitor: metamorphic comparison over white-space layouts", ""),
 "B06": ("runtime monitor: instrumented random source, differential bit influence and repetition windows", ""),
 "B07": ("fault injection into the random source with a runtime monitor", "every failing position and error kind of the injected source up to the bytes each operation reads"),
 "B08": ("runtime monitor: model of the selected list over switching histories", ""),
 "K01": ("runtime monitor vs independent BIP-32 master key", ""),
 "K02": ("runtime monitor vs independent BIP-32 CKDpriv, ground corner cases", ""),
 "K03": ("runtime monitor: public vs private derivation vs oracle", ""),
 "K04": ("runtime monitor: secrecy checks on every call with a public key", ""),
 "K05": ("runtime monitor: lineage model over derivation chains", ""),
 "K06": ("runtime monitor: version model over derivation chains", ""),
 "K07": ("runtime monitor: recorded serialize/parse pairs vs independent Base58Check", ""),
 "K08": ("runtime monitor: exhaustive and random damage of serialized keys", ""),
 "K09": ("runtime monitor: import verdicts vs BIP-32 validity oracle", ""),
 "K10": ("runtime monitor: exported points vs independent curve arithmetic", ""),
 "P01": ("runtime monitor: parsed indices vs hand-written path parser", ""),
 "P02": ("runtime monitor: validity verdicts of all entry points vs path grammar", ""),
 "P03": ("runtime monitor: level reads and replacements vs path model", ""),
 "D01": ("runtime monitor: derivation along paths vs oracle and generator model", ""),
 "D02": ("runtime monitor: refusal conditions vs oracle", ""),
 "D03": ("runtime monitor: range results vs oracle over object histories", ""),
 "D04": ("runtime monitor: hex seed opening vs oracle", ""),
 "D05": ("runtime monitor: whole pipeline vs oracle", ""),
 "A01": ("runtime monitor: Ethereum addresses vs oracle with ground leading-zero corpora", ""),
 "A02": ("runtime monitor: Base58Check addresses vs oracle, all prefixes", ""),
 "R01": ("runtime monitor: registry contents, lookups and rows vs parsed SLIP-0044 document", ""),
 "R02": ("runtime monitor: registry contents, indexes and rows vs parsed SLIP-0132 document", " Six table prefixes are listed as known findings."),
 "X01": ("runtime monitors for panics, fatal errors, hangs and allocation under hostile inputs", ""),
 "X02": ("runtime monitors: memory canaries, held results, call memo, scribbling, replayed histories", ""),
 "X03": ("Go race detector plus sequential-equivalence monitor over concurrent children", ""),
 "X04": ("runtime monitor: transcript comparison across process starts and environments", ""),
 "X05": ("runtime monitor: transcript comparison between builds for other platforms and compiler settings", " Platforms are those that run here: 32-bit x86, WebAssembly under node, unoptimised and purego builds; code the library chooses by system, architecture, byte order or path separator is built here as that system would have it."),
 "S01": ("runtime monitor: instrumented standard library counts system calls and prints around every call; error texts searched for secrets", ""),
 "R03": ("runtime monitor: String, StringForMD and JSON of every coin and record vs an independent formatter", ""),
 "S02": ("runtime monitor: heap dumps of processes that dropped everything searched for their secrets; live objects, bytes and goroutines counted over rounds of calls", " Memory the collector has freed is overwritten (GODEBUG=clobberfree=1), so what is found is reachable; four controls keep a secret on purpose and must be found."),
 "E01": ("runtime monitor: errors.Is of every refused call vs the causes an independent oracle finds", ""),
 "U01": ("runtime monitor: trace of the real event loop vs model of the screen", ""),
}
ready = set(sys.argv[1:]) or None
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    if i not in T or (ready and i not in ready):
        na.append({"property": i, "reason": "check not built yet"}); continue
    tech, note = T[i]
    lvl = "fault_enumeration" if i == "B07" else "exploration"
    base = "Holds on every execution observed in the run (counts in the evidence file); nothing is claimed about inputs or schedules not produced. Trusted: " + ORACLE + ", Go standard hash functions."
    checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
      "evidence_file": f"evidence/{i}.json", "technique": tech, "level": lvl,
      "level_note": (note.strip()[:1].upper() + note.strip()[1:] + ". " if i == "B07" else "") + base + (note if i != "B07" else "")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every property is observable at the public boundary (U01 through an overlay). known-findings.txt lists recorded defects and the fix: commits."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False); print(len(checks), "checks,", len(na), "n/a")
