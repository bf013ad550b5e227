#!/bin/bash
# covbase.sh [IDs]: record, from runs on the unchanged library, its constants and the situations each check never meets there
# (harness/cov/base). Only needed when the library or the workloads change; a stale record costs checks time, never verdicts.
V=$(cd "$(dirname "$0")/.." && pwd)
B=$V/harness/cov/base
mkdir -p "$B"
IDS=${*:-$(python3 -c "
import json
print(' '.join(i for i in (json.loads(l)['id'] for l in open('$V/properties.jsonl')) if i not in ('U01',)))")}
T=$(mktemp -d /tmp/covbase.XXXXXX)
for id in $IDS; do
	for s in ${SEEDS:-1 2 3 5 7920}; do
		VERIF_SEED=$s VERIF_NO_ROUNDS=1 VERIF_COV_RECORD=$T/$id.$s VERIF_COV_DICT=$T/dict.json "$V/check.sh" "$id" >/dev/null 2>&1 || echo "$id seed $s: not quiet"
	done
	python3 - "$B/$id.txt" "$T/$id".* <<'P'
import sys
from collections import Counter
m = Counter()
for f in sys.argv[2:]:
    m |= Counter(l for l in open(f).read().split('\n') if l)
open(sys.argv[1], 'w').write(''.join(l + '\n' for l in sorted(m.elements())))
P
done
cp "$T/dict.json" "$B/dict.json"
rm -rf -- "$T"
wc -l "$B"/*.txt | tail -1
