#!/bin/bash
# check.sh PROPERTY [harness flags]: build the harness against /repo's current tree and decide the property.
# Exit 0 held, 1 violated (VIOLATION line printed), 2 no answer.
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
P=${1:?usage: check.sh PROPERTY}; shift
export VERIF_REPO=${VERIF_REPO:-/repo} VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
export HOME=${HOME:-/root}; [ -d "$HOME/go/pkg/mod" ] || HOME=/root
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=1
unset GOGC GOMAXPROCS GODEBUG GOMEMLIMIT GORACE GOWORK
EV=$V/evidence
mkdir -p "$EV" || exit 2
D=$(mktemp -d /tmp/verif-check.XXXXXXXX) || exit 2
case "$D" in /tmp/verif-check.????????) ;; *) exit 2 ;; esac
trap 'rm -rf -- "$D"' EXIT
trap 'exit 2' INT TERM
LOG=$D/log

"$V/harness/mkmod.sh" "$VERIF_REPO" "$D" || { echo "no module files"; exit 2; }
build() { (cd "$V/harness" && go build -modfile="$D/go.mod" -o "$D/$1" "${@:2}" .) >"$D/build.log" 2>&1 || { echo "the harness does not build against $VERIF_REPO"; tail -20 "$D/build.log"; exit 2; }; }
export VERIF_SCRATCH=$D
# The constants of the library become inputs, and the library runs with marks: which outcomes of which conditions have happened
# (harness/cov). A library that cannot be marked is run as it is.
SPY=
case $P in
S01|X04) mkdir "$D/spy"; (cd "$V/harness" && spy/overlay.sh "$D/spy") || { echo "no instrumented standard library"; exit 2; } ;;&
S01) SPY="-tags spy -overlay $D/spy/overlay.json"; export CGO_ENABLED=0 ;;
esac
case $P in
U01) ;;
*) mkdir "$D/cov" && (cd "$V/harness" && go build -modfile="$D/go.mod" -o "$D/covbin" ./cov && "$D/covbin" "$VERIF_REPO" "$D/cov" "$V/harness" ${SPY:+"$D/spy/overlay.json"}) >"$D/cov.log" 2>&1 && {
	export VERIF_COV=$D/cov VERIF_COV_BASE=$V/harness/cov/base
	(cd "$V/harness" && go build -modfile="$D/go.mod" ${SPY:+-tags spy} -overlay "$D/cov/overlay.json" -o "$D/vh" .) >>"$D/cov.log" 2>&1
} ;;
esac
[ -x "$D/vh" ] || build vh $SPY
export CGO_ENABLED=1
case $P in
X03) build vhrace -race; export VERIF_RACE_BIN=$D/vhrace ;;
X04) CGO_ENABLED=0 build vhspy -tags spy -overlay "$D/spy/overlay.json" -ldflags="-X testing.testBinary=1"; export VERIF_SPY_BIN=$D/vhspy ;;
X05) # builds for other platforms; a library that does not build there is for the harness to judge
	other() { (cd "$V/harness" && env "${@:2}" go build -modfile="$D/go.mod" -o "$D/vh-$1" $TAGS .) >"$D/vh-$1.err" 2>&1 & }
	TAGS= other 386 CGO_ENABLED=0 GOARCH=386
	TAGS= other wasm CGO_ENABLED=0 GOOS=wasip1 GOARCH=wasm
	TAGS="-gcflags=all=-N -gcflags=all=-l" other noopt CGO_ENABLED=0
	TAGS="-tags=purego" other purego CGO_ENABLED=0
	TAGS="-trimpath -buildvcs=false -buildmode=pie -ldflags=-s" other release CGO_ENABLED=0
	TAGS="-race" other race CGO_ENABLED=1
	NEW=/opt/veriftools/go1.27.3/bin # a later release of the compiler and the standard library, where there is one
	[ -x "$NEW/go" ] && TAGS= other later CGO_ENABLED=0 PATH="$NEW:$PATH"
	# code that is chosen by platform: run here what other platforms would run (nothing to do for a library without any)
	mkdir "$D/sel"; (cd "$V/harness" && go build -modfile="$D/go.mod" -o "$D/selbin" ./plat/sel) && for n in $("$D/selbin" "$VERIF_REPO" "$D/sel"); do
		TAGS="-overlay $D/sel/$n.json" other "$n" CGO_ENABLED=0
	done
	wait; export VERIF_PLATFORMS=$D/vh- VERIF_WASM_RUN=$V/harness/plat/run.mjs ;;
U01) mkdir "$D/uib"; "$V/harness/ui/build.sh" "$VERIF_REPO" "$D/ui" "$D/uib" >"$D/build.log" 2>&1 || { echo "the example does not build"; tail -20 "$D/build.log"; exit 2; }
	export VERIF_UI_BIN=$D/ui ;;
esac

# A runaway allocation must end this process, not the sandbox.
[ "$P" = X03 ] || [ "$P" = X05 ] || [ "$P" = U01 ] || ulimit -v 20000000
rm -f "$EV/$P.json"
run() { "$D/vh" -prop "$P" -evidence "$1" -known "$V/known-findings.txt" "${@:2}" > >(tee "$LOG") 2>"$D/err"; }
run "$EV" "$@"
rc=$?
# Situations in the library's code that this run never met, though its runs on the library as it was meet all of theirs: further
# rounds with other seeds, which use the constants near those situations, until none is left or the time is up.
if [ $rc = 0 ] && [ -n "$VERIF_COV" ] && [ -s "$D/cov/missed" ] && [ -z "$VERIF_NO_ROUNDS" ] && [ $# = 0 ]; then
	T=$((SECONDS + 60)); [ $VERIF_TIER = thorough ] && T=$((SECONDS + 900))
	S0=$VERIF_SEED
	over=0 # rounds after all was met: to meet is not yet to see
	for k in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20; do
		[ $SECONDS -lt $T ] || break
		[ $k = 1 ] && sed 's/^/not yet met: /' "$D/cov/missed" | head -8
		if [ -s "$D/cov/missed" ]; then cp "$D/cov/focus.json" "$D/cov/focus-now.json"; else over=$((over + 1)); fi
		[ $over -le 3 ] || break
		export VERIF_SEED=$((S0 + k * 7919)) VERIF_FOCUS=$D/cov/focus-now.json
		mkdir -p "$D/ev2"; rm -rf "$D/ev2/$P.json"
		run "$D/ev2"
		rc2=$?
		[ $rc2 = 2 ] && grep -q '^DONE ' "$LOG" && continue
		if [ $rc2 != 0 ]; then # found: this round's evidence counts
			rc=$rc2; rm -f "$EV/$P.json"
			run "$EV"; rc=$?
			break
		fi
	done
fi
sleep 0.05
head -c 20000 "$D/err" >&2
if [ -f "$EV/$P.json" ] && { [ $rc = 0 ] || [ $rc = 1 ] || [ $rc = 2 ]; } && grep -q '^DONE ' "$LOG"; then exit $rc; fi
grep -q '^VIOLATION ' "$LOG" && exit 1
if [ $rc = 137 ] || [ $rc = 143 ]; then echo "killed from outside"; exit 2; fi
# The process died on its own: a panic while starting, a fatal runtime error or exhausted memory inside the library.
if grep -Eq '^(fatal error|panic|runtime: |SIG|unexpected fault)' "$D/err" && grep -Eq 'mearaj/bips|'"$VERIF_REPO/" "$D/err"; then
	mkdir -p "$EV/replay"
	R=$EV/replay/$P-crash.txt
	{ echo "seed $VERIF_SEED tier $VERIF_TIER, exit status $rc; last output:"; tail -5 "$LOG"; head -c 60000 "$D/err"; } > "$R"
	cat > "$EV/$P.json" <<J
{"property": "$P", "tier": "$VERIF_TIER", "seed": $VERIF_SEED, "level": "exploration", "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the process running the library was ended by the Go runtime with library code on the stack", "samples": ["see $R"]}, "assumptions": [], "wall_s": $SECONDS, "violations": 1}
J
	echo "VIOLATION property=$P replay=$R"
	echo "  the library ended the whole process: $(grep -E -m1 '^(fatal error|panic|runtime: |SIG|unexpected fault)' "$D/err")"
	exit 1
fi
echo "the harness ended abnormally ($rc)"
exit 2
