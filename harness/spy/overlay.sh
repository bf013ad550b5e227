#!/bin/bash
# overlay.sh OUTDIR: write copies of some standard-library files with hooks and the overlay file for go build -overlay:
# syscall.Getenv notes the names that are read, time.Now is shifted by VERIF_CLOCK seconds, time can be made to jump, system calls made through the
# syscall package (all but the runtime's own) and writes of print/println are counted.
set -e
G=$(go env GOROOT); D=$1
sed -e 's#^\tenvOnce\.Do(copyenv)$#&\n\tverifNote(key)#' "$G/src/syscall/env_unix.go" > "$D/env_unix.go"
sed -i -e '/^func Environ/,/^}/s#verifNote(key)#verifNote("*")#; /^func Setenv/,/^}/s#verifNote(key)##; /^func Unsetenv/,/^}/s#verifNote(key)##; /^func Clearenv/,/^}/s#verifNote(key)##' "$D/env_unix.go"
cat >> "$D/env_unix.go" <<'X'

var (
	verifMu    sync.Mutex
	verifReads = map[string]bool{}
)

func verifNote(key string) {
	verifMu.Lock()
	verifReads[key] = true
	verifMu.Unlock()
}

// VerifEnvReads lists the names of the environment variables read so far.
func VerifEnvReads() (out []string) {
	verifMu.Lock()
	defer verifMu.Unlock()
	for k := range verifReads {
		out = append(out, k)
	}
	return
}
X
sed -e '/^func Now() Time {/,/^}/s#^\tmono -= startNano$#&\n\tsec += verifClock + VerifJump\n\tmono += VerifJump * 1e9#; s#runtimeNano()-startNano#runtimeNano()-startNano+VerifJump*1e9#' "$G/src/time/time.go" > "$D/time.go"
cat >> "$D/time.go" <<'X'

// VerifJump seconds have passed in addition.
var VerifJump int64

var verifClock = func() (n int64) {
	s, _ := verifGetenv("VERIF_CLOCK")
	neg := len(s) > 0 && s[0] == '-'
	if neg {
		s = s[1:]
	}
	for _, c := range s {
		n = n*10 + int64(c-'0')
	}
	if neg {
		n = -n
	}
	return
}()
X
cat > "$D/verif_env.go" <<'X'
package time

import "syscall"

var verifGetenv = syscall.Getenv
X
sed -e 's#^func RawSyscall6(.*{$#&\n\tverifTraps[trap\&1023]++#' "$G/src/syscall/syscall_linux.go" > "$D/syscall_linux.go"
cat >> "$D/syscall_linux.go" <<'X'

var verifTraps [1024]uint32

// VerifTraps gives the number of system calls made so far, by number.
func VerifTraps() *[1024]uint32 { return &verifTraps }
X
sed -e 's#^func writeErr(b .*{$#&\n\tverifPrints++#' "$G/src/runtime/write_err.go" > "$D/write_err.go"
cat >> "$D/write_err.go" <<'X'

var verifPrints int

// VerifPrints gives the number of pieces print and println have written.
func VerifPrints() int { return verifPrints }
X
grep -q 'sec += verifClock' "$D/time.go" && [ $(grep -c 'runtimeNano()-startNano+VerifJump' "$D/time.go") = 2 ] && grep -q 'verifNote(key)$' "$D/env_unix.go" && grep -q 'verifTraps\[trap&1023\]' "$D/syscall_linux.go" && grep -q '^.verifPrints++' "$D/write_err.go"
{
	printf '{"Replace": {'
	for f in syscall/env_unix.go syscall/syscall_linux.go runtime/write_err.go time/time.go; do printf '"%s": "%s", ' "$G/src/$f" "$D/${f#*/}"; done
	printf '"%s": "%s"}}\n' "$G/src/time/verif_env.go" "$D/verif_env.go"
} > "$D/overlay.json"
