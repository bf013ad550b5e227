#!/bin/bash
# Warm the build cache; every check rebuilds from /repo on its own.
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME=${HOME:-/root}; [ -d "$HOME/go/pkg/mod" ] || HOME=/root
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=1
D=$(mktemp -d /tmp/verif-setup.XXXXXXXX) || exit 1
case "$D" in /tmp/verif-setup.????????) ;; *) exit 1 ;; esac
trap 'rm -rf -- "$D"' EXIT
"$V/harness/mkmod.sh" "${VERIF_REPO:-/repo}" "$D" && cd "$V/harness" &&
	go build -modfile="$D/go.mod" -o "$D/vh" . && go build -race -modfile="$D/go.mod" -o "$D/vhr" . && "$D/vh" -selftest
