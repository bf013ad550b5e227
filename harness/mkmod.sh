#!/bin/bash
# mkmod.sh REPO OUTDIR: write go.mod/go.sum for the harness, taken from the repository's own (same dependency versions).
set -e
sed -e 's#^module .*#module verifharness#' -e '/^replace github.com\/mearaj\/bips/d' "$1/go.mod" > "$2/go.mod"
printf '\nrequire github.com/mearaj/bips v0.0.0\n\nreplace github.com/mearaj/bips => %s\n' "$1" >> "$2/go.mod"
cp "$1/go.sum" "$2/go.sum"
