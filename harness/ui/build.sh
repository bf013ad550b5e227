#!/bin/bash
# build.sh REPO OUT SCRATCH: the example application, with the windowing backend of gioui.org replaced by appstub.go
set -e
H=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
R=$1 OUT=$2 D=$3
cd "$R"
G=$(go list -m -f '{{.Dir}}' gioui.org)
mkdir -p "$D/gio"
cp -r "$G/." "$D/gio/" && chmod -R u+w "$D/gio"
find "$D/gio/app" -maxdepth 1 -type f ! -name app.go ! -name doc.go -delete
cp "$H/appstub.go.txt" "$D/gio/app/stub.go"
cp "$H/driver.go.txt" "$D/uidriver.go"
printf '{"Replace": {"%s/examples/ui/one/verifdriver.go": "%s/uidriver.go"}}\n' "$R" "$D" > "$D/overlay.json"
cp "$R/go.mod" "$D/ui.mod"; cp "$R/go.sum" "$D/ui.sum"
printf '\nreplace gioui.org => %s/gio\n' "$D" >> "$D/ui.mod"
go build -modfile="$D/ui.mod" -overlay "$D/overlay.json" -o "$OUT" ./examples/ui/one
