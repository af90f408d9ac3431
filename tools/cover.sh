#!/bin/bash
# cover.sh OUT ID...   runs checks with coverage counters in gosip and writes the profile to OUT.
root=$(cd "$(dirname "$0")/.." && pwd)
out=${1:?}; shift
. "$root/env.sh"
d=$(mktemp -d /tmp/cov.XXXXXX); trap 'rm -rf "$d"' EXIT
mkdir "$d/c" "$d/root"; cp "$root/KNOWN_FINDINGS.txt" "$d/root"
cd "$root/harness" && go build -cover -coverpkg=github.com/jart/gosip/...,verif/cmd/check -o "$d/check" ./cmd/check || exit 2
for id; do GOCOVERDIR=$d/c "$d/check" -root "$d/root" -prop "$id" >/dev/null 2>&1 || echo "$id: exit $?"; done
go tool covdata textfmt -i="$d/c" -pkg="$(go list -deps ./cmd/check | grep jart/gosip | paste -sd,)" -o "$out"
go tool covdata percent -i="$d/c"
