#!/bin/bash
# Runs the program beside this file against the gosip in the current directory.
# Exits 0 if gosip behaves, and with something else if it doesn't.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here"/*.go "$tmp"/ || exit 2
if [ -f "$here/stage.c" ]; then mkdir "$tmp/c" && cp "$here/stage.c" "$tmp/c"/ || exit 2; fi
cat >"$tmp/go.mod" <<MOD
module demo

go 1.14

require github.com/jart/gosip v0.0.0

replace github.com/jart/gosip => $repo
MOD
cd "$tmp" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
go build -o demo . || exit 2
timeout 120 ./demo
