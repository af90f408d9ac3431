#!/bin/bash
# Builds the harness, plain and with the race detector, to warm the build cache.
root=$(cd "$(dirname "$0")" && pwd)
. "$root/env.sh"
mkdir -p "$root/build/bin"
cd "$root/harness" || exit 2
go build -o "$root/build/bin/check-plain" ./cmd/check && go build -race -o "$root/build/bin/check-race" ./cmd/check
