#!/bin/bash
# run.sh ID [check flags]   decides property ID on /repo's current working tree.
# The tier and the seed come from VERIF_TIER and VERIF_SEED.
root=$(cd "$(dirname "$0")" && pwd)
id=${1:?usage: run.sh ID [-replay FILE]}; shift
. "$root/env.sh"
mkdir -p "$root/build/bin"
kind=plain; flags=()
case $id in R*|C*|T*|U*|E*) kind=race; flags=(-race);; esac
bin=$root/build/bin/check-$kind
cd "$root/harness" || exit 2
if ! go build "${flags[@]}" -o "$bin.$$" ./cmd/check; then
  echo "check $id: the harness does not build against /repo" >&2
  exit 2
fi
mv -f "$bin.$$" "$bin"
exec "$bin" -root "$root" -prop "$id" "$@"
