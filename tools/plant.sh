#!/bin/bash
# plant.sh NAME [CHECK...]   tries a planted bug in scratch copies: builds, runs the
# tests, the demonstration with and without it, and the checks (default: that of its property).
root=$(cd "$(dirname "$0")/.." && pwd)
n=${1:?}; shift
d=$root/seeded/$n
. "$root/env.sh"
s=$(mktemp -d /tmp/pl.XXXXXX)
trap 'rm -rf "$s"' EXIT
cp -a /repo "$s/repo" || exit 2
r="[$n]"
if ! git -C "$s/repo" apply "$d/patch.diff" 2>"$s/err"; then echo "$r patch does not apply: $(cat "$s/err")"; exit 2; fi
(cd "$s/repo" && go build ./... ) >"$s/err" 2>&1 || { echo "$r does not build"; cat "$s/err"; exit 2; }
t=$(cd "$s/repo" && go test -vet=off -count=1 -v ./dsp ./rtp ./sdp ./sip ./util ./dialog 2>&1)
echo "$t" | grep -E "^--- FAIL|^FAIL|panic:" && { echo "$r fails the tests"; exit 2; }
mkdir "$s/demo"; cp "$d"/* "$s/demo"; rm -f "$s/demo"/*.diff "$s/demo/meta.json"
(cd /repo && timeout 300 bash "$s/demo/demo.sh") >"$s/d0" 2>&1; a=$?
(cd "$s/repo" && timeout 300 bash "$s/demo/demo.sh") >"$s/d1" 2>&1; b=$?
[ $a = 0 ] || { echo "$r demo fails on the unchanged tree ($a)"; tail -20 "$s/d0"; }
[ $b != 0 ] || { echo "$r demo does not notice"; tail -20 "$s/d1"; }
[ $a = 0 ] && [ $b != 0 ] && echo "$r demo ok ($b): $(tail -1 "$s/d1" | cut -c1-200)"
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
mkdir "$s/verif"
(cd "$root" && cp -a harness run.sh env.sh KNOWN_FINDINGS.txt "$s/verif/")
sed -i "s#=> /repo#=> $s/repo#" "$s/verif/harness/go.mod"
for c in ${@:-$p}; do
  st=$(date +%s)
  out=$(cd "$s/verif" && timeout 900 ./run.sh $c 2>&1); rc=$?
  k=$(echo "$out" | grep -E "^--- " | sed 's/ \[.*//' | sort | uniq -c | sort -rn | head -4 | tr -s '\n ' ' ')
  if [ $rc = 1 ]; then echo "$r CAUGHT by $c ($(( $(date +%s)-st )) s):$k"; else echo "$r MISSED by $c (exit $rc, $(( $(date +%s)-st )) s)"; [ $rc = 2 ] && echo "$out" | tail -5; fi
done
