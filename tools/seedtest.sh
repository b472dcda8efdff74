#!/bin/bash
# tools/seedtest.sh <id> [check-property...]: does a planted bug count, and which checks catch it (scratch copy of /repo)
id=$1; shift
S=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
W=$(mktemp -d /tmp/seed.XXXXXX)
trap "rm -rf '$W'" EXIT
git -C /repo archive HEAD | tar -x -C "$W"
cd "$W"
runtests() { for t in test/t-*ref*; do :; done; }
( bash "$S/demo.sh" >"$W/.d0" 2>&1 ); a=$?
git -C "$W" init -q . >/dev/null; git -C "$W" apply "$S/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
( bash "$S/demo.sh" >"$W/.d1" 2>&1 ); b=$?
echo "$id [$prop] demo clean=$a patched=$b"
[ $a = 0 ] || cat "$W/.d0"
for p in ${@:-$prop}; do
  out=$(VERIF_REPO=$W timeout 900 python3-vt /verif/engine/check.py $p quick 2>&1); r=$?
  echo "   $p rc=$r $(echo "$out" | grep -m1 -E 'VIOLATION|ERROR|UNCONF')"
  echo "$out" | sed -n 2,3p | cut -c1-200
done
