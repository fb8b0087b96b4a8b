#!/bin/bash
# tools/seedcheck.sh [ids...]: run each planted bug's own check in a scratch copy; prints CAUGHT/MISSED
cd /verif; [ $# -eq 0 ] && set -- $(ls seeded)
w=$(mktemp -d /tmp/seedcheck-XXXXXX)
one() { id=$1; w=$2; p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 mkdir -p $w/$id; git -C /repo archive HEAD | tar x -C $w/$id; cp /repo/Cargo.lock $w/$id/ 2>/dev/null
 (cd $w/$id && git init -q . 2>/dev/null; git -C $w/$id apply /verif/seeded/$id/patch.diff) || { echo "$id APPLYFAIL"; return; }
 o=$(LFA_REPO=$w/$id LFA_NOEV=1 ./check.sh $p 2>&1); rc=$?
 if [ $rc = 1 ] && grep -q "^VIOLATION property=$p" <<<"$o"; then echo "$id $p CAUGHT"; else echo "$id $p MISSED rc=$rc: $(tail -3 <<<"$o"|cut -c1-300)"; fi; }
export -f one
printf '%s\n' "$@" | xargs -P 6 -I{} bash -c 'one {} '$w
rm -rf "$w"
