#!/bin/bash
# runseed.sh SEED-ID [PROPERTY...]: runs the checks against a planted bug, in a namespace where /repo is a patched copy
V=$(cd "$(dirname "$0")/.." && pwd); id=$1; shift; props=${*:-$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}
r=/tmp/sr-$id; [ -d "$r" ] || { git clone -q /repo "$r"; cp /repo/Cargo.lock "$r"/ 2>/dev/null; }
(cd "$r" && git fetch -q origin && git reset -q --hard origin/HEAD && git apply "$V/seeded/$id/patch.diff") || exit 9
mkdir -p /tmp/wseed
for p in $props; do
  unshare -Urm bash -c "mount --bind $r /repo && cd $V && VERIF_WORK=/tmp/wseed VERIF_SEED=1 VERIF_TIER=quick python3 check.py $p quick > /tmp/seed-$id-$p.log 2>&1"; rc=$?
  echo "$id $p rc=$rc $(grep -A1 -m1 VIOLATION /tmp/seed-$id-$p.log | tr '\n' ' ') $(grep -m1 'NO ANSWER' /tmp/seed-$id-$p.log | cut -c1-150)"
done
rm -rf "$r"
