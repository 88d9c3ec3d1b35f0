#!/bin/bash
# Confirms a planted bug in a scratch copy of /repo and runs checks against it:
#   tools/plant.sh <id> [CHECK ...]      (no CHECK: the one of its property; "-": none)
# Everything happens in a mount namespace of its own, in which a scratch copy of
# /repo stands at /repo and one of /verif at /verif; the real ones are not touched.
set -u
id=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
seed=$here/seeded/$id
prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$seed/meta.json")
checks=${*:-$prop}
w=$(mktemp -d /tmp/plant.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"
mkdir "$w/verif"
tar -C "$here" --exclude=./build --exclude=./out --exclude=./.git --exclude=./seeded -cf - . | tar -C "$w/verif" -xf -
cp -r "$seed" "$w/seed"
cat > "$w/go.sh" <<'EOS'
w=$1; id=$2; checks=$3
mount --bind "$w/repo" /repo && mount --bind "$w/verif" /verif || exit 9
cd /repo
say() { echo "[$id] $*"; }
bash /opt/vp/build.sh >"$w/b0.log" 2>&1 || { say "clean build FAILED"; exit 8; }
timeout 300 bash "$w/seed/demo.sh" >"$w/d0.log" 2>&1 || { say "demo FAILS on the unchanged tree"; tail -5 "$w/d0.log"; exit 7; }
git -C /repo apply "$w/seed/patch.diff" || { say "patch does not apply"; exit 6; }
bash /opt/vp/build.sh >"$w/b1.log" 2>&1 || { say "patched build FAILED"; grep -m5 error "$w/b1.log"; exit 5; }
bash /opt/vp/test.sh "$w/t.json" >"$w/t.log" 2>&1
python3 - "$w/t.json" <<'P' || { say "existing tests FAIL"; exit 4; }
import json, sys
b = json.load(open('/opt/vp/BASELINE.json'))['stable']
t = json.load(open(sys.argv[1]))
m = [x for x in b if x not in t['passed']]
print('   tests lost:', m) if m else None
sys.exit(bool(m))
P
if timeout 300 bash "$w/seed/demo.sh" >"$w/d1.log" 2>&1; then say "demo PASSES with the patch"; exit 3; fi
say "confirmed: $(tail -1 "$w/d1.log" | cut -c1-150)"
[ "$checks" = - ] && exit 0
r=0
for c in $checks; do
  t0=$SECONDS
  (cd /verif && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 run.py $c) >"$w/c.log" 2>&1; rc=$?
  say "$c exit $rc ($((SECONDS-t0)) s) $(grep -m1 VIOLATION "$w/c.log")"
  [ $rc = 1 ] || { [ $rc = 0 ] || tail -5 "$w/c.log"; r=1; }
  cp "$w/c.log" /tmp/w/last_$id.$c.log 2>/dev/null
done
exit $r
EOS
unshare -Urm bash "$w/go.sh" "$w" "$id" "$checks"
