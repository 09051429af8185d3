#!/bin/bash
# tools/plant.sh ID [PROPERTY...]: confirm the planted change seeded/ID in a copy of /repo (build, stable tests, demo with and
# without it), then run the checks of the given properties (default: the one in meta.json) against it. Nothing outside the copy
# is touched: the copies are bind-mounted over /repo and /verif in a private mount namespace.
set -u
id=$1; shift
slot=${SLOT:-a}
w=/tmp/plant_$slot
if [ "${INNER:-}" = "" ]; then
  exec 9>"$w.lock"; flock 9
  mkdir -p "$w/repo" "$w/verif"
  rsync -a --delete --exclude /target /repo/ "$w/repo/"
  [ -d "$w/repo/target" ] || cp -a /repo/target "$w/repo/target"
  rsync -a --exclude .git --exclude /work/replay --exclude /evidence /verif/ "$w/verif/"
  INNER=1 exec unshare -m bash "$w/verif/tools/plant.sh" "$id" "$@"
fi
mount --make-rprivate / && mount --bind "$w/repo" /repo && mount --bind "$w/verif" /verif || exit 9
cd /repo || exit 9
d=/verif/seeded/$id
demo() { t=$(mktemp -d); cp -r "$d/." "$t/"; rm -f "$t"/*.diff "$t"/meta.json; bash "$t/demo.sh" >"$w/demo.log" 2>&1; rc=$?; rm -rf "$t"; return $rc; }
git checkout -q -- . 
if [ "${NODEMO:-}" = "" ]; then demo; echo "$id demo clean rc=$?"; fi
git apply "$d/patch.diff" || { echo "$id PATCH DOES NOT APPLY"; exit 9; }
if [ "${NODEMO:-}" = "" ]; then
  bash /opt/vp/build.sh >"$w/build.log" 2>&1 || { echo "$id BUILD FAILS"; tail -30 "$w/build.log"; exit 9; }
  bash /opt/vp/test.sh "$w/o.json" >/dev/null 2>&1
  python3 -c "
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('$w/o.json'))['passed'])
print('$id tests missing', sorted(b-o))"
  demo; rc=$?; echo "$id demo patched rc=$rc"; tail -3 "$w/demo.log"
fi
props=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
for p in $props; do
  s=$(date +%s); python3 /verif/check.py $p quick >"$w/check_$p.log" 2>&1; rc=$?
  echo "$id check $p rc=$rc $(grep -c VIOLATION $w/check_$p.log) violations ($(( $(date +%s) - s )) s)"
  [ $rc = 2 ] && tail -5 "$w/check_$p.log"
done
git checkout -q -- .
