#!/bin/bash
# tools/mutant.sh DIR: go through DIR/order (see mutate.py) in a copy of /repo, build, run the stable tests, then the checks
# until one reports a violation; results are appended to DIR/result. SLOT names the copy; several slots share one DIR.
set -u
D=$1; slot=${SLOT:-m}; w=/tmp/plant_$slot
if [ "${INNER:-}" = "" ]; then
  mkdir -p "$w/repo" "$w/verif"
  rsync -a --delete --exclude /target /repo/ "$w/repo/"
  [ -d "$w/repo/target" ] || cp -a /repo/target "$w/repo/target"
  rsync -a --exclude .git --exclude /work/replay --exclude /evidence /verif/ "$w/verif/"
  INNER=1 exec unshare -m bash "$w/verif/tools/mutant.sh" "$D"
fi
mount --make-rprivate / && mount --bind "$w/repo" /repo && mount --bind "$w/verif" /verif || exit 9
cd /repo || exit 9
git checkout -q -- .
while read -r m; do
  mkdir "$D/$m.lock" 2>/dev/null || continue
  git checkout -q -- .
  git apply "$D/$m.diff" || { echo "$m noapply" >> "$D/result"; continue; }
  f=$(grep '^+++' "$D/$m.diff" | cut -c7-)
  if ! timeout 300 bash /opt/vp/build.sh >"$w/build.log" 2>&1; then echo "$m nobuild $f" >> "$D/result"; continue; fi
  rm -f "$w/o.json"
  timeout 300 bash /opt/vp/test.sh "$w/o.json" >/dev/null 2>&1
  if ! python3 -c "
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('$w/o.json'))['passed'])
sys.exit(1 if b-o else 0)" 2>/dev/null; then echo "$m tests $f" >> "$D/result"; continue; fi
  r=SURVIVED
  for p in $(cat "$D/$m.checks"); do
    timeout 900 python3 /verif/check.py "$p" quick >"$w/mcheck.log" 2>&1; rc=$?
    if [ $rc = 1 ]; then r="caught $p"; break; fi
    if [ $rc != 0 ]; then r="$r tool($p,$rc)"; cp "$w/mcheck.log" "$D/$m.$p.log"; fi
  done
  echo "$m $r $f" >> "$D/result"
done < "$D/order"
git checkout -q -- .
