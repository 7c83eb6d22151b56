#!/bin/bash
# tools/catch.sh [seed...]: runs each planted bug against its property's quick
# check (PROP overrides the property), on copies of /repo and /verif mounted
# over the real ones in a private mount namespace: nothing real is touched.
W=${CATCH_DIR:-/tmp/catch}
if [ -z "$CATCH_INSIDE" ]; then
  mkdir -p $W && rm -rf $W/repo $W/src && mkdir -p $W/verif
  cp -a /repo $W/repo
  cp -a "${SRC:-/verif/seeded}" $W/src
  rsync -a --delete --exclude .git --exclude seeded /verif/ $W/verif/ 2>/dev/null || { rm -rf $W/verif; cp -a /verif $W/verif; }
  CATCH_INSIDE=1 exec unshare -m "$0" "$@"
fi
mount --bind $W/repo /repo && mount --bind $W/verif /verif || exit 2
cd /verif
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
for s in ${@:-$(ls $W/src)}; do
  d=$W/src/$s
  p=${PROP:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  git -C /repo apply "$d/patch.diff" || { echo "$s APPLY"; continue; }
  for q in $p; do
    o=$(./run.sh $q 2>&1); rc=$?
    [ -n "$VERBOSE" ] && echo "$o"; echo "$s $q rc=$rc $(echo "$o" | grep -E '^VIOLATION|^error|^INCONCLUSIVE' | head -1 | cut -c1-150)"
  done
  git -C /repo checkout -q -- .
done
