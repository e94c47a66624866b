#!/bin/sh
# run every registered check once; prints one line per check. usage: tools/all.sh [seed]
cd "$(dirname "$0")/.." || exit 2
for c in $(python3 -c "import json;print(' '.join(x['property'] for x in json.load(open('MANIFEST.json'))['checks']))"); do
  VERIF_SEED=${1:-1} ./check $c > /tmp/all.$$ 2>&1; r=$?
  echo "$c rc=$r $(grep -v '^---' /tmp/all.$$ | tail -1 | cut -c1-110)"
done
/bin/rm -f /tmp/all.$$
