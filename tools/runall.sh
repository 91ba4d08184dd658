#!/bin/bash
# tools/runall.sh [tier] [seed] [ids...]: run the claimed checks in turn
cd "$(dirname "$0")/.." || exit 2
tier=${1:-quick}; seed=${2:-1}; shift 2
ids=${*:-$(/opt/venv/bin/python -c 'import json;print(*[c["property"] for c in json.load(open("MANIFEST.json"))["checks"]])')}
bad=0
for i in $ids; do
  VERIF_SEED=$seed PYTHONHASHSEED=0 /opt/venv/bin/python check.py "$i" "$tier"
  rc=$?; [ $rc = 0 ] || { echo "== $i exit $rc"; bad=1; }
done
exit $bad
