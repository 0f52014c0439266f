#!/bin/bash
# tools/coverage.sh [ID ...]: which lines of the library the generated cases reach (gcov), into build/cov/report
cd "$(dirname "$0")/.." || exit 1
export VERIF_COV=/verif/build/cov VERIF_EVIDENCE_DIR=/verif/build/cov/evidence VERIF_SEED=${VERIF_SEED:-1}
mkdir -p build/cov; ids="$*"; [ "$ids" ] || ids=$(python3 -c 'import json
for l in open("properties.jsonl"): print(json.loads(l)["id"])')
find build/cov -name '*.gcda' -delete
for i in $ids; do python3 run.py check $i | grep -v built; done
rm -rf /verif/build/cov/report; mkdir -p build/cov/report
for d in build/cov/lib-*; do
  v=$(basename $d); mkdir -p build/cov/report/$v
  (cd build/cov/report/$v && gcov -r -s ${VERIF_REPO:-/repo} -o ../../$v/o ../../$v/o/*.gcda >/dev/null 2>&1)
done
