#!/bin/bash
# runall.sh [JOBS] [TIER]: every check, one line each
cd "$(dirname "$0")/.."
J=${1:-5}
python3 -c "import json;[print(c['property']) for c in json.load(open('MANIFEST.json'))['checks']]" | xargs -P $J -I{} sh -c 'VERIF_SEED=1 VERIF_TIER=quick ./check.sh {} > /tmp/c_{}.log 2>&1; echo "{} rc=$? $(tail -1 /tmp/c_{}.log | cut -c1-150)"'
