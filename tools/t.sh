#!/bin/bash
# run checks and show their coverage in one line each
cd "$(dirname "$0")/.."
for c in "$@"; do python3 checks/run.py $c 2>&1 | tail -${TAIL:-12}; python3 -c "
import json;e=json.load(open('evidence/$c.json'))['coverage'];print({k:e.get(k) for k in ('configurations','configurations_executed','inconclusive_count','configurations_skipped_for_time','paths','paths_left_unexplored','queries_unknown')}); [print(x) for x in e.get('inconclusive',[])[:3]]"; done
