#!/bin/bash
# runs every registered quick check, four at a time; prints one line each
cd "$(dirname "$0")/.."
python3 -c "import json;print('\n'.join(sorted(json.load(open('levels.json')))))" | xargs -P 4 -I{} sh -c 'o=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py {} 2>&1); r=$?; echo "$r $(echo "$o" | grep -v "^   \|^undis" | tail -1 | cut -c1-160)"'
