#!/bin/bash
# runs every registered check (for development): all.sh [jobs]
cd "$(dirname "$0")"
python3 -c "import json; print('\n'.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))" | PYTHONHASHSEED=0 xargs -P "${1:-6}" -I{} sh -c 's=$(date +%s); o=$(python3 check.py {} 2>&1 | tail -1); echo "$(( $(date +%s) - s ))s $o"' | sort -k3
