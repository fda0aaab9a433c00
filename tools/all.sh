#!/bin/sh
# every claimed check, briefly
cd "$(dirname "$0")/.."
python3 -c "
import json
print('\n'.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))" |
xargs -P 7 -I{} sh -c 'python3 check.py {} 2>&1 | tail -n 8 | cut -c1-400'
