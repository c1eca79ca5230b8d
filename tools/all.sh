#!/bin/bash
# developer helper: run every registered quick check, one after another
cd "$(dirname "$0")/.."; for p in ${@:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}; do timeout 900 python3-vt gv/check.py $p > /tmp/all.$p.log 2>&1; echo "$p rc=$? $(tail -1 /tmp/all.$p.log)"; grep -E "^(note|VIOL|ERROR)" /tmp/all.$p.log | cut -c1-200; done
