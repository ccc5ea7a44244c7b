#!/bin/bash
# every check, in parallel; prints exit codes
cd /verif; mkdir -p /tmp/ev
ps=${*:-$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")}
echo $ps | tr ' ' '\n' | xargs -P 6 -I{} sh -c 's=$(date +%s); TSA_EVIDENCE=/tmp/ev timeout 900 python3 check.py {} > /tmp/ev/{}.out 2>&1; echo "{} rc=$? $(( $(date +%s)-s ))s viol=$(grep -c VIOLATION /tmp/ev/{}.out)"'
