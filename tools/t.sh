#!/bin/bash
# developer helper: run one check for some seeds and show margins
cd /verif; for s in ${2:-1}; do bash check.sh $1 ${3:-quick} --seed $s | grep -v ^VIOL | cut -c1-600 | head -8; done
python3 - $1 <<'PY'
import json,sys
e=json.load(open(f'/verif/evidence/{sys.argv[1]}.json'))['coverage']
print({k:v for k,v in list(e['largest_error_over_tolerance'].items())[:14]})
print({k:(v['runs'],v['skipped'],v['decided']) for k,v in e['cases'].items()})
PY
