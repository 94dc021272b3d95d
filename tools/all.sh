#!/bin/bash
# all.sh [ID...]: run the quick checks in turn, one line each
cd /verif || exit 1
[ $# -eq 0 ] && set -- $(python3 -c "
import json
for c in json.load(open('MANIFEST.json'))['checks']: print(c['property'])")
for id in "$@"; do
	s=$(date +%s)
	VERIF_SEED=1 VERIF_TIER=quick ./check.sh "$id" quick >"/tmp/all.$id.$$" 2>&1
	rc=$?
	x=$(python3 -c "import json;c=json.load(open('evidence/$id.json'))['coverage'];print('exhaustive' if c.get('exhaustive') else 'PARTIAL',c.get('states',''))")
	echo "$id rc=$rc $(($(date +%s) - s))s $x $(grep -m1 -A3 '^state:\|VIOLATION' "/tmp/all.$id.$$" | tr '\n' ' ' | cut -c1-400)"
	rm -f "/tmp/all.$id.$$"
done
