#!/bin/bash
# try.sh [id ...]: run each planted bug's own check (quick) against it; prints caught or MISSED
cd /verif || exit 1
[ $# -eq 0 ] && set -- $(ls seeded)
for id in "$@"; do
	p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
	git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
	git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
	s=$(date +%s)
	./check.sh "$p" quick >"/tmp/try.$id" 2>&1
	rc=$?
	git -C /repo checkout -- .
	if [ $rc -eq 1 ] && grep -q "^VIOLATION property=$p " "/tmp/try.$id"; then v=caught; else v="MISSED rc=$rc"; fi
	echo "$id $p $v $(($(date +%s) - s))s  $(grep -m1 -A1 '^state:' "/tmp/try.$id" | tail -1 | cut -c1-150)"
done
