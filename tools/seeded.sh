#!/bin/bash
# Runs each seeded bug's own check (or those named in CHECKS) against it: tools/seeded.sh [ID...]
cd /verif/seeded || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in ${@:-*}; do
	prop=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
	git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id DOES NOT APPLY"; continue; }
	for c in ${CHECKS:-$prop}; do
		s=$(date +%s)
		VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick /verif/bin/check "$c" >/tmp/seeded.out 2>&1
		echo "$id $c exit=$? $(($(date +%s) - s))s $(grep -m1 VIOLATION /tmp/seeded.out)"
	done
	git -C /repo checkout -q -- .
done
