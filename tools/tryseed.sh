#!/bin/bash
# tryseed.sh SEED [CHECK...]: applies a planted bug to /repo, runs checks, undoes it.
d=/verif/seeded/$1; shift
git -C /repo diff --quiet || { echo "/repo not clean"; exit 2; }
git -C /repo apply "$d/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
[ $# -gt 0 ] || set -- $(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$d/meta.json")
for c in "$@"; do (cd /verif && timeout 900 ./check $c 2>&1 | cut -c1-400 | head -4); done
