#!/bin/bash
# trybug.sh ID [PROPERTY]: run the property's check against a copy of /repo with the planted bug
cd "$(dirname "$0")/.."
P=${2:-$(python3 -c "import json;print(json.load(open('seeded/$1/meta.json'))['property'])")}
T=/tmp/trybug.$$; cp -a /repo $T; git -C $T apply "$PWD/seeded/$1/patch.diff"
CMF_REPO=$T timeout 900 python3-vt check.py $P --tier ${TIER:-quick} > $T.out 2>&1; rc=$?
echo "$1 $P rc=$rc $(grep -m1 VIOLATION $T.out)"; [ -n "$SHOW" ] && tail -${SHOW} $T.out
rm -rf $T $T.out
