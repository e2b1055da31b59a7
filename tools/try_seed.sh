#!/bin/bash
# try_seed.sh ID...: for each planted change: its demo and its check, without and with it.
cd "$(dirname "$(realpath "$0")")/.." || exit 2
for id in "$@"; do
    d=$PWD/seeded/$id
    prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
    if [ -z "$NODEMO" ]; then
        bash /opt/vp/build.sh >/dev/null 2>&1
        (cd /repo && bash "$d/demo.sh" >/tmp/demo.out 2>&1); a=$?
    fi
    git -C /repo apply "$d/patch.diff" || { echo "$id does not apply"; continue; }
    if [ -z "$NODEMO" ]; then
        bash /opt/vp/build.sh >/tmp/build.out 2>&1; b=$?
        t=$(bash /opt/vp/test.sh /tmp/t.json | tail -1)
        (cd /repo && bash "$d/demo.sh" >/tmp/demo2.out 2>&1); e=$?
    fi
    out=$(./check.sh "$prop" quick 2>&1); k=$?
    git -C /repo checkout -- .
    echo "$id $prop demo-clean=$a build=$b tests='$t' demo-bug=$e check=$k: $(echo "$out" | tail -2 | head -1 | cut -c1-150)"
done
