#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's working tree.
# Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Else: no answer.
cd "$(dirname "$(realpath "$0")")" || exit 2
. ./env.sh
id=${1:?usage: check.sh PROPERTY [quick|thorough]}
tier=${2:-${VERIF_TIER:-quick}}
bin=${id,,}
layer=$(layer_of "$id")
make_view "$layer" || exit 2
build_bin "$layer" "$bin" || exit 2
rm -f "$verif/evidence/$id.json"
limit=600
[ "$tier" = thorough ] && limit=${VERIF_LIMIT:-7200}
ulimit -v $((12 * 1024 * 1024))
log=$build/run-$bin.log
timeout -k 5 $limit "$target-$layer/release/$bin" --tier "$tier" --out "$verif/evidence/$id.json" \
    --replay-dir "$verif/build/replay" --known "$verif/known_findings.txt" 2> >(tail -c 100000 >"$log")
rc=$?
case $rc in
0 | 1) exit $rc ;;
101 | 132 | 134 | 135 | 136 | 139) what="the code under test crashed the process (status $rc)" ;;
124 | 137) [ "$tier" = quick ] && [ $rc = 124 ] && what="the code under test does not come to an end within $limit s" ;;
esac
tail -c 2000 "$log" >&2
if [ -z "$what" ]; then
    echo "error: the check of $id ended with $rc" >&2
    exit 2
fi
mkdir -p "$build/replay" "$verif/evidence"
replay=$build/replay/$id.crash.log
{ echo "$what"; cat "$log"; } >"$replay"
python3 "$verif/tools/crash.py" "$id" "$tier" "$what" "$verif/evidence/$id.json"
echo "$what"
echo "VIOLATION property=$id replay=$replay"
exit 1
