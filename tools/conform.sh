#!/bin/bash
# Runs the same MPI programs over the model MPI (all schedules) and over the installed MPI library
# (as often as given, default 20) and compares: what MPI does has to be among what the model does.
cd "$(dirname "$(realpath "$0")")/.." || exit 2
. ./env.sh
make_view core || exit 2
m=harness/conform/Cargo.toml
cargo build --release --quiet --offline --locked --manifest-path $m --features model --bin model --target-dir "$build/target-conform" 2>"$build/conform.log" || exit 2
cargo build --release --quiet --offline --locked --manifest-path $m --bin real --target-dir "$build/target-conform-real" 2>"$build/conform.log" || exit 2
"$build/target-conform/release/model" >"$build/conform-model.txt" 2>"$build/conform-model.log" || { cat "$build/conform-model.log"; exit 1; }
. /opt/vp/env.sh
for n in 1 2 3 4; do
    for i in $(seq "${1:-20}"); do
        echo "run $n"
        timeout 60 mpirun -n $n --oversubscribe "$build/target-conform-real/release/real" "$build/conform-rank" >/dev/null || echo failed
        cat "$build"/conform-rank*
        rm -f "$build"/conform-rank*
    done
done >"$build/conform-real.txt" 2>&1
python3 - "$build/conform-model.txt" "$build/conform-real.txt" <<'P'
import sys, collections
model = collections.defaultdict(set)
for l in open(sys.argv[1]):
    n, name, *out = l.rstrip("\n").split("\t")
    model[int(n), name].add(tuple(out))
real = collections.defaultdict(collections.Counter)
bad = 0
def close(n, got):
    global bad
    for (k, name), outs in model.items():
        if k != n: continue
        o = tuple(got.get(name, {}).get(r) for r in range(n))
        real[n, name][o] += 1
        if o not in outs:
            bad += 1
            print(f"{name} on {n} ranks: MPI gives {o}, the model does not")
n, got = 0, {}
for l in open(sys.argv[2]):
    if l.startswith("run "):
        if n: close(n, got)
        n, got = int(l.split()[1]), {}
        continue
    p = l.rstrip("\n").split("\t")
    if len(p) == 3: got.setdefault(p[0], {})[int(p[1])] = p[2]
close(n, got)
for k in sorted(real):
    print(f"{k[1]} on {k[0]} ranks: {sum(real[k].values())} runs of MPI, {len(real[k])} outcomes, of {len(model[k])} in the model")
sys.exit(bad > 0)
P
