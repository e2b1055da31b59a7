# Sourced by check.sh and setup.sh.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_TARGET_DIR
verif=$PWD
repo=/repo
build=$verif/build
target=$build/target

# core: the part of the crate that compiles as it is. full: all of it, over harness/shims.
layer_of() {
    case $1 in
    C0? | C10 | C11 | C24) echo core ;;
    *) echo full ;;
    esac
}

# The sources of /repo as the harness compiles them.
make_view() {
    mkdir -p "$build" || return 1
    if [ "$1" = core ]; then
        cargo build --release --quiet --offline --locked --manifest-path "$verif/prune/Cargo.toml" \
            --target-dir "$build/prune" || return 1
        mkdir -p "$build/view-core/src" || return 1
        "$build/prune/release/prune" "$repo" "$build/view-core" "$verif/rules/core.txt" || return 1
    else
        python3 "$verif/tools/mirror.py" "$repo/src" "$build/view-full/src" || return 1
        python3 "$verif/tools/app.py" "$repo/src" "$build/view-app" "$verif/harness/checks_full/src" || return 1
    fi
}

build_bin() {
    local layer=$1 bin=$2 manifest=$verif/harness/checks/Cargo.toml
    [ "$layer" = full ] && manifest=$verif/harness/checks_full/Cargo.toml
    for try in 1 2 3 4 5 6; do
        cargo build --release --quiet --offline --locked --manifest-path "$manifest" --target-dir "$target-$layer" \
            --features "$bin" --bin "$bin" --message-format json >"$build/build-$bin.json" 2>"$build/build-$bin.log" &&
            return 0
        [ "$layer" = full ] || break
        (cd "$verif/harness/checks_full" && python3 "$verif/tools/stub.py" "$build/view-full" <"$build/build-$bin.json") || break
    done
    python3 -c 'import json, sys
for line in sys.stdin:
    m = json.loads(line).get("message")
    if m and m["level"] == "error": print(m["rendered"])' <"$build/build-$bin.json" 2>/dev/null | head -60 >&2
    tail -5 "$build/build-$bin.log" >&2
    return 1
}
