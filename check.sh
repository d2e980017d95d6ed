#!/bin/bash
# check.sh ID [quick|thorough]   decide one property
# check.sh replay FILE           re-run one recorded failing case
# check.sh build                 build only
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export GV_DIR="$PWD"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
mkdir -p work evidence replays

# compile TARGET_DIR [cargo options]
compile() {
    local log="work/build-$$.log" dir="$1"
    shift
    if ! CARGO_TARGET_DIR="$dir" cargo build --offline --manifest-path harness/Cargo.toml "$@" >"$log" 2>&1; then
        cat "$log" >&2
        echo "build failed" >&2
        rm -f "$PWD/$log"
        exit 2
    fi
    rm -f "$PWD/$log"
}
# variant NAME OPT-LEVEL CHECKS UNITS: the program with the two crates compiled in another way, for C35
variant() {
    local c=() p
    for p in graviola rustls-graviola; do
        c+=(--config "profile.dev.package.$p.opt-level=$2")
        c+=(--config "profile.dev.package.$p.debug-assertions=$3" --config "profile.dev.package.$p.overflow-checks=$3")
        c+=(--config "profile.dev.package.$p.codegen-units=$4")
    done
    c+=(--config "profile.dev.package.gvcheck.opt-level=$2")
    compile "$PWD/target/variants" "${c[@]}"
    cp -f target/variants/debug/gvcheck "target/variants/$1"
}
variants() {
    variant plain 0 true 256
    variant release 3 false 1
    variant size '"z"' false 16
}

compile "$PWD/target"
case "$1" in
    build | C35) variants ;;
    replay) grep -q '"property": *"C35"' "$2" && variants ;;
esac
bin="$PWD/target/debug/gvcheck"
case "$1" in
    build) exit 0 ;;
    replay) exec "$bin" replay "$2" ;;
    *) exec "$bin" check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
