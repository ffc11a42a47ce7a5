#!/bin/bash
# check.sh setup                  builds the simulator
# check.sh run PROP [quick|thorough]   decides one property on /repo's working tree (VERIF_SEED, VERIF_TIER)
# check.sh replay FILE            replays a recorded violation
HERE=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= SIM_VERIF="$HERE"
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG CARGO_TARGET_DIR
export PATH="$HOME/.cargo/bin:$PATH"

build() { # target directory, rustflags
    # cargo goes by modification times: always compile the crates that depend on /repo anew
    rm -rf "$1"/debug/.fingerprint/cambrian-* 2>/dev/null
    cd "$HERE/sim" || return 1
    export CARGO_TARGET_DIR="$1" RUSTFLAGS="$2"
    rm -f "$1/debug/simcheck" "$1/debug/simcli"
    cargo build --offline --bin simcheck --bin simcli && return 0
    # the command-line tool may not build as a part of the simulator: the library alone, then
    rm -f "$1/debug/simcli"
    cargo build --offline --bin simcheck && return 0
    return 1
}

prepare() { # builds and copies the executables to $BIN
    mkdir -p "$HERE/sim/target"
    exec 9>"$HERE/sim/target/.check-lock"
    flock 9
    # the observation points inside the crate or its operator modules may not fit a changed tree: less of it, then
    local i=0 ok=
    for f in "--cfg cambrian_sim --cfg cambrian_ops" "--cfg cambrian_ops" "--cfg cambrian_sim" ""; do
        T="$HERE/sim/target"
        [ $i -gt 0 ] && T="$T/part$i"
        (build "$T" "$f -A warnings") >"$BIN/build$i.log" 2>&1 && ok=1 && break
        echo "build with '$f' failed:" >&2
        grep -E '^error' -A6 "$BIN/build$i.log" | head -20 >&2
        i=$((i + 1))
    done
    if [ -z "$ok" ]; then
        echo "the tree in /repo does not build" >&2
        return 1
    fi
    cp "$T/debug/simcheck" "$BIN/" || return 1
    cp "$T/debug/simcli" "$BIN/" 2>/dev/null
    chmod 755 "$BIN"
    flock -u 9
    exec 9>&-
}

BIN=$(mktemp -d /tmp/simcheck-bin.XXXXXX) || exit 2
trap 'rm -rf "$BIN"' EXIT
case "$1" in
setup)
    prepare || exit 2
    ;;
run)
    prepare || exit 2
    "$BIN/simcheck" run "$2" "${VERIF_SEED:-1}" "${3:-${VERIF_TIER:-quick}}"
    exit $?
    ;;
replay)
    prepare || exit 2
    "$BIN/simcheck" replay "$2"
    exit $?
    ;;
*)
    echo "usage: check.sh setup | run PROP [quick|thorough] | replay FILE" >&2
    exit 2
    ;;
esac
