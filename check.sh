#!/bin/bash
# check.sh ID [quick|thorough]   runs one property's check (seed: VERIF_SEED, default 1)
# check.sh replay FILE           runs one recorded case
# check.sh build                 only builds
#
# Builds the harness against /repo's working tree, with the observation hooks
# (--cfg mollusc_verif); should the hooks not build, without them.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
export PATH="$HOME/.cargo/bin:/usr/local/bin:$PATH"
export MVP_ROOT="$here"

build() { # target-dir rustflags
    RUSTFLAGS="$2" cargo build --offline --quiet --manifest-path "$here/harness/Cargo.toml" \
        --target-dir "$1" >"$here/harness/build.log" 2>&1
}

bin="$here/harness/target/debug/mvp"
if ! build "$here/harness/target" "--cfg mollusc_verif"; then
    echo "note: the build with hooks failed; building without them" >&2
    tail -n 30 "$here/harness/build.log" >&2
    bin="$here/harness/target/nohooks/debug/mvp"
    if ! build "$here/harness/target/nohooks" ""; then
        tail -n 60 "$here/harness/build.log" >&2
        echo "error: the harness doesn't build against /repo" >&2
        exit 2
    fi
fi

case "${1:-}" in
    build) exit 0 ;;
    replay) exec "$bin" replay "$2" ;;
    "") echo "usage: check.sh ID [quick|thorough] | replay FILE | build" >&2; exit 2 ;;
    *) exec "$bin" run "$1" "${2:-${VERIF_TIER:-quick}}" "${VERIF_SEED:-1}" ;;
esac
