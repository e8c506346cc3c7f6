#!/bin/bash
# check.sh PROPERTY quick|thorough [--replay UNIT CASE]   decide one property on /repo's working tree
# check.sh --build                                        only build
# exit 0: held; 1: VIOLATION line printed; 2: no verdict (build failure, harness error)
here=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH:/usr/local/bin:/usr/bin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
ulimit -c 0
ulimit -v 25165824
# one build directory per content of the library and the harness
key=$( (cd /repo && find src Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum; cd "$here" && find harness/src harness/Cargo.toml harness/Cargo.lock sched/src sched/Cargo.toml sched/Cargo.lock sched/rustc-wrap.sh -type f | LC_ALL=C sort | xargs sha256sum; rustc -V) | sha256sum | cut -c1-16)
mkdir -p "$here/build"
bin=$here/build/$key/mfcheck
if [ ! -x "$bin" ]; then
    exec 9>"$here/build/.lock"
    flock 9
    if [ ! -x "$bin" ]; then
        # the target directory is shared, the binary is kept per content; cargo goes by
        # modification times, so make it forget the two crates
        rm -rf "$here"/build/target/release/.fingerprint/magmaflow-* "$here"/build/target/release/.fingerprint/mfcheck-*
        if ! CARGO_TARGET_DIR=$here/build/target cargo build --release --offline --locked --quiet --manifest-path "$here/harness/Cargo.toml" 2>"$here/build/log"; then
            cat "$here/build/log" >&2
            echo "build failed" >&2
            exit 2
        fi
        # the library with a callback at each basic block, for the scheduler
        rm -rf "$here"/build/target-sched/release/.fingerprint/magmaflow-* "$here"/build/target-sched/release/.fingerprint/mfsched-*
        if ! RUSTC_WRAPPER=$here/sched/rustc-wrap.sh CARGO_TARGET_DIR=$here/build/target-sched cargo build --release --offline --locked --quiet --manifest-path "$here/sched/Cargo.toml" 2>"$here/build/log"; then
            cat "$here/build/log" >&2
            echo "build failed" >&2
            exit 2
        fi
        find "$here/build" -mindepth 1 -maxdepth 1 -type d ! -name 'target*' -exec rm -rf {} +
        mkdir -p "$here/build/$key"
        cp "$here/build/target-sched/release/mfsched" "$here/build/$key/mfsched" || exit 2
        cp "$here/build/target/release/mfcheck" "$here/build/$key/mfcheck.tmp" && mv "$here/build/$key/mfcheck.tmp" "$bin" || exit 2
    fi
    exec 9>&-
fi
[ "$1" = --build ] && exit 0
[ $# -ge 2 ] || { echo "usage: check.sh PROPERTY quick|thorough [--replay UNIT CASE]" >&2; exit 2; }
export MF_SCHED=$here/build/$key/mfsched
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
if [ "$3" = --replay ]; then
    "$bin" replay "$1" "$2" "$scratch" --unit "$4" --case "$5"
    rc=$?
    [ $rc = 10 ] && rc=1
    exit $rc
fi
"$bin" check "$1" "$2" "$scratch" "$here"
exit $?
