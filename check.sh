#!/bin/bash
# Builds the harness against /repo's working tree and runs the check of one
# property:   check.sh setup | check.sh C01 | check.sh replay FILE
set -u
[ "${1:-}" = replay ] && set -- replay "$(realpath -- "${2:?file}")"
home=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export PV_HOME=$home
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
cd "$home/harness" || exit 2
mkdir -p target || exit 2

# Cargo trusts modification times. Sources that were swapped for older ones
# would go unnoticed, so compare their contents too.
forget_stale() { # target directory
    local dir=$home/harness/$1 now
    now=$(cd /repo && find . \( -name target -o -name .git \) -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' \) -print0 |
        LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
    if [ "$now" != "$(cat "$dir/.sources" 2>/dev/null)" ]; then
        rm -rf -- "${dir:?}"
        mkdir -p "$dir" && echo "$now" >"$dir/.sources"
    fi
}

build() {
    forget_stale target/plain
    cargo build --offline --release --target-dir target/plain >target/build.log 2>&1 && return
    cat target/build.log >&2
    echo "error: the harness does not build" >&2
    exit 2
}

# The same harness with AddressSanitizer and the checks of unsafe preconditions.
build_asan() {
    forget_stale target/asan
    RUSTFLAGS="-Zsanitizer=address -Zub-checks=yes" cargo +nightly build --offline --release \
        --target x86_64-unknown-linux-gnu --target-dir target/asan >target/build-asan.log 2>&1 && return
    cat target/build-asan.log >&2
    echo "error: the harness does not build with the sanitizer" >&2
    exit 2
}

# The same harness where every block of compiled code calls the step counter in
# src/work.rs. The program runs it itself, for cases that seem not to end.
build_steps() {
    forget_stale target/steps
    local flags="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=2"
    flags="$flags -Cllvm-args=-sanitizer-coverage-trace-pc -Cllvm-args=-sanitizer-coverage-prune-blocks=0"
    RUSTFLAGS=$flags cargo build --offline --release --target-dir target/steps >target/build-steps.log 2>&1 && return
    cat target/build-steps.log >&2
    echo "error: the harness that counts steps does not build" >&2
    exit 2
}

asan_pv=target/asan/x86_64-unknown-linux-gnu/release/pv
export ASAN_OPTIONS=detect_leaks=0:exitcode=86:abort_on_error=0:detect_stack_use_after_return=1:allocator_may_return_null=1

case ${1:-} in
setup) build && build_steps && build_asan ;;
steps) build_steps ;;
C19) build_asan && exec "$asan_pv" check C19 ;;
C[0-9][0-9]) build && exec target/plain/release/pv check "$1" ;;
replay)
    if grep -q 'budget of steps' "$2"; then
        build_steps && PV_NO_CLOCK=1 target/steps/release/pv replay "$2"
    elif grep -q '"C19"' "$2"; then
        build_asan && "$asan_pv" replay "$2"
    else
        build && target/plain/release/pv replay "$2"
    fi
    code=$?
    case $code in 77 | 86 | 13[0-9]) echo "the property fails: the case ends its process ($code)" && exit 1 ;; esac
    exit $code
    ;;
*)
    echo "usage: check.sh setup | ID | replay FILE" >&2
    exit 2
    ;;
esac
