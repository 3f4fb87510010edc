# Sourced by run.sh and setup.sh. Everything is built under $VERIF/build, nothing under /repo.
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export UVH_VERIF="$VERIF" UVH_REPO=/repo
export HOME="${HOME:-/root}"
export PATH="/opt/vp/venv/bin:/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export PYO3_PYTHON=/opt/vp/venv/bin/python PYTHONDONTWRITEBYTECODE=1
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR PYTHONPATH
BUILD="$VERIF/build"
mkdir -p "$BUILD"

# A build directory is only reused for the very same sources: cargo compares modification times,
# which say nothing when a tree is copied or checked out again.
fresh() { # fresh <target dir> <package>...
    local dir="$1" sum
    shift
    sum=$(cd /repo && find Cargo.toml .cargo crates -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.md' \) -not -path '*/target/*' -print0 |
        LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
    mkdir -p "$dir"
    if [ "$(cat "$dir/.sources" 2>/dev/null)" != "$sum" ]; then
        local p
        for p in "$@"; do
            rm -rf "$dir"/*/.fingerprint/"$p"-*
        done
        printf '%s' "$sum" >"$dir/.sources"
    fi
}

build_harness() {
    fresh "$BUILD/harness" unicode-intervals
    cargo build --release --offline --quiet --manifest-path "$VERIF/harness/Cargo.toml" --target-dir "$BUILD/harness"
}

build_internals() {
    fresh "$BUILD/internals" unicode-intervals uvh
    cargo build --release --offline --quiet --manifest-path "$VERIF/internals/Cargo.toml" --target-dir "$BUILD/internals"
}

# The same campaigns with the code under test instrumented for libFuzzer.
build_fuzz() {
    "$VERIF/fuzz/proptest.sh" "$BUILD/proptest" || return 1
    fresh "$BUILD/fuzz" unicode-intervals
    RUSTC_WRAPPER="$VERIF/fuzz/rustc.sh" cargo build --release --offline --quiet --manifest-path "$VERIF/fuzz/Cargo.toml" \
        --target-dir "$BUILD/fuzz" 2>"$BUILD/fuzz.log" || { cat "$BUILD/fuzz.log" >&2; return 1; }
    export UVH_FUZZ="$BUILD/fuzz/release/uvh-fuzz"
}

# C06 again, with the code under test asking a scheduler which thread goes on.
build_sched() {
    "$VERIF/fuzz/proptest.sh" "$BUILD/proptest" || return 1
    fresh "$BUILD/sched" unicode-intervals
    RUSTC_WRAPPER="$VERIF/sched/rustc.sh" cargo build --release --offline --quiet --manifest-path "$VERIF/sched/Cargo.toml" \
        --target-dir "$BUILD/sched" 2>"$BUILD/sched.log" || { cat "$BUILD/sched.log" >&2; return 1; }
    export UVH_SCHED="$BUILD/sched/release/uvh-sched"
}

# The extension module next to the repository's own Python package, as an installed wheel has it.
build_pyext() {
    fresh "$BUILD/pytarget" unicode-intervals unicode-intervals-py
    CARGO_PROFILE_RELEASE_LTO=off CARGO_PROFILE_RELEASE_CODEGEN_UNITS=16 CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true \
        cargo build --release --offline --quiet -p unicode-intervals-py \
        --manifest-path /repo/crates/unicode-intervals-py/Cargo.toml --target-dir "$BUILD/pytarget" || return 1
    local pkg="$BUILD/pyext/unicode_intervals"
    rm -rf "$BUILD/pyext"
    mkdir -p "$pkg"
    cp /repo/crates/unicode-intervals-py/python/unicode_intervals/*.py* "$pkg/" &&
        cp "$BUILD/pytarget/release/libunicode_intervals.so" "$pkg/unicode_intervals.abi3.so"
}
