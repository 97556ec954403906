# Shared by check.sh and setup.sh.
export CARGO_TARGET_DIR=/verif/target
export CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN="${VERIF_TOOLCHAIN:-stable}"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUST_MIN_STACK CARGO_BUILD_RUSTFLAGS RUSTC_WRAPPER
export VERIF_ROOT=/verif
VH=/verif/target/debug/vh
REPO_PKGS="logreduce-iterator logreduce-tokenizer logreduce-index logreduce-model logreduce-report logreduce-cache logreduce-httpdir logreduce-generate zuul-build"

# cargo looks at time stamps; the trees checked here may have any, so look at the content.
content_hash() { # directory of /verif with further sources
    (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -path ./python/target -prune -o -path ./python/Cargo.lock -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.css' -o -name 'Cargo.lock' \) -print0 |
        LC_ALL=C sort -z | xargs -0 sha256sum
     cd /verif && find "$1" -path "$1/target" -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1
}

# build_one NAME MANIFEST TARGET-DIR PRODUCT SOURCES "PACKAGES TO CLEAN" CARGO-ARGS...
build_one() {
    mkdir -p /verif/target
    (
        flock 9
        build_one_locked "$@"
    ) 9>/verif/target/.verif-lock
}

build_one_locked() {
    local name=$1 manifest=$2 dir=$3 product=$4 sources=$5 pkgs=$6 h log args p
    shift 6
    h=$(content_hash "$sources")
    log=/verif/target/build-$name.log
    if [ -e "$product" ] && [ "$(cat /verif/target/.content-"$name" 2>/dev/null)" = "$h" ]; then
        return 0
    fi
    export CARGO_TARGET_DIR=$dir
    if [ -e "$dir/debug" ] || [ -e "$dir/x86_64-unknown-linux-gnu" ]; then
        args=""
        for p in $pkgs; do args="$args -p $p"; done
        cargo clean --offline --manifest-path "$manifest" $CLEAN_ARGS $args >"$log" 2>&1
    fi
    rm -f /verif/target/.content-"$name"
    if cargo build --offline --manifest-path "$manifest" "$@" >>"$log" 2>&1 && [ -e "$product" ]; then
        echo "$h" >/verif/target/.content-"$name"
        return 0
    fi
    tail -40 "$log"
    return 1
}

build_harness() {
    build_one harness /verif/harness/Cargo.toml /verif/target "$VH" harness "$REPO_PKGS vh"
}

# The command line program, as the workspace builds it.
build_cli() {
    CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=false \
        build_one cli /repo/Cargo.toml /verif/target/cli /verif/target/cli/debug/logreduce-cli lib.sh "$REPO_PKGS logreduce-cli" -p logreduce-cli --locked
}

# The Python module with AddressSanitizer (its runtime comes from clang and is preloaded).
ASAN_RT=$(clang -print-resource-dir 2>/dev/null)/lib/linux/libclang_rt.asan-x86_64.so
build_python() {
    CLEAN_ARGS="--target x86_64-unknown-linux-gnu" RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-Zsanitizer=address -Zexternal-clangrt" \
        build_one python /verif/pyharness/Cargo.toml /verif/target/python /verif/target/python/x86_64-unknown-linux-gnu/debug/liblogreduce_binding.so pyharness \
        "logreduce-tokenizer logreduce-index logreduce-generate logreduce-python-vh" --target x86_64-unknown-linux-gnu --locked || return 1
    mkdir -p /verif/target/python/module
    cp /verif/target/python/x86_64-unknown-linux-gnu/debug/liblogreduce_binding.so /verif/target/python/module/logreduce_rust.so
}

# The harness itself with ThreadSanitizer, standard library included.
VH_TSAN=/verif/target/tsan/x86_64-unknown-linux-gnu/debug/vh
build_tsan() {
    local cfg="" p
    for p in $REPO_PKGS; do
        cfg="$cfg --config profile.dev.package.$p.debug=1 --config profile.dev.package.$p.opt-level=1"
    done
    CLEAN_ARGS="--target x86_64-unknown-linux-gnu" RUSTUP_TOOLCHAIN=stable RUSTC_BOOTSTRAP=1 CARGO_INCREMENTAL=0 RUSTFLAGS="-Zsanitizer=thread" \
        build_one tsan /verif/harness/Cargo.toml /verif/target/tsan "$VH_TSAN" harness "$REPO_PKGS vh" $cfg -Zbuild-std --target x86_64-unknown-linux-gnu
}
