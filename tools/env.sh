# Sourced by run.sh and the other scripts: toolchain, target directories, builds.
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTC_WRAPPER CARGO_PROFILE_DEV_DEBUG RUSTFLAGS CARGO_TARGET_DIR
MON=/verif/target/mon
# /repo ignores its lock file; without it newer crates would be picked
[ -f /repo/Cargo.lock ] || cp /opt/vp/Cargo.lock /repo/Cargo.lock

# quiet CMD...: shows the output only if it fails
quiet() {
    local out
    if ! out=$("$@" 2>&1); then
        printf '%s\n' "$out" | grep -E -A12 '^error' | head -60
        echo "ERROR: build failed: $*"
        return 1
    fi
}

# The harness with the hooks of /repo switched on
build_mon() {
    (cd /verif/harness && RUSTFLAGS="--cfg vimwiki_monitor" CARGO_TARGET_DIR=$MON \
        quiet cargo build --offline --bin vwmon)
}

# The vimwiki program itself, and the library preloaded into it
CLI=/verif/target/cli
build_cli() {
    (cd /repo && CARGO_TARGET_DIR=$CLI CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only \
        quiet cargo build --offline -p vimwiki-cli --bin vimwiki) || return 1
    quiet gcc -O1 -shared -fPIC -o $CLI/shim.so /verif/tools/shim.c -ldl
}

# The harness with time keeping compiled in, as it is and under ThreadSanitizer
build_tk() {
    (cd /verif/harness && RUSTFLAGS="--cfg vimwiki_monitor" CARGO_TARGET_DIR=/verif/target/tk \
        quiet cargo build --offline --bin vwmon --features timekeeper)
}
NIGHTLY=nightly-x86_64-unknown-linux-gnu
build_tsan() {
    (cd /verif/harness && RUSTUP_TOOLCHAIN=$NIGHTLY RUSTFLAGS="--cfg vimwiki_monitor -Zsanitizer=thread" \
        CARGO_TARGET_DIR=/verif/target/tsan \
        quiet cargo build --offline -Zbuild-std --target x86_64-unknown-linux-gnu --bin vwmon --features timekeeper)
}

build_asan() {
    (cd /verif/harness && RUSTUP_TOOLCHAIN=$NIGHTLY RUSTFLAGS="--cfg vimwiki_monitor -Zsanitizer=address" \
        CARGO_TARGET_DIR=/verif/target/asan \
        quiet cargo build --offline -Zbuild-std --target x86_64-unknown-linux-gnu --bin vwmon)
}

# The harness in Miri, an interpreter that judges every access; the first run
# builds, the others only interpret
miri() {
    cd /verif/harness || return 73
    export RUSTUP_TOOLCHAIN=$NIGHTLY RUSTFLAGS="--cfg vimwiki_monitor" CARGO_TARGET_DIR=/verif/target/miri
    export MIRI_SYSROOT=/verif/target/miri-sysroot
    export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks"
    cargo miri "$@"
}
build_miri() {
    (cd /verif/harness && RUSTUP_TOOLCHAIN=$NIGHTLY MIRI_SYSROOT=/verif/target/miri-sysroot quiet cargo miri setup) || return 1
    (quiet miri run --offline --bin vwmon -- sanitized none 0 0)
}

# The bindings for JavaScript, run natively against stand-ins for its engine
build_wasm() {
    (cd /verif/wasm/drv && RUSTFLAGS="--cfg vimwiki_monitor" CARGO_TARGET_DIR=/verif/target/wasm \
        quiet cargo build --offline --bin vwasm)
}

# What programs with macros are compiled against
build_macros() {
    mkdir -p /verif/target/macros
    (cd /verif/macros && CARGO_TARGET_DIR=/verif/target/macros \
        cargo build --offline --message-format=json >/verif/target/macros/messages.json 2>/dev/null && return 0
    CARGO_TARGET_DIR=/verif/target/macros quiet cargo build --offline)
}
