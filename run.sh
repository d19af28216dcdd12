#!/bin/bash
# Entry point of the simulator.
#   run.sh setup              build everything from /repo's working tree
#   run.sh check <ID>         rebuild, then decide property <ID> (VERIF_SEED, VERIF_TIER)
#   run.sh replay <file>      rebuild, then re-execute a replay file
#   run.sh selftest <ID> <n>  n seeds of <ID>, each executed three times and compared
# Exit 0: held. Exit 1 + VIOLATION line: violated. Anything else: error of the check itself.
export CARGO_HOME="${CARGO_HOME:-/root/.cargo}" RUSTUP_HOME="${RUSTUP_HOME:-/root/.rustup}"
export PATH="$CARGO_HOME/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WORKSPACE_WRAPPER CARGO_BUILD_TARGET LD_PRELOAD
V=/verif T=/verif/target
mkdir -p "$T" "$V/evidence" || exit 2

fail() { echo "run.sh: $*" >&2; exit 2; }

tree_hash() {
    (cd /repo && find . \( -path ./target -o -path ./.git \) -prune -o -type f ! -name '*.profraw' -print0 \
        | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
}

# build.rs writes parse.rs and list.rs into /repo/src (git-ignored) and cargo only looks at mtimes:
# whenever the contents of the tree differ from what the last build here saw, regenerate and rebuild.
prepare() {
    [ -e /repo/Cargo.lock ] || cp /opt/vp/Cargo.lock /repo/Cargo.lock 2>/dev/null || cp "$V/sim/Cargo.lock.repo" /repo/Cargo.lock
    for f in /repo/src/tests/lexer/gen.rs /repo/src/tests/parser/gen.rs; do
        [ -e "$f" ] || : > "$f"
    done
    if [ "$(tree_hash)" != "$(cat "$T/$1.tree" 2>/dev/null)" ] || [ ! -e /repo/src/parser/parse.rs ] || [ ! -e /repo/src/reserved_words/list.rs ]; then
        rm -f "$T/$1.tree" /repo/src/parser/parse.rs /repo/src/reserved_words/list.rs
        find "$2" -maxdepth 2 -type d -path '*/.fingerprint/lib-ruby-parser-*' ! -path '*/lib-ruby-parser-ast-*' -exec rm -rf {} + 2>/dev/null
        return 1
    fi
    return 0
}

build_sim() {
    prepare sim "$T/release" && [ -x "$T/release/lrpsim" ]
    local log="$T/build-sim.log"
    RUSTC_WRAPPER="$V/sim/rustc-wrap.sh" cargo build --offline --release --manifest-path "$V/sim/Cargo.toml" --target-dir "$T" >"$log" 2>&1 \
        || { tail -40 "$log" >&2; fail "build failed"; }
    tree_hash > "$T/sim.tree"
}

build_cli() {
    prepare cli "$T/cli/debug"
    local log="$T/build-cli.log"
    RUSTC_WRAPPER= cargo build --offline --manifest-path /repo/Cargo.toml --bin parse --features development,bin-parse \
        --target-dir "$T/cli" >"$log" 2>&1 || { tail -40 "$log" >&2; fail "build of the CLI failed"; }
    gcc -O1 -shared -fPIC -o "$T/clishim.so" "$V/sim/shim/shim.c" -ldl >"$T/build-shim.log" 2>&1 || fail "build of the CLI shim failed"
    tree_hash > "$T/cli.tree"
}

is_cli() { case "$1" in C12 | C13) return 0 ;; *) return 1 ;; esac; }

case "$1" in
setup)
    build_sim
    build_cli
    ;;
check)
    build_sim
    is_cli "$2" && build_cli
    exec "$T/release/lrpsim" check "$2"
    ;;
replay)
    build_sim
    id=$(sed -n 's/^property=//p' "$2" | head -1)
    is_cli "$id" && build_cli
    exec "$T/release/lrpsim" replay "$2"
    ;;
selftest)
    build_sim
    exec "$T/release/lrpsim" selftest "$2" "$3"
    ;;
*) fail "usage: run.sh setup | check <ID> | replay <file> | selftest <ID> <n>" ;;
esac
