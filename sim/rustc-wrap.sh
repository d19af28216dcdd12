#!/bin/bash
# RUSTC_WRAPPER: adds LLVM sanitizer-coverage callbacks (every control-flow edge, load and store) to the
# library under test and the two crates it is made of. The simulator owns those callbacks: they are its
# scheduling points, its step counter and its coverage map. Everything else is compiled as is.
rustc="$1"; shift
prev=; name=; build=
for a in "$@"; do
    [ "$prev" = "--crate-name" ] && name="$a"
    prev="$a"
done
case "$name" in
lib_ruby_parser | lib_ruby_parser_ast | alloc_from_pool)
    exec "$rustc" "$@" -Cpasses=sancov-module \
        -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
        -Cllvm-args=-sanitizer-coverage-trace-loads \
        -Cllvm-args=-sanitizer-coverage-trace-stores ;;
*) exec "$rustc" "$@" ;;
esac
