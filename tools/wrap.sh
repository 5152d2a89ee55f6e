#!/bin/bash
# rustc wrapper: instruments the crates of /repo (every basic block becomes a
# scheduling point of the simulator), and the harness for /repo's generic
# functions it instantiates (simrt::cov keeps /repo's functions only).
rustc="$1"; shift
case "${CARGO_PKG_NAME:-}:${CARGO_CRATE_NAME:-}" in
  *:build_script_build|tinymist-derive:*) ;;
  sync-ls:*|tinymist:*|tinymist-*:*|vsim-harness:vsim|vsim2-harness:vsim2)
    exec "$rustc" "$@" -Cpasses=sancov-module \
      -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-prune-blocks=0 \
      -Cllvm-args=-sanitizer-coverage-pc-table ;;
esac
exec "$rustc" "$@"
