# Build helpers. The crates of /repo are always recompiled: file times in a copy of
# /repo say nothing about what changed.
build() { # <bin> <crates of /repo to rebuild...>
  (
    local b=$1; shift
    local args=()
    for c in "$@"; do args+=(-p "$c"); done
    cd harness || exit 4
    cargo clean -q "${args[@]}" 2>/dev/null
    cargo build -q -p "$b" >"$CARGO_TARGET_DIR/build-$b.log" 2>&1
  ) || { echo "build failed (no verdict):"; tail -40 "$CARGO_TARGET_DIR/build-$1.log"; return 1; } >&2
}
build_prog() { build xv xorca-staking-program; }
build_client() { build xc xorca-staking-program xorca; }
build_js() { # client|scripts
  export XV_JS_OUT="$VERIF_DIR/target/js-$1"
  node js/build.cjs "$XV_JS_OUT" "$1" >&2 || { echo "bundling failed (no verdict)" >&2; return 1; }
  build xj xorca-staking-program
}
