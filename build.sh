# sourced: build NAME compiles the simulator against /repo's working tree with the hooks on
export HOME="${HOME:-/root}" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_INCREMENTAL=0
unset RUSTC_WRAPPER CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
build() {
  local b="$1" flags="--cfg rmath_sim -A warnings" t="$ROOT/target/$1" h
  [ "$b" = portable ] && flags="--cfg rmath_portable -A warnings"
  mkdir -p "$t"
  # cargo looks at time stamps; make sure that a changed tree is rebuilt whatever the stamps say
  h="$(cd /repo && find src build.rs Cargo.toml -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum | sha256sum | cut -c1-40)"
  if [ "$(cat "$t/.repo-hash" 2>/dev/null)" != "$h" ]; then
    CARGO_TARGET_DIR="$t" RUSTFLAGS="$flags" cargo clean --offline --release -p rmath --manifest-path "$ROOT/sim/Cargo.toml" >/dev/null 2>&1
  fi
  if ! CARGO_TARGET_DIR="$t" RUSTFLAGS="$flags" cargo build --offline --locked --release --manifest-path "$ROOT/sim/Cargo.toml" >"$t/build.log" 2>&1; then
    tail -40 "$t/build.log"
    return 1
  fi
  echo "$h" >"$t/.repo-hash"
}
