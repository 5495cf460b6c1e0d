# Sourced by setup.sh and run.sh.
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.83.0-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export VERIF_ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export CARGO_TARGET_DIR="$VERIF_ROOT/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
# cargo decides what to rebuild by modification times; force a rebuild of the library
# whenever its contents changed since the last build here, whatever the times say.
fresh() {
  local h
  h=$(cd /repo && find Cargo.toml src -type f | LC_ALL=C sort | xargs sha256sum | sha256sum)
  if [ "$(cat "$CARGO_TARGET_DIR/repo.hash" 2>/dev/null)" != "$h" ]; then
    (cd "$VERIF_ROOT/harness" && cargo clean --release --offline -p rgeometry >/dev/null 2>&1)
    mkdir -p "$CARGO_TARGET_DIR"
    echo "$h" > "$CARGO_TARGET_DIR/repo.hash"
  fi
}
