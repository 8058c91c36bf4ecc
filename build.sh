# sourced: builds the monitor, sets BIN
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
LOG="$DIR/harness/target/build.log"
mkdir -p "$DIR/harness/target"
BIN="$DIR/harness/target/release/ibcx-monitor"
if ! (cd "$DIR/harness" && cargo build --release --offline --locked) >"$LOG" 2>&1; then
  # The slimmed osmosis-std under vendor/ may lack a type that /repo has begun to use, or /repo's
  # dependencies may have changed: build against the full crate.
  FULL="$DIR/harness/target/full"
  mkdir -p "$FULL"
  cp -r "$DIR/harness/src" "$FULL/"
  cp "$DIR/harness/Cargo.lock" "$FULL/"
  sed '/^\[patch.crates-io\]/,$d' "$DIR/harness/Cargo.toml" >"$FULL/Cargo.toml"
  BIN="$FULL/target/release/ibcx-monitor"
  if ! (cd "$FULL" && cargo build --release --offline) >>"$LOG" 2>&1; then
    grep -E "^error" -A8 "$LOG" | head -60
    echo "the monitor does not build against /repo (see $LOG)"
    return 1 2>/dev/null || exit 1
  fi
fi
