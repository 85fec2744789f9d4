# Typed MIR of the two crates in /repo as JSON (sourced).
REPO=${REPO:-/repo}

build_driver() {
  (
    cd driver || exit 1
    unset RUSTC_WORKSPACE_WRAPPER RUSTFLAGS
    RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target" cargo build --offline -q
  )
}

extract() {
  local W=$1 S
  build_driver > "$W/driver.log" 2>&1 || { cat "$W/driver.log"; return 1; }
  mkdir -p "$W/facts"
  (
    [ -f /opt/vp/env.sh ] && source /opt/vp/env.sh
    S=$(rustc +nightly --print sysroot) || exit 1
    D=$PWD/driver/target/debug/mirfacts
    cd "$REPO" || exit 1
    RUSTUP_TOOLCHAIN=nightly LD_LIBRARY_PATH=$S/lib MIRFACTS_OUT="$W/facts" RUSTC_WORKSPACE_WRAPPER=$D \
      CARGO_TARGET_DIR="$W/target" cargo check -p rspolib -p py-rspolib --offline
  ) > "$W/extract.log" 2>&1
  if [ ! -s "$W/facts/rspolib.json" ] || [ ! -s "$W/facts/py-rspolib.json" ]; then
    tail -40 "$W/extract.log"
    return 1
  fi
}
