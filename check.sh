#!/bin/bash
# ./check.sh ID                run the check of one property (VERIF_SEED, VERIF_TIER)
# ./check.sh ID --case N       replay one case of it
# ./check.sh --build           only build
cd "$(dirname "$(realpath "$0")")" || exit 2
export VERIF_ROOT="$PWD" HOME="${HOME:-/root}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$PWD/target" RUSTFLAGS="--cfg geos_verif -Awarnings" RUSTC_WRAPPER= RUST_BACKTRACE=0
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
mkdir -p out evidence
(
  flock 9
  # cargo decides by mtime: forget the crate under test, so that a file restored with an old mtime is seen
  find "$CARGO_TARGET_DIR/release/.fingerprint" -maxdepth 1 -name 'geos-rs-*' -exec rm -rf {} + 2>/dev/null
  cargo build --release --offline --locked --manifest-path harness/Cargo.toml >out/build.log 2>&1 \
    || { tail -n 40 out/build.log; echo "BUILD-ERROR: the harness does not build against /repo"; exit 2; }
  cp -f "$CARGO_TARGET_DIR/release/geos-monitors" "out/geos-monitors.$$"
) 9>out/.lock || exit 2
BIN="$PWD/out/geos-monitors.$$"
trap 'rm -f "$BIN"' EXIT
case "$1" in
  --build) exit 0 ;;
  "") echo "usage: check.sh ID"; exit 2 ;;
esac
if [ "$2" = "--case" ]; then "$BIN" case "$1" "$3"; exit $?; fi
"$BIN" check "$1" || exit $?
# memory errors, undefined behaviour and data races: part of the same workload under sanitizers and an interpreter
case "$1" in C26 | C27) ./san.sh "$1" "$BIN" ;; esac
