#!/bin/bash
# san.sh ID: run part of the workload of C26 or C27 under the sanitizers and the interpreter of the nightly
# toolchain. Called by check.sh once the plain run held. Only their own reports count (undefined behaviour, data
# races, memory errors); a tool that cannot run is recorded as such in the evidence and decides nothing.
cd "$(dirname "$(realpath "$0")")" || exit 0
ID=$1; PLAIN=$2
REAL="$PWD"
export HOME="${HOME:-/root}" RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= RUST_BACKTRACE=0 PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
TRI=x86_64-unknown-linux-gnu
SEED=${VERIF_SEED:-1}; TIER=${VERIF_TIER:-quick}
W="$REAL/out/san.$ID.$$"; mkdir -p "$W/out" "$W/evidence" || exit 0
trap 'rm -rf "$W"' EXIT
note() { VERIF_ROOT="$REAL" "$PLAIN" note "$ID" "$1" "$2"; }
# report TOOL FILE: a report of the tool is a violation
report() {
  if grep -qE "$2" "$3"; then
    r="$REAL/out/$ID-$1.json"
    python3 - "$ID" "$1" "$SEED" "$3" > "$r" <<'P'
import json,sys
print(json.dumps({"property":sys.argv[1],"tool":sys.argv[2],"seed":int(sys.argv[3]),"report":open(sys.argv[4],errors="replace").read()[:8000],
  "replay_cmd":"VERIF_SEED=%s ./san.sh %s (after ./check.sh --build)"%(sys.argv[3],sys.argv[1])}))
P
    grep -E -m3 "$2" "$3" | cut -c1-300
    echo "VIOLATION property=$ID replay=$r"
    exit 1
  fi
}
fresh() { find "$1" -maxdepth 6 -path '*.fingerprint/geos-rs-*' -prune -exec rm -rf {} + 2>/dev/null; }
native() { # TOOL(asan|tsan) FLAG SCALE EXTRA...
  t=$1; flag=$2; scale=$3; shift 3
  (
    flock 9; fresh "target/$t"
    CARGO_TARGET_DIR="$REAL/target/$t" RUSTFLAGS="--cfg geos_verif -Awarnings -Zsanitizer=$flag" timeout 400 \
      cargo build --release --offline --locked --manifest-path harness/Cargo.toml --target $TRI "$@" >"out/build-$t.log" 2>&1 \
      && cp -f "target/$t/$TRI/release/geos-monitors" "$W/$t"
  ) 9>"out/.lock-$t" || { note "$flag sanitizer not built" 1; return; }
  VERIF_ROOT="$W" VERIF_SCALE=$scale VERIF_TIER=quick ASAN_OPTIONS=detect_leaks=0 TSAN_OPTIONS=report_signal_unsafe=0 timeout 200 \
    "$W/$t" worker "$ID" >"$W/$t.out" 2>"$W/$t.err"
  report "$t" "(Address|Thread)Sanitizer: |SUMMARY: [A-Za-z]+Sanitizer" "$W/$t.err"
  n=$(sed -n 's/.* cases=\([0-9]*\) .*/\1/p' "$W/$t.out" | head -1)
  if [ -n "$n" ]; then note "cases under the $flag sanitizer" "$n"; else note "$flag sanitizer gave no answer" 1; fi
}
miri() { # CASES
  (
    flock 9; fresh "target/miri"
    export CARGO_TARGET_DIR="$REAL/target/miri" RUSTFLAGS="--cfg geos_verif -Awarnings"
    export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-deterministic-floats -Zmiri-ignore-leaks" VERIF_ROOT="$W"
    timeout 300 cargo miri run --offline --locked --manifest-path harness/Cargo.toml -- some "$ID" 0 1 >"$W/miri.out" 2>"$W/miri.err" && grep -q '^ran ' "$W/miri.out"
  ) 9>"out/.lock-miri" || { report miri "Undefined Behavior|Data race" "$W/miri.err"; note "Miri gave no answer" 1; return; }
  report miri "Undefined Behavior|Data race" "$W/miri.err"
  export CARGO_TARGET_DIR="$REAL/target/miri" RUSTFLAGS="--cfg geos_verif -Awarnings" VERIF_ROOT="$W"
  export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-deterministic-floats -Zmiri-ignore-leaks"
  k=8; i=0
  while [ $i -lt $k ]; do
    timeout "$2" cargo miri run -q --offline --locked --manifest-path harness/Cargo.toml -- some "$ID" $((i * $1)) $(((i + 1) * $1)) "$3" \
      >"$W/miri.$i.out" 2>"$W/miri.$i.err" &
    i=$((i + 1))
  done
  wait
  n=0; i=0
  while [ $i -lt $k ]; do
    report miri "Undefined Behavior|Data race" "$W/miri.$i.err"
    m=$(sed -n 's/^ran \([0-9]*\)$/\1/p' "$W/miri.$i.out" | tail -1); n=$((n + ${m:-0})); i=$((i + 1))
  done
  note "cases interpreted by Miri" "$n"
}
deep=1; [ "$TIER" = thorough ] && deep=5
case "$ID" in
  C26) native asan address $((10 * deep)); miri $((60 * deep)) $((60 * deep)) ;;
  C27) native tsan thread $((10 * deep)) -Zbuild-std; miri $((6 * deep)) $((60 * deep)) ;;
esac
exit 0
