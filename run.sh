#!/usr/bin/env bash
# run.sh <ID> [quick|thorough]   build the monitors against /repo's working tree and run one check
# run.sh replay <file>           rebuild and re-run the recorded case
# run.sh setup                   build everything
set -u
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh 2>/dev/null || true
export CARGO_NET_OFFLINE=true CESR_VERIF="$here" CARGO_TARGET_DIR="$here/target"
export RUSTFLAGS="-Aunused_imports --cap-lints warn" CARGO_INCREMENTAL=0; unset CARGO_ENCODED_RUSTFLAGS
what="${1:-}"; tier="${2:-${VERIF_TIER:-quick}}"
export VERIF_TIER="$tier" VERIF_SEED="${VERIF_SEED:-1}"
mkdir -p "$here/target" "$here/evidence"
# whatever a run writes aside goes away with it
scratch="$(mktemp -d /tmp/cesr-check.XXXXXX)" || exit 2
trap 'rm -rf -- "$scratch"' EXIT
export TMPDIR="$scratch"
build() { # crate dir, extra args
  local dir="$1"; shift
  ( cd "$here/$dir" && cargo build --release --offline --quiet "$@" ) >"$here/target/build-$dir.out" 2>&1 || {
    echo "BUILD-FAILED $dir"; tail -40 "$here/target/build-$dir.out"; return 2; }
}
# the sanitized builds need the nightly compiler; the thread sanitizer also a rebuilt standard library
T=x86_64-unknown-linux-gnu
build_tsan() { ( cd "$here/stress" && env RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="$RUSTFLAGS -Zsanitizer=thread" CARGO_TARGET_DIR="$here/target-tsan" \
  cargo build --release --offline --quiet -Zbuild-std --target $T ) >"$here/target/build-tsan.out" 2>&1 || { echo "BUILD-FAILED tsan"; tail -40 "$here/target/build-tsan.out"; return 2; }; }
build_asan() { ( cd "$here/harness" && env RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="$RUSTFLAGS -Zsanitizer=address" CARGO_TARGET_DIR="$here/target-asan" \
  cargo build --release --offline --quiet --target $T ) >"$here/target/build-asan.out" 2>&1 || { echo "BUILD-FAILED asan"; tail -40 "$here/target/build-asan.out"; return 2; }; }
build_miri() { ( cd "$here/stress" && env RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR="$here/target-miri" \
  cargo miri run --offline --quiet -- list ) >"$here/target/build-miri.out" 2>&1 || { echo "BUILD-FAILED miri"; tail -40 "$here/target/build-miri.out"; return 2; }; }
build_all() { # what C30 needs, built side by side
  local pids=() p rc=0
  build harness & pids+=($!)
  build_tsan & pids+=($!)
  build_asan & pids+=($!)
  for p in "${pids[@]}"; do wait "$p" || rc=2; done
  build stress || rc=2
  if [ "$1" = thorough ]; then build_miri || rc=2; fi
  export CESR_STRESS="$CARGO_TARGET_DIR/release/cesr-stress" CESR_TSAN="$here/target-tsan/$T/release/cesr-stress" \
         CESR_ASAN="$here/target-asan/$T/release/cesr-monitor"
  if [ "$1" = thorough ]; then export CESR_MIRI="$here/tools/miri.sh"; fi
  return $rc
}
# the bindings: against the stand-ins of the JavaScript engine; if they no longer build so, against the real crates
build_wasm() {
  wasm="$CARGO_TARGET_DIR/release/cesr-wasm-monitor"
  build wasm && return 0
  echo "the bindings do not build against the stand-ins; falling back to the real wasm-bindgen"
  build wasm-real && wasm="$wasm-real"
}
case "$what" in
  setup) build harness || exit 2; exit 0 ;;
  replay)
    if grep -q '"property":"C31"' "$tier"; then build_wasm || exit 2; "$wasm" replay "$tier"; exit $?; fi
    if grep -q '"property":"C30"' "$tier"; then build_all thorough || exit 2; else build harness || exit 2; fi
    "$CARGO_TARGET_DIR/release/cesr-monitor" replay "$tier" ;;
  "") echo "usage: run.sh ID [quick|thorough] | replay FILE | setup"; exit 2 ;;
  C30)
    build_all "$tier" || exit 2
    "$CARGO_TARGET_DIR/release/cesr-monitor" C30 ;;
  C31)
    build_wasm || exit 2
    "$wasm" C31 ;;
  *)
    build harness || exit 2
    "$CARGO_TARGET_DIR/release/cesr-monitor" "$what" ;;
esac
