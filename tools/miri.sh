#!/usr/bin/env bash
# the stress program under Miri
here="$(cd "$(dirname "$0")/.." && pwd)"
cd "$here/stress" || exit 2
export RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR="$here/target-miri" MIRIFLAGS="-Zmiri-disable-isolation" RUSTFLAGS="-Aunused_imports --cap-lints warn"
exec cargo miri run --offline --quiet -- "$@"
