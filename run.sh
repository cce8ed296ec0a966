#!/bin/bash
# run.sh check <ID> [quick|thorough]   decide one property
# run.sh replay <FILE>                 run a recorded failing case again
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
export SMV_ROOT="$ROOT"
export RUSTUP_TOOLCHAIN="${SMV_TOOLCHAIN:-1.98.1-x86_64-unknown-linux-gnu}"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR
if ! CARGO_TARGET_DIR="$ROOT/target/smv" cargo build -q --offline --locked --manifest-path "$ROOT/kit/Cargo.toml" --bin smv >"$ROOT/.smv-build.log" 2>&1; then
  cat "$ROOT/.smv-build.log" >&2
  echo "ERROR: cannot build the checker" >&2
  exit 2
fi
rm -f "$ROOT/.smv-build.log"
exec "$ROOT/target/smv/debug/smv" "$@"
