#!/bin/bash
# usage: run.sh build | check ID quick|thorough | replay FILE
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$PWD/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER RUSTUP_TOOLCHAIN
[ -f "$HOME/.cargo/env" ] && . "$HOME/.cargo/env"
log=target/build.log
mkdir -p target
if ! cargo build --release --offline --locked --manifest-path harness/Cargo.toml >"$log" 2>&1; then
  tail -n 40 "$log"
  echo "build of the harness against /repo failed" >&2
  exit 2
fi
[ "${1:-}" = build ] && exit 0
exec ./target/release/hmmcl-mc "$@"
