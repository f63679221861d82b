#!/bin/bash
# run.sh PKG BIN [REPLAY]: build monitor BIN of harness PKG against /repo's
# current working tree and run it.  Exit 0 held, 1 violation, else error.
set -u
cd "$(dirname "$0")" || exit 2
PKG=$1; BIN=$2
[ $# -ge 3 ] && export VERIF_REPLAY=$(realpath "$3")
export PATH=/root/.cargo/bin:$PATH CARGO_HOME=${CARGO_HOME:-/root/.cargo} RUSTUP_TOOLCHAIN=${VERIF_TOOLCHAIN:-stable}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0 CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=/verif/target/$PKG
mkdir -p evidence
LOG=/verif/target/$PKG.$BIN.build.log
mkdir -p /verif/target
( cd "$PKG" && cargo build --offline --locked --profile mon --bin "$BIN" ) >"$LOG" 2>&1 || {
  echo "build of $PKG/$BIN failed:"; tail -40 "$LOG"; exit 2; }
exec "/verif/target/$PKG/mon/$BIN"
