#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuild from /repo's working tree and decide one property.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export CARGO_TARGET_DIR=${CARGO_TARGET_DIR:-$PWD/target}
id=$1
tier=${2:-quick}
shift; shift || true
case $id in
  C01|C05|C06|C13) bin=ms ;;
  C10) bin=al ;;
  C11) bin=io ;;
  C12) bin=tr ;;
  C14) bin=pk ;;
  C08) bin=dt ;;
  C09) bin=sd ;;
  C*) bin=mz ;;
  Z01) bin=z1 ;;
  Z02) bin=z2 ;;
  Z03|Z04) bin=z3 ;;
  Z05) bin=z5 ;;
esac
cd harness || exit 2
log=$(mktemp)
if ! cargo build --offline -q -p $bin > "$log" 2>&1; then
  grep -E "^error" -A8 "$log" | tail -60
  echo "the harness does not build"
  rm -f "$log"
  exit 2
fi
rm -f "$log"
exec "$CARGO_TARGET_DIR/debug/$bin" --prop "$id" --tier "$tier" "$@"
