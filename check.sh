#!/bin/bash
# check.sh PROPERTY [quick|thorough] - builds the simulator with /repo's working tree and searches.
# exit 0: held on everything explored; 1: violation (line VIOLATION ...); anything else: no answer.
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; seed=${VERIF_SEED:-1}
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTFLAGS=
unset RUST_BACKTRACE RUST_LIB_BACKTRACE
feat=(); var=
case $prop in
  C13) feat=(--features agg); var=-agg;;
  C19) feat=(--features wb); var=-wb;;
esac
export CARGO_TARGET_DIR=$here/sim/target$var
cd "$here/sim" || exit 2
log=$(mktemp)
if ! cargo build --release --offline --locked "${feat[@]}" >"$log" 2>&1; then
  tail -60 "$log" >&2; rm -f "$log"; echo "check.sh: the build failed" >&2; exit 2
fi
rm -f "$log"
case $tier in
  thorough) secs=${SECS:-600};;
  *) tier=quick; secs=${SECS:-45};;
esac
mkdir -p "$here/evidence" "$here/replays"
[ "$prop" = build ] && exit 0
exec "$CARGO_TARGET_DIR/release/candysim" search "$prop" tier=$tier seed=$seed secs=$secs jobs=$(nproc) \
  known="$here/known_findings.txt" evidence="$here/evidence/$prop.json" replays="$here/replays"
