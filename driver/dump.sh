#!/bin/bash
# usage: dump.sh OUT.json   extracts the MIR of /repo's current source (type-checked, monomorphised); nothing of it is run
set -e
OUT=$1
D=$(cd "$(dirname "$0")/.." && pwd)
B=$D/.build
mkdir -p $B
exec 9>$B/lock
flock 9
rm -f "$OUT"
SYS=$(rustc +nightly --print sysroot)
if [ ! -x $B/driver ] || [ $D/driver/driver.rs -nt $B/driver ]; then
  rustc +nightly -O --edition 2021 $D/driver/driver.rs -o $B/driver.$$ >$B/driver.log 2>&1 || { tail -20 $B/driver.log; exit 3; }
  mv $B/driver.$$ $B/driver
fi
python3 $D/engine/models.py > $B/models.txt
cd ${REPO:-/repo}
rm -rf $B/target/debug/.fingerprint/derivre-* $B/target/debug/build/derivre $B/target/debug/incremental
env -u RUSTUP_TOOLCHAIN -u RUSTFLAGS CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true LD_LIBRARY_PATH=$SYS/lib \
  RUSTC_WORKSPACE_WRAPPER=$B/driver CARGO_TARGET_DIR=$B/target VERIF_OUT=$OUT VERIF_MODELS=$B/models.txt \
  cargo +nightly check --offline --lib ${FEATURES:-} >$B/check.log 2>&1 || { tail -30 $B/check.log; exit 3; }
[ -s $OUT ]
