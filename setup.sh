#!/bin/bash
# Builds the MIR extractor (mirx) and the dependencies of the extraction and replay workspaces.  Offline.
# usage: setup.sh            build everything once
#        setup.sh mir        only re-extract the MIR of /repo's current tree into build/mir.json (what every check does)
#        setup.sh replay     only (re)build the real crate with the replay shims
set -u
cd "$(dirname "$0")"
V=$PWD; B=$V/build; mkdir -p $B $V/evidence
REPO=${REPO:-/repo}
exec 9>$B/.lock; flock 9
export CARGO_NET_OFFLINE=true
NLIB=$(rustc +nightly --print sysroot)/lib
mirx() {
  if [ ! -x $B/mirx ] || [ rs-mir/mirx/main.rs -nt $B/mirx ]; then
    rustc +nightly -O -C prefer-dynamic --edition 2021 -o $B/mirx rs-mir/mirx/main.rs || return 1
  fi
}
stage() { # stage <dest>: the sources that are extracted, byte for byte
  rsync -a --delete --checksum $REPO/programs/mango-v4/src/ $1/
}
mir() {
  mirx || { echo "mirx does not build"; return 2; }
  stage $B/mango-mir || return 2
  # rustc-nightly rejects the doubled derive that #[zero_copy] also emits: drop the written one (no code is lost)
  find $B/mango-mir -name '*.rs' -print0 | xargs -0 perl -0pi -e 's/(#\[zero_copy\]\n)#\[derive\(bytemuck::Pod, bytemuck::Zeroable\)\]\n/$1/g'
  H=$(cd $B/mango-mir && find . -type f -print0 | sort -z | xargs -0 sha256sum | cat - $V/rs-mir/mirx/main.rs $V/rs-mir/roots.txt $V/rs-mir/stop.txt $V/rs-mir/Cargo.lock $V/rs-mir/mango/Cargo.toml $(find $V/rs/stubs $V/rs-mir/stubs -type f | sort) | sha256sum)
  if [ -s $B/mir.json ] && [ "$H" = "$(cat $B/mir.hash 2>/dev/null)" ]; then return 0; fi
  rm -f $B/mir.hash
  touch rs-mir/mango/Cargo.toml $B/mango-mir/lib.rs
  ( cd rs-mir; LD_LIBRARY_PATH=$NLIB MIRX_CRATE=mango_v4 MIRX_OUT=$B/mir.json.new MIRX_ROOTS=$V/rs-mir/roots.txt MIRX_STOP=$V/rs-mir/stop.txt \
    RUSTC_WORKSPACE_WRAPPER=$B/mirx RUSTC=$V/bin/rustc-wrap CARGO_TARGET_DIR=$B/tmir cargo +1.70.0 check --offline -p mango-v4 ) > $B/mir.log 2>&1
  if [ $? -ne 0 ] || [ ! -s $B/mir.json.new ]; then echo "the crate does not compile in the extraction workspace:"; grep -E "^error" -A6 $B/mir.log | head -40; return 3; fi
  mv $B/mir.json.new $B/mir.json; echo "$H" > $B/mir.hash
}
case "${1:-all}" in
 mir) mir; exit $? ;;
 all) mir || exit 1 ;;
esac
