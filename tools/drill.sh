#!/bin/bash
# Mutation drill in a scratch copy: drill.sh <patch> <bin>...   (never touches /repo)
# Rebuilds the monitors against a patched copy of /repo under /tmp/mut and reports the verdicts.
M=${MUT:-/tmp/mut}; SRC=${SRC:-/repo}
P="$(realpath "$1")"; shift
mkdir -p $M/hv
rsync -a --delete --exclude target --exclude .git $SRC/ $M/repo/ 2>/dev/null || { mkdir -p $M/repo; (cd $SRC && tar cf - --exclude=./target --exclude=./.git .) | (cd $M/repo && tar xf -); }
mkdir -p $M/harness
(cd ${HARNESS:-/verif/harness} && tar cf - .) | (cd $M/harness && tar xf -)
sed -i "s#path = \"/repo\"#path = \"$M/repo\"#" $M/harness/Cargo.toml
sed -i "s#/verif/target#$M/target#" $M/harness/.cargo/config.toml
cp /verif/known_findings.txt $M/hv/
cd $M/repo && patch -s -p1 < "$P" || { echo "PATCH FAILED $P"; exit 3; }
cd $M/harness
B=""; for b in "$@"; do B="$B --bin $b"; done
cargo build --release --offline -q $B >$M/build.log 2>&1 || { echo "BUILD FAILED $P"; grep -A5 '^error' $M/build.log | head -20; exit 4; }
for b in "$@"; do
  HV_ROOT=$M/hv timeout 900 $M/target/release/$b >$M/out-$b.log 2>&1; rc=$?
  echo "$(basename "$P") $b rc=$rc $(grep -c '^\[' $M/out-$b.log) $(grep -m1 '^\[' $M/out-$b.log | cut -c1-200)"
done
