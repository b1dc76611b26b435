#!/bin/bash
# dev: build and run only the bounded part.  hb.sh C02 [tier] [seed]
P=$1; T=${2:-quick}; S=${3:-1}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTFLAGS= RUSTC_WRAPPER= CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
export CARGO_TARGET_DIR=/repo/target
cargo build --offline --manifest-path /verif/harness/Cargo.toml --features $P 2>&1 | grep -E "^(error|warning: unused)" -A6 | head -60
D=$(mktemp -d /tmp/hb.XXXX); mkdir $D/work
grep "^KNOWN-FINDING: property=$P " /verif/KNOWN_FINDINGS.txt | sed -E 's/^.* key=(.*) :: .*$/\1/' > $D/known
time timeout ${HBT:-900} /repo/target/debug/cdxharness $P $T $S /repo/target/debug/cdxbin $D/work $D/out $D/known 2>$D/err
echo exit $?; tail -3 $D/err; cut -c1-${W:-900} $D/out | head -${L:-60}
rm -rf "$D"
