#!/bin/bash
# developer helper: b.sh BIN PROP [CASES] [SEED]  (both profiles)
. /opt/vp/env.sh; cd /verif/harness; export CARGO_TARGET_DIR=/verif/target CARGO_INCREMENTAL=0
B=$1; P=$2; N=${3:-20000}; S=${4:-1}
cargo build --offline --bin $B 2>&1 | grep -E '^(error|warning: unused)|-->' -A6 | head -${L:-60}; cargo build --offline --release --bin $B 2>&1 | grep -E '^error' -A6 | head -20
[ -e /verif/target/release/$B ] || exit 1
for pr in debug release; do mkdir -p /tmp/w.$pr; for p in $P; do
rm -rf /tmp/w.$pr/$p; mkdir -p /tmp/w.$pr/$p
for w in 0 1 2 3; do /verif/target/$pr/$B work $p $S $w 4 $N quick /tmp/w.$pr/$p >/dev/null 2>&1 & done; wait
echo "== $pr $p"; cat /tmp/w.$pr/$p/res.* 2>/dev/null | grep -E "FAIL|EVALS|NONTRIV" | head -8; [ -n "$V" ] && grep -hE 'LABEL|SAMPLE' /tmp/w.$pr/$p/res.0 | cut -c1-${V}
for w in 0 1 2 3; do [ -e /tmp/w.$pr/$p/res.$w ] || echo "worker $w died at $(od -An -t u8 /tmp/w.$pr/$p/st.$w)"; done; done; done
