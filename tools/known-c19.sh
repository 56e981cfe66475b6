#!/bin/bash
# Shows the recorded C19 finding against the real code (after bin/setup.sh): time doubles per entry,
# and with 2 GB of memory 40 entries end in an abort.
cd "$(dirname "$0")/../harness2" || exit 2
CARGO_TARGET_DIR=/verif/target/harness2 RUSTFLAGS="-Awarnings --cfg vx_hooks" cargo build --offline -q || exit 2
x=/verif/target/harness2/debug/dag
for n in 12 14 16 18; do $x $n; done
(ulimit -v 2000000; ulimit -c 0; timeout 120 $x 40); echo "40 entries: exit status $?"
