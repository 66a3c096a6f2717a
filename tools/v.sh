#!/bin/bash
# developer loop: v.sh modules [verus args]
m=$1; shift
cd /verif/extract && cargo build --offline -q 2>&1 | grep -E '^error' ; ./target/debug/extract /repo/src ../contracts /tmp/o.rs /tmp/o.json $m "$OPQ" && grep -E '"missing"|"lost":\[[^]]|loops_without_spec":\[[^]]' /tmp/o.json; cd /tmp; time verus /tmp/o.rs --multiple-errors 10 "$@"
