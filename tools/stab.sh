#!/bin/bash
# stab.sh TEMPLATE SEED...: verify one template under several solver seeds, to find brittle proofs
V=$(dirname "$(dirname "$(readlink -f "$0")")")
t=$1; shift
d=$(mktemp -d /tmp/stab.XXXXXX)
$V/vx/target/debug/vx $V/specs/$t.vt ${REPO:-/repo} $d/$t.rs $d/$t.map || exit 3
for s in "$@"; do
  echo "== $t seed $s: $(verus -A non_snake_case $d/$t.rs --multiple-errors 5 --rlimit 30 --num-threads 2 --triggers-mode silent --smt-option smt.random_seed=$s --smt-option sat.random_seed=$s 2>&1 | grep -v '^warning' | grep -A4 '^error\|verification results')"
done
rm -r "$d"
