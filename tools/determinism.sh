#!/bin/bash
# Same seed, same execution: the event hash, step count and choice count of COUNT runs of every
# simulator, taken in two separate processes (other process id, addresses, environment), must agree.
cd "$(dirname "$(readlink -f "$0")")/.." || exit 2
n="${1:-300}"; bad=0
export SYNSIM_KNOWN="$PWD/known_findings.json" SYNSIM_GEN14="$PWD/target/gen14-1"
for id in c01 c02 c03 c04 c05 c06 c07 c08 c09 c10 c11 c13 c14 c16 c17 c18; do
  b="target/release/$id"
  [ -x "$b" ] || { echo "$id: not built"; bad=1; continue; }
  for seed in 1 2 3; do
    x=$("$b" hashes $seed 0 "$n" | md5sum)
    y=$(PAD=$(head -c 3000 /dev/zero | tr '\0' x) taskset -c 0 "$b" hashes $seed 0 "$n" | md5sum)
    # and the same for runs that are the first of their process
    x+=$("$b" hashes $seed 2199023255552 40 | md5sum)
    y+=$(PAD=$(head -c 3000 /dev/zero | tr '\0' x) taskset -c 0 "$b" hashes $seed 2199023255552 40 | md5sum)
    [ "$x" = "$y" ] || { echo "$id seed $seed: executions differ"; bad=1; }
  done
  echo "$id: 3 seeds x $n runs repeated"
done
exit $bad
