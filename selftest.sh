#!/bin/bash
# Determinism of the simulator itself: the same seeds executed twice, with different numbers of
# worker processes (so different real timing), must give the same digest of every delivered event,
# every output of rasp and every oracle comparison. Exit 0 when all agree.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
cd "$HERE" && sim_build || exit 3
rc=0
for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22; do
  n="${1:-20000}"; [ $p = C17 ] && n=$((n / 10))
  for prof in chk release; do
    a=$("sim/target/$prof/raspsim" batch $p --runs $n --seed 77 --jobs 1 --noreport 1 | grep 'stat digest')
    b=$("sim/target/$prof/raspsim" batch $p --runs $n --seed 77 --jobs 8 --noreport 1 | grep 'stat digest')
    c=$("sim/target/$prof/raspsim" batch $p --runs $n --seed 78 --jobs 8 --noreport 1 | grep 'stat digest')
    if [ "$a" = "$b" ] && [ "$a" != "$c" ]; then echo "$p $prof: $n runs, $a twice"; else echo "$p $prof: NOT DETERMINISTIC: $a / $b / other seed $c"; rc=1; fi
  done
done
exit $rc
