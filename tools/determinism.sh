#!/bin/bash
# Prove determinism: every property, several seeds, runs repeated in fresh
# processes (with a different environment size, hence stack and heap layout),
# event logs diffed; then whole searches at different worker counts compared.
here=$(cd "$(dirname "$0")/.." && pwd)
export PED_ROOT=$here
"$here/build.sh" || exit 2
sim=$here/sim/target/release/pedsim
runs=${1:-400}; seeds=${2:-12}
d=$(mktemp -d); bad=0; n=0
for id in $(sed -n 's/.*"id": "\(C[0-9]*\)".*/\1/p' "$here/properties.jsonl"); do
  for s in $(seq 1 "$seeds"); do
    "$sim" determinism $id $s $runs >"$d/a"
    PAD=$(head -c $((s * 977)) /dev/zero | tr '\0' x) "$sim" determinism $id $s $runs >"$d/b"
    n=$((n + runs))
    cmp -s "$d/a" "$d/b" || { echo "DIVERGED $id seed $s"; diff "$d/a" "$d/b" | head -3; bad=1; }
  done
  for w in 1 3 8; do
    PED_WORKERS=$w PED_RUNS=3000 VERIF_SEED=5 "$sim" check $id quick | sed 's/, [0-9.]*s,.*//' >"$d/w$w"
  done
  cmp -s "$d/w1" "$d/w3" && cmp -s "$d/w1" "$d/w8" || { echo "WORKERS $id"; head -2 "$d"/w?; bad=1; }
done
rm -rf "$d"
echo "$n runs repeated, bad=$bad"
exit $bad
