#!/bin/bash
# Run hashes must depend on nothing but VERIF_SEED: two processes, different environments, every property.
# usage: determinism.sh [runs] [seed...]
here="$(cd "$(dirname "$0")/.." && pwd)"
runs="${1:-200}"; shift
sim="${SIM_TARGET:-$here/target}/release/sim"
d="$(mktemp -d)" || exit 2
trap '/bin/rm -rf "$d"' EXIT
bad=0
for s in "${@:-1}"; do
  for n in $(seq -w 1 19); do
    p="C$n"
    VERIF_SEED="$s" "$sim" hashes --property "$p" --runs "$runs" >"$d/a" 2>&1
    env -i PATH=/usr/bin:/bin LANG=C NOISE="$(head -c 999 /dev/zero | tr '\0' x)" VERIF_SEED="$s" \
      nice -n 5 "$sim" hashes --property "$p" --runs "$runs" >"$d/b" 2>&1
    if cmp -s "$d/a" "$d/b" && [ "$(wc -l <"$d/a")" -ge "$runs" ]; then echo "$p seed $s: $runs runs alike"
    else echo "$p seed $s: DIFFERENT"; diff "$d/a" "$d/b" | head -5; bad=1; fi
  done
done
exit $bad
