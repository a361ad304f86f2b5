#!/bin/bash
# determinism.sh [runs]: every property's first runs, hashed (decisions, events, history) in three separate
# processes - alone, on one core, and eight at once in a shifted order - must agree line by line.
cd "$(dirname "$0")/.." || exit 2
N=${1:-4000}; B=sim/target/release/ellsim; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
bad=0
for p in $($B list); do
  $B digest $p 7 0 $N > "$T/a" 2>/dev/null
  taskset -c 0 $B digest $p 7 0 $N > "$T/b" 2>/dev/null
  for k in 7 6 5 4 3 2 1 0; do $B digest $p 7 $((N*k/8)) $((N*(k+1)/8)) > "$T/c$k" 2>/dev/null & done; wait
  cat "$T"/c[0-7] > "$T/c"
  if cmp -s "$T/a" "$T/b" && cmp -s "$T/a" "$T/c" && [ "$(wc -l < "$T/a")" = $N ]; then echo "$p identical: $N runs, digest $(md5sum < "$T/a" | cut -c1-16)"; else echo "$p DIFFERS"; bad=1; fi
done
PY="bash pysim/pysim.sh"; M=$((N/4))
for p in $($PY list); do
  $PY digest $p 7 0 $M > "$T/a" 2>/dev/null
  taskset -c 0 $PY digest $p 7 0 $M > "$T/b" 2>/dev/null
  for k in 7 6 5 4 3 2 1 0; do $PY digest $p 7 $((M*k/8)) $((M*(k+1)/8)) > "$T/c$k" 2>/dev/null & done; wait
  cat "$T"/c[0-7] > "$T/c"
  if cmp -s "$T/a" "$T/b" && cmp -s "$T/a" "$T/c" && [ "$(wc -l < "$T/a")" = $M ]; then echo "$p identical: $M runs, digest $(md5sum < "$T/a" | cut -c1-16)"; else echo "$p DIFFERS"; bad=1; fi
done
exit $bad
