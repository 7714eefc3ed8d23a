#!/bin/bash
# usage: soak.sh "<seeds>" [ids...]: quick checks on the unchanged tree with other seeds; prints only what is not OK
seeds=$1; shift
ids=${*:-$(seq -f 'C%02g' 1 31)}
for s in $seeds; do for i in $ids; do
  out=$(VERIF_SEED=$s python3 "$(dirname "$0")/run.py" check $i 2>&1) || echo "seed $s $i: $out" | cut -c1-1200
done; echo "seed $s done"; done
