#!/bin/bash
# Every mutant list in turn; prints what did not go as expected.   tools/allmut.sh [IDS…]
cd "$(dirname "$0")/.."
for f in ${@:-$(ls tools/mutants | sed -n 's/\.py$//p')}; do
  python3 tools/mut.py $f > /tmp/m.$f 2>&1; echo "$f: $(grep -c 'caught \|quiet ' /tmp/m.$f) as expected"; grep -A1 'MISSED\|FALSE\|BUILD\|NOTFOUND\|Error' /tmp/m.$f | cut -c1-300
done
