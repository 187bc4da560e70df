#!/bin/bash
# Every check twice: 8 workers / string-hash seed 0 against 3 workers / seed 777; the recorded history of every simulation
# seed must be identical.   usage: tools/determinism.sh [C01 ...]
cd "$(dirname "$0")/.." || exit 2
T=$(mktemp -d); rc=0
for p in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13}; do
  VSIM_HASHSEED=0   /opt/venv/bin/python check.py $p --runs ${N:-240} --workers 8 --determinism $T/a >$T/log 2>&1 || { cat $T/log; rc=1; }
  VSIM_HASHSEED=777 /opt/venv/bin/python check.py $p --runs ${N:-240} --workers 3 --determinism $T/b >$T/log 2>&1 || { cat $T/log; rc=1; }
  if cmp -s $T/a $T/b; then echo "$p identical ($(wc -l <$T/a) lines)"; else echo "$p DIFFERS"; diff $T/a $T/b | head -4; rc=1; fi
done
rm -rf "$T"; exit $rc
