#!/bin/bash
# same seeds, different worker counts and interpreter hash seeds: the run fingerprints (events, outcomes, verdicts) must be identical
# usage: tools/determinism.sh N ID...   (default: 40 runs of every check)
cd "$(dirname "$0")/.."
N=${1:-40}; shift
IDS=${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19}
T=$(mktemp -d); rc=0
for id in $IDS; do
  DST_HASHSEED=0 /opt/venv/bin/python dst/check.py $id --hashes $N --workers 1 > $T/a || rc=1
  DST_HASHSEED=7 /opt/venv/bin/python dst/check.py $id --hashes $N --workers 4 > $T/b || rc=1
  DST_HASHSEED=123 /opt/venv/bin/python dst/check.py $id --hashes $N --workers 3 > $T/c || rc=1
  if [ -s $T/a ] && cmp -s $T/a $T/b && cmp -s $T/a $T/c; then echo "$id identical ($(wc -l < $T/a) lines)"; else echo "$id DIFFERS"; diff $T/a $T/b | head -5; rc=1; fi
done
rm -rf "$T"
exit $rc
