#!/bin/bash
# unfix.sh Cxx commit...: takes a repair back and runs the property's quick check (expected: exit 1).
cd /verif; p=$1; shift
for c in $@; do
  git -C /repo show $c -- src | git -C /repo apply -R || { echo "$c: cannot be taken back"; git -C /repo checkout -- .; continue; }
  o=$(timeout 900 python3 run.py check $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$p without $c rc=$rc $(echo "$o" | grep -m1 '^VIOLATION\|^INCONC' | cut -c1-160)"
done
