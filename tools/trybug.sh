#!/bin/bash
# tools/trybug.sh PATCH CHECK-ID... : apply a patch to /repo, run the checks, undo
p=$1; shift
git -C /repo apply "$p" || exit 9
trap 'git -C /repo checkout -q -- .' EXIT
for c in "$@"; do
  s=$(date +%s)
  python3-vt /verif/engine/check.py $c > /tmp/trybug.$c.log 2>&1; r=$?
  echo "$c exit=$r $(( $(date +%s) - s ))s $(grep -h '^VIOLATION' /tmp/trybug.$c.log | head -1)"
done
