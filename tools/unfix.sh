#!/bin/bash
# unfix.sh COMMIT PKG BIN...: undo a fix in /repo's working tree, run checks, restore.
c=$1; pkg=$2; shift 2
git -C /repo show "$c" | git -C /repo apply -R || { echo "cannot undo $c"; exit 1; }
for b in "$@"; do timeout 600 bash /verif/run.sh "$pkg" "$b" >/tmp/unfix.log 2>&1; rc=$?; echo "$c $(git -C /repo log -1 --format=%s "$c" | cut -c1-60): $b rc=$rc $(grep -o '^  \[[a-z0-9:_-]*\]' /tmp/unfix.log | sort -u | tr -d '\n')"; done
git -C /repo checkout -q -- .
