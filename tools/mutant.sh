#!/bin/bash
# mutant.sh <patch|-R commit> <property>...: runs quick checks against a scratch copy of /repo/src with a change applied.
set -e
d=$(mktemp -d /tmp/mutant-XXXXXX)
cp -a /repo/src "$d/src"
if [ "$1" = -R ]; then git -C /repo show "$2" -- src | (cd "$d" && patch -R -p1 -s); shift 2; else (cd "$d" && patch -p1 -s < "$1"); shift; fi
for p in "$@"; do
  VERIF_REPO=$d node /verif/harness/check.mjs "$p" > "$d/out" 2>&1 && r=0 || r=$?
  echo "$p exit $r: $(grep -a 'is violated' "$d/out" | cut -c1-200)"
  [ $r -gt 1 ] && tail -20 "$d/out"
done
rm -rf "$d"
