#!/bin/bash
# mut.sh <check,...> <file> <sed-expression>...: run checks against a scratch copy of /repo/sources with an edit

D=$(mktemp -d /tmp/mut.XXXXXX)
mkdir -p $D/repo; cp -a /repo/sources $D/repo/
IDS=$1; shift; F=$1; shift
for e in "$@"; do sed -i "$e" $D/repo/sources/$F; done
if diff -rq /repo/sources $D/repo/sources >/dev/null; then echo "NO CHANGE"; rm -rf $D; exit 3; fi
diff -r /repo/sources $D/repo/sources | tr -d '\r' | head -12
for id in ${IDS//,/ }; do
  PBT_REPO=$D/repo PBT_BUILD=$D/build PBT_EVIDENCE=$D/ev timeout 900 python3 /verif/check.py $id 2>$D/err; rc=$?
  echo "$id rc=$rc"; [ -n "$SHOW" ] && cat $D/build/replays/*.replay 2>/dev/null | grep -v '^hint' | head -${SHOW}
  [ $rc -eq 2 ] && tail -5 $D/err
  true
done
rm -rf $D
