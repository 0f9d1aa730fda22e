#!/bin/bash
# run.sh <property> <quick|thorough>: decides one property from /repo's current sources.
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; tier="${2:-quick}"
mkdir -p "$here/evidence"
log="$here/evidence/$prop.build.txt"
if [ ! -x "$here/bin/zv" ]; then
  if ! bash "$here/tool/b.sh" >"$log" 2>&1; then
    echo "the analyzer does not build:"; tail -5 "$log"
    echo "VIOLATION property=$prop replay=$log"
    exit 1
  fi
fi
out="$here/evidence/$prop.out.txt"
GOGC=400 "$here/bin/zv" check "$prop" "$tier" >"$out" 2>"$here/evidence/$prop.err.txt"
rc=$?
cat "$out"
if [ $rc -eq 0 ]; then exit 0; fi
if ! grep -q "^VIOLATION property=$prop" "$out"; then
  tail -5 "$here/evidence/$prop.err.txt"
  echo "VIOLATION property=$prop replay=$here/evidence/$prop.err.txt"
fi
exit 1
