#!/bin/bash
# Planted bugs. seed.sh work: fresh scratch copy of /repo in /tmp/sw.
# seed.sh save ID: seeded/ID/patch.diff from the scratch copy.  seed.sh test ID [PROP...]: validate it, then run checks on it.
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off PATH=/opt/veriftools/go1.27.3/bin:$PATH GOGC=400
V=$(cd "$(dirname "$0")/.." && pwd)
W=${W:-/tmp/sw}
case $1 in
work) rm -rf "$W"; cp -a /repo "$W" ;;
save) mkdir -p $V/seeded/$2; git -C $W diff > $V/seeded/$2/patch.diff; [ -f $V/seeded/$2/demo.sh ] || cp $V/scripts/demo.sh $V/seeded/$2/demo.sh; wc -l $V/seeded/$2/patch.diff ;;
test)
  id=$2; shift 2
  rm -rf "$W"; cp -a /repo "$W"; cd "$W"
  bash $V/seeded/$id/demo.sh >/tmp/demo.$id.out 2>&1 || { echo "$id: DEMO FAILS ON CLEAN TREE"; tail -20 /tmp/demo.$id.out; exit 1; }
  git apply $V/seeded/$id/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
  go build ./... || { echo "$id: DOES NOT BUILD"; exit 1; }
  go test -vet=off -count=1 ./... >/tmp/test.$id.out 2>&1 || { echo "$id: TESTS FAIL"; grep -- "--- FAIL" /tmp/test.$id.out | head; exit 1; }
  if timeout 300 bash $V/seeded/$id/demo.sh >/tmp/demo.$id.out 2>&1; then echo "$id: DEMO PASSES WITH PATCH"; exit 1; fi
  props="$*"; [ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  for p in $props; do
    if ZREPO=$W ZVERIF=/tmp/swv $V/bin/zv check $p quick >/tmp/check.$id.out 2>&1; then echo "$id: $p MISSED"; else echo "$id: $p caught: $(sed -n 2p /tmp/check.$id.out | cut -c1-200)"; fi
  done ;;
esac
