#!/bin/bash
# tools/plant.sh ID [tests|check PROP...]   validates one planted bug of /verif/seeded in a scratch copy bound over /repo
# (a private mount namespace: the real /repo is never touched)
ID=$1; shift
V=${V:-/verif} R=${R:-/repo}; S=$V/seeded/$ID; export V
W=$(mktemp -d /tmp/plant.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a "$R" "$W/repo"; cp -a "$S" "$W/seed"; rm -f "$W/seed/patch.diff" "$W/seed/meta.json"
(cd "$W/repo" && git apply "$S/patch.diff") || { echo "$ID: patch does not apply"; exit 1; }
echo "== $ID demo on the unchanged tree"; (cd "$R" && timeout 300 bash "$W/seed/demo.sh" > "$W/clean.log" 2>&1); c=$?; tail -3 "$W/clean.log"
echo "   exit $c"
unshare -m bash -c '
mount --bind "$1/repo" /repo || exit 9
W=$1 ID=$2; shift 2
cd /repo
echo "== $ID demo with the patch"; timeout 300 bash "$W/seed/demo.sh" > "$W/bad.log" 2>&1; echo "   exit $?"; tail -3 "$W/bad.log"
if [ "$1" = tests ]; then
  bash /opt/vp/build.sh > "$W/b.log" 2>&1; echo "   build exit $?"
  bash /opt/vp/test.sh "$W/t.json" > "$W/t.log" 2>&1
  python3 - "$W/t.json" <<P
import json,sys
b=json.load(open("/opt/vp/BASELINE.json"));t=json.load(open(sys.argv[1]))
s=set(map(str,b["stable"]));p=set(map(str,t["passed"]))
print("   stable",len(s),"passed",len(p&s),"missing",sorted(s-p)[:10])
P
  shift
fi
if [ "$1" = check ]; then shift
  for p in "$@"; do timeout 900 $V/run.sh $p quick > "$W/c.log" 2>&1; echo "   check $p exit $?"; grep -A1 VIOLATION "$W/c.log" | head -6; tail -1 "$W/c.log"; done
fi
' x "$W" "$ID" "$@"
