#!/bin/bash
# tools/trybug.sh BUG [PROPERTY ...]: build, test, demo and check one planted change.
# Works on copies of /repo and /verif, shown at their usual paths in a private mount namespace.
V=$(cd "$(dirname "$0")/.." && pwd)
B=$V/seeded/$1; shift
[ -n "$IN_NS" ] || exec env IN_NS=1 unshare -m bash "$0" "$(basename "$B")" "$@"
W=$(mktemp -d /tmp/trybug.XXXXXX)
cp -a /repo "$W/repo"; cp -a "$V" "$W/verif"
mount --bind "$W/repo" /repo; mount --bind "$W/verif" /verif
cd /repo || exit 9
L=$W/log
say() { echo "$(basename "$B"): $*"; }
if [ -z "$NOCLEAN" ]; then bash "$B/demo.sh" >"$L" 2>&1 && say demo-clean ok || say demo-clean FAILS; fi
git apply "$B/patch.diff" || { say does not apply; exit 1; }
bash /opt/vp/build.sh >"$L" 2>&1 && say build ok || { say build FAILS; tail -5 "$L"; }
bash "$B/demo.sh" >"$L" 2>&1 && say demo-patched NOT-DETECTED || say "demo-patched fails ($?): $(tail -1 "$L")"
if [ -z "$NOTEST" ]; then
  bash /opt/vp/test.sh "$W/t.json" >"$L" 2>&1
  python3 - "$W/t.json" <<'P'
import json, sys
b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
p = set(json.load(open(sys.argv[1]))['passed'])
print("stable tests failing:", sorted(b - p) or "none")
P
fi
cd /verif
P=${*:-$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")}
for p in $P; do
  python3 checks/run.py $p quick >"$L" 2>&1; r=$?
  say "check $p exit $r"; grep -v "^property\|^KNOWN\|^VIOL" "$L" | head -6
done
cd /; umount /verif /repo; rm -rf "$W"
