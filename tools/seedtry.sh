#!/bin/bash
# usage: tools/seedtry.sh ID [CHECK...]
# Confirms /verif/seeded/ID in a scratch copy of /repo (bind-mounted over /repo in
# a mount namespace of its own): the demo passes on the clean tree, the patch
# applies and builds, the stable tests pass, the demo fails. Then runs the named
# checks (default: the seed's own property; "none" for no check) on the copy.
set -u
ID=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
if [ -z "${SEED_NS:-}" ]; then
  W=$(mktemp -d /tmp/seedw-XXXXXX)
  cp -a "${SEED_REPO:-/repo}"/. "$W/"
  SEED_NS=$W unshare -Urmn "$V/tools/seedtry.sh" "$ID" "$@"
  rm -rf "$W"
  exit
fi
ip link set lo up; mount --bind "$SEED_NS" /repo || exit 1
S=$V/seeded/$ID
T=$(mktemp -d); D=$(mktemp -d); cp -a "$S/." "$D/"; rm -f "$D"/*.diff "$D/meta.json"
ok=1
cd /repo
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash "$D/demo.sh" >"$T/demo0" 2>&1; r=$?
[ $r -eq 0 ] || { echo "$ID: demo fails on the clean tree ($r)"; tail -5 "$T/demo0"; ok=0; }
git -c safe.directory='*' apply "$S/patch.diff" || { echo "$ID: patch does not apply"; ok=0; }
bash /opt/vp/test.sh "$T/out.json" >"$T/testlog" 2>&1
python3 - "$T/out.json" <<'P' || { echo "$ID: tests fail"; ok=0; }
import json,sys
try: got=json.load(open(sys.argv[1]))
except Exception as e: print(e); sys.exit(1)
base=json.load(open('/opt/vp/BASELINE.json'))
bad=[n for n in base['stable'] if n not in set(got['passed'])]
for b in bad[:5]: print('  broken test:',b)
sys.exit(1 if bad else 0)
P
grep -m3 "error TS" "$T/testlog"
timeout 300 bash "$D/demo.sh" >"$T/demo1" 2>&1; r=$?
[ $r -ne 0 ] || { echo "$ID: demo passes with the patch"; ok=0; }
[ $ok = 1 ] && echo "$ID: valid ($(tail -1 "$T/demo1" | cut -c1-150))"
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
[ $# -gt 0 ] || set -- "$P"
cd "$V"
for c in "$@"; do
  [ "$c" = none ] && continue
  VERIF_EVIDENCE="$T/ev" timeout 900 node lib/main.js "$c" quick >"$T/chk" 2>&1; r=$?
  echo "$ID: $c exit $r $([ $r = 1 ] && echo CAUGHT || echo MISSED) :: $(grep -m1 -A1 VIOLATION "$T/chk" | tail -1 | cut -c1-200)"
  [ $r = 3 ] && tail -3 "$T/chk"
done
rm -rf "$T" "$D"
