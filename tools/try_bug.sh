#!/bin/bash
# try_bug.sh ID [PROP...]: validate the planted bug seeded/ID and run the checks against it, in /repo; always reverts.
id=$1; shift
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo
[ -z "$(git status --short)" ] || { echo "/repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "${NOVAL:-}" ]; then
  rm -rf /tmp/demo.$id; cp -r $d /tmp/demo.$id; rm -f /tmp/demo.$id/patch.diff /tmp/demo.$id/meta.json
  (cd /repo; bash /tmp/demo.$id/demo.sh >/tmp/demo.out 2>&1); r=$?; [ $r = 0 ] && echo "$id demo clean ok" || { echo "$id DEMO FAILS ON CLEAN ($r)"; tail -5 /tmp/demo.out; }
fi
git apply $d/patch.diff || { echo "$id PATCH DOES NOT APPLY"; exit 2; }
if [ -z "${NOVAL:-}" ]; then
  bash /opt/vp/build.sh >/tmp/build.out 2>&1 && echo "$id builds" || { echo "$id DOES NOT BUILD"; grep -E '^error' -A8 /tmp/build.out|head -30; exit 2; }
  bash /opt/vp/test.sh /tmp/t.json >/tmp/test.out 2>&1
  python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/t.json'))
p=set(t.get('passed',[]))
m=b-p
print("$id tests", "ok" if not m else "FAIL %s"%sorted(m)[:4])
P
  (cd /repo; bash /tmp/demo.$id/demo.sh >/tmp/demo.out 2>&1); r=$?; [ $r = 0 ] && { echo "$id DEMO PASSES WITH BUG"; tail -5 /tmp/demo.out; } || echo "$id demo detects ($r)"
  rm -rf /tmp/demo.$id
fi
for p in ${@:-$prop}; do
  /usr/bin/time -f %es bash /verif/run.sh $p quick > /tmp/chk.out 2>/tmp/chk.err; r=$?
  echo "$id check $p exit=$r $(grep -E 'VIOLATION' /tmp/chk.out | head -1) $(tail -1 /tmp/chk.err)"
  grep -m1 -iE 'message|FAIL|expected|found' /tmp/chk.out | cut -c1-200
done
