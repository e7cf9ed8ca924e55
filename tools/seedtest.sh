#!/bin/bash
# seedtest.sh [-n] ID...: confirms planted bugs on a private copy of /repo (mounted over /repo in a mount
# namespace): demo passes before, patch applies, builds, stable tests pass, demo fails, the property's check
# reports it. -n skips the tests.
V="$(cd "$(dirname "$0")/.." && pwd)"
[ -n "$IN_NS" ] || exec env IN_NS=1 unshare -m "$0" "$@"
T=$(mktemp -d /tmp/seedtest.XXXXXX); trap 'umount /repo /opt/vp 2>/dev/null; rm -rf "$T"' EXIT
cp -a /repo "$T/repo"; cp -a /opt/vp "$T/vp"
mount --bind "$T/repo" /repo && mount --bind "$T/vp" /opt/vp || exit 2
tests=1; [ "$1" = -n ] && { tests=; shift; }
for id; do
  S="$V/seeded/$id"; prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  git -C /repo checkout -q -- . 
  r="$id $prop:"
  (cd /repo && bash "$S/demo.sh" >"$T/d1" 2>&1) && r="$r demo-ok" || { r="$r DEMO-FAILS-UNCHANGED"; tail -5 "$T/d1"; }
  git -C /repo apply "$S/patch.diff" || { echo "$r DOES-NOT-APPLY"; continue; }
  bash /opt/vp/build.sh >"$T/b" 2>&1 && r="$r builds" || { r="$r BUILD-FAILS"; tail -5 "$T/b"; }
  if [ -n "$tests" ]; then
    bash /opt/vp/test.sh "$T/t.json" >"$T/tl" 2>&1
    r="$r $(python3 - "$T/t.json" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open(sys.argv[1]))
p=set(t.get('passed', t.get('pass', [])))
m=b-p
print('tests-pass' if not m else 'TESTS-FAIL:%s'%sorted(m)[:3])
P
)"
  fi
  (cd /repo && bash "$S/demo.sh" >"$T/d2" 2>&1) && r="$r DEMO-PASSES-WITH-BUG" || r="$r demo-fails"
  t0=$(date +%s); (cd "$V" && ./run.sh check "$prop" >"$T/c" 2>&1); rc=$?; t1=$(date +%s)
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop " "$T/c"; then r="$r CAUGHT($((t1-t0))s)"; else r="$r MISSED(rc=$rc,$((t1-t0))s)"; fi
  echo "$r"
done
