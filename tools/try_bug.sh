#!/bin/bash
# tools/try_bug.sh ID [CHECK...]: does the planted bug count, and do the checks (default: its property) catch it?
# Works on private copies of /repo and /verif, mounted over the originals in an own mount namespace.
if [ -z "$KV_PRIVATE" ]; then
  W=$(mktemp -d /tmp/try.XXXXXX)
  cp -a /repo "$W/repo"; mkdir "$W/verif"; (cd /verif && tar c --exclude=./evidence --exclude=./.git .) | tar x -C "$W/verif"; mkdir -p "$W/verif/evidence" "$W/tmp"
  cp -a /opt/vp "$W/vp"
  KV_PRIVATE=1 unshare -m bash -c 'mount --bind "$0/repo" /repo && mount --bind "$0/verif" /verif && mount --bind "$0/vp" /opt/vp && mount --bind "$0/tmp" /var/tmp && cd / && shift 0 && exec bash /verif/tools/try_bug.sh "$@"' "$W" "$@"
  r=$?; rm -rf "$W"; exit $r
fi
T=/var/tmp
cd /repo; git checkout -q -- .
python3 /verif/tools/mkbug.py $1 > $T/mk.out 2>&1 || { cat $T/mk.out; exit 2; }
grep "not an original" $T/mk.out
D=/verif/seeded/$1; shift
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
[ $# -gt 0 ] || set -- $P
cp -a $D $T/demo_here
demo() { (cd /repo && timeout 300 bash $T/demo_here/demo.sh >$T/demo.out 2>&1; echo $?); }
r0=$(demo); [ $r0 = 0 ] || tail -5 $T/demo.out
git apply $D/patch.diff || { echo "patch does not apply"; exit 2; }
bash /opt/vp/build.sh >$T/b.log 2>&1 || echo "BUILD FAILS"
bash /opt/vp/test.sh $T/o.json >/dev/null 2>&1
t=$(python3 - <<'Q'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/var/tmp/o.json'))
print(sorted(set(b['stable'])-set(o['passed'])) or 'tests pass')
Q
)
r1=$(demo); echo "$(basename $D): demo clean=$r0 patched=$r1; $t; $(tail -1 $T/demo.out | cut -c1-200)"
for c in "$@"; do
  (cd /verif && VERIF_SEED=${SEED:-1} VERIF_TIER=quick /opt/venv/bin/python run.py $c > $T/c.out 2>&1; echo "  check $c: exit $? $(grep -m1 VIOLATION $T/c.out | cut -c1-60)"; grep -m1 "^P.. \[" $T/c.out | cut -c1-300)
done
