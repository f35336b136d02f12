"""tools/mut.py FILE... : tries small changes (EDITS-like tuples) against the checks, in private copies of /repo and /verif.

A file has MUTS = [(id, 'P01 P02', file, old, new), ...]; prints for each whether the tests pass and which checks fail.
"""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

JOBS = int(os.environ.get('JOBS', '3'))
INNER = r'''
mount --bind "$0/repo" /repo && mount --bind "$0/verif" /verif && mount --bind "$0/vp" /opt/vp && mount --bind "$0/tmp" /var/tmp || exit 9
T=/var/tmp
bash /opt/vp/build.sh >$T/b.log 2>&1 || echo "BUILD FAILS"
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh $T/o.json >/dev/null 2>&1
python3 - <<'Q'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/var/tmp/o.json'))
m=set(b['stable'])-set(o['passed'])
print('tests pass' if not m else 'TESTS FAIL %s' % sorted(m)[:3])
Q
fi
for c in $1; do
  (cd /verif && VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 /opt/venv/bin/python run.py $c > $T/c.out 2>&1; r=$?; [ $r = 1 ] && grep -q "VIOLATION property=$c" $T/c.out && echo "$c caught: $(grep -m1 '^P.. \[' $T/c.out | cut -c1-200)" || { [ $r = 0 ] && echo "$c MISSED" || { echo "$c EXIT $r"; tail -5 $T/c.out; }; })
done
'''


def one(m):
    mid, checks, f, old, new = m
    w = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    try:
        shutil.copytree('/repo', w + '/repo', symlinks=True)
        shutil.copytree('/verif', w + '/verif', symlinks=True, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
        os.makedirs(w + '/verif/evidence')
        os.makedirs(w + '/tmp')
        shutil.copytree('/opt/vp', w + '/vp', symlinks=True)
        edits = [(f, old, new)] if isinstance(f, str) else f
        for f, old, new in edits:
            p = os.path.join(w, 'repo', f)
            t = open(p).read()
            if t.count(old) != 1:
                return f'{mid}: BAD EDIT {f}: {t.count(old)} matches of {old[:60]!r}'
            open(p, 'w').write(t.replace(old, new))
        r = subprocess.run(['unshare', '-m', 'bash', '-c', INNER, w, checks], capture_output=True, text=True, errors='replace', cwd='/')
        return f'{mid}: ' + '\n   '.join(r.stdout.strip().splitlines()) + (('\n' + r.stderr[-300:]) if r.returncode == 9 else '')
    finally:
        shutil.rmtree(w, ignore_errors=True)


muts = []
only = set(os.environ.get('ONLY', '').split())
for a in sys.argv[1:]:
    ns = {}
    exec(open(a).read(), ns)
    muts += [m for m in ns['MUTS'] if not only or m[0] in only]
with ThreadPoolExecutor(JOBS) as ex:
    for r in ex.map(one, muts):
        print(r, flush=True)
