"""tools/mkbug.py: writes /verif/seeded/<id>/ from tools/bugs/<id>.py

A bug file has EDITS = [(file, old, new), ...], META = {...} and, as the rest after the line '# demo',
the demonstration program.
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')


def make(bid):
    src = open(os.path.join(HERE, 'bugs', bid + '.py')).read()
    head, demo = src.split('# demo\n', 1)
    ns = {}
    exec(head, ns)
    d = os.path.join(SEEDED, bid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True, text=True).stdout
    try:
        for f, old, new in ns['EDITS']:
            p = os.path.join('/repo', f)
            t = open(p).read()
            assert t.count(old) == 1, (bid, f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    # removed lines must be those of the original repository
    base = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.split()[0]
    for f, old, new in ns['EDITS']:
        t0 = subprocess.run(['git', '-C', '/repo', 'show', f'{base}:{f}'], capture_output=True, text=True).stdout.splitlines()
        gone = [l for l in old.splitlines() if l not in new.splitlines()]
        for l in gone:
            if l not in t0:
                print(f'{bid}: not an original line: {l!r}')
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    json.dump(ns['META'], open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    open(os.path.join(d, 'demo.py'), 'w').write(demo)
    if 'from l2n import' in demo or 'import l2n' in demo:
        shutil.copy(os.path.join(HERE, 'bugs', 'l2n.py'), d)
    open(os.path.join(d, 'demo.sh'), 'w').write(
        '#!/bin/bash\n# exit 0: the property holds in this case\nhere=$(cd "$(dirname "$0")" && pwd)\n'
        'export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nunset KPEX_FASTCAP_EXE KPEX_FASTERCAP_EXE KPEX_KLAYOUT_EXE KPEX_MAGIC_EXE PDKPATH PDK\n'
        'PYTHONPATH="$here:$PWD" exec /opt/venv/bin/python "$here/demo.py"\n')


for b in sys.argv[1:] or [f[:-3] for f in sorted(os.listdir(os.path.join(HERE, 'bugs'))) if f[0] == 'b']:
    make(b)
    print('made', b)
