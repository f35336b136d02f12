"""Bootstrap: interpreter paths, generated protobuf code, quiet logging."""
import fcntl
import hashlib
import os
import subprocess
import sys

REPO = os.environ.get('KV_REPO', '/repo')
VERIF = os.path.realpath(os.path.join(os.path.dirname(__file__), '..'))
VT_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
PB_DIR = os.path.join(REPO, 'klayout_pex_protobuf')
TECHS = ('sky130A', 'ihp_sg13g2')


def _sources_digest():
    """The same list that /opt/vp/gen.sh writes as its stamp."""
    files = []
    for root in ('protos', 'cxx'):
        for d, _, fs in os.walk(os.path.join(REPO, root)):
            files += [os.path.join(d, f) for f in fs]
    files.append(os.path.join(REPO, 'CMakeLists.txt'))
    lines = []
    for f in files:
        with open(f, 'rb') as fh:
            lines.append((os.fsencode(f), hashlib.sha256(fh.read()).hexdigest()))
    lines.sort()
    return b''.join(h.encode() + b'  ' + f + b'\n' for f, h in lines)


def generated_code_is_current():
    stamp = os.path.join(REPO, 'build', 'kpex_offline', 'sources.sha256')
    try:
        with open(stamp, 'rb') as fh:
            old = fh.read()
    except OSError:
        return False
    if sorted(old.splitlines()) != sorted(_sources_digest().splitlines()):
        return False
    need = [os.path.join(PB_DIR, f'{t}_tech.pb.json') for t in TECHS]
    for d, _, fs in os.walk(os.path.join(REPO, 'protos')):
        rel = os.path.relpath(d, os.path.join(REPO, 'protos'))
        need += [os.path.join(PB_DIR, rel, f[:-len('.proto')] + '_pb2.py') for f in fs if f.endswith('.proto')]
    return all(os.path.isfile(n) for n in need)


def ensure_generated():
    """Generated code (ignored by git) follows /repo's current sources."""
    lock_path = os.path.join('/tmp', f'kv-gen-{os.getuid()}.lock')
    with open(lock_path, 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if generated_code_is_current():
            return
        r = subprocess.run(['bash', '/opt/vp/gen.sh'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stdout[-4000:])
            raise RuntimeError('cannot build the generated code of /repo')


def setup_paths():
    sys.dont_write_bytecode = True
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(1, VERIF)
    if VT_SITE not in sys.path:
        sys.path.append(VT_SITE)
    for k in list(os.environ):
        if k.startswith('KPEX_') or k in ('PDK', 'PDKPATH'):
            del os.environ[k]


def quiet():
    """Log level of the code under test: nothing below CRITICAL."""
    from klayout_pex.log import set_log_level, LogLevel
    set_log_level(LogLevel.CRITICAL)
