"""P35: the results of a run follow from its inputs and options alone."""
import gzip
import json
import os
import re
import shlex
import subprocess
import sys
from hypothesis import strategies as st
from kv import boot, gen, geo
from kv.core import Part, Violation, require
from kv.cli import scratch
from . import p06, p22

PID = 'P35'
WORKERS = 8
RULE = ('generated: LVS databases and GDS files (both PDKs, net names beyond ASCII), command lines for the 2.5D engine in all modes, the FasterCap and FastCap engines with '
        'stand-ins for the solvers, and Magic; each run twice or three times in fresh processes, at the same time or after each other, with another hash seed, working directory, '
        'locale and terminal encoding, time zone, terminal width, umask and surroundings. Oracle: metamorphic, the result files of the runs are the same, byte by byte '
        'after decompression (layouts: by content). Non-trivial: at least two surroundings which differ in hash seed or encoding, and a result with at least two nets')
ASSUMPTIONS = ['logs and lines with dates hold times and are left out', 'file names beyond ASCII are not used together with an ASCII-only locale']

MAIN = '''
import os, sys
keep = {k: v for k, v in os.environ.items() if k.startswith('KPEX_')}
sys.path.insert(0, %r)
from kv import boot
boot.setup_paths()
os.environ.update(keep)
from klayout_pex.kpex_cli import KpexCLI
sys.argv = ['kpex'] + sys.argv[1:]
import json, time
def slowed(name, before, after):
    f = getattr(KpexCLI, name)
    def g(*a, **k):
        time.sleep(before)
        try:
            return f(*a, **k)
        finally:
            time.sleep(after)
    setattr(KpexCLI, name, staticmethod(g) if isinstance(KpexCLI.__dict__[name], staticmethod) else g)
for name, (before, after) in json.loads(os.environ.pop('KV_PAUSES', '{}')).items():
    if hasattr(KpexCLI, name):
        slowed(name, before, after)
if 'KV_BARRIER' in os.environ:
    d, i, n = os.environ.pop('KV_BARRIER').split('|')
    open(os.path.join(d, 'ready' + i), 'w').close()
    t = time.monotonic()
    while sum(x.startswith('ready') for x in os.listdir(d)) < int(n) and time.monotonic() - t < 60:
        time.sleep(0.005)
KpexCLI().main(sys.argv)
''' % boot.VERIF

NAMES = [['A', 'B', 'C', 'D'], ['Ω', 'in-', 'ß', 'a.b'], ['n<0>', 'n<1>', 'N<0>', 'x y'], ['é', 'e', 'E', '北']]


@st.composite
def surroundings(draw):
    e = {'PYTHONHASHSEED': str(draw(st.integers(0, 4000000)))}
    enc = draw(st.sampled_from(['utf8', 'utf8', 'term ascii', 'term latin-1', 'locale C', 'locale POSIX']))
    if draw(st.booleans()):
        e['TZ'] = draw(st.sampled_from(['America/New_York', 'Asia/Kolkata', 'UTC']))
    if draw(st.booleans()):
        e['COLUMNS'] = draw(st.sampled_from(['20', '80', '400']))
    if draw(st.booleans()):
        e['TERM'] = draw(st.sampled_from(['dumb', 'xterm-256color']))
    if draw(st.integers(0, 3)) == 0:
        e['OMP_NUM_THREADS'] = '2'
    return {'env': e, 'enc': enc, 'cwd': draw(st.sampled_from(['data', 'out', '/', 'x y'])), 'rel': draw(st.booleans()), 'umask': draw(st.sampled_from([0o22, 0o77])),
            'tty': draw(st.booleans())}


@st.composite
def cases(draw):
    lay = draw(gen.mixed_layouts(n_layers=(1, 3), shapes=(2, 7)))
    kind = draw(st.sampled_from(['2.5D', '2.5D', '2.5D', 'fastercap', 'fastcap', 'magic']))
    opts = []
    if kind == '2.5D':
        opts = ['--mode', draw(st.sampled_from(['CC', 'RC', 'R']))]
        if draw(st.booleans()):
            opts += ['--halo', draw(st.sampled_from(['0.5', '3']))]
    return {'layout': lay, 'kind': kind, 'opts': opts, 'names': draw(st.integers(0, len(NAMES) - 1)), 'runs': [draw(surroundings()) for _ in range(draw(st.sampled_from([2, 2, 3])))],
            'parallel': draw(st.booleans()), 'salt': str(draw(st.integers(0, 99)))}


def environment(s, tmp, extra):
    env = {'PATH': '/usr/bin:/bin', 'HOME': tmp, 'TMPDIR': tmp, 'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg', 'OPENBLAS_NUM_THREADS': '1',
           'KV_REPO': boot.REPO, 'LC_ALL': 'C.UTF-8'}
    if s['enc'].startswith('term '):
        env['PYTHONIOENCODING'] = s['enc'][5:]
    elif s['enc'].startswith('locale '):      # stands in for the 8 bit locales, which are not installed
        env.update(LC_ALL=s['enc'][7:], PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
    env.update(s['env'])
    env.update(extra)
    return env


def normal(path, out, rundir):
    """the content of a result file that has to be the same in each run"""
    import klayout.db as kdb
    with open(path, 'rb') as f:
        b = f.read()
    if b[:2] == b'\x1f\x8b':
        b = gzip.decompress(b)
    n = os.path.basename(path)
    if re.search(r'\.(gds|oas)(\.gz)?$', n):
        ly = kdb.Layout()
        ly.read(path)
        cont = []
        for c in sorted(ly.each_cell(), key=lambda c: c.name):
            for i in ly.layer_infos():
                for s in c.shapes(ly.layer(i)).each():
                    cont.append((c.name, str(i), str(s.polygon if not s.is_text() else s.text), sorted(map(str, (s.properties() if hasattr(s, 'properties') else {}).items()))))
            cont += [(c.name, str(x)) for x in c.each_inst()]
        return json.dumps([ly.dbu, sorted(map(repr, cont))])
    t = b.decode('utf-8', 'surrogateescape')
    for p in sorted({out, rundir}, key=len, reverse=True):
        t = t.replace(p, '<OUT>')
    t = re.sub(r'(?m)^(\*|#|//) .*\d\d\d\d-\d\d-\d\d.*\n', '', t)
    return t


def results(out):
    r = {}
    for root, _, files in os.walk(out):
        for f in files:
            p = os.path.join(root, f)
            if f.endswith('.log') or f.endswith('_Output.txt'):
                continue
            r[os.path.relpath(p, out)] = normal(p, out, out)
    return r


def run(case, rec):
    lay, kind = case['layout'], case['kind']
    names = NAMES[case['names']]
    shapes, dbu, hier = gen.realize(lay)
    shapes = gen.unique_nets(shapes)
    base = sorted({s[1] for s in shapes})
    if not base:
        return
    nm = {n: names[i] if i < len(names) else n for i, n in enumerate(base)}
    if len(set(nm.values())) < len(nm):
        return
    runs = case['runs']
    ascii_only = any(s['enc'].startswith('locale') for s in runs) and kind != '2.5D'
    if ascii_only or kind in ('fastcap', 'fastercap') and any(' ' in n for n in nm.values()):
        nm = {n: n for n in base}
    shapes = [[l, nm[n], r] for l, n, r in shapes]
    with scratch() as d0:
        data = os.path.join(d0, 'data')
        for x in ('data', 'out', 'x y', 'tmp'):
            os.mkdir(os.path.join(d0, x))
        extra = {'KPEX_KLAYOUT_EXE': '/bin/true'}
        if kind == 'magic':
            import klayout.db as kdb
            ly = kdb.Layout()
            c = ly.create_cell('TOP')
            for l, n, r in shapes:
                c.shapes(ly.layer(68 + l, 20)).insert(kdb.Box(*r) if not isinstance(r[0], list) else kdb.Polygon([kdb.Point(*q) for q in r]))
            src = os.path.join(data, 'lay.gds')
            ly.write(src)
            exe = os.path.join(d0, 'magic')
            with open(exe, 'w', encoding='utf-8') as f:
                f.write('#!/bin/sh\necho "µ Ω"\nfor a; do s="$a"; done\ncp "$s" "$(dirname "$s")/TOP.pex.spice"\nprintf \'timestamp 0\\nversion 8.3\\ntech sky130A\\nscale 1000 1 0.5\\n'
                        'port "Ω" 1 0 0 10 10 m1\\nnode "Ω" 1 2.5 0 0 m1 1 1\\n\' > "$(dirname "$s")/TOP.ext"\n')
            os.chmod(exe, 0o755)
            rc = os.path.join(data, 'my.magicrc')
            open(rc, 'w').close()
            extra['KPEX_MAGIC_EXE'] = exe
            args = ['--magic', '--magicrc', rc]
        else:
            src = os.path.join(data, 'lay.lvsdb.gz')
            geo.write_lvsdb(src, lay['tech'], shapes, dbu=dbu, hier=hier)
            args = ['--' + kind] + case['opts']
        if kind in ('fastcap', 'fastercap'):
            with open(os.path.join(d0, 'plan.json'), 'w') as f:
                json.dump({'salt': case['salt'], 'skew': 0.02, 'iterations': 1, 'unit': p22.UNITS[0], 'matrix': True, 'code': 0}, f)
        procs, outs = [], []
        for i, s in enumerate(runs):
            ex = dict(extra)
            if kind in ('fastcap', 'fastercap'):
                pd = os.path.join(d0, f'p{i}')
                os.mkdir(pd)
                os.link(os.path.join(d0, 'plan.json'), os.path.join(pd, 'plan.json'))
                with open(os.path.join(pd, 'fake.py'), 'w') as f:
                    f.write(f'import sys\nsys.stdout.reconfigure(encoding="utf-8")\nPLANDIR = {pd!r}\n' + p22.FAKE)
                e = os.path.join(pd, kind)
                with open(e, 'w') as f:
                    f.write(f'#!/bin/sh\nexec {shlex.quote(sys.executable)} -I -S {shlex.quote(pd)}/fake.py {kind} "$@"\n')
                os.chmod(e, 0o755)
                ex[f'KPEX_{kind.upper()}_EXE'] = e
            cwd = s['cwd'] if s['cwd'] == '/' else os.path.join(d0, s['cwd'])
            out = os.path.join(d0, f'res{i}')
            name = os.path.relpath if s['rel'] else lambda p, _: p
            argv = ['--pdk', lay['tech'], '--gds' if kind == 'magic' else '--lvsdb', name(src, cwd), '--out_dir', name(out, cwd)] + args
            with open(os.path.join(d0, f'stdout{i}'), 'wb') as so:
                p = subprocess.Popen([sys.executable, '-B', '-c', MAIN] + argv, cwd=cwd, stdin=subprocess.DEVNULL, stdout=so, stderr=so,
                                     env=environment(s, os.path.join(d0, 'tmp'), ex), umask=s['umask'])
            procs.append(p)
            outs.append(out)
            if not case['parallel']:
                p.wait()
        got = []
        for i, (s, p) in enumerate(zip(runs, procs)):
            p.wait()
            with open(os.path.join(d0, f'stdout{i}'), errors='replace') as f:
                text = f.read()
            what = f'kpex --{kind} {" ".join(case["opts"])} with {s}'
            require(p.returncode == 0, lambda: f'{what} failed with status {p.returncode}: {text[-700:]}')
            require('Traceback' not in text, lambda: f'{what}: {text[text.index("Traceback"):][-700:]}')
            got.append(results(outs[i]))
            require(got[-1], f'{what}: no results')
            # the log files hold everything, whatever the terminal can show
            plain = [os.path.join(r, f) for r, _, fs in os.walk(outs[i]) for f in fs if f == 'kpex_plain.log']
            require(len(plain) == 1, f'{what}: logs {plain}')
            with open(plain[0], 'rb') as f:
                log = f.read().decode('utf-8', 'replace')
            want = {'2.5D': 'Resistance [Ω]', 'magic': 'µ Ω'}.get(kind)
            require(want is None or want in log, f'{what}: {want!r} is not in kpex_plain.log')
        for i, g in enumerate(got[1:], 1):
            what = f'kpex --{kind} {" ".join(case["opts"])}: {runs[0]} and {runs[i]}'
            require(set(g) == set(got[0]), lambda: f'{what}: files {sorted(set(g) ^ set(got[0]))} exist in one only')
            for f in sorted(g):
                if g[f] != got[0][f]:
                    a, b = got[0][f].split('\n'), g[f].split('\n')
                    k = next((j for j, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                    raise Violation(f'{what}: {f} differs in line {k + 1}: {a[k:k + 1]} and {b[k:k + 1]}')
        if kind == '2.5D' and 'R' not in case['opts']:
            csv = next(v for f, v in got[0].items() if f.endswith('_netlist.csv'))
            used = {x for l in csv.split('\n')[1:] if l for x in l.split(';')[1:3]}
            require(used <= set(nm.values()) | {'VSUBS'} or lay.get('names') or 'R' in ''.join(case['opts']), f'nets {used} in the CSV, drawn {sorted(nm.values())}')
        rec.nontrivial(len(base) > 1 and (len({s['enc'] for s in runs}) > 1 or len({s['env']['PYTHONHASHSEED'] for s in runs}) > 1))
        rec.label(kind)
        rec.label('at the same time', case['parallel'])
        rec.label('beyond ASCII', any(ord(c) > 127 for n in nm.values() for c in n))
        for s in runs:
            rec.label(s['enc'])


# ---- several runs in one output directory

PAUSE = [0, 0, 0.05, 0.15, 0.3]


@st.composite
def crowds(draw):
    n = draw(st.integers(2, 4))
    runs = []
    for _ in range(n):
        runs.append({'layout': draw(gen.mixed_layouts(n_layers=(1, 2), shapes=(1, 4))), 'kind': draw(st.sampled_from(['2.5D', '2.5D', '2.5D', 'gds', 'wrong'])),
                     'pauses': {f: [draw(st.sampled_from(PAUSE)), draw(st.sampled_from(PAUSE))] for f in ('validate_args', 'create_lvsdb', 'run_kpex_2_5d_engine')}})
    return {'runs': runs, 'one_gds': draw(st.booleans())}


def run_crowd(case, rec):
    import klayout.db as kdb
    with scratch() as d0:
        for x in ('data', 'tmp', 'bar'):
            os.mkdir(os.path.join(d0, x))
        data = os.path.join(d0, 'data')
        runs, used = [], set()
        for i, r in enumerate(case['runs']):
            shapes, dbu, hier = gen.realize(r['layout'])
            shapes = gen.unique_nets(shapes)
            shapes = [[l, f'net{i}_{n}', q] for l, n, q in shapes]
            if not shapes:
                return
            # the LVS database which is given or which LVS (a stand-in) finds
            name = f'TOP{i}' if r['kind'] == 'gds' else f'lay{i}'
            db = os.path.join(data, f'{name}.lvsdb.gz')
            geo.write_lvsdb(db, r['layout']['tech'], shapes, dbu=dbu, hier=hier, **({'top': name} if r['kind'] == 'gds' else {}))
            g = os.path.join(data, 'all.gds' if case['one_gds'] else f'g{i}.gds')
            if r['kind'] == 'gds':
                ly = kdb.Layout()
                if os.path.exists(g):
                    ly.read(g)
                ly.create_cell(name).shapes(ly.layer(68, 20)).insert(kdb.Box(0, 0, 100, 100))
                ly.write(g)
            runs.append((i, r, name, db, g))
        lvs = os.path.join(d0, 'klayout')
        with open(lvs, 'w') as f:
            f.write('#!/bin/sh\nfor a; do case "$a" in input=*) in="${a#input=}";; report=*) rep="${a#report=}";; esac; done\n'
                    'c=$(basename "$rep"); echo "LVS of $c"; cp "%s/$c" "$rep"\n' % data)
        os.chmod(lvs, 0o755)
        single = []
        for alone in (True, False):
            procs = []
            for i, r, name, db, g in runs:
                out = os.path.join(d0, f'alone{i}' if alone else 'out')
                argv = ['--pdk', r['layout']['tech'], '--out_dir', out, '--2.5D']
                argv += ['--gds', g, '--cell', name] if r['kind'] == 'gds' else ['--lvsdb', db]
                if r['kind'] == 'wrong':
                    argv += ['--cell', 'nosuchcell', '--diel', 'all,+x']
                ex = {'KPEX_KLAYOUT_EXE': lvs}
                if not alone:
                    ex['KV_PAUSES'] = json.dumps(r['pauses'])
                    ex['KV_BARRIER'] = f'{d0}/bar|{i}|{len(runs)}'
                so = open(os.path.join(d0, f'stdout{alone}{i}'), 'wb')
                s = {'enc': 'utf8', 'env': {'PYTHONHASHSEED': '0'}}
                procs.append((out, so, subprocess.Popen([sys.executable, '-B', '-c', MAIN] + argv, cwd=data, stdin=subprocess.DEVNULL, stdout=so, stderr=so,
                                                        env=environment(s, os.path.join(d0, 'tmp'), ex))))
            for (i, r, name, db, g), (out, so, p) in zip(runs, procs):
                p.wait()
                so.close()
                with open(so.name, errors='replace') as f:
                    text = f.read()
                what = f'run {i} ({r["kind"]}) {"alone" if alone else f"of {len(runs)} at the same time in one output directory"}'
                if r['kind'] == 'wrong':
                    require(p.returncode != 0, f'{what}: accepted a contradictory filter')
                    require('Traceback' not in text, lambda: f'{what}: {text[text.index("Traceback"):][-900:]}')
                    if alone:
                        single.append(None)
                    continue
                require(p.returncode == 0 and 'Traceback' not in text, lambda: f'{what}: status {p.returncode}: {text[-900:]}')
                stem = os.path.basename(g if r['kind'] == 'gds' else db).split('.')[0]
                rd = os.path.join(out, f'{stem}__{name if r["kind"] == "gds" else "TOP"}')
                require(os.path.isdir(rd), f'{what}: no {rd}')
                res = {f: t.replace(out, '<BASE>') for f, t in results(rd).items()}
                with open(os.path.join(rd, 'kpex_plain.log'), encoding='utf-8') as f:
                    log = f.read().replace(out, '<BASE>')
                log = re.sub(r'(after|took) [-0-9.e]+ ?s', 'in no time', log)
                if alone:
                    single.append((res, log))
                    continue
                res0, log0 = single[i]
                require(set(res) == set(res0), f'{what}: files {sorted(set(res) ^ set(res0))} more or less than alone')
                for f in res:
                    require(res[f] == res0[f], f'{what}: {f} is not the same as of a run alone')
                require(log == log0, lambda: f'{what}: the log differs from that of a run alone: {diff(log0, log)}')
        rec.nontrivial(sum(r['kind'] != 'wrong' for _, r, _, _, _ in runs) > 1)
        rec.label('LVS', sum(r['kind'] == 'gds' for _, r, _, _, _ in runs) > 1)
        rec.label(f'{len(runs)} runs')


def diff(a, b):
    import difflib
    return [l for l in difflib.unified_diff(a.split('\n'), b.split('\n'), lineterm='', n=0)][2:10]


PARTS = [Part('surroundings', cases, run, quick=24, thorough=400), Part('crowd', crowds, run_crowd, quick=10, thorough=200)]

