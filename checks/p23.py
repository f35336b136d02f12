"""P23: options mean what the help says, anything else is rejected before something runs."""
import json
import os
import re

from hypothesis import strategies as st
from kv import geo
from kv.cli import kpex, scratch, script
from kv.core import Part, require

PID = 'P23'
WORKERS = 8
RULE = ('generated: command lines of valid options in generated spellings and order (booleans, levels, choices, numbers, --a=b, short options, '
        'environment variables or PATH for the programs, output directories), with up to two defects (bad value of each typed option, missing or '
        'unreadable input, unknown cell, several top cells, no engine, Magic without GDS, unknown PDK, option or level, contradictory filter, '
        'missing KLayout); stand-ins record which programs were called and how; oracle: the help texts; non-trivial: at least three options '
        'besides the input')
ASSUMPTIONS = ['spellings that only argparse accepts (abbreviated options) and combinations the help does not speak of (--gds with --lvsdb, --cell with '
               '--lvsdb) are not generated']

TRUE = ['yes', 'true', 't', 'y', '1']
FALSE = ['no', 'false', 'f', 'n', '0']
LEVELS = ['all', 'debug', 'subprocess', 'verbose', 'info', 'warning', 'error', 'critical']
NUM = {'--threads': int, '--k_void': float, '--delaunay_amax': float, '--delaunay_b': float, '--tolerance': float, '--d_coeff': float,
       '--mesh': float, '--ooc': float, '--magic_cthresh': float, '--magic_rthresh': int, '--magic_tolerance': float, '--magic_halo': float,
       '--halo': float}
MESH = {'--delaunay_amax': ['50', '1e2', '20.'], '--delaunay_b': ['0.5', '.25']}      # what is meshed in reasonable time
BOOL = ['--cache-lvs', '--lvs-verbose', '--blackbox', '--geo_check', '--auto_precond', '--scale']
CHOICE = {'--magic_mode': ['CC', 'RC', 'R'], '--magic_short': ['none', 'resistor', 'voltage'], '--magic_merge': ['none', 'conservative', 'aggressive'],
          '--mode': ['CC', 'RC', 'R']}
DEFECTS = ['bool', 'number', 'choice', 'level', 'diel', 'diel2', 'pdk', 'nopdk', 'file', 'dir', 'noinput', 'noengine', 'magic_lvsdb', 'cell', 'tops',
           'schematic', 'klayout', 'option', 'novalue']


@st.composite
def spelled(draw, word):
    k = draw(st.integers(0, 3))
    return {0: word.upper(), 1: word.capitalize()}.get(k, word)


@st.composite
def cases(draw):
    opts = []
    names = draw(st.lists(st.sampled_from(sorted(NUM) + BOOL + sorted(CHOICE) + ['--log_level', '--diel']), max_size=6, unique=True))
    for n in names:
        if n in NUM:
            v = str(draw(st.integers(1, 50))) if NUM[n] is int else draw(st.sampled_from(MESH.get(n) or ['0.5', '2', '1e-1', '10.', '.25', '3.0']))
        elif n in BOOL:
            v = draw(spelled(draw(st.sampled_from(TRUE + FALSE))))
        elif n in CHOICE:
            v = draw(st.sampled_from(CHOICE[n]))
        elif n == '--log_level':
            v = draw(spelled(draw(st.sampled_from(LEVELS))))
        else:
            v = draw(st.sampled_from(['all', 'none', 'all,-ild1', 'none,+ild1,+nild2']))
        opts.append([n, v])
    defects = draw(st.lists(st.sampled_from(DEFECTS), max_size=2, unique=True)) if draw(st.integers(0, 9)) < 6 else []
    return {'opts': opts, 'defects': defects, 'order': draw(st.randoms(use_true_random=False)).randint(0, 10 ** 6),
            'input': draw(st.sampled_from(['lvsdb', 'gds', 'gds'])),
            'engines': draw(st.sampled_from([['2.5D']] * 4 + [['magic'], ['2.5D', 'magic'], ['fastercap'], ['fastcap'], ['fastcap', 'fastercap', '2.5D']])),
            'tech': draw(st.sampled_from(['sky130A', 'ihp_sg13g2'])),
            'file': draw(st.sampled_from(['in', 'my.design.v2', 'a b', 'x-1'])), 'gz': draw(st.booleans()),
            'out': draw(st.sampled_from([None, 'out', 'o p', 'a/b/c'])),
            'eq': draw(st.booleans()), 'short': draw(st.booleans()), 'path': draw(st.booleans()), 'cell': draw(st.booleans()),
            'rc': draw(st.sampled_from(['env', 'option', 'both', 'option'])),
            'pick': draw(st.integers(0, 100)), 'word': draw(st.sampled_from(['maybe', 'on', '2', '', 'yess', 'none ', '--', 'ja']))}


FAKE = r'''
echo "$0" "$@" >> %s
for a; do case "$a" in report=*) out="${a#report=}";; esac; done
if [ -n "$out" ]; then cp %s "$out"; exit 0; fi
exit 1
'''


def command(case, d):
    """(argv, env, expectation) of a case; makes the files"""
    import random
    import klayout.db as kdb
    de = set(case['defects'])
    opts = [list(o) for o in case['opts']]
    eng = list(case['engines'])
    inp = case['input']
    bad = set()
    if 'magic_lvsdb' in de:
        inp = 'lvsdb'
        eng = ['magic'] + [e for e in eng if e != 'magic']
        bad.add('magic_lvsdb')
    elif 'magic' in eng and inp == 'lvsdb':
        inp = 'gds'
    if 'noengine' in de:
        eng = []
        bad.add('noengine')
    pick = case['pick']

    def force(name, value):
        opts[:] = [o for o in opts if o[0] != name] + [[name, value]]
    if 'bool' in de and case['word'] not in ('', '--'):
        force(BOOL[pick % len(BOOL)], case['word'] if case['word'] != 'none ' else 'none')
        bad.add('bool')
    if 'number' in de:
        n = sorted(NUM)[pick % len(NUM)]
        force(n, ['abc', '1,5', '1e3x', ''][pick % 4] if NUM[n] is float or pick % 3 else '1.5')
        bad.add('number')
    if 'choice' in de:
        n = sorted(CHOICE)[pick % len(CHOICE)]
        force(n, ['XX', 'cc', 'None', 'RCR'][pick % 4])
        bad.add('choice')
    if 'level' in de:
        force('--log_level', ['loud', 'inf', '20', ''][pick % 4])
        bad.add('level')
    if 'diel' in de or 'diel2' in de:
        force('--diel', 'all,none' if 'diel' in de else 'none,-ild1')
        bad.add('diel')
    if 'option' in de:
        opts.append(['--nosuch', '1'])
        bad.add('option')
    tech = case['tech']
    if 'pdk' in de:
        tech = ['sky130a', 'SKY130A', 'gf180', ''][pick % 4]
        bad.add('pdk')
    name = case['file'] + {'lvsdb': '.lvsdb.gz', 'gds': '.gds.gz' if case['gz'] else '.gds'}[inp]
    path = os.path.join(d, name)
    cells = ['TOP']
    if inp == 'gds':
        ly = kdb.Layout()
        top = ly.create_cell('TOP')
        top.shapes(ly.layer(70, 20)).insert(kdb.Box(0, 0, 1000, 1000))
        if 'tops' in de:
            ly.create_cell('OTHER').shapes(ly.layer(70, 20)).insert(kdb.Box(0, 0, 1000, 1000))
            cells.append('OTHER')
            if not case['cell']:
                bad.add('tops')
        ly.write(path)
    geo.write_lvsdb(os.path.join(d, 'result.lvsdb.gz') if inp == 'gds' else path, case['tech'],
                    [[3, 'A', [0, 0, 1000, 1000]], [3, 'B', [1500, 0, 2500, 1000]]])
    if 'file' in de:
        os.remove(path)
        bad.add('file')
    elif 'dir' in de:
        os.remove(path)
        os.mkdir(path)
        bad.add('dir')
    argv = []

    def add(name, value):
        if case['eq'] and name.startswith('--'):
            argv.append([f'{name}={value}'])
        else:
            argv.append([name, value])
    if 'nopdk' in de:
        bad.add('nopdk')
    else:
        add('--pdk', tech)
    if 'noinput' in de:
        bad.add('noinput')
    else:
        add(('-l' if inp == 'lvsdb' else '-g') if case['short'] else '--' + inp, path)
    if inp == 'gds':
        if 'cell' in de:
            add('--cell', 'NOSUCH')
            bad.add('cell')
        elif case['cell']:
            add('-c' if case['short'] else '--cell', 'TOP')
        if 'schematic' in de:
            add('--schematic', os.path.join(d, 'nosuch.spice'))
            if 'noinput' not in de:
                bad.add('schematic')
        if 'noinput' in de:
            bad.discard('cell')
            bad.discard('tops')
    if case['out'] is not None:
        add('-o' if case['short'] else '--out_dir', case['out'])
    for e in eng:
        argv.append(['--' + e])
    for o in opts:
        add(*o)
    calls = os.path.join(d, 'calls')
    text = FAKE % (calls, os.path.join(d, 'result.lvsdb.gz'))
    os.mkdir(os.path.join(d, 'bin'))
    env = {}
    for var, prog in (('KPEX_KLAYOUT_EXE', 'klayout'), ('KPEX_MAGIC_EXE', 'magic'), ('KPEX_FASTERCAP_EXE', 'FasterCap'), ('KPEX_FASTCAP_EXE', 'fastcap')):
        where = os.path.join(d, 'bin', prog) if case['path'] else os.path.join(d, 'my ' + prog)
        if var == 'KPEX_KLAYOUT_EXE' and 'klayout' in de:
            env[var] = os.path.join(d, 'nosuch', 'klayout')
            bad.add('klayout')
            continue
        script(where, text)
        if not case['path']:
            env[var] = where
    if case['path']:
        env['PATH'] = os.path.join(d, 'bin') + ':/usr/bin:/bin'
    rc = None
    if case['rc'] in ('env', 'both'):
        env['PDKPATH'] = os.path.join(d, 'pdkroot')
        env['PDK'] = 'sky130X'
        rc = os.path.join(d, 'pdkroot', 'libs.tech', 'magic', 'sky130X.magicrc')
    if case['rc'] != 'env':
        rc = os.path.join(d, 'own.magicrc')
        add('--magicrc', rc)
    random.Random(case['order']).shuffle(argv)
    flat = [x for a in argv for x in a]
    if 'novalue' in de:
        flat.append('--halo')
        bad.add('novalue')
    return flat, env, eng, inp, bad, dict((o[0], o[1]) for o in opts), rc, calls


def run(case, rec):
    with scratch() as d:
        argv, env, eng, inp, bad, opts, rc, calls = command(case, d)
        known = set(os.listdir(d))

        def before():
            if case['path'] and 'KPEX_KLAYOUT_EXE' not in env:
                os.environ.pop('KPEX_KLAYOUT_EXE', None)
        r = kpex(argv, d, env, before=before)
        called = []
        if os.path.exists(calls):
            with open(calls) as fh:
                called = [l for l in fh.read().split('\n') if l]
        what = f'kpex {" ".join(argv)}'
        out = os.path.join(d, case['out'] or 'output')
        csvs = [os.path.join(p, f) for p, _, fs in os.walk(out) for f in fs if f.endswith('_k25d_pex_netlist.csv')]
        rec.nontrivial(len(opts) >= 3)
        for b in bad:
            rec.label('bad ' + b)
        if bad:
            require(r.kind == 'exit' and r.detail not in (0, None), f'{what}: accepted in spite of {sorted(bad)}: {r}')
            require(not called, f'{what}: {sorted(bad)}, but ran {called}')
            require(not csvs, f'{what}: {sorted(bad)}, but wrote {csvs}')
            return
        rec.label('valid')
        progs = {'magic': 'magic', 'fastercap': 'FasterCap', 'fastcap': 'fastcap'}
        ran = lambda p: [l for l in called if l.split(' -')[0].strip().endswith(p)]
        first = 'magic' if 'magic' in eng else 'fastercap' if 'fastercap' in eng else 'fastcap' if 'fastcap' in eng else None
        if first:
            # the stand-ins fail, and with them the run
            require(ran(progs[first]), f'{what}: {first} did not run: {called} ({r})')
            require(r.kind != 'ok', f'{what}: {first} failed, kpex did not')
            for e in progs:
                require(e == first or not ran(progs[e]) or e in eng, f'{what}: {e} ran: {called}')
        if first == 'magic':
            require(f'-rcfile {rc} ' in ran('magic')[0], f'{what}: magicrc in {ran("magic")}, expected {rc}')
            require(not ran('klayout'), f'{what}: LVS ran in spite of the failure of Magic')
            return
        if inp == 'gds':
            k = ran('klayout')
            require(len(k) == 1, f'{what}: LVS ran {len(k)} times')
            v = opts.get('--lvs-verbose', 'false').lower() in TRUE
            require(f'verbose={"true" if v else "false"}' in k[0], f'{what}: LVS was called with {k}')
            c = opts.get('--cache-lvs', 'true').lower() in TRUE
            cached = [f for p, _, fs in os.walk(os.path.join(out, '.kpex_cache')) for f in fs]
            require(bool(cached) == c, f'{what}: cache holds {cached}')
        else:
            require(not ran('klayout'), f'{what}: LVS ran in spite of --lvsdb')
        rd = os.path.join(out, f'{case["file"].split(".")[0]}__TOP')
        require(os.path.isdir(rd), f'{what}: no {rd}, only {os.listdir(out)}')
        for f in ('kpex.log', 'kpex_plain.log'):
            require(os.path.isfile(os.path.join(rd, f)), f'{what}: no {f} in {os.listdir(rd)}')
        left = set(os.listdir(d)) - known - {(case['out'] or 'output').split('/')[0], 'stdout.txt', 'stdout.txt.res', 'calls'}
        require(not left, f'{what}: wrote {left} outside of the output directory')
        if first is None:
            require(r.kind == 'ok', f'{what}: {r}')
            require(csvs == [os.path.join(rd, 'TOP_k25d_pex_netlist.csv')], f'{what}: wrote {csvs}')
            lv = opts.get('--log_level', 'subprocess').lower()
            low = lv in ('all', 'debug', 'subprocess')
            require(('Wrote expanded netlist to' in r.stdout) == low, f'{what}: log level {lv}, but output of subprocess level is {"missing" if low else "there"}')
            low = low or lv in ('verbose', 'info')
            require(('klayout LVS succeeded' in r.stdout) == (low and inp == 'gds'), f'{what}: log level {lv}, output of info level')
        for k in opts:
            rec.label(k)


@st.composite
def special(draw):
    return {'argv': draw(st.permutations(draw(st.sampled_from([['--help'], ['-h'], ['--version'], ['-v'], ['--help', '--2.5D'], ['--version', '--pdk', 'nosuch'][:1]]))))}


def run_special(case, rec):
    with scratch() as d:
        r = kpex(case['argv'], d)
        require(r.kind == 'exit' and r.detail in (0, None), f'{case["argv"]}: {r}')
        from klayout_pex.version import __version__
        if '--version' in case['argv'] or '-v' in case['argv']:
            require(__version__ in r.stdout, f'{case["argv"]} prints {r.stdout[:200]}')
        else:
            flat = ' '.join(r.stdout.split())
            for o in sorted(NUM) + BOOL + sorted(CHOICE) + ['--pdk', '--gds', '--lvsdb', '--2.5D', '--magic', '--fastcap', '--fastercap']:
                require(o in flat, f'the help does not mention {o}')
        require(set(os.listdir(d)) <= {'stdout.txt', 'stdout.txt.res'}, f'{case["argv"]} wrote {os.listdir(d)}')
        rec.nontrivial()


@st.composite
def default_cases(draw):
    return {'given': draw(st.lists(st.integers(0, 30), min_size=1, max_size=8, unique=True)), 'eq': draw(st.booleans()), 'pdk': draw(st.sampled_from(['sky130A', 'ihp_sg13g2'])),
            'engine': draw(st.sampled_from(['--2.5D', '--magic', '--fastcap', '--fastercap']))}


def parsed(argv, d, out):
    """what the command line means after parsing"""
    def before():
        import argparse
        old = argparse.ArgumentParser.parse_args

        def record(self, *a, **k):
            r = old(self, *a, **k)
            with open('parsed.json', 'w') as f:
                json.dump({n: str(v) for n, v in vars(r).items()}, f)
            return r
        argparse.ArgumentParser.parse_args = record
    f = os.path.join(d, 'parsed.json')
    if os.path.exists(f):
        os.remove(f)
    r = kpex(argv, d, out=out, before=before)
    require(os.path.exists(f), f'{argv}: not accepted: {r}')
    with open(f) as fh:
        return json.load(fh)


def run_default(case, rec):
    """giving an option the value the help calls its default changes nothing"""
    with scratch() as d:
        r = kpex(['--help'], d, {'COLUMNS': '500'})
        doc, opt = {}, None
        for l in re.sub(r'\x1b\[[0-9;]*m', '', r.stdout).split('\n'):
            m = re.match(r'\s\s?\s?\s?(--[\w.-]+)', l)
            if m:
                opt = m.group(1)
            elif not l.startswith(' '):
                opt = None
            m = re.search(r"(?:[dD]efault is|Defaults to) '?([^\s'(),]+)", l)
            if opt in VALUED and m:
                doc[opt] = m.group(1).rstrip('.') if opt not in NUM else m.group(1)
        doc = {k: v for k, v in doc.items() if v not in ('no', 'None', 'the')}
        rec.label('many defaults', len(doc) >= 15)
        if not doc:
            return
        names = sorted(doc)
        base = ['--pdk', case['pdk'], case['engine'], '--lvsdb', 'none.lvsdb.gz']
        argv = list(base)
        for i in case['given']:
            n = names[i % len(names)]
            argv += [f'{n}={doc[n]}'] if case['eq'] else [n, doc[n]]
        a, b = parsed(base, d, 'a.txt'), parsed(argv, d, 'b.txt')
        for k in set(a) | set(b):
            same = a.get(k) == b.get(k) or str(a.get(k)).lower() == str(b.get(k)).lower()
            if not same:
                try:
                    same = float(a[k]) == float(b[k])
                except (ValueError, KeyError):
                    pass
            require(same, f'{argv[5:]}: {k} is {b.get(k)}, without these options {a.get(k)}, though they are said to be the defaults')
        rec.nontrivial(len(argv) > len(base))


VALUED = sorted(NUM) + BOOL + sorted(CHOICE) + ['--log_level', '--diel', '--out_dir']
PARTS = [Part('defaults', default_cases, run_default, quick=20, thorough=200), Part('commands', cases, run, quick=40, thorough=2000), Part('special', special, run_special, quick=2, thorough=10)]
