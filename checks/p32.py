"""P32: `kpex --magic` lets Magic extract exactly the chosen cell as asked, and reports this run's result or fails."""
import json
import os
import re
import sys
from hypothesis import strategies as st
from kv.core import Part, require, sut
from kv.cli import scratch, kpex
from . import p27

PID = 'P32'
WORKERS = 8
RULE = ('generated: GDS files with one or several top cells and subcells, command lines with all Magic options in any combination, output and input paths with '
        'spaces and brackets, cell names with $, a stand-in for Magic which records what it is told and plays back generated results, exit codes and missing files, also '
        'several runs after each other in one output directory. Oracle: a small Tcl reader and a model of the commands; non-trivial: at least two options or a failing run')
ASSUMPTIONS = ['Magic is replaced by a stand-in, as it is not installed; the meaning of its commands is that of its documentation',
               'halos are rounded to 1/200 µm']

FAKE = r'''
import json, os, sys, shutil
plan = json.load(open(os.path.join(PLANDIR, 'plan.json')))
rec = {'argv': sys.argv[1:], 'cwd': os.getcwd(), 'script': None}
sp = sys.argv[-1]
if os.path.isfile(sp):
    rec['script'] = open(sp, encoding='utf-8').read()
n = len([f for f in os.listdir(PLANDIR) if f.startswith('call')])
for l in plan['output']:
    sys.stdout.buffer.write(l.encode('utf-8', 'surrogateescape') + b'\n')
sys.stdout.flush()
if plan['write']:
    for dst, text in plan['files'].items():
        with open(os.path.join(plan['rundir'], dst), 'w', encoding='utf-8', errors='surrogateescape') as f:
            f.write(text)
with open(os.path.join(PLANDIR, 'call%d.json' % n), 'w') as f:
    json.dump(rec, f)
sys.exit(plan['code'])
'''

CELLS = ['top', 'nmos$1', 'A_B', 'x[0]', 'sub']


@st.composite
def options(draw):
    o = {}
    if draw(st.booleans()):
        o['magic_mode'] = draw(st.sampled_from(['CC', 'RC', 'R']))
    if draw(st.booleans()):
        o['magic_cthresh'] = draw(st.sampled_from([0, 0.01, 0.5, 1e-5, 100]))
    if draw(st.booleans()):
        o['magic_rthresh'] = draw(st.sampled_from([0, 1, 100, 5000]))
    if draw(st.booleans()):
        o['magic_tolerance'] = draw(st.sampled_from([0, 0.5, 1, 10]))
    if draw(st.booleans()):
        o['magic_halo'] = draw(st.sampled_from([0, 0.5, 1, 8, 2.505, 0.333]))
    if draw(st.booleans()):
        o['magic_short'] = draw(st.sampled_from(['none', 'resistor', 'voltage']))
    if draw(st.booleans()):
        o['magic_merge'] = draw(st.sampled_from(['none', 'conservative', 'aggressive']))
    return o


@st.composite
def cases(draw):
    cells = draw(st.lists(st.sampled_from(CELLS), min_size=1, max_size=3, unique=True))
    inst = [draw(st.booleans()) for _ in cells[1:]]
    runs = []
    for _ in range(draw(st.sampled_from([1, 2]))):
        if runs and draw(st.booleans()):      # the same again, with another result
            kept = [[c, [x for x in a if draw(st.integers(0, 3))], None if draw(st.booleans()) else b] for c, a, b in runs[0]['result']['cells'] if draw(st.integers(0, 2))]
            runs.append(dict(runs[0], result=draw(p27.cases()) if not kept or draw(st.integers(0, 3)) == 0 else dict(runs[0]['result'], cells=kept), write=draw(st.sampled_from([True, True, True, False])), code=0))
            continue
        runs.append({'odd': draw(st.sampled_from(['', '', '\udcb5m'])), 'opts': draw(options()), 'cell': draw(st.one_of(st.none(), st.integers(0, len(cells) - 1))),
                     'code': draw(st.sampled_from([0, 0, 0, 0, 1, 139])), 'write': draw(st.sampled_from([True, True, True, False])),
                     'result': draw(p27.cases()),
                     'output': draw(st.lists(st.sampled_from(['Magic 8.3', 'Error: x', '[info] a [b]', 'µm ', '', 'Exporting [/red] "x"', 'ohm \udcce \udcff']), max_size=4))})
    return {'cells': cells, 'inst': inst, 'runs': runs, 'gz': draw(st.booleans()), 'dir': draw(st.sampled_from(['d', 'a b', 'x[1]', 'p$q', 'a;b'])),
            'rel': draw(st.booleans()), 'sizes': [draw(st.integers(1, 50)) for _ in cells]}


def bare(s):
    return re.sub(r'[\udc80-\udcff\ufffd]', '', s)     # bytes that are not UTF-8


def tcl_words(text):
    """commands of a script without substitutions"""
    out = []
    for ln in text.split('\n'):
        s = ln.strip()
        if not s or s.startswith('#'):
            continue
        words, i = [], 0
        while i < len(s):
            if s[i] in ' \t':
                i += 1
                continue
            w = ''
            if s[i] == '{':
                depth, j = 1, i + 1
                while j < len(s) and depth:
                    depth += {'{': 1, '}': -1}.get(s[j], 0)
                    if s[j] == '\\':
                        j += 1
                    j += 1
                require(depth == 0 and (j >= len(s) or s[j] in ' \t'), f'script: braces in {s!r}')
                words.append(s[i + 1:j - 1])
                i = j
                continue
            quoted = s[i] == '"'
            if quoted:
                i += 1
            while i < len(s) and (quoted or s[i] not in ' \t'):
                if quoted and s[i] == '"':
                    break
                if s[i] == '\\' and i + 1 < len(s):
                    w += s[i + 1]
                    i += 2
                    continue
                require(s[i] not in '$[', f'script: Tcl would substitute in {s!r}')
                require(s[i] != ';' or quoted, f'script: command ends within {s!r}')
                w += s[i]
                i += 1
            if quoted:
                i += 1
            words.append(w)
        out.append(words)
    return out


def geometry(ly, cell):
    import klayout.db as kdb
    out = {}
    for li in ly.layer_indexes():
        r = kdb.Region(cell.begin_shapes_rec(li))
        r.merge()
        if not r.is_empty():
            i = ly.get_info(li)
            out[(i.layer, i.datatype)] = sorted(str(p) for p in r.each())
    return out


def simulate(script, cell, rundir, o, want_geo):
    """runs the commands on a model of Magic's state; requires that the right thing is extracted with the right settings"""
    import klayout.db as kdb
    mode = o.get('magic_mode', 'CC')
    cellset, cur, st_, done, netlist = {}, None, {}, [], None
    spice, no = {}, set()
    quit_ = False
    for w in tcl_words(script):
        require(not quit_, f'command after quit: {w}')
        c = ' '.join(w[:2])
        if w[0] in ('crashbackups', 'drc', 'select'):
            pass
        elif c == 'gds read':
            require(len(w) == 3 and os.path.isabs(w[2]) and os.path.isfile(w[2]), f'GDS file of the script: {w}')
            ly = kdb.Layout()
            ly.read(w[2])
            for x in ly.each_cell():
                cellset[x.name] = geometry(ly, x)
        elif w[0] == 'load':
            require(len(w) == 2 and w[1] in cellset, f'loads unknown cell {w}')
            cur = w[1]
        elif w[0] == 'flatten':
            require(len(w) == 2 and cur is not None, f'{w}')
            cellset[w[1]] = cellset[cur]
        elif c == 'cellname delete':
            require(w[2] in cellset and w[2] != cur, f'{w}')
            del cellset[w[2]]
        elif c == 'cellname rename':
            require(w[2] in cellset and w[3] not in cellset, f'{w}')
            cellset[w[3]] = cellset.pop(w[2])
            if cur == w[2]:
                cur = w[3]
        elif w[0] == 'extract':
            if w[1] == 'all':
                require(cur == cell and cellset[cur] == want_geo, f'extracts {cur}, geometry {"right" if cellset.get(cur) == want_geo else "wrong"}')
                done.append('all')
            else:
                require(not done, f'setting {w} comes after the extraction')
                st_[tuple(w[1:-1])] = w[-1]
                if w[1] == 'no':
                    no.add(w[2])
        elif w[0] == 'extresist':
            if w[1] == 'all':
                require('all' in done and 'sim' in done, 'extresist before extraction')
                done.append('res')
            else:
                require('res' not in done, f'{w} comes too late')
                st_[('extresist', w[1])] = w[2]
        elif w[0] == 'ext2sim':
            if len(w) == 1:
                done.append('sim')
        elif w[0] == 'ext2spice' and w[1] == '-p':
            require('all' in done and w[2] == rundir and w[3] == '-o', f'{w}')
            netlist = w[4]
        elif w[0] == 'ext2spice':
            require(netlist is None, f'{w} comes too late')
            spice[tuple(w[1:-1])] = w[-1]
        elif w[0] == 'quit':
            quit_ = True
        else:
            require(False, f'unexpected command {w}')
    require(quit_, 'Magic would not quit')
    require(st_.get(('path',)) == rundir, f'extracts to {st_.get(("path",))}, expected {rundir}')
    halo = o.get('magic_halo')
    require((('halo',) in st_) == (halo is not None), f'halo {halo}: {st_}')
    if halo is not None:
        require(abs(float(st_[('halo',)]) - halo * 200) <= 0.5001, f'halo {halo} µm given as {st_[("halo",)]} units')
    res = mode in ('RC', 'R')
    require((st_.get(('do',)) == 'resistance') == res and ('res' in done) == res and (spice.get(('extresist',)) == 'on') == res,
            f'mode {mode}: resistance {st_}, {done}, {spice}')
    if res:
        require(float(st_.get(('extresist', 'tolerance'), 'nan')) == o.get('magic_tolerance', 1), f'tolerance {st_}')
        require(float(spice.get(('rthresh',), 'nan')) == o.get('magic_rthresh', 100), f'rthresh {spice}')
    if mode != 'R':
        require(float(spice.get(('cthresh',), 'nan')) == o.get('magic_cthresh', 0.01), f'cthresh {spice}')
        require(not no, f'mode {mode} without {no}')
    else:
        require(no == {'capacitance', 'coupling'}, f'mode R, but extracts capacitances, switched off are only {no}')
    require(spice.get(('short',)) == o.get('magic_short', 'none') and spice.get(('merge',)) == o.get('magic_merge', 'none'), f'short / merge: {spice}')
    require(spice.get(('subcircuits', 'top')) == 'on' and spice.get(('format',)) == 'ngspice', f'netlist format {spice}')
    return netlist


def run(case, rec):
    import klayout.db as kdb
    import klayout.rdb as rdb
    import shlex
    with scratch() as d0:
        d = os.path.join(d0, case['dir'])
        os.mkdir(d)
        ly = kdb.Layout()
        cells = []
        for i, n in enumerate(case['cells']):
            c = ly.create_cell(n)
            s = case['sizes'][i] * 10
            c.shapes(ly.layer(68, 20)).insert(kdb.Box(0, 0, s, 140))
            c.shapes(ly.layer(69, 20)).insert(kdb.Box(i, 0, s + i, 280))
            cells.append(c)
            if i and case['inst'][i - 1]:
                cells[0].insert(kdb.CellInstArray(c.cell_index(), kdb.Trans(1000 * i, 0)))
        tops = [c.name for c in ly.top_cells()]
        gds = os.path.join(d, 'in put.gds' + ('.gz' if case['gz'] else ''))
        ly.write(gds)
        plan_dir = os.path.join(d0, 'plan')
        os.mkdir(plan_dir)
        exe = os.path.join(d0, 'fakemagic')
        py = os.path.join(d0, 'fake.py')
        with open(py, 'w') as f:
            f.write(f'PLANDIR = {plan_dir!r}\n' + FAKE)
        with open(exe, 'w') as f:
            f.write(f'#!/bin/sh\nexec {shlex.quote(sys.executable)} -I -S {shlex.quote(py)} "$@"\n')
        os.chmod(exe, 0o755)
        rc = os.path.join(d, 'my.magicrc')
        open(rc, 'w').close()
        calls = 0
        for ri, r in enumerate(case['runs']):
            o = r['opts']
            if r['cell'] is None:
                name = tops[0] if len(tops) == 1 else None
            else:
                name = case['cells'][r['cell']]
            mode = o.get('magic_mode', 'CC')
            out = os.path.join(d, 'out dir')
            base = os.path.join(out, f'in put__{name}')
            rundir = os.path.join(base, f'magic_{mode}')
            files = {f'{name}.pex.spice': f'* run {ri}\n* {r["odd"]}\n.subckt x\n.ends\n'}
            res = dict(r['result'], dbu=0.001)
            res['cells'] = [[name if i == 0 else c, a, b] for i, (c, a, b) in enumerate(res['cells']) if i == 0 or c != name]
            for c, recs, rrecs in res['cells']:
                files[f'{c}.ext'] = ''.join(p27.line(x) + '\n' for x in recs)
                if rrecs is not None:
                    files[f'{c}.res.ext'] = ''.join(p27.line(x) + '\n' for x in rrecs)
            with open(os.path.join(plan_dir, 'plan.json'), 'w') as f:
                json.dump({'output': r['output'], 'files': files, 'write': r['write'], 'code': r['code'], 'rundir': rundir}, f)
            argv = ['--pdk', 'sky130A', '--magic', '--gds', os.path.basename(gds) if case['rel'] else gds, '--magicrc', rc,
                    '--out_dir', 'out dir' if case['rel'] else out]
            for k, v in o.items():
                argv += [f'--{k}', str(v)]
            if r['cell'] is not None:
                argv += ['--cell', name]
            res_run = kpex(argv, d, {'KPEX_MAGIC_EXE': exe}, out=f'so{ri}.txt')
            if name is None:
                require(res_run.kind != 'ok', 'no error for a layout with several top cells')
                continue
            call = os.path.join(plan_dir, f'call{calls}.json')
            require(os.path.exists(call), f'Magic was not called: {res_run}')
            calls += 1
            with open(call) as f:
                c = json.load(f)
            require(c['argv'][:2] == ['-dnull', '-noconsole'] and c['argv'][2:4] == ['-rcfile', rc], f'arguments of Magic {c["argv"]}')
            require(c['script'] is not None, 'the script does not exist where Magic looks for it')
            want = geometry(ly, ly.cell(name))
            nl = simulate(c['script'], name, rundir, o, want)
            require(nl == os.path.join(rundir, f'{name}.pex.spice'), f'netlist path {nl}')
            rep = os.path.join(rundir, f'{name}_MAGIC_report.rdb.gz')
            with open(os.path.join(rundir, f'{name}_MAGIC_{mode}_Output.txt'), encoding='utf-8') as f:
                require(bare(f.read()) == bare(''.join(l + '\n' for l in r['output'])), 'log file differs from what Magic printed')
            if r['code'] or not r['write']:
                require(res_run.kind != 'ok' and res_run.detail != 0, f'Magic failed (status {r["code"]}, results {"written" if r["write"] else "missing"}), but kpex did not')
                require(ri == 0 or r['write'] or f'* run {ri - 1}' not in res_run.stdout, 'prints the netlist of the earlier run')
            else:
                require(res_run.kind == 'ok', f'kpex --magic failed: {res_run}')
                require(f'* run {ri}' in res_run.stdout, 'the netlist is not printed')
                rr = rdb.ReportDatabase('')
                with sut('loading the report'):
                    rr.load(rep)
                p27.compare(p27.markers(rr), p27.expected_markers(res), 0.001)
            if r['code'] == 0 and r['write']:
                require(not any('run %d' % k in open(nl, errors='replace').read() for k in range(ri)), 'old netlist')
        fails = any(r['code'] or not r['write'] for r in case['runs'])
        rec.nontrivial(any(len(r['opts']) >= 2 for r in case['runs']) or fails)
        rec.label('failing run', fails)
        rec.label('second run', len(case['runs']) > 1)
        rec.label('subcell', any(r['cell'] not in (None, 0) for r in case['runs']))
        rec.label('resistances only in an earlier run', any(a['result']['cells'][0][2] and b['result']['cells'][0][2] is None and a['opts'] == b['opts'] and
                                                            a['cell'] == b['cell'] and a['code'] + b['code'] == 0 and a['write'] and b['write']
                                                            for a, b in zip(case['runs'], case['runs'][1:])))
        for m in ('CC', 'RC', 'R'):
            rec.label(m, any(r['opts'].get('magic_mode', 'CC') == m for r in case['runs']))


PARTS = [Part('run', cases, run, quick=40, thorough=800)]
