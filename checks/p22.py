"""P22: `kpex --fastercap / --fastcap` passes layout and options to the solver and its matrix to the netlists, or fails."""
import json
import os
import re
import shlex
import sys
from hypothesis import strategies as st
from kv import gen, geo
from kv.core import Part, require
from kv.cli import scratch, kpex
from . import p15

PID = 'P22'
WORKERS = 8
RULE = ('generated: layouts with 1 to 4 nets as LVS databases, command lines with one or both field solvers (and 2.5D), all solver options, relative and absolute paths, '
        'stand-ins for the solvers which read the input files and print a matrix that is a function of the conductor names, exit codes, missing '
        'matrices; oracle: the function, evaluated for the pairs of nets of the written netlists; non-trivial: at least two nets, or a failing run')
ASSUMPTIONS = ['FasterCap and FastCap2 are replaced by stand-ins, as they are not installed; their formats are those of the stored logs', 'net names are plain words']

FAKE = r'''
import hashlib, json, os, sys
plan = json.load(open(os.path.join(PLANDIR, 'plan.json')))
me = os.path.basename(sys.argv[1])
args = sys.argv[2:]
lst = args[-1]
if me == 'fastcap':
    lst = [a[2:] for a in args if a.startswith('-l')][0]
conds, open_group, surfaces = [], None, 0
d = os.path.dirname(lst)
for l in open(lst, encoding='utf-8'):
    f = l.split()
    if not f or f[0] not in 'CD':
        continue
    if open_group is None:
        surfaces += 1
    nums = {}
    for g in open(os.path.join(d, f[1]), encoding='utf-8'):
        w = g.split()
        if w and w[0] == 'N':
            nums[w[1]] = w[2]
    if f[0] == 'C':
        if open_group is None:
            open_group = [None, surfaces]
            conds.append(open_group)
        for n in nums.values():
            open_group[0] = n
        if f[-1] != '+':
            open_group = None
def c(a, b):
    a, b = sorted((a, b))
    h = int(hashlib.md5((plan['salt'] + '|' + a + '|' + b).encode()).hexdigest()[:6], 16)
    return 0.0 if h % 5 == 0 else 1e-17 * (1 + h % 4000)
n = len(conds)
names = [x[0] for x in conds]
m = [[-c(names[i], names[j]) if i != j else 0.0 for j in range(n)] for i in range(n)]
for i in range(n):
    m[i][i] = c(names[i], names[i]) - sum(m[i])
skew = plan['skew']
for i in range(n):
    for j in range(n):
        if i != j:
            m[i][j] *= 1 + (skew if i < j else -skew)
n_it = plan['iterations']
print('Running', me)
for it in range(n_it):
    if plan['matrix'] or it < n_it - 1:
        k = 1.0 if it == n_it - 1 else 0.37
        if me == 'fastercap':
            print('Capacitance matrix is:')
            print('Dimension %d x %d' % (n, n))
            for i in range(n):
                print('g%d_%s  ' % (i + 1, names[i]) + ' '.join('%.17g' % (v * 1e6 * k) for v in m[i]) + ' ')
        elif it == n_it - 1:
            lab = ['%s%%GROUP%d' % (names[i], conds[i][1]) for i in range(n)]
            w = max(map(len, lab))
            print('CAPACITANCE MATRIX, ' + plan['unit'][0])
            print(' ' * (w + 3) + ' '.join('%12d' % (i + 1) for i in range(n)))
            for i in range(n):
                print(lab[i].ljust(w) + ' %d ' % (i + 1) + ' '.join('%24.17g' % (v * 1e6 / plan['unit'][1]) for v in m[i]))
    print('Warning: something')
rec = {'dir': d, 'me': me, 'args': args, 'cwd': os.getcwd(), 'omp': os.environ.get('OMP_NUM_THREADS'), 'names': names, 'm': m}
sys.stdout.flush()
json.dump(rec, open(os.path.join(PLANDIR, me + '.json'), 'w'))
if plan['code'] < 0:
    os.kill(os.getpid(), -plan['code'])
sys.exit(plan['code'])
'''

UNITS = [['picofarads', 1e-12], ['femtofarads', 1e-15], ['attofarads', 1e-18], ['farads', 1.0], ['nanofarads', 1e-9]]


@st.composite
def cases(draw):
    lay = draw(gen.mixed_layouts(n_layers=(1, 3), shapes=(1, 6)))
    o = {}
    for k, v in (('tolerance', [0.05, 0.001, 1e-06]), ('d_coeff', [0.5, 1, 0.25]), ('mesh', [0.5, 0.1, 2]), ('ooc', [2, 0, 1.5]), ('threads', [1, 7]),
                 ('auto_precond', ['true', 'false', '1', 'No']), ('k_void', [3.9, 1, 2.5]),
                 ('delaunay_amax', [1, 10, 50]), ('delaunay_b', [0.5, 1])):
        if draw(st.booleans()):
            o[k] = draw(st.sampled_from(v))
    return {'layout': lay, 'opts': o, 'galerkin': draw(st.booleans()), 'jacobi': draw(st.booleans()), 'geo_check': draw(st.sampled_from([None, None, 'true', 'false', 'yes'])),
            'engines': draw(st.sampled_from([['fastercap'], ['fastcap'], ['fastercap', 'fastcap'], ['fastcap', '2.5D'], ['fastercap', '2.5D']])),
            'rel': draw(st.booleans()), 'code': draw(st.sampled_from([0, 0, 0, 0, 0, 0, 0, 3, -9, -11])), 'matrix': draw(st.sampled_from([True, True, True, True, False])),
            'iterations': draw(st.integers(1, 3)), 'salt': str(draw(st.integers(0, 99))), 'unit': draw(st.sampled_from(UNITS)),
            'skew': draw(st.sampled_from([0.0, 0.02, 0.3])), 'dir': draw(st.sampled_from(['d', 'a b'])), 'again': draw(st.integers(0, 5)) == 0}


SI = {'f': 1e-15, 'p': 1e-12, 'n': 1e-9, 'u': 1e-6, 'a': 1e-18, '': 1.0}


def read_spice(path, top):
    """-> [(element, net, net, value)] of the top circuit"""
    with open(path, encoding='utf-8') as f:
        text = re.sub(r'\n\+', ' ', f.read())
    out, inside, found = [], False, False
    for l in text.split('\n'):
        w = l.split()
        if not w or w[0].startswith('*'):
            continue
        if w[0].upper() == '.SUBCKT':
            inside = w[1] == top
            found |= inside
        elif w[0].upper() == '.ENDS':
            inside = False
        elif inside and w[0][0] in 'CR':
            m = re.fullmatch(r'([-+0-9.eE]+?)([fpnua]?)', w[3])
            require(m, f'{os.path.basename(path)}: value in {l!r}')
            out.append((w[0], w[1], w[2], float(m.group(1)) * SI[m.group(2)]))
    require(found, f'{os.path.basename(path)}: no circuit {top}')
    return out


def pairs(elems):
    tie = {}

    def root(x):
        while tie.get(x, x) != x:
            x = tie[x]
        return x
    for e, a, b, v in elems:
        if e[0] == 'R':
            require(v == 0, f'resistor {e} of {v} Ohm')
            ra, rb = sorted((root(a), root(b)), key=lambda x: x != 'VSUBS')
            tie[rb] = ra
    out = {}
    for e, a, b, v in elems:
        if e[0] == 'C' and root(a) != root(b):
            k = tuple(sorted((root(a), root(b))))
            k = tuple('VSUBS' if x in ('VSUBS', 'GND', 'FC_GND') else x for x in k)
            k = tuple(sorted(k))
            out[k] = out.get(k, 0) + v
    return out


def mesh(d, amax, rec):
    """the triangles are as small as the option says (up to rounding to grid points)"""
    import numpy as np
    tris = [v for f in os.listdir(d) if f.endswith('.geo') for _, v, _ in p15.parse_geo(os.path.join(d, f))[0]]
    if not tris:
        return
    p = np.array(tris).reshape(-1, 3, 3)
    area = np.linalg.norm(np.cross(p[:, 1] - p[:, 0], p[:, 2] - p[:, 0]), axis=1) / 2
    require(area.max() <= amax * 1.1 + 0.02, f'a triangle has {area.max()} square µm, --delaunay_amax {amax}')
    rec.label('fine mesh', area.max() > 0.5 * amax)


def run(case, rec):
    lay = case['layout']
    shapes, dbu, hier = gen.realize(lay)
    shapes = gen.unique_nets(shapes)
    if not shapes:
        return
    nets = sorted({s[1] for s in shapes})
    with scratch() as d0:
        d = os.path.join(d0, case['dir'])
        os.mkdir(d)
        lvsdb = os.path.join(d, 'lay.lvsdb.gz')
        geo.write_lvsdb(lvsdb, lay['tech'], shapes, dbu=dbu, hier=hier)
        plan = os.path.join(d0, 'plan')
        os.mkdir(plan)
        py = os.path.join(d0, 'fake.py')
        with open(py, 'w') as f:
            f.write(f'PLANDIR = {plan!r}\n' + FAKE)
        env = {'OMP_NUM_THREADS': '3'} if case['rel'] else {}      # kpex decides
        for e in ('fastercap', 'fastcap'):
            p = os.path.join(d0, e)
            with open(p, 'w') as f:
                f.write(f'#!/bin/sh\nexec {shlex.quote(sys.executable)} -I -S {shlex.quote(py)} {e} "$@"\n')
            os.chmod(p, 0o755)
            env[f'KPEX_{e.upper()}_EXE'] = p
        argv = ['--pdk', lay['tech'], '--lvsdb', 'lay.lvsdb.gz' if case['rel'] else lvsdb, '--out_dir', 'out' if case['rel'] else os.path.join(d, 'out')]
        argv += ['--' + e for e in case['engines']]
        for k, v in case['opts'].items():
            argv += [f'--{k}', str(v)]
        argv += ['--galerkin'] * case['galerkin'] + ['--jacobi'] * case['jacobi'] 
        if case.get('geo_check'):
            argv += ['--geo_check', case['geo_check']]
        base = os.path.join(d, 'out', 'lay__TOP')
        if case['again']:
            # an earlier, successful run leaves its files
            with open(os.path.join(plan, 'plan.json'), 'w') as f:
                json.dump({'salt': 'old', 'skew': 0, 'iterations': 1, 'unit': UNITS[0], 'matrix': True, 'code': 0}, f)
            r = kpex(argv, d, env, out='so0.txt')
            require(r.kind == 'ok', f'kpex failed: {r}')
            for e in ('fastercap', 'fastcap'):
                if os.path.exists(os.path.join(plan, e + '.json')):
                    os.remove(os.path.join(plan, e + '.json'))
        with open(os.path.join(plan, 'plan.json'), 'w') as f:
            json.dump({k: case[k] for k in ('salt', 'skew', 'iterations', 'unit', 'matrix', 'code')}, f)
        r = kpex(argv, d, env)
        fail = case['code'] != 0 or (not case['matrix'] and not (case['iterations'] > 1 and case['engines'][0] == 'fastercap' and 'fastcap' not in case['engines']))
        called = {e: os.path.join(plan, e + '.json') for e in ('fastercap', 'fastcap')}
        require(os.path.exists(called[[e for e in ('fastercap', 'fastcap') if e in case['engines']][0]]), f'the solver was not called: {r}')
        stale = not case['matrix'] and not fail
        with open(os.path.join(d, 'stdout.txt'), encoding='utf-8', errors='replace') as f:
            said = f.read()
        checked = re.findall(r'No errors found|\d+ errors? found', said)
        # bodies that touch in an edge only count as errors: P14 decides the verdict
        require(len(checked) == (case.get('geo_check') in ('true', 'yes')), f'--geo_check {case.get("geo_check")} says {checked}')
        if fail:
            require(r.kind != 'ok' and r.detail != 0, f'the solver failed (status {case["code"]}, matrix {case["matrix"]}), but kpex did not')
        else:
            require(r.kind == 'ok', f'kpex failed: {r}')
        for e, name in (('fastercap', 'FasterCap'), ('fastcap', 'FastCap2')):
            if e not in case['engines']:
                require(not os.path.exists(called[e]), f'{e} was called though not asked for')
                continue
            if not os.path.exists(called[e]):
                require(fail, f'{e} was not called')
                continue
            with open(called[e]) as f:
                c = json.load(f)
            require(c['names'][:1] == ['VSUBS'] and sorted(c['names'][1:]) == nets, f'conductors of the model {c["names"]}, nets {nets}')
            o = case['opts']
            mesh(os.path.join(d, c['dir']), float(o.get('delaunay_amax', 50)), rec)
            if e == 'fastercap':
                require(c['omp'] == str(o.get('threads', (os.cpu_count() or 1) * 4)), f'OMP_NUM_THREADS {c["omp"]}')
                flag = {a[:2]: a[2:] for a in c['args'][:-1] if a[:2] in ('-a', '-d', '-m', '-f') and a != '-ap'}
                for k, fl, df in (('tolerance', '-a', 0.05), ('d_coeff', '-d', 0.5), ('mesh', '-m', 0.5), ('ooc', '-f', 2)):
                    require(fl in flag and float(flag[fl]) == o.get(k, df), f'--{k} {o.get(k, df)}: arguments {c["args"]}')
                require('-b' in c['args'], 'FasterCap without -b opens windows')
                require(('-ap' in c['args']) == (o.get('auto_precond', 'true') in ('true', '1')), f'auto_precond {o}: {c["args"]}')
                require(('-g' in c['args']) == case['galerkin'] and ('-pj' in c['args']) == case['jacobi'], f'-g / -pj: {c["args"]}')
            else:
                for a in c['args']:
                    if a[:1] == '-' and a[1:2] in ('o', 'd', 'p', 't'):     # FastCap2: order, partitioning depth, permittivity, tolerance
                        require(re.fullmatch(r'-[od]\d+|-[pt][-+.0-9eE]+', a), f'FastCap2 does not know {a}: {c["args"]}')
                        require(a[1] != 'p' or float(a[2:]) == 1, f'permittivity factor: {c["args"]}')
            with open(os.path.join(base, f'TOP_{name}_Output.txt'), encoding='utf-8') as f:
                require(f.read().startswith(f'Running {e}\n'), 'log file')
            if fail:
                continue
            k = 0.37 if stale else 1.0
            n = len(c['names'])
            # raw matrix, averaged matrix, netlists
            avg = [[k * (c['m'][i][j] + c['m'][j][i]) / 2 for j in range(n)] for i in range(n)]
            for what, want in (('Raw', [[k * v for v in row] for row in c['m']]), ('Avg', avg)):
                with open(os.path.join(base, f'TOP_{name}_Result_Matrix_{what}.csv'), encoding='utf-8') as f:
                    lines = [l.split(';') for l in f.read().strip().split('\n')]
                require(len(lines) == n + 1 and all(len(l) == n for l in lines), f'{what} matrix has {len(lines)} lines')
                for i in range(n):
                    for j in range(n):
                        v = float(lines[i + 1][j])
                        require(abs(v - want[i][j]) <= 1e-9 * abs(want[i][j]) + 1e-24, lambda: f'{name} {what} matrix [{i}][{j}] {v}, printed {want[i][j]}')
            exp = {}
            for i in range(n):
                for j in range(i + 1, n):
                    if -avg[i][j] > 0:
                        kk = tuple(sorted((c['names'][i], c['names'][j])))
                        exp[kk] = exp.get(kk, 0) - avg[i][j]
                if i > 0 and sum(avg[i]) > 0:
                    kk = tuple(sorted((c['names'][i], 'VSUBS')))
                    exp[kk] = exp.get(kk, 0) + sum(avg[i])
            got = pairs(read_spice(os.path.join(base, f'TOP_{name}_Expanded_Netlist.cir'), 'TOP'))
            red = pairs(read_spice(os.path.join(base, f'TOP_{name}_Reduced_Netlist.cir'), 'TOP'))
            for kk in set(exp) | set(got) | set(red):
                e1, g1, r1 = exp.get(kk, 0), got.get(kk, 0), red.get(kk, 0)
                require(abs(e1 - g1) <= 1e-6 * e1 + 1e-22, f'{name} netlist: {kk} {g1}, the matrix says {e1}')
                # single elements are merged where they are parallel between the same nodes; at most three nodes are ground
                require(abs(r1 - e1) <= 1e-6 * e1 + 3 * 0.05e-15, f'{name} reduced netlist: {kk} {r1}, the matrix says {e1}')
            if e == 'fastercap':
                with open(os.path.join(base, 'TOP_FasterCap_Expanded_Netlist.csv'), encoding='utf-8') as f:
                    require(len(f.read().strip().split('\n')) >= 1, 'netlist table')
        if '2.5D' in case['engines'] and not fail:
            require(os.path.isfile(os.path.join(base, 'TOP_k25d_pex_netlist.csv')), 'no 2.5D result beside the field solver')
        stray = [x for x in os.listdir(d) if x not in ('lay.lvsdb.gz', 'out', 'stdout.txt', 'stdout.txt.res', 'so0.txt', 'so0.txt.res')]
        require(not stray, f'files outside of the output directory: {stray}')
    rec.nontrivial(len(nets) >= 2 or fail)
    rec.label('failing', fail)
    rec.label('killed', case['code'] < 0)
    rec.label('again', case['again'])
    for e in case['engines']:
        rec.label(e)
    rec.label('relative paths', case['rel'])


PARTS = [Part('run', cases, run, quick=40, thorough=400)]
