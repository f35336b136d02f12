"""P15: the FasterCap/FastCap2 input files describe exactly the surfaces of the model."""
import os
from hypothesis import strategies as st
from kv.core import Part, require, sut
from kv.cli import scratch
from . import p14

PID = 'P15'
WORKERS = 6
RULE = ('generated: 3D models as in P14 with net names of all kinds (very long, same beginning, slashes, commas, brackets, non-ASCII), written to a scratch '
        'directory and read back by an independent parser of the list and geometry format; oracle: the surfaces of the model in memory; '
        'non-trivial: at least two conductors, or one and a dielectric interface')
ASSUMPTIONS = ['net names contain no white space, as the list format is separated by it', 'the surfaces themselves are decided by P14',
               'reference points lie 1 µm outside']

LONG = 'a_very_long_hierarchical_net_name_' * 9
NAMES = ['A', 'B', 'VSUBS', 'out<1>', 'a,b', '$3', 'x/y', 'top/inst1/n', 'äöü' * 40, LONG + '1', LONG + '2', LONG[:200] + 'é' * 30, 'net=1', '..', 'A.B', '/', 'x\\y', 'x_y']


@st.composite
def cases(draw):
    c = draw(p14.cases())
    names = draw(st.permutations(NAMES))
    if draw(st.booleans()):     # names that differ only in what file names cannot hold
        alike = draw(st.permutations(['x/y', 'x_y', '/x/y', '_x_y', '_x/y']))
        names = alike + [n for n in names if n not in alike]
    nets = sorted({i[1] for i in c['items'] if not i[0]})
    m = dict(zip(nets, names))
    c['items'] = [[i[0], i[1] if i[0] else m[i[1]]] + i[2:] for i in c['items']]
    c['amax'] = 0.0
    # anywhere in a large layout
    dx, dy = draw(st.sampled_from([(0, 0), (0, 0), (123457, -98765), (-7654321, 12345), (3, -1234567)]))
    c['items'] = [i[:2] + [[[r[0] + dx, r[1] + dy, r[2] + dx, r[3] + dy] for r in rs] for rs in i[2:4]] + i[4:] for i in c['items']]
    c['prefix'] = draw(st.sampled_from(['', 'cell_FasterCap_', 'my-cell', 'x.y_', 'Zähler_µΩ→_']))
    return c


def parse_geo(path):
    tris, names = [], {}
    with open(path, encoding='utf-8') as fh:
        lines = fh.read().split('\n')
    require(lines[0].startswith('0 '), f'{os.path.basename(path)}: no title line: {lines[0]!r}')
    for l in lines[1:]:
        f = l.split()
        if not f:
            continue
        if f[0] == 'T':
            require(len(f) in (11, 14), f'{os.path.basename(path)}: bad line {l!r}')
            v = [float(x) for x in f[2:]]
            tris.append((f[1], v[:9], v[9:]))
        elif f[0] == 'N':
            names.setdefault(f[1], []).append(f[2])
        else:
            require(f[0] == '*', f'{os.path.basename(path)}: bad line {l!r}')
    return tris, names


def key(v):
    return tuple(round(x, 7) for x in v)


def corners(v):
    return [v[0:3], v[3:6], v[6:9]]


def side(v, p):
    """signed distance of p from the triangle's plane (right hand rule), and scale"""
    a, b, c = corners(v)
    u = [b[i] - a[i] for i in range(3)]
    w = [c[i] - a[i] for i in range(3)]
    n = [u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0]]
    s = sum(x * x for x in n) ** 0.5
    return sum(n[i] * (p[i] - a[i]) for i in range(3)) / s


def run(case, rec):
    items = p14.clean(case)
    if not items:
        return
    with sut('building the 3D model'):
        gen = p14.build(case, items)
    k_of = dict((m, k) for m, k in case['mats'])
    with scratch() as d:
        with sut('writing the FastCap files'):
            lst = gen.write_fastcap(output_dir_path=d, prefix=case['prefix'])
        require(os.path.realpath(lst) == os.path.join(d, case['prefix'] + '.lst'), f'list file is {lst}')
        for root, dirs, files in os.walk(d):
            require(root == d and not dirs, f'files outside of the output directory: {dirs}')
        with open(lst, encoding='utf-8') as fh:
            lines = [l for l in fh.read().split('\n') if l.strip()]
        require(lines[0].startswith('*') and f'k_void={case["k_void"]:.12g}' in lines[0], f'no k_void in {lines[0]!r}')
        diel, cond = [], []      # (file, k...)
        group = []
        used = set()
        for l in lines[1:]:
            f = l.split()
            if f[0] == 'D':
                require(len(f) == 10, f'bad line {l!r}')
                diel.append((f[1], float(f[2]), float(f[3]), [float(x) for x in f[4:7]]))
                require(not group, 'a dielectric within a collated conductor')
            elif f[0] == 'C':
                plus = f[-1] == '+'
                g = f[:-1] if plus else f
                require(len(g) == 6, f'bad line {l!r}')
                group.append((g[1], float(g[2]), [float(x) for x in g[3:6]]))
                if not plus:
                    cond.append(group)
                    group = []
            else:
                require(f[0] == '*', f'bad line {l!r}')
                continue
            require(f[1] not in used, f'file {f[1]} is listed twice')
            used.add(f[1])
            require(os.path.isfile(os.path.join(d, f[1])), f'listed file {f[1]!r} does not exist')
        require(not group, 'the last conductor line ends with +')

        # dielectric interfaces
        got = {}
        for fn, ko, ki, off in diel:
            require(off == [0, 0, 0], 'offset of a dielectric')
            tris, names = parse_geo(os.path.join(d, fn))
            for num, v, ref in tris:
                # the interface is the same with both sides exchanged
                s = side(v, ref)
                require(s > 0.1, f'{fn}: reference point {ref} is not on the outside of triangle {v}')
                got.setdefault((key(v), ko, ki), 0)
                got[key(v), ko, ki] += 1
        exp = {}
        for k, ts in gen.diel_data.items():
            for t in ts:
                v = key([getattr(p, a) for p in (t.p0, t.p1, t.p2) for a in 'xyz'])
                e = (v, k_of[k.outside] if k.outside else case['k_void'], k_of[k.inside] if k.inside else case['k_void'])
                exp[e] = exp.get(e, 0) + 1
        require(got == exp, lambda: f'dielectric triangles differ: only in files {sorted(set(got) - set(exp))[:2]}, only in model {sorted(set(exp) - set(got))[:2]}')

        # conductors
        got, numbers, named = {}, {}, []
        for g in cond:
            nums, nm = set(), []
            rows = []
            for fn, ko, off in g:
                require(off == [0, 0, 0], 'offset of a conductor')
                tris, names = parse_geo(os.path.join(d, fn))
                require(not names or fn == g[-1][0], 'a conductor is renamed before its last file')
                nums |= {t[0] for t in tris} | set(names)
                nm += [x for v in names.values() for x in v]
                rows += [(key(v), ko) for _, v, ref in tris]
                for _, v, ref in tris:
                    require(side(v, ref) > 0.1, f'{fn}: reference point {ref} is not on the outside of triangle {v}')
            require(len(nums) == 1, f'one conductor with the numbers {nums}')
            require(len(nm) == 1, f'conductor with the names {nm}')
            require(nm[0] not in got, f'two conductors are named {nm[0]}')
            n = nums.pop()
            require(n not in numbers, f'conductors {numbers.get(n)} and {nm[0]} have the same number')
            numbers[n] = nm[0]
            got[nm[0]] = sorted(rows)
        exp = {}
        for k, ts in gen.cond_data.items():
            for t in ts:
                v = key([getattr(p, a) for p in (t.p0, t.p1, t.p2) for a in 'xyz'])
                exp.setdefault(k.net_name, []).append((v, k_of[k.outside] if k.outside else case['k_void']))
        exp = {k: sorted(v) for k, v in exp.items()}
        require(set(got) == set(exp), f'conductors {sorted(got)}, expected {sorted(exp)}')
        for n in exp:
            require(got[n] == exp[n], f'triangles of conductor {n} differ')
        rec.nontrivial(len(exp) >= 2 or bool(exp and diel))
        rec.label('long-name', any(len(n) > 200 for n in exp))
        rec.label('slash', any('/' in n for n in exp))
        rec.label('collated', any(len(g) > 1 for g in cond))

        # STL files
        sd = os.path.join(d, 'stl')
        os.makedirs(sd)
        with sut('writing the STL files'):
            gen.dump_stl(output_dir_path=sd, prefix=case['prefix'])
        expm = {}
        for n in gen.net_names:
            ts = [t.reversed() for k, v in gen.cond_data.items() if k.net_name == n for t in v]
            if ts:
                expm['cond', n] = ts
        for m, _ in case['mats']:
            ts = [t for k, v in gen.diel_data.items() if k.outside == m for t in v]
            ts += [t.reversed() for k, v in gen.diel_data.items() if k.inside == m for t in v]
            ts += [t for k, v in gen.cond_data.items() if k.outside == m for t in v]
            if ts:
                expm['diel', m] = ts
        files = sorted(os.listdir(sd))
        require(len(files) == len(expm), lambda: f'{len(files)} STL files for {len(expm)} bodies: {files}')
        # each body has a file of its own with its triangles (bodies are told apart by their triangles, whatever the file is called)
        have = sorted((kind_of(f), stl(os.path.join(sd, f))) for f in files)
        want = sorted((k[0], sorted(key([getattr(p, a) for p in (t.p2, t.p1, t.p0) for a in 'xyz']) for t in ts)) for k, ts in expm.items())
        require(have == want, 'the triangles in the STL files are not those of the bodies')


def kind_of(fn):
    return 'diel' if 'diel_' in fn else 'cond'


def stl(path):
    out, cur = [], []
    with open(path, encoding='utf-8') as fh:
        for l in fh:
            f = l.split()
            if f and f[0] == 'vertex':
                cur += [float(x) for x in f[1:]]
                if len(cur) == 9:
                    out.append(key(cur))
                    cur = []
    require(not cur, f'{os.path.basename(path)}: a facet without three corners')
    return sorted(out)


PARTS = [Part('files', cases, run, quick=150, thorough=4000)]
