"""P04: 2.5D capacitances depend on the relative geometry only."""
from hypothesis import strategies as st
from kv import gen, cap25, layers, geo
from kv.core import Part, require, sut

PID = 'P04'
RULE = ('generated: layouts of rectangles and 45-degree wires/octagons (both PDKs, 1-4 layers, 2-4 nets) extracted twice: '
        'as drawn, and after a change that keeps the relative geometry (move, quarter turns, mirror, reordering, other '
        'net names, cutting rectangles into abutting parts, splitting into subcells, a far away copy with other nets); '
        'non-trivial: at least one capacitance between two nets besides the substrate')
ASSUMPTIONS = ['skew edges are snapped to the grid by the geometry engine: 45-degree geometry is compared with 2% + 0.02 fF']

OCT = [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1)]


def skew_shape(kind, x, y, l, w, d):
    if kind == 'oct':
        c = w
        s = 2 * w
        return [[x + c, y], [x + c + s, y], [x + 2 * c + s, y + c], [x + 2 * c + s, y + c + s], [x + c + s, y + 2 * c + s],
                [x + c, y + 2 * c + s], [x, y + c + s], [x, y + c]]
    if kind == 'diag':
        if d:
            return [[x, y], [x + w, y], [x + w + l, y + l], [x + l, y + l]]
        return [[x + l, y], [x + l + w, y], [x + w, y + l], [x, y + l]]
    return [[x, y], [x + l, y], [x + l, y + w], [x, y + w]]


@st.composite
def skews(draw):
    tech = draw(gen.techs())
    n = len(layers.metal_names(tech))
    ls = sorted(draw(st.permutations(range(n)))[:draw(st.integers(1, 3))])
    sh = []
    for _ in range(draw(st.integers(2, 6))):
        g = 100
        sh.append([draw(st.sampled_from(ls)), draw(st.sampled_from(gen.NETS)),
                   skew_shape(draw(st.sampled_from(['oct', 'diag', 'diag', 'box'])), g * draw(st.integers(0, 40)),
                              g * draw(st.integers(0, 40)), g * draw(st.integers(3, 30)), g * draw(st.integers(2, 6)),
                              draw(st.booleans()))])
    return {'tech': tech, 'shapes': sh, 'halo': draw(st.sampled_from([None, 1.0, 2.0])), 'scale': draw(st.booleans())}


def legal_polys(shapes):
    import klayout.db as kdb
    regs, out = {}, []
    for l, n, pts in shapes:
        r = kdb.Region(kdb.Polygon([kdb.Point(*p) for p in pts]))
        if any(l2 == l and n2 != n and not (r.interacting(r2).is_empty() and (r.sized(20) & r2).is_empty())
               for (l2, n2), r2 in regs.items()):
            continue
        out.append([l, n, pts])
        regs.setdefault((l, n), kdb.Region()).insert(kdb.Polygon([kdb.Point(*p) for p in pts]))
    return out


def close(a, b, rel, absol, what):
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k, 0.0), b.get(k, 0.0)
        require(abs(x - y) <= rel * max(abs(x), abs(y)) + absol, f'{what}: {k[0]}-{k[1]}: {x} fF before, {y} fF after')


def caps_with(case, shapes, **kw):
    ti = layers.tech_info(case['tech'], halo=case.get('halo'))
    with sut('2.5D capacitance extraction'):
        l2n = geo.build_l2n(case['tech'], shapes, **kw)
        return geo.caps_of(geo.run_25d(l2n, ti, 'CC', case.get('scale', False)))


def trans_of(case):
    import klayout.db as kdb
    rot, mirror, dx, dy = case['trans']
    return kdb.Trans(rot, mirror, kdb.Vector(dx, dy))


def run_skew(case, rec):
    shapes = legal_polys(case['shapes'])
    if not shapes:
        return
    a = caps_with(case, shapes)
    t = trans_of(case)
    b = caps_with(case, shapes, trans=t)
    close(a, b, 0.02, 0.02, f'placed as {t}')
    names = {n: m for n, m in zip(gen.NETS, case['names'])}
    c = caps_with(case, [[l, names[n], p] for l, n, p in reversed(shapes)])
    c2 = {tuple(sorted(('VSUBS' if x == 'VSUBS' else names[x]) for x in k)): v for k, v in a.items()}
    close(c2, c, 1e-6, 1e-6, 'other names, other order')
    rec.nontrivial(any('VSUBS' not in k for k in a))


def cut(shapes, cuts):
    """Cuts rectangles into two abutting rectangles"""
    out = []
    for i, (l, n, r) in enumerate(shapes):
        k = cuts[i % len(cuts)] if cuts else 0
        if k and r[2] - r[0] > 20 and k % 2:
            m = r[0] + 10 + (k * 7919) % (r[2] - r[0] - 19)
            out += [[l, n, [r[0], r[1], m, r[3]]], [l, n, [m, r[1], r[2], r[3]]]]
        elif k and r[3] - r[1] > 20:
            m = r[1] + 10 + (k * 7919) % (r[3] - r[1] - 19)
            out += [[l, n, [r[0], r[1], r[2], m]], [l, n, [r[0], m, r[2], r[3]]]]
        else:
            out.append([l, n, r])
    return out


def run_manhattan(case, rec):
    shapes = case['shapes']
    if not shapes:
        return
    a = caps_with(case, shapes)
    rec.nontrivial(any('VSUBS' not in k for k in a))
    kind = case['kind']
    rec.label(kind)
    if kind == 'place':
        close(a, caps_with(case, shapes, trans=trans_of(case)), 1e-6, 2e-4, f'placed as {trans_of(case)}')
    elif kind == 'order':
        close(a, caps_with(case, shapes[::-1]), 1e-9, 1e-9, 'shapes in reverse order')
    elif kind == 'names':
        names = {n: m for n, m in zip(gen.NETS, case['names'])}
        b = caps_with(case, [[l, names[n], r] for l, n, r in shapes])
        c2 = {tuple(sorted(('VSUBS' if x == 'VSUBS' else names[x]) for x in k)): v for k, v in a.items()}
        close(c2, b, 1e-9, 1e-9, f'nets named {case["names"]}')
    elif kind == 'cut':
        close(a, caps_with(case, cut(shapes, case['cuts'])), 1e-9, 1e-9, 'rectangles cut into abutting parts')
    elif kind == 'hier':
        close(a, caps_with(case, shapes, hier=1 + len(case['cuts'])), 1e-9, 1e-9, 'shapes in subcells')
    elif kind == 'copy':
        halo = int((case.get('halo') or 8.0) * 1000)
        x1 = min(r[0] for _, _, r in shapes)
        x2 = max(r[2] for _, _, r in shapes)
        d = x2 - x1 + 2 * halo + 1000
        far = [[l, n + '_2', [r[0] + d, r[1], r[2] + d, r[3]]] for l, n, r in shapes]
        b = caps_with(case, shapes + far)
        exp = dict(a)
        for k, v in a.items():
            exp[tuple(sorted(x if x == 'VSUBS' else x + '_2' for x in k))] = v
        close(exp, b, 5e-3, 2e-4, 'with a copy beyond the halo')


def placed(s):
    return st.tuples(s, st.tuples(st.integers(0, 3), st.booleans(), st.integers(-10 ** 6, 10 ** 6),
                                  st.integers(-10 ** 6, 10 ** 6)),
                     st.sampled_from([['D', 'C', 'B', 'A'], ['zz', 'B', 'aa', 'm'], ['a', 'B', 'c', 'D'], ['W2', 'W10', 'W1', 'w1']]),
                     st.lists(st.integers(0, 9), min_size=1, max_size=3),
                     st.sampled_from(['place', 'order', 'names', 'cut', 'hier', 'copy'])).map(
        lambda t: dict(t[0], trans=list(t[1]), names=t[2], cuts=t[3], kind=t[4]))


PARTS = [Part('manhattan', lambda: placed(gen.mixed_layouts(n_layers=(1, 4))), run_manhattan, quick=260, thorough=5000),
         Part('skew', lambda: placed(skews()), run_skew, quick=110, thorough=2500)]
