"""P14: the 3D model's surfaces are exactly the interfaces of the materials that were put in."""
import math
from hypothesis import strategies as st
from kv.core import Part, require, sut

PID = 'P14'
WORKERS = 6
RULE = ('generated: up to 4 conductors and 3 dielectrics, each of several extruded regions (rectangles, polygons with holes, diamonds) with '
        'overlapping, touching and nested z ranges, several database units, with and without triangle area limits; oracle: an independent voxel '
        'model on the compressed coordinates (area and first and second moments of every interface plane, orientation included), for skew shapes volumes by '
        'the divergence theorem; non-trivial: at least one conductor and two kinds of interfaces')
ASSUMPTIONS = ['conductors of different nets do not touch each other, as extracted nets do', 'KLayout Delaunay triangulation and booleans are trusted']

U = 100         # coordinates: multiples of U dbu (below, the integer Delaunay refinement of KLayout loses slivers)


def _r(draw, size, n):
    x, y = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
    return [x, y, x + draw(st.integers(1, size)), y + draw(st.integers(1, size))]


@st.composite
def cases(draw):
    n = draw(st.sampled_from([9, 6, 14, 3]))
    zs = sorted(draw(st.sets(st.integers(-6, 30), min_size=2, max_size=7)))
    mats = draw(st.permutations(['ox', 'nit', 'psg', 'ild1']))[:draw(st.sampled_from([2, 3, 1, 4, 0]))]
    nets = draw(st.permutations(['A', 'B', 'VSUBS', 'out<1>', 'ox']))[:draw(st.sampled_from([3, 2, 4, 1] + ([0] if mats else [])))]
    items, many = [], False
    if draw(st.integers(0, 5)) == 0:        # many overlapping parts of the same body
        mats, nets = (mats[:1], nets[:1]) if not mats or draw(st.booleans()) else (mats[:1], [])
        n = draw(st.sampled_from([3, 3, 2]))
        many = True
    for k in range(draw(st.sampled_from([6, 8, 12] if many else [6, 4, 8, 10, 3, 2, 1]))):
        diel = bool(mats) and (not nets or draw(st.booleans()))
        name = draw(st.sampled_from(mats if diel else nets))
        z = draw(st.integers(0, len(zs) - 2))
        z2 = draw(st.integers(z + 1, len(zs) - 1))
        items.append([diel, name, [_r(draw, n if diel else max(1, n // 3), n) for _ in range(draw(st.integers(1, 3)))],
                      [_r(draw, n, n)] if draw(st.integers(0, 4)) == 0 else [], 50 * zs[z], 50 * zs[z2]])
    return {'items': items, 'mats': [[m, draw(st.sampled_from([1.0, 3.9, 4.05, 7.3]))] for m in mats],
            'dbu': draw(st.sampled_from([0.001, 0.001, 0.005, 0.0005])),
            'amax': draw(st.sampled_from([0.0, 0.0, 0.0, 0.05])), 'b': draw(st.sampled_from([1.0, 0.5])),
            'k_void': draw(st.sampled_from([1.0, 3.5])), 'raw': draw(st.booleans()),
            'cut': draw(st.tuples(st.integers(0, 99), st.integers(0, 999)))}


def inside(item, x, y):
    """is the point (in units) inside of the item's footprint"""
    def hit(r):
        return r[0] <= x < r[2] and r[1] <= y < r[3]
    return any(hit(r) for r in item[2]) and not any(hit(r) for r in item[3])


def clean(case):
    """drops conductors which touch a conductor of another net (in order)"""
    kept = []
    for it in case['items']:
        diel, name, rs, holes, z1, z2 = it
        if not diel and any(not k[0] and k[1] != name and k[4] <= z2 and z1 <= k[5] and
                            any(a[0] <= b[2] and b[0] <= a[2] and a[1] <= b[3] and b[1] <= a[3] for a in rs for b in k[2])
                            for k in kept):
            continue
        kept.append(it)
    return kept


def voxels(case, items):
    xs = sorted({v for it in items for r in it[2] + it[3] for v in (r[0], r[2])})
    ys = sorted({v for it in items for r in it[2] + it[3] for v in (r[1], r[3])})
    zs = sorted({v for it in items for v in (it[4], it[5])})
    order = [m for m, _ in case['mats']]

    def mat(i, j, k):
        if not (0 <= i < len(xs) - 1 and 0 <= j < len(ys) - 1 and 0 <= k < len(zs) - 1):
            return None
        best = None
        for it in items:
            if it[4] <= zs[k] < it[5] and inside(it, xs[i], ys[j]):
                if not it[0]:
                    return '+' + it[1]
                p = order.index(it[1])
                if best is None or p < best:
                    best = p
        return None if best is None else '-' + order[best]
    grid = {}
    for i in range(-1, len(xs)):
        for j in range(-1, len(ys)):
            for k in range(-1, len(zs)):
                grid[i, j, k] = mat(i, j, k)
    return grid, xs, ys, zs


def expected(case, items):
    """{(axis, position): {(material low side, material high side): [cells (u1, u2, v1, v2)]}}; positions in dbu"""
    grid, xs, ys, zs = voxels(case, items)
    out = {}
    for (i, j, k), m in grid.items():
        for axis, d in enumerate(((1, 0, 0), (0, 1, 0), (0, 0, 1))):
            q = (i + d[0], j + d[1], k + d[2])
            if q not in grid or grid[q] == m:
                continue
            if axis == 0:
                pos, cell = xs[q[0]] * U, (ys[j] * U, ys[j + 1] * U, zs[k], zs[k + 1])
            elif axis == 1:
                pos, cell = ys[q[1]] * U, (xs[i] * U, xs[i + 1] * U, zs[k], zs[k + 1])
            else:
                pos, cell = zs[q[2]], (xs[i] * U, xs[i + 1] * U, ys[j] * U, ys[j + 1] * U)
            out.setdefault((axis, pos), {}).setdefault((m, grid[q]), []).append(cell)
    return out


def moments_of_cells(cells):
    a = [0.0] * 6
    for u1, u2, v1, v2 in cells:
        du, dv = u2 - u1, v2 - v1
        mu, mv = (u1 + u2) / 2, (v1 + v2) / 2
        a[0] += du * dv
        a[1] += du * dv * mu
        a[2] += du * dv * mv
        a[3] += du * dv * (mu * mu + du * du / 12)
        a[4] += du * dv * (mv * mv + dv * dv / 12)
        a[5] += du * dv * mu * mv
    return a


def moments_of_tri(p, q, r):
    ar = abs((q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])) / 2
    # exact for quadratics: edge midpoints rule
    out = [0.0] * 6
    for a, b in ((p, q), (q, r), (r, p)):
        u, v = (a[0] + b[0]) / 2, (a[1] + b[1]) / 2
        w = ar / 3
        for i, f in enumerate((1, u, v, u * u, v * v, u * v)):
            out[i] += w * f
    return out


def normal(t):
    a, b, c = ((p.x, p.y, p.z) for p in (t.p0, t.p1, t.p2))
    u = [b[i] - a[i] for i in range(3)]
    v = [c[i] - a[i] for i in range(3)]
    return [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]


def surfaces(gen):
    """[(outside material, inside material, triangle)], triangle normal by the right hand rule"""
    out = []
    for k, tris in gen.diel_data.items():
        for t in tris:
            out.append(('-' + k.outside if k.outside else None, '-' + k.inside if k.inside else None, t))
    for k, tris in gen.cond_data.items():
        for t in tris:
            out.append(('-' + k.outside if k.outside else None, '+' + k.net_name, t))
    return out


def build(case, items):
    import klayout.db as kdb
    from klayout_pex.fastercap.fastercap_model_generator import FasterCapModelBuilder
    mb = FasterCapModelBuilder(dbu=case['dbu'], k_void=case['k_void'], delaunay_amax=case['amax'], delaunay_b=case['b'])
    for m, k in case['mats']:
        mb.add_material(name=m, k=k)
    dbu = case['dbu']
    for diel, name, rs, holes, z1, z2 in items:
        reg = kdb.Region()
        for r in rs:
            if len(r) == 4 and not isinstance(r[0], list):
                reg.insert(kdb.Box(*[v * U for v in r]))
            else:
                reg.insert(kdb.Polygon([kdb.Point(*p) for p in r]))
        if holes:
            h = kdb.Region()
            for r in holes:
                h.insert(kdb.Box(*[v * U for v in r]))
            reg = reg - h
        if not case.get('raw'):
            reg = reg.merged()
        kw = dict(layer=reg, z=z1 * dbu, height=(z2 - z1) * dbu)
        if diel:
            mb.add_dielectric(material_name=name, **kw)
        else:
            mb.add_conductor(net_name=name, **kw)
    return mb.generate()


def run(case, rec):
    items = clean(case)
    if not items:
        return
    with sut('building the 3D model'):
        gen = build(case, items)
    exp = expected(case, items)
    got = {}
    d = case['dbu']
    for outside, ins, t in surfaces(gen):
        n = normal(t)
        axis = max(range(3), key=lambda i: abs(n[i]))
        require(all(abs(n[i]) <= 1e-6 * abs(n[axis]) for i in range(3) if i != axis), lambda: f'surface {outside}|{ins}: skew triangle {t}')
        # the normal points to the outside
        low, high = (ins, outside) if n[axis] > 0 else (outside, ins)
        pts = [((p.x, p.y, p.z)) for p in (t.p0, t.p1, t.p2)]
        pos = pts[0][axis] / d
        require(abs(pos - round(pos)) < 1e-3, f'surface {outside}|{ins} off grid: {pos}')
        uv = [[v / d for i, v in enumerate(p) if i != axis] for p in pts]
        acc = got.setdefault((axis, round(pos)), {}).setdefault((low, high), [0.0] * 6)
        for i, v in enumerate(moments_of_tri(*uv)):
            acc[i] += v
    kinds = set()
    for key in sorted(set(exp) | set(got)):
        e, g = exp.get(key, {}), got.get(key, {})
        for pair in set(e) | set(g):
            kinds.add(frozenset(pair))
            me = moments_of_cells(e[pair]) if pair in e else [0.0] * 6
            mg = g.get(pair, [0.0] * 6)
            for a, b in zip(me, mg):
                require(abs(a - b) <= 1e-6 * (abs(a) + abs(b)) + 1e-3, lambda: (
                    f'interface {"xyz"[key[0]]}={key[1]} between {pair[0] or "void"} (low side) and {pair[1] or "void"}: '
                    f'moments {mg}, expected {me}'))
    rec.nontrivial(any(not i[0] for i in items) and len(kinds) >= 2)
    rec.label('diel-diel', any(all(m and m[0] == '-' for m in k) for k in kinds))
    rec.label('cond-diel', any({m[0] for m in k if m} == {'+', '-'} for k in kinds))
    rec.label('cond-void', any(None in k and any(m and m[0] == '+' for m in k) for k in kinds))
    rec.label('stacked-same-net', any(a[1] == b[1] and not a[0] and not b[0] and a[5] == b[4] for a in items for b in items))
    if case['amax'] == 0.0:
        n, msgs = self_check(gen)
        rec.label('self check: manifold', manifold(case, items))
        if manifold(case, items):
            require(n == 0, lambda: f'the self check reports {n} errors for a right model: {msgs[:3]}')
        pool = [ts for d in (gen.diel_data, gen.cond_data) for ts in d.values() if ts]
        if pool:
            ts = pool[case['cut'][0] % len(pool)]
            t = ts.pop(case['cut'][1] % len(ts))
            require(self_check(gen)[0] > 0, lambda: f'the self check finds no hole where triangle {t} is missing')


def self_check(gen):
    import logging
    from klayout_pex import log
    msgs = []

    class Handler(logging.Handler):
        def emit(self, record):
            if record.levelno >= logging.ERROR:
                msgs.append(record.getMessage())
    h = Handler()
    log.register_additional_handler(h)
    level = log.get_log_level()
    log.set_log_level(log.LogLevel.INFO)
    try:
        with sut('self check'):
            gen.check()
    finally:
        log.set_log_level(level)
        log.deregister_additional_handler(h)
    return len(msgs), msgs


def manifold(case, items):
    """no body touches itself in an edge or corner only"""
    grid, xs, ys, zs = voxels(case, items)
    for i in range(len(xs)):
        for j in range(len(ys)):
            for k in range(len(zs)):
                c8 = [grid[i - a, j - b, k - c] for a in (0, 1) for b in (0, 1) for c in (0, 1)]
                for m in set(c8) - {None}:
                    cells = [(a, b, c) for n, (a, b, c) in enumerate((a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1)) if c8[n] == m]
                    for part in (cells, [x for x in ((a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1)) if x not in cells]):
                        seen, todo = set(), part[:1]
                        while todo:
                            x = todo.pop()
                            if x not in seen:
                                seen.add(x)
                                todo += [y for y in part if sum(p != q for p, q in zip(x, y)) == 1]
                        if len(seen) != len(part):
                            return False
    return True


# -- skew shapes -----------------------------------------------------------------------------

@st.composite
def skew_cases(draw):
    k = draw(st.integers(1, 3))
    items = []
    for i in range(k):
        cx, cy, r = draw(st.integers(-3000, 3000)), draw(st.integers(-3000, 3000)), draw(st.integers(100, 1500))
        nsides = draw(st.integers(3, 8))
        ph = draw(st.integers(0, 359))
        pts = [[round(cx + r * math.cos(math.radians(ph + 360 * j / nsides))), round(cy + r * math.sin(math.radians(ph + 360 * j / nsides)))]
               for j in range(nsides)]
        z = draw(st.integers(0, 1000))
        items.append([False, draw(st.sampled_from(['A', 'B'])) + str(i), [pts], [], z + 3000 * i, z + 3000 * i + draw(st.integers(100, 1500))])
    return {'items': items, 'mats': [], 'dbu': 0.001, 'amax': draw(st.sampled_from([0.0, 0.3])), 'b': draw(st.sampled_from([1.0, 0.5])), 'k_void': 1.0}


def run_skew(case, rec):
    import klayout.db as kdb
    with sut('building the 3D model'):
        gen = build(case, case['items'])
    for diel, name, polys, _, z1, z2 in case['items']:
        area = kdb.Region(kdb.Polygon([kdb.Point(*p) for p in polys[0]])).merged().area()
        vol, va, tot = 0.0, [0.0] * 3, 0.0
        for outside, ins, t in surfaces(gen):
            if ins != '+' + name:
                continue
            n = [v / 2 / case['dbu'] ** 2 for v in normal(t)]
            c = [(getattr(t.p0, a) + getattr(t.p1, a) + getattr(t.p2, a)) / 3 / case['dbu'] for a in 'xyz']
            vol += sum(n[i] * c[i] for i in range(3)) / 3
            for i in range(3):
                va[i] += n[i]
            tot += math.sqrt(sum(v * v for v in n))
        # every corner of the conductor is (up to rounding along the edge) a corner of its side faces
        side = [(p.x / case['dbu'], p.y / case['dbu'], p.z / case['dbu']) for _, ins, t in surfaces(gen) if ins == '+' + name
                for p in (t.p0, t.p1, t.p2) if not t.p0.z == t.p1.z == t.p2.z]
        for poly in kdb.Region(kdb.Polygon([kdb.Point(*p) for p in polys[0]])).merged().each():
            for c in poly.each_point_hull():
                for z in (z1, z2):
                    near = min(max(math.hypot(p[0] - c.x, p[1] - c.y), abs(p[2] - z)) for p in side)
                    require(near <= 0.6, f'conductor {name}: corner {c} at z={z} is not a corner of the side faces (nearest: {near} dbu)')
        e = area * (z2 - z1)
        require(abs(vol - e) <= 0.02 * e + 20 * tot, f'conductor {name}: enclosed volume {vol}, expected {e}')
        require(all(abs(v) <= 0.01 * tot + 5000 for v in va), f'conductor {name}: open surface, vector area {va}')
    rec.nontrivial()


PARTS = [Part('voxels', cases, run, quick=140, thorough=4000),
         Part('skew', skew_cases, run_skew, quick=40, thorough=800)]
