"""P29: resistor networks keep what is measured between their nodes while nodes are eliminated or joined."""
from hypothesis import strategies as st
from kv.core import Part, require, sut

PID = 'P29'
WORKERS = 4
RULE = ('generated: histories of nodes, resistors (also parallel ones), eliminations, contractions and removals on networks of up to 12 nodes, followed by the '
        'elimination of all but precious nodes; triangles of any shape and their splits; oracle: Laplacian matrix (Schur complement, sum of rows), area and angles '
        'of triangles; non-trivial: an elimination of a node with at least three resistors, or a triangle with an obtuse angle')
ASSUMPTIONS = ['conductances between 1e-8 and 1e3, well away from the threshold (1e-10) below which the code takes a node for isolated']


@st.composite
def histories(draw):
    n = draw(st.integers(2, 12))
    pts = draw(st.lists(st.tuples(st.integers(-50, 50), st.integers(-50, 50)), min_size=n, max_size=n, unique=True))
    ops = []
    for _ in range(draw(st.integers(1, 30))):
        k = draw(st.sampled_from(['add'] * 8 + ['eliminate', 'connect', 'remove', 'query']))
        a, b = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        ops.append([k, a, b, draw(st.sampled_from([0.001, 0.25, 1.0, 3.5, 1000.0]))])
    return {'points': [list(p) for p in pts], 'ops': ops, 'precious': draw(st.lists(st.integers(0, n - 1), max_size=5, unique=True)),
            'all': draw(st.sampled_from([True, True, False])), 'scale': draw(st.sampled_from([1, 1, 1, 1e-5, 1e-7]))}


def run_history(case, rec):
    import numpy as np
    import klayout.db as kdb
    from klayout_pex.rcx25.r.conductance import Conductance
    from klayout_pex.rcx25.r.resistor_network import ResistorNetwork
    nw = ResistorNetwork()
    pts = [kdb.Point(*p) for p in case['points']]
    n = len(pts)
    with sut('nodes'):
        ids = [nw.node_id(p) for p in pts]
        require(ids == [nw.node_id(p) for p in pts] and len(set(ids)) == n, f'node ids {ids}')
        for i in range(0, n, 2):        # a name makes no node precious
            nw.name(ids[i], f'P{i}')
    L = np.zeros((n, n))
    alive = set(range(n))

    def adj(i):
        return [j for j in range(n) if j != i and L[i, j] != 0]

    def eliminate(i):
        nonlocal L
        if len(adj(i)) >= 3:
            rec.nontrivial(True)
        L = L - np.outer(L[:, i], L[i, :]) / L[i, i]
        L[i, :] = L[:, i] = 0
        alive.discard(i)

    def compare(what):
        require(nw.check() == 0, f'{what}: the network is inconsistent')
        got = np.zeros((n, n))
        for (a, b), c in nw.s.items():
            a, b = ids.index(a), ids.index(b)
            require(a != b and a in alive and b in alive, f'{what}: resistor between {a} and {b}')
            got[a, b] -= c.cond
            got[a, a] += c.cond
        err = np.abs(got - L).max()
        require(err <= 1e-7 * max(case.get('scale', 1), np.abs(L).max()), f'{what}: conductances {got.tolist()}, expected {L.tolist()}')
        for i in range(n):
            require(nw.location(ids[i]) == (pts[i] if i in alive else None), f'{what}: node {i} is at {nw.location(ids[i])}')
            require(nw.has_node(pts[i]) == (i in alive), f'{what}: node {i}')
    scale = case.get('scale', 1)
    for k, a, b, g in case['ops']:
        if scale < 1:       # megaohms
            g = min(max(g, 0.25), 3.5) * scale
        if a not in alive or b not in alive:
            continue
        what = f'{k} {a} {b} {g}'
        with sut(what):
            if k == 'add' and a != b:
                nw.add_cond(ids[a], ids[b], Conductance(g))
                L[a, a] += g
                L[b, b] += g
                L[a, b] -= g
                L[b, a] -= g
            elif k == 'eliminate' and adj(a):
                nw.eliminate_node(ids[a])
                eliminate(a)
            elif k == 'remove' and adj(a):
                nw.remove_node(ids[a])
                for j in adj(a):
                    L[j, j] += L[j, a]
                L[a, :] = L[:, a] = 0
                alive.discard(a)
            elif k == 'connect' and a != b and adj(b):
                nw.connect_nodes(ids[a], ids[b])
                L[a, :] += L[b, :]
                L[:, a] += L[:, b]
                L[b, :] = L[:, b] = 0
                alive.discard(b)
            elif k == 'query':
                e = kdb.Edge(pts[a], pts[b])
                got = sorted(nw.node_ids(e))
                for i in alive:
                    want = on(case['points'], a, b, i)
                    require(want is None or want == (ids[i] in got), f'nodes on {e}: {got}')
        compare(what)
    if case['all']:
        keep = {i for i in case['precious'] if i in alive}
        for i in keep:
            nw.mark_precious(ids[i])
            nw.name(ids[i], f'P{i}')
        for i in [i for i in alive if i not in keep and adj(i)]:
            if adj(i):
                eliminate(i)
            else:          # all it was connected to is gone
                L[i, :] = L[:, i] = 0
        alive = {i for i in alive if nw.location(ids[i]) is not None}
        with sut('elimination of all nodes'):
            nw.eliminate_all()
        left = {i for i in alive if nw.location(ids[i]) is not None}
        require(keep <= left, f'precious nodes {keep}, left {left}')
        require({ids.index(i) for i in nw.node_to_s if nw.node_to_s[i]} <= keep, f'nodes with resistors left: {list(nw.node_to_s)}, precious {keep}')
        alive = left
        L[np.abs(L) < 1e-12] = 0
        compare('elimination of all nodes')
        for resistance in (False, True):
            lines = nw.to_string(resistance).splitlines()
            i = lines.index('Resistors:' if resistance else 'Conductors:')
            vals = {}
            for l in lines[i + 1:]:
                nodes, v = l.split(':')
                vals[frozenset(nodes.strip().split(','))] = float(v)
            want = {frozenset(f'P{ids.index(x)}' for x in ab): c.cond for ab, c in nw.s.items()}
            require(set(vals) == set(want), f'printed {vals}, network {want}')
            for q in vals:
                w = 1 / want[q] if resistance else want[q]
                require(abs(vals[q] - w) <= 1e-5 * abs(w), f'printed {vals}, network {want}')
        rec.label('all eliminated', True)
        rec.label('several precious', len(keep) > 2)


def on(p, a, b, i):
    """True, False, or None where it depends on rounding (KLayout takes points within half a unit as being on the edge)"""
    (x1, y1), (x2, y2), (x, y) = p[a], p[b], p[i]
    d = (x2 - x1) * (y - y1) - (y2 - y1) * (x - x1)
    if d == 0:
        return min(x1, x2) <= x <= max(x1, x2) and min(y1, y2) <= y <= max(y1, y2)
    return None if d * d <= ((x2 - x1) ** 2 + (y2 - y1) ** 2) * 2 else False


@st.composite
def triangles(draw):
    m = draw(st.sampled_from([10, 1000, 100000]))
    return {'p': [[draw(st.integers(-m, m)), draw(st.integers(-m, m))] for _ in range(3)], 'turn': draw(st.integers(0, 2))}


def run_triangle(case, rec):
    import klayout.db as kdb
    from klayout_pex.rcx25.r.resistor_network import ResistorNetwork
    t = case['p']
    tri = kdb.Polygon([kdb.Point(*p) for p in t])
    if tri.area() == 0 or tri.num_points_hull() != 3:
        return
    with sut('split of a triangle'):
        parts = ResistorNetwork.expand_skinny_tris(tri)
    q = [(p.x, p.y) for p in tri.each_point_hull()]

    def dots(q):
        return [(q[i - 1][0] - q[i][0]) * (q[(i + 1) % 3][0] - q[i][0]) + (q[i - 1][1] - q[i][1]) * (q[(i + 1) % 3][1] - q[i][1]) for i in range(3)]
    obtuse = [i for i, d in enumerate(dots(q)) if d < 0]
    rec.nontrivial(bool(obtuse))
    if not obtuse:
        require(len(parts) == 1 and parts[0] == tri, f'triangle {tri} without an obtuse angle became {[str(p) for p in parts]}')
        return
    rec.label(f'obtuse {obtuse[0]}')
    if len(parts) == 1:        # right angles within rounding
        d = dots(q)[obtuse[0]]
        a, b, c = [sum((q[i][k] - q[j][k]) ** 2 for k in (0, 1)) for i, j in ((0, 1), (1, 2), (2, 0))]
        require(abs(2 * d) <= 1e-9 * max(a, b, c), f'triangle {tri} has an obtuse angle, it was not split')
        return
    # both parts cover the triangle (the foot of the height is rounded to the grid)
    x = (kdb.Region(tri) ^ (kdb.Region(parts[0]) + kdb.Region(parts[1]))).sized(-1)
    require(len(parts) == 2 and x.is_empty(), f'triangle {tri} became {[str(p) for p in parts]}')
    both = (kdb.Region(parts[0]) & kdb.Region(parts[1])).sized(-1)
    require(both.is_empty(), f'parts of {tri} overlap: {[str(p) for p in parts]}')
    # the obtuse corner is shared, and the foot of the height is on the opposite side
    o = kdb.Point(*q[obtuse[0]])
    rest = [kdb.Point(*q[i]) for i in range(3) if i != obtuse[0]]
    a = rest[0]
    d = rest[1] - a
    w = o - a
    f = (d.x * w.x + d.y * w.y) / (d.x ** 2 + d.y ** 2)
    foot = (a.x + f * d.x, a.y + f * d.y)
    for p in parts:
        pts = list(p.each_point_hull())
        if len(pts) == 3:
            require(o in pts and any(abs(c.x - foot[0]) <= 1 and abs(c.y - foot[1]) <= 1 for c in pts), f'triangle {tri} was split to {[str(p) for p in parts]}')


@st.composite
def conductances(draw):
    return [draw(st.floats(1e-6, 1e6)) for _ in range(draw(st.integers(2, 5)))]


def run_cond(case, rec):
    from klayout_pex.rcx25.r.conductance import Conductance
    cs = [Conductance(c) for c in case]
    par, ser = cs[0], cs[0]
    for c in cs[1:]:
        par, ser = par.parallel(c), ser.serial(c)
    require(abs(par.cond - sum(case)) <= 1e-9 * sum(case), f'{case} in parallel: {par.cond}')
    w = 1 / sum(1 / c for c in case)
    require(abs(ser.cond - w) <= 1e-9 * w, f'{case} in series: {ser.cond}')
    require([c.cond for c in cs] == case, f'{case} changed to {[c.cond for c in cs]}')
    require(cs[0].serial(Conductance(0)).cond == 0 and cs[0].parallel(Conductance(0)).cond == case[0], f'{case[0]} with an open connection')
    rec.nontrivial(True)


PARTS = [Part('history', histories, run_history, quick=500, thorough=15000), Part('triangles', triangles, run_triangle, quick=600, thorough=20000),
         Part('conductance', conductances, run_cond, quick=50, thorough=1000)]
