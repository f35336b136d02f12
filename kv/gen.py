"""Hypothesis strategies for layouts (all cases are JSON-able)."""
from hypothesis import strategies as st

NETS = ['A', 'B', 'C', 'D']


def rect(draw, span, grid, wmin=1, wmax=None):
    wmax = wmax or max(wmin, span // 2)
    x = draw(st.integers(0, span))
    y = draw(st.integers(0, span))
    w = draw(st.integers(wmin, wmax))
    h = draw(st.integers(wmin, wmax))
    if draw(st.booleans()):      # wires: one narrow side
        if draw(st.booleans()):
            w = min(w, 1 + wmin)
        else:
            h = min(h, 1 + wmin)
    return [x * grid, y * grid, (x + w) * grid, (y + h) * grid]


@st.composite
def layouts(draw, tech='sky130A', n_layers=(2, 4), shapes=(2, 10), nets=NETS, span=24, grids=(5, 50, 100, 200, 500),
            halos=(None, 1.0, 2.0, 0.5), layer_pool=None):
    """A legal rectilinear layout. Shapes: [layer index, net, rect]"""
    from .layers import TABLES
    from .geo import legal_shapes
    n_all = len(TABLES[tech]['metals'])
    k = draw(st.integers(*n_layers))
    pool = list(range(n_all)) if layer_pool is None else list(layer_pool)
    layers = sorted(draw(st.permutations(pool))[:k])
    grid = draw(st.sampled_from(list(grids)))
    n = draw(st.integers(*shapes))
    used = nets[:draw(st.integers(2, len(nets)))]
    sh = []
    for _ in range(n):
        sh.append([draw(st.sampled_from(layers)), draw(st.sampled_from(used)), rect(draw, span, grid)])
    return {'tech': tech, 'shapes': legal_shapes(sh), 'halo': draw(st.sampled_from(list(halos))),
            'scale': draw(st.booleans())}


def techs():
    return st.sampled_from(['sky130A', 'ihp_sg13g2'])


def any_layouts(**kw):
    return st.one_of(layouts(tech='sky130A', **kw), layouts(tech='ihp_sg13g2', **kw))


@st.composite
def stacked(draw, tech=None, layers=None, nets=NETS, span=10, grids=(100, 200, 500), halos=(None, 1.0, 2.0)):
    """Dense stacks: on every layer some rectangles over the same spot, so that shielding by
    nearer conductors (vertically and laterally) is the rule."""
    from .layers import TABLES
    from .geo import legal_shapes
    tech = tech or draw(techs())
    n_all = len(TABLES[tech]['metals'])
    lo = draw(st.integers(0, n_all - 2))
    hi = draw(st.integers(lo + 1, min(n_all - 1, lo + 3)))
    grid = draw(st.sampled_from(list(grids)))
    sh = []
    for l in range(lo, hi + 1):
        for _ in range(draw(st.integers(1, 3))):
            x, y = draw(st.integers(0, span)), draw(st.integers(0, span))
            w, h = draw(st.integers(1, span)), draw(st.integers(1, span))
            sh.append([l, draw(st.sampled_from(nets)), [x * grid, y * grid, (x + w) * grid, (y + h) * grid]])
    return {'tech': tech, 'shapes': legal_shapes(sh), 'halo': draw(st.sampled_from(list(halos))),
            'scale': draw(st.booleans())}


@st.composite
def wires(draw, tech=None, nets=NETS, grids=(50, 100, 200), halos=(None, 1.0, 2.0)):
    """Parallel and crossing wires on one or two layers (bus-like)."""
    from .layers import TABLES
    from .geo import legal_shapes
    tech = tech or draw(techs())
    n_all = len(TABLES[tech]['metals'])
    l0 = draw(st.integers(0, n_all - 1))
    grid = draw(st.sampled_from(list(grids)))
    sh = []
    pos = 0
    for _ in range(draw(st.integers(2, 5))):
        w = draw(st.integers(1, 3))
        a = draw(st.integers(0, 10))
        b = a + draw(st.integers(1, 15))
        sh.append([l0, draw(st.sampled_from(nets)), [pos * grid, a * grid, (pos + w) * grid, b * grid]])
        pos += w + draw(st.integers(1, 6))
    for _ in range(draw(st.integers(0, 2))):
        l1 = draw(st.integers(0, n_all - 1))
        y = draw(st.integers(0, 20))
        h = draw(st.integers(1, 3))
        x = draw(st.integers(-5, 10))
        sh.append([l1, draw(st.sampled_from(nets)), [x * grid, y * grid, (x + draw(st.integers(2, 25))) * grid,
                                                     (y + h) * grid]])
    c = {'tech': tech, 'shapes': legal_shapes(sh), 'halo': draw(st.sampled_from(list(halos))),
         'scale': draw(st.booleans())}
    if draw(st.booleans()):
        c['shapes'] = [[l, n, [r[1], r[0], r[3], r[2]]] for l, n, r in c['shapes']]
    return c


def mixed_layouts(**kw):
    return st.one_of(any_layouts(**kw), stacked(), wires(), rings())


@st.composite
def rings(draw, tech=None, nets=NETS, halos=(None, 1.0, 2.0)):
    """Frames (polygons with holes) with islands inside, plus plates over and under them."""
    from .layers import TABLES
    from .geo import legal_shapes
    tech = tech or draw(techs())
    n_all = len(TABLES[tech]['metals'])
    l = draw(st.integers(0, n_all - 1))
    g = draw(st.sampled_from([50, 100, 200]))
    w, h, t = draw(st.integers(6, 24)), draw(st.integers(6, 24)), draw(st.integers(1, 2))
    n0 = draw(st.sampled_from(nets))
    sh = [[l, n0, [0, 0, w * g, t * g]], [l, n0, [0, (h - t) * g, w * g, h * g]],
          [l, n0, [0, 0, t * g, h * g]], [l, n0, [(w - t) * g, 0, w * g, h * g]]]
    if draw(st.booleans()):
        sh.pop(draw(st.integers(0, 3)))
    for _ in range(draw(st.integers(0, 3))):
        x, y = draw(st.integers(t + 1, w - 1)), draw(st.integers(t + 1, h - 1))
        sh.append([l, draw(st.sampled_from(nets)), [x * g, y * g, (x + draw(st.integers(1, 4))) * g,
                                                    (y + draw(st.integers(1, 4))) * g]])
    for _ in range(draw(st.integers(0, 3))):
        sh.append([draw(st.integers(max(0, l - 2), min(n_all - 1, l + 2))), draw(st.sampled_from(nets)),
                   rect(draw, 24, g)])
    return {'tech': tech, 'shapes': legal_shapes(sh), 'halo': draw(st.sampled_from(list(halos))),
            'scale': draw(st.booleans())}


NAME_POOLS = [None, ['vdd', 'VSS', 'out', 'n1'], ['a<0>', 'a<1>', 'b[0]', 'b[1]'], ['z', 'Y', 'x', 'W'],
              ['net1', 'net10', 'net2', 'NET1']]


@st.composite
def varied(draw, base):
    """The same layout somewhere else, in another database unit, in subcells, with other net names,
    with other table values."""
    c = dict(draw(base))
    if draw(st.integers(0, 2)):
        return c
    if draw(st.booleans()):
        c['seed'] = draw(st.integers(1, 50))
    if draw(st.booleans()):
        c['off'] = [draw(st.integers(-20000, 20000)) * 50, draw(st.integers(-20000, 20000)) * 50]
    if draw(st.booleans()):
        c['dbu'] = draw(st.sampled_from([0.0005, 0.002, 0.005]))
    if draw(st.integers(0, 3)) == 0:
        c['shapes'] = [[l, n, [10 * v for v in r]] for l, n, r in c['shapes']]
        c['halo'] = draw(st.sampled_from([8.0, 12.5, 25.0, 40.0, None]))
    if draw(st.booleans()):
        c['hier'] = draw(st.integers(1, 3))
    if draw(st.booleans()):
        c['names'] = draw(st.integers(1, len(NAME_POOLS) - 1))
    return c


def realize(case):
    """(shapes, dbu, hier) of a varied case"""
    sh = [[l, n, list(r)] for l, n, r in case['shapes']]
    if case.get('off'):
        dx, dy = case['off']
        sh = [[l, n, [r[0] + dx, r[1] + dy, r[2] + dx, r[3] + dy]] for l, n, r in sh]
    if case.get('names'):
        pool = NAME_POOLS[case['names']]
        sh = [[l, pool[NETS.index(n)] if n in NETS else n, r] for l, n, r in sh]
    return sh, case.get('dbu', 0.001), case.get('hier', 0)


def unique_nets(shapes):
    """Renames nets such that every connected piece (there are no vias) is a net of its own:
    the LVS database names every net of a circuit differently."""
    from .geo import rect_conflict
    comp = list(range(len(shapes)))

    def find(i):
        while comp[i] != i:
            i = comp[i]
        return i
    for i, (l, n, r) in enumerate(shapes):
        for j in range(i):
            l2, n2, r2 = shapes[j]
            if l == l2 and n == n2 and rect_conflict(r, r2):
                comp[find(i)] = find(j)
    names = {}
    used = {}
    out = []
    for i, (l, n, r) in enumerate(shapes):
        f = find(i)
        if f not in names:
            k = used.get(n, 0)
            used[n] = k + 1
            names[f] = n if k == 0 or n is None else f'{n}_{k}'
        out.append([l, names[f], r])
    return out
