"""P01: plate capacitance = area where two nets face each other * coefficient."""
from hypothesis import strategies as st
from kv import gen, cap25, layers, geo, ref25d
from kv.core import Part, require, sut

PID = 'P01'
RULE = ('generated: multi-layer layouts of rectangles or polygons (both PDKs, 2-7 layers, 2-4 nets, labelled), extracted by the '
        '2.5D engine with sidewall and fringe coefficients set to 0; non-trivial: at least one pair of different nets '
        'faces vertically; classes count shielded and multi-layer cases')
ASSUMPTIONS = ['KLayout region booleans, LayoutToNetlist and Python bindings are trusted',
               'layout uses the LVS layer names of the shipped decks, built in process instead of by the LVS script']


def run(case, rec):
    if not case['shapes']:
        return
    edit = cap25.edit_of(case, cap25.zero(sidewall=True, fringe=True))
    info, caps, res = cap25.check_against_reference(case, edit, ('plate',), rec, what='plate capacitance')
    net_pairs = [k for k in caps if 'VSUBS' not in k]
    rec.nontrivial(bool(net_pairs))
    rec.label('net-net', bool(net_pairs))
    rec.label('layers>=3', len({s[0] for s in case['shapes']}) >= 3)


def run_polygons(case, rec):
    """Arbitrary (non-Manhattan) polygons; the oracle works on whole regions of a net per layer."""
    import klayout.db as kdb
    names = layers.metal_names(case['tech'])
    shapes = []
    regs = {}
    for l, n, pts in case['shapes']:
        p = kdb.Polygon([kdb.Point(*q) for q in pts])
        if p.area() <= 0:
            continue
        r = kdb.Region(p)
        r.merge()
        if r.count() != 1:
            continue
        q = next(r.each())
        if q.holes() > 0 or kdb.Region(q).sized(-10).is_empty():
            continue
        if any(l2 == l and n2 != n and not (kdb.Region(q).interacting(r2).is_empty()
                                            and (kdb.Region(q).sized(5) & r2).is_empty())
               for (l2, n2), r2 in regs.items()):
            continue
        pts2 = [[pt.x, pt.y] for pt in q.each_point_hull()]
        shapes.append([l, n, pts2])
        regs.setdefault((l, n), kdb.Region()).insert(q)
    if not shapes:
        return
    c = dict(case, shapes=shapes)
    ti, res, caps = cap25.extract(c, cap25.zero(sidewall=True, fringe=True))
    co = layers.Coefs(ti.tech)
    bb = kdb.Box()
    for r in regs.values():
        r.merge()
        bb += r.bbox()
    regs[(-1, 'VSUBS')] = kdb.Region(bb.enlarged(10000, 10000))
    exp, slack = {}, {}
    keys = sorted(regs)
    for lb, nb in keys:
        for lt, nt in keys:
            if lt <= lb or nt == nb:
                continue
            face = regs[(lb, nb)] & regs[(lt, nt)]
            for (lm, nm), rm in regs.items():
                if lb < lm < lt:
                    face = face - rm
            coef = co.area(names[lt], 'VSUBS' if lb < 0 else names[lb])
            k = ref25d.pair(nb, nt)
            exp[k] = exp.get(k, 0.0) + face.area() * 1e-6 * coef / 1000
            per = sum(regs[x].perimeter() for x in keys if x[0] >= 0)
            slack[k] = slack.get(k, 0.0) + per * 2e-6 * coef / 1000      # snapping of skew edges to the grid
    for k in set(exp) | set(caps):
        e, a, s = exp.get(k, 0.0), caps.get(k, 0.0), slack.get(k, 0.0)
        require(abs(e - a) <= s + 1e-9, f'plate capacitance {k}: got {a} fF, expected {e} +- {s} fF')
    rec.nontrivial(any('VSUBS' not in k for k in caps))
    rec.label('skew', any(len(s[2]) != 4 for s in shapes))


@st.composite
def polys(draw):
    tech = draw(gen.techs())
    n = len(layers.metal_names(tech))
    ls = sorted(draw(st.permutations(range(n)))[:draw(st.integers(2, 4))])
    out = []
    for _ in range(draw(st.integers(2, 7))):
        ox, oy = draw(st.integers(0, 400)) * 10, draw(st.integers(0, 400)) * 10
        k = draw(st.integers(3, 6))
        out.append([draw(st.sampled_from(ls)), draw(st.sampled_from(gen.NETS)),
                    [[ox + draw(st.integers(0, 300)) * 10, oy + draw(st.integers(0, 300)) * 10] for _ in range(k)]])
    return {'tech': tech, 'shapes': out, 'scale': False}


PARTS = [
    Part('rects', lambda: gen.varied(st.one_of(gen.any_layouts(n_layers=(2, 7), shapes=(2, 12)), gen.stacked())), run,
         quick=400, thorough=6000,
         fixed=[  # a same-net shape above shields what is over it
             {'tech': 'sky130A', 'halo': None, 'scale': False, 'shapes': [
                 [2, 'A', [0, 0, 4000, 4000]], [3, 'A', [0, 0, 4000, 4000]], [4, 'B', [0, 0, 4000, 4000]]]}]),
    Part('polygons', polys, run_polygons, quick=120, thorough=3000),
]
