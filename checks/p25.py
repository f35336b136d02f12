"""P25: shapes keep their points, holes and nets on the way into messages and back, and so do R extraction requests."""
from hypothesis import strategies as st
from kv import gen, geo, layers, rnet
from kv.core import Part, require, sut

PID = 'P25'
WORKERS = 8
RULE = ('generated: polygons of any angle with up to three holes, boxes and regions (far coordinates, with and without nets) through messages, bytes and back; '
        'layouts of polygons with holes on all metals, in memory and from files, into R extraction requests and results; oracle: point sets (XOR) per net, the same '
        'layout drawn without holes; non-trivial: a polygon with a hole')
ASSUMPTIONS = ['KLayout boolean operations', 'points of polygons may be added or dropped as long as the same area is covered (within a database unit along slanted edges)']

NETS = ['A', 'B', 'out<1>', 'x,y', 'é', 'VSUBS']


@st.composite
def polygon(draw, scale=None, manhattan=None):
    """outline and holes as rectangles, octagons or triangles in a 100 x 100 frame; [hull, holes, k, dx, dy, net]"""
    man = draw(st.booleans()) if manhattan is None else manhattan
    hull = draw(st.sampled_from(['box', 'L', 'U'] if man else ['oct', 'tri', 'box', 'L', 'skew']))
    holes = []
    for q in range(4):                     # one hole per quarter of the lower left 60 x 60, where every outline but U is filled
        if draw(st.integers(0, 2)) == 0:
            x, y = (q % 2) * 18 + 14, (q // 2) * 18 + 14
            w, h = draw(st.integers(2, 14)), draw(st.integers(2, 14))
            holes.append([x, y, x + w, y + h, 'box' if man else draw(st.sampled_from(['box', 'tri', 'oct']))])
    if not holes and draw(st.booleans()):
        holes.append([14, 14, 46, 46, 'box'])
    k = scale or draw(st.sampled_from([1, 7, 1000, 100000]))
    far = draw(st.sampled_from([0, 0, 1000, -123456])) if scale is None else 0
    return [hull, holes, k, far + draw(st.integers(0, 1000)), far + draw(st.integers(0, 1000)), draw(st.sampled_from([None] + NETS))]


def points(kind, x1, y1, x2, y2, k):
    x1, y1, x2, y2 = [v * k for v in (x1, y1, x2, y2)]
    cx, cy = (x2 - x1) // 4, (y2 - y1) // 4
    if kind == 'tri':
        return [(x1, y1), (x1, y2), (x2, y1)]
    if kind == 'oct':
        return [(x1 + cx, y1), (x1, y1 + cy), (x1, y2 - cy), (x1 + cx, y2), (x2 - cx, y2), (x2, y2 - cy), (x2, y1 + cy), (x2 - cx, y1)]
    if kind == 'L':
        return [(x1, y1), (x1, y2), (x1 + 3 * cx, y2), (x1 + 3 * cx, y1 + 3 * cy), (x2, y1 + 3 * cy), (x2, y1)]
    if kind == 'U':
        return [(x1, y1), (x1, y2), (x1 + 2 * cx, y2), (x1 + 2 * cx, y1 + 3 * cy), (x1 + 3 * cx, y1 + 3 * cy), (x1 + 3 * cx, y2), (x2, y2), (x2, y1)]
    if kind == 'skew':
        return [(x1, y1), (x1, y2), (x2, y2 + cy), (x2 + cx, y1)]
    return [(x1, y1), (x1, y2), (x2, y2), (x2, y1)]


def kpoly(case):
    import klayout.db as kdb
    hull, holes, k, dx, dy, net = case
    # triangles only cover x + y <= 100: the holes stay inside
    p = kdb.Polygon([kdb.Point(*q) for q in points(hull, 0, 0, 100, 100, k)])
    for x1, y1, x2, y2, kind in holes:
        p.insert_hole([kdb.Point(*q) for q in points(kind, x1, y1, x2, y2, k)])
    return p.moved(dx, dy)


@st.composite
def shape_cases(draw):
    return {'polys': draw(st.lists(polygon(), min_size=1, max_size=4)),
            'boxes': draw(st.lists(st.tuples(st.integers(-2 ** 30, 2 ** 30), st.integers(-2 ** 30, 2 ** 30), st.integers(0, 2 ** 30), st.integers(0, 2 ** 30),
                                             st.sampled_from([None] + NETS)).map(list), max_size=2)),
            'dbu': draw(st.sampled_from([0.001, 0.005]))}


def same_area(a, b, what):
    """exact for Manhattan shapes; where holes are cut at slanted edges, the cut is rounded to the grid"""
    import klayout.db as kdb
    a, b = [x if isinstance(x, kdb.Region) else kdb.Region(x) for x in (a, b)]
    x = (a ^ b) if all(q.is_rectilinear() for q in a.each_merged()) else (a ^ b).sized(-1)
    require(x.is_empty(), f'{what}: the area differs: {x}')


def run_shapes(case, rec):
    import klayout.db as kdb
    import klayout_pex_protobuf.kpex.geometry.shapes_pb2 as shapes_pb2
    from klayout_pex.klayout.shapes_pb2_converter import ShapesConverter
    conv = ShapesConverter(case['dbu'])

    def netted(p, net):
        return kdb.PolygonWithProperties(p, {'net': net} if net is not None else {})
    reg = kdb.Region()
    by_net = {}
    for c in case['polys']:
        p = kpoly(c)
        reg.insert(netted(p, c[5]))
        by_net.setdefault(c[5], kdb.Region()).insert(p)
        with sut('polygon through a message'):
            m = shapes_pb2.Polygon()
            conv.klayout_polygon_to_pb(netted(p, c[5]), m)
            m2 = shapes_pb2.Polygon()
            m2.ParseFromString(m.SerializeToString())
            q = conv.klayout_polygon(m2)
        require((q.property('net') if isinstance(q, kdb.PolygonWithProperties) else None) == c[5], f'net {c[5]} became {q}')
        same_area(p, kdb.Polygon([kdb.Point(a.x, a.y) for a in q.each_point_hull()], True) if not q.holes() else q, f'polygon {p} became {q}')
        rec.nontrivial(bool(c[1]))
        rec.label('several holes', len(c[1]) > 1)
    with sut('region through a message'):
        m = shapes_pb2.Region()
        conv.klayout_region_to_pb(reg, m)
        back = conv.klayout_region(shapes_pb2.Region.FromString(m.SerializeToString()))
    got = {}
    for p in back.each():
        got.setdefault(p.property('net'), kdb.Region()).insert(kdb.Polygon(p))
    require(set(got) == set(by_net), f'nets {set(by_net)} became {set(got)}')
    for n in got:
        same_area(by_net[n].merged(), got[n].merged(), f'region of net {n}')
    for x, y, w, h, net in case['boxes']:
        m = shapes_pb2.Box()
        m.lower_left.x, m.lower_left.y = x, y
        m.upper_right.x, m.upper_right.y = x + w, y + h
        if net is not None:
            m.net = net
        with sut('box from a message'):
            b = conv.klayout_box(m)
        require((b.left, b.bottom, b.right, b.top) == (x, y, x + w, y + h), f'box {m} became {b}')
        require((b.property('net') if isinstance(b, kdb.BoxWithProperties) else None) == net, f'net {net} became {b}')
        pm = shapes_pb2.Point()
        with sut('point through a message'):
            conv.klayout_point_to_pb(kdb.Point(x, y), pm)
            require(conv.klayout_point(pm) == kdb.Point(x, y), f'point {x},{y} became {pm}')
    rec.label('net', any(c[5] for c in case['polys']))


@st.composite
def layout_cases(draw):
    tech = draw(gen.techs())
    n = len(layers.TABLES[tech]['metals'])
    l = draw(st.integers(0, n - 2))
    slots = []
    for i in range(draw(st.integers(1, 5))):
        p = draw(polygon(scale=draw(st.sampled_from([20, 47, 90])), manhattan=draw(st.sampled_from([True, True, False]))))
        slots.append([draw(st.integers(0, 1)), p[0], p[1], p[2], draw(st.sampled_from(['A', 'B', 'C', 'D', None])), draw(st.sampled_from([1, 1, 0]))])
    return {'tech': tech, 'layer': l, 'slots': slots, 'file': draw(st.booleans()), 'blackbox': draw(st.booleans()), 'pins': draw(st.sampled_from([True, True, False]))}


def run_layouts(case, rec):
    """slot i is a 12 um wide square; every slot is one net or joins the others of the same label"""
    import klayout.db as kdb
    tech = case['tech']
    tbl = layers.TABLES[tech]
    ti = layers.tech_info(tech)
    want = {}

    def build(cut):
        ly = kdb.Layout()
        ly.dbu = 0.001
        top = ly.create_cell('TOP')
        want.clear()
        for i, (up, hull, holes, k, net, pin) in enumerate(case['slots']):
            m = tbl['metals'][case['layer'] + up]
            p = kpoly([hull, holes, k, 13000 * i, 0, None])
            if cut:
                for q in p.decompose_convex() if not p.is_box() else [p]:
                    top.shapes(ly.layer(*m[2])).insert(q)
            else:
                top.shapes(ly.layer(*m[2])).insert(p)
            if net is not None:
                # corners which no hole takes and every outline has
                spots = [(4 * k, 4 * k), (4 * k, 90 * k)][:1 + (pin and case['pins'])] if hull != 'oct' else [(50 * k, 4 * k)]
                for x, y in spots:
                    x += 13000 * i
                    top.shapes(ly.layer(*m[4])).insert(kdb.Text(net, kdb.Trans(x, y)))
                    if case['pins']:
                        top.shapes(ly.layer(*m[6])).insert(kdb.Box(x - 20, y - 20, x + 20, y + 20))
            want.setdefault((net or f'${i}', case['layer'] + up), kdb.Region()).insert(p)
        return geo.l2n_from_layout(tech, ly, top)
    with sut('LVS database'):
        l2n = build(False)
        if case['file']:
            from kv.cli import scratch
            with scratch() as d:
                l2n.write(d + '/x.l2n')
                l2n = kdb.LayoutToNetlist()
                l2n.read(d + '/x.l2n')
    expect = {k: v.merged() for k, v in want.items()}
    with sut('R extraction request'):
        ctx = geo.context(l2n, ti, case['blackbox'])
        req = request_of(ctx)
    nets = {}
    for r in req.net_extraction_requests:
        require(r.net_name not in nets, f'two requests for net {r.net_name}')
        nets[r.net_name] = r
    # nets without a label are found by their shapes
    names = {m[0]: i for i, m in enumerate(tbl['metals'])}
    canon = {m[1]: i for i, m in enumerate(tbl['metals'])}
    got = {}
    for n, r in nets.items():
        seen = set()
        for l2r in r.region_by_layer:
            i = canon.get(l2r.layer.lvs_layer_name, names.get(l2r.layer.canonical_layer_name))
            require(i is not None, f'unknown layer {l2r.layer}')
            require(i not in seen, f'net {n} has layer {l2r.layer.canonical_layer_name} twice')
            seen.add(i)
            reg = kdb.Region()
            for p in l2r.region.polygons:
                require(p.net in ('', n), f'polygon of net {p.net} in the request for {n}')
                reg.insert(kdb.Polygon([kdb.Point(q.x, q.y) for q in p.hull_points], True))
            got[n, i] = reg.merged()
    for (n, i), reg in list(expect.items()):
        if n.startswith('$'):
            key = [g for g in got if g[1] == i and g[0].startswith('$') and not (got[g] & reg).is_empty()]
            require(len(key) == 1, f'unnamed net at {reg.bbox()}: found in {key}')
            g = got.pop(key[0])
        else:
            g = got.pop((n, i), None)
            require(g is not None, f'net {n} has no shapes on {tbl["metals"][i][0]}')
        same_area(reg, g, f'net {n} on {tbl["metals"][i][0]}')
    require(not got, f'requested shapes that are not drawn: {got}')
    holes = any(s[2] for s in case['slots'])
    rec.nontrivial(holes)
    rec.label('from a file', case['file'])
    if case['pins'] and all(h in ('box', 'L', 'U') and all(q[4] == 'box' for q in hs) for _, h, hs, *_ in case['slots']):
        # the same layout drawn without holes has the same resistances
        with sut('R extraction'):
            a = resist(geo.run_25d(l2n, ti, 'R', blackbox=case['blackbox']))
            b = resist(geo.run_25d(build(True), ti, 'R', blackbox=case['blackbox']))
        require(set(a) == set(b), f'nets with resistances {sorted(a)}, drawn without holes {sorted(b)}')
        for n in a:
            require(abs(a[n] - b[n]) <= 1e-6 * max(a[n], b[n], 1e-9), f'net {n}: {a[n]} Ohm between its first ports, drawn without holes {b[n]}')
        rec.label('resistances', bool(a))
        rec.label('resistances of polygons with holes', bool(a) and holes)


def request_of(ctx):
    from klayout_pex.rcx25.r.r_extractor import RExtractor
    from klayout_pex_protobuf.kpex.klayout.r_extractor_tech_pb2 import RExtractorTech
    a = RExtractorTech.Algorithm.ALGORITHM_SQUARE_COUNTING
    return RExtractor(pex_context=ctx, substrate_algorithm=a, wire_algorithm=a, via_merge_distance=0, skip_simplify=True,
                      delaunay_amax=50.0, delaunay_b=0.5).prepare_request()


def resist(res):
    out = {}
    for cr in res.cell_extraction_results.values():
        for nw in cr.r_extraction_result.networks:
            ids = sorted((n.location.point.x, n.location.point.y, n.node_id) for n in nw.nodes if n.location.HasField('point'))
            if len(ids) < 2:
                continue
            eff = rnet.effective([i[2] for i in ids], [(e.node_a.node_id, e.node_b.node_id, e.resistance) for e in nw.elements])
            for k in range(1, len(ids)):
                v = eff[ids[0][2], ids[k][2]]
                if v is not None:
                    out[nw.net_name if not nw.net_name.startswith('$') else '$', k] = v
    return out


@st.composite
def rtech_cases(draw):
    pos = st.one_of(st.sampled_from([0.0, 0.5, 50.0, 1e-3, 0.0125, 1e6]), st.floats(0, 1e9, allow_nan=False))
    return {'skip': draw(st.booleans()),
            'conductors': [[i, draw(st.sampled_from(['SQUARE_COUNTING', 'TESSELATION'])), draw(pos), draw(pos), draw(pos)]
                           for i in draw(st.lists(st.integers(0, 300), max_size=5, unique=True))],
            'vias': draw(st.lists(st.tuples(st.integers(0, 300), st.integers(0, 300), st.integers(0, 300), pos, pos).map(list), max_size=4))}


def run_rtech(case, rec):
    import klayout.pex as klp
    from klayout_pex.klayout.rex_core import klayout_r_extractor_tech
    from klayout_pex_protobuf.kpex.klayout.r_extractor_tech_pb2 import RExtractorTech
    m = RExtractorTech()
    m.skip_simplify = case['skip']
    for i, a, b, area, r in case['conductors']:
        c = m.conductors.add()
        c.layer.id, c.algorithm, c.triangulation_min_b, c.triangulation_max_area, c.resistance = i, getattr(RExtractorTech.Algorithm, 'ALGORITHM_' + a), b, area, r
    for i, bot, top, r, dist in case['vias']:
        v = m.vias.add()
        v.layer.id, v.bottom_conductor.id, v.top_conductor.id, v.resistance, v.merge_distance = i, bot, top, r, dist
    with sut('R extractor technology'):
        t = klayout_r_extractor_tech(RExtractorTech.FromString(m.SerializeToString()))
    algo = {'SQUARE_COUNTING': klp.Algorithm.SquareCounting, 'TESSELATION': klp.Algorithm.Tesselation}
    got = [[c.layer, c.algorithm, c.triangulation_min_b, c.triangulation_max_area, c.resistance] for c in t.each_conductor()]
    want = [[c[0], algo[c[1]]] + c[2:] for c in case['conductors']]
    require(got == want, f'conductors {want} became {got}')
    got = [[v.cut_layer, v.bottom_conductor, v.top_conductor, v.resistance, v.merge_distance] for v in t.each_via()]
    require(got == case['vias'], f'vias {case["vias"]} became {got}')
    require(t.skip_simplify == case['skip'], f'skip_simplify {t.skip_simplify}')
    rec.nontrivial(bool(case['conductors']) and bool(case['vias']))
    rec.label('both algorithms', len({c[1] for c in case['conductors']}) == 2)


PARTS = [Part('rtech', rtech_cases, run_rtech, quick=100, thorough=3000), Part('shapes', shape_cases, run_shapes, quick=200, thorough=8000), Part('layouts', layout_cases, run_layouts, quick=250, thorough=6000)]
