"""P11: the extraction context maps LVS layers and nets of the LVS database faithfully."""
from hypothesis import strategies as st
from kv import gen, layers, mos
from kv.core import Part, require, sut

PID = 'P11'
RULE = ('generated: LVS databases with shapes on any of the LVS layers of both PDKs (regular, MIM/MOM capacitor, pin and '
        'unknown layers, several LVS layers of one GDS layer), named and unnamed nets over several layers, subcells, black and white box; '
        'MOS rows for devices; oracle: the drawn shapes themselves; non-trivial: two nets share a layer or a capacitor '
        'layer is present')
ASSUMPTIONS = ['shapes are compared as point sets (merged regions)',
               'nets local to a subcell are left out: finding H1 in known_findings.jsonl']

KIND = {0: 'unspecified', 1: 'KIND_REGULAR', 2: 'KIND_DEVICE_CAPACITOR', 3: 'KIND_DEVICE_RESISTOR', 4: 'KIND_PIN', 5: 'KIND_LABEL'}


def lvs_layers(tech, share=0):
    """share: so many regular LVS layers have one GDS pair"""
    out = []
    for c in layers.tech_json(tech)['lvs_computed_layers']:
        if c['kind'] != 'KIND_LABEL':
            g = c['layer_info']['drw_gds_pair']
            out.append((c['layer_info']['name'], c['kind'], (g.get('layer', 0), g.get('datatype', 0))))
    reg = [i for i, l in enumerate(out) if l[1] == 'KIND_REGULAR']
    if share:
        for i in reg[3:3 + share]:
            out[i] = out[i][:2] + (out[reg[3]][2],)
    return out


def tech_info(case):
    if not case.get('share'):
        return layers.tech_info(case['tech'])
    tab = {l[0]: l[2] for l in lvs_layers(case['tech'], case['share'])}

    def edit(pb):
        for c in pb.lvs_computed_layers:
            if c.layer_info.name in tab:
                g = c.layer_info.drw_gds_pair
                g.layer, g.datatype = tab[c.layer_info.name]
    return layers.tech_info(case['tech'], edit=edit)


@st.composite
def cases(draw):
    tech = draw(gen.techs())
    n = len(lvs_layers(tech))
    share = draw(st.sampled_from([0, 0, 0, 2, 3, 4, 5]))
    pool = draw(st.lists(st.integers(0, n), min_size=1, max_size=5, unique=True))    # n: a layer kpex does not know
    if share or draw(st.integers(0, 3)) == 0:
        multi = [i for i, l in enumerate(lvs_layers(tech, share)) if sum(1 for m in lvs_layers(tech, share) if m[2] == l[2]) > 1]
        pool = list(dict.fromkeys((pool[:1] if share else pool) + multi))
    shapes = []
    for _ in range(draw(st.integers(1, 10))):
        shapes.append([draw(st.sampled_from(pool)), draw(st.sampled_from(['A', 'B', 'x<0>', None])),
                       gen.rect(draw, 20, 100, 1, 8)])
    return {'tech': tech, 'share': share, 'shapes': shapes, 'blackbox': draw(st.booleans()), 'hier': draw(st.sampled_from([0, 0, 1, 2])),
            'order': draw(st.permutations(pool)), 'dbu': draw(st.sampled_from([0.001, 0.001, 0.005, 0.0005])),
            'file': draw(st.integers(0, 3)) == 0}


def build(case, cls=None):
    """every net is one polygon soup joined by a hidden layer"""
    import klayout.db as kdb
    tab = lvs_layers(case['tech'], case.get('share', 0))
    ly = kdb.Layout()
    ly.dbu = case['dbu']
    top = ly.create_cell('TOP')
    subs = [ly.create_cell(f'S{k}') for k in range(case['hier'])]
    for k, c in enumerate(subs):
        top.insert(kdb.CellInstArray(c.cell_index(), kdb.Trans(k % 4, k % 2 == 1, kdb.Vector(5000 * k, 300))))
    trans = [kdb.Trans(k % 4, k % 2 == 1, kdb.Vector(5000 * k, 300)) for k in range(case['hier'])]
    accepted = []
    for i, (l, n, r) in enumerate(case['shapes']):
        # shapes of different nets must not touch on a layer; unnamed ones are nets of their own (per shape)
        key = n if n is not None else f'?{i}'
        if any(l == l2 and key != k2 and r[0] <= q[2] and q[0] <= r[2] and r[1] <= q[3] and q[1] <= r[3]
               for l2, k2, q in accepted):
            continue
        accepted.append([l, key, r])
        if n is None or not subs or i % (len(subs) + 1) == 0:
            top.shapes(ly.layer(300 + l, 0)).insert(kdb.Box(*r))
        else:
            k = i % (len(subs) + 1) - 1
            subs[k].shapes(ly.layer(300 + l, 0)).insert(kdb.Box(*r).transformed(trans[k].inverted()))
        if n is not None:
            top.shapes(ly.layer(300 + l, 1)).insert(kdb.Text(n, kdb.Trans((r[0] + r[2]) // 2, (r[1] + r[3]) // 2)))
    for l, r, name in case.get('local', []):        # nets inside of subcells (known finding only)
        subs[0].shapes(ly.layer(300 + l, 0)).insert(kdb.Box(*r).transformed(trans[0].inverted()))
        accepted.append([l, f'{name} of S0', r])
        b = kdb.Box(*r).transformed(trans[0].inverted())
        subs[0].shapes(ly.layer(300 + l, 1)).insert(kdb.Text(name, kdb.Trans(b.center().x, b.center().y)))
    l2n = (cls or kdb.LayoutToNetlist)(kdb.RecursiveShapeIterator(ly, top, []))
    order = list(case['order'])
    for l in sorted({s[0] for s in case['shapes']}):
        if l not in order:
            order.append(l)
    for l in order:
        name = tab[l][0] if l < len(tab) else 'some_layer'
        r = l2n.make_layer(ly.layer(300 + l, 0), name)
        t = l2n.make_text_layer(ly.layer(300 + l, 1), f'text_{l}')
        l2n.connect(r)
        l2n.connect(r, t)
    l2n._kv = ly
    l2n.join_net_names('*')
    l2n.extract_netlist()
    return l2n, accepted, tab, order


def merged(region):
    import klayout.db as kdb
    r = kdb.Region()
    if region is not None:
        for p in region.each():
            r.insert(p if isinstance(p, kdb.Polygon) else kdb.Polygon(p))
    return r.merged()


def region_of(rects):
    import klayout.db as kdb
    return kdb.Region([kdb.Polygon(kdb.Box(*r)) for r in rects]).merged()


def flat(region):
    import klayout.db as kdb
    out = kdb.Region()
    it, t = region.begin_shapes_rec()
    while not it.at_end():
        out.insert(t * it.trans() * it.shape().polygon)
        it.next()
    return out.merged()


def props(region):
    """{net property: merged region}"""
    import klayout.db as kdb
    d = {}
    it, t = region.begin_shapes_rec()
    while not it.at_end():
        d.setdefault(it.shape().property('net'), kdb.Region()).insert(t * it.trans() * it.shape().polygon)
        it.next()
    return {k: v.merged() for k, v in d.items()}


def same(a, b):
    return (a ^ b).is_empty()


def run(case, rec):
    import os
    import tempfile
    import klayout.db as kdb
    from klayout_pex.klayout.lvsdb_extractor import KLayoutExtractionContext
    ti = tech_info(case)
    with sut('extraction context'):
        l2n, accepted, tab, order = build(case)
        if case['file']:
            with tempfile.TemporaryDirectory() as d:
                l2n.write(os.path.join(d, 'x.l2n'))
                l2n = kdb.LayoutToNetlist()
                l2n.read(os.path.join(d, 'x.l2n'))
        ctx = KLayoutExtractionContext.prepare_extraction(lvsdb=l2n, top_cell='TOP', tech=ti,
                                                          blackbox_devices=case['blackbox'])
    require(ctx.dbu == case['dbu'] == ctx.annotated_layout.dbu, 'database unit changed')
    circuit = l2n.netlist().circuit_by_name('TOP')
    visible = {}
    for l, key, r in accepted:
        if l >= len(tab):
            continue
        name, kind, pair = tab[l]
        if case['blackbox'] and kind in ('KIND_DEVICE_CAPACITOR', 'KIND_DEVICE_RESISTOR'):
            continue
        visible.setdefault(pair, []).append((l, key, r))
    require(set(ctx.extracted_layers) == set(visible),
            f'extracted layers {sorted(ctx.extracted_layers)}, drawn (and not blackboxed) {sorted(visible)}')
    unknown = any(l == len(tab) for l, _, _ in accepted)
    require([u.lvs_layer_name for u in ctx.unnamed_layers] in ([], ['some_layer']) and
            (bool(ctx.unnamed_layers) <= unknown), f'unknown layers {[u.lvs_layer_name for u in ctx.unnamed_layers]}')
    # net names as the netlist has them, found by geometry
    for pair, items in visible.items():
        require({s.lvs_layer_name for s in ctx.extracted_layers[pair].source_layers} == {tab[l][0] for l, _, _ in items},
                f'source layers of {pair}')
        with sut('shapes_of_layer'):
            reg = ctx.shapes_of_layer(pair)
            got = props(reg)
        require(same(flat(reg), region_of([r for _, _, r in items])), f'shapes of layer {pair} differ from the drawn ones')
        want = {}
        for l, key, r in items:
            want.setdefault(key, []).append(r)
        named = {k for k in want if not k.startswith('?')}
        require(named <= set(got), f'nets on {pair}: {sorted(map(str, got))}, drawn {sorted(named)}')
        for k in named:
            require(same(got[k], region_of(want[k])), f'shapes tagged {k} on {pair} are not those drawn for {k}')
        rest = {k: v for k, v in got.items() if k not in named}
        require(all(isinstance(k, str) and k.startswith('$') for k in rest), f'unexpected net tags {list(rest)} on {pair}')
        # touching shapes of one unnamed piece do not exist: every unnamed shape is its own net
        un = [region_of(want[k]) for k in want if k.startswith('?')]
        require(len(un) == len(rest) and all(any(same(u, v) for v in rest.values()) for u in un),
                f'unnamed nets on {pair}: {len(rest)} tags for {len(un)} shapes')
        for n in circuit.each_net():
            with sut('shapes_of_net'):
                a = ctx.shapes_of_net(pair, n)
                b = ctx.shapes_of_net(pair, n.expanded_name())
            w = got.get(n.expanded_name(), kdb.Region())
            require(same(merged(a), w) and same(merged(b), w), f'shapes_of_net({pair}, {n.expanded_name()})')
    require(ctx.shapes_of_layer((9999, 9)) is None and ctx.shapes_of_net((9999, 9), 'A') is None, 'shapes of a layer that does not exist')
    bb = ctx.top_cell_bbox()
    full = region_of([r for _, _, r in accepted]).bbox()
    require(not visible or (kdb.Box(bb.left, bb.bottom, bb.right, bb.top) + region_of([r for i in visible.values() for _, _, r in i]).bbox()) == bb,
            f'top cell bounding box {bb} does not contain the shapes')
    require(full.contains(bb.p1) and full.contains(bb.p2), f'top cell bounding box {bb} is larger than the layout {full}')
    rec.nontrivial(any(len({k for _, k, _ in v}) > 1 for v in visible.values()) or
                   any(l < len(tab) and 'CAP' in tab[l][1] for l, _, _ in accepted))
    rec.label('blackbox', case['blackbox'])
    rec.label('hier', case['hier'] > 0)
    rec.label('two LVS layers of one GDS layer', any(len({l for l, _, _ in v}) > 1 for v in visible.values()))
    rec.label('three LVS layers of one GDS layer', any(len({l for l, _, _ in v}) > 2 for v in visible.values()))
    rec.label('unknown layer', unknown)
    rec.label('capacitor layer', any(l < len(tab) and 'CAP' in tab[l][1] for l, _, _ in accepted))
    rec.label('unnamed', any(k.startswith('?') for _, k, _ in accepted))


@st.composite
def mos_cases(draw):
    from checks import p08
    c = draw(p08.mos_cases())
    c['rename'] = draw(st.sampled_from([0, 0, 1, 2, 3]))      # several terminals on one net
    return c


def run_devices(case, rec):
    import klayout.db as kdb
    from kv import geo
    ti = layers.tech_info(case['tech'])
    with sut('devices'):
        nm = mos.renaming(case.get('rename', 0))
        l2n, info = mos.build(case['tech'], case['rows'], rename=nm if case.get('rename') else None)
        ctx = geo.context(l2n, ti, case['blackbox'])
        dd = ctx.devices_by_name
    want = []
    for k, r in enumerate(case['rows']):
        L, P, h = r['len'], r['pitch'], r['h']
        box = lambda s: (r['x'] + s * (L + P), r['y'], r['x'] + s * (L + P) + P, r['y'] + h)
        for g in range(r['gates']):
            gb = (r['x'] + P + g * (L + P), r['y'], r['x'] + P + g * (L + P) + L, r['y'] + h)
            want.append((f"{r['pol']}mos", nm(f'g{k}_{g}'), gb, tuple(sorted([(nm(f's{k}_{g}'), box(g)), (nm(f's{k}_{g + 1}'), box(g + 1))])),
                         round(L / 1000, 6), round(h / 1000, 6)))
    got = []
    for name, d in dd.items():
        require(name == d.device_name, f'device {d.device_name} listed as {name}')
        t = {x.name: x for x in d.terminals}
        require(len(t) == len(d.terminals) == 3, f'terminals {[x.name for x in d.terminals]}')

        def shape(x):
            reg = kdb.Region()
            for l2r in x.region_by_layer:
                for p in l2r.region.polygons:
                    reg.insert(kdb.Polygon([kdb.Point(q.x, q.y) for q in p.hull_points]))
            b = reg.bbox()
            require(reg.merged().is_box(), f'terminal {x.name} of {name} is not a box')
            return (b.left, b.bottom, b.right, b.top)
        par = {p.name: p.value for p in d.parameters}
        got.append((d.device_class_name, t['G'].net_name, shape(t['G']),
                    tuple(sorted([(t['S'].net_name, shape(t['S'])), (t['D'].net_name, shape(t['D']))])),
                    round(par['L'], 6), round(par['W'], 6)))
        li = {'gate': layers.TABLES[case['tech']]['metals'][0][0]}
        for n, x in t.items():
            names = {r.layer.canonical_layer_name for r in x.region_by_layer}
            from checks import p08
            exp = li['gate'] if n == 'G' else p08.SD_LAYER[case['tech']][d.device_class_name[0]]
            require(names == {exp}, f'terminal {n} of {name} on {names}, expected {exp}')
    require(sorted(got) == sorted(want), lambda: f'devices {sorted(got)}, drawn {sorted(want)}')
    rec.nontrivial(len(got) > 1)
    rec.label('two terminals on one net', any(len({g[1], g[3][0][0], g[3][1][0]}) < 3 for g in got))


PARTS = [
    Part('layers', cases, run, quick=400, thorough=8000),
    Part('devices', mos_cases, run_devices, quick=60, thorough=1000),
]
