"""P10: a PEX mode extracts exactly what it names: CC capacitances, R resistances, RC both, the same as alone."""
from hypothesis import strategies as st
from kv import gen, geo, layers, rnet
from kv.core import Part, require, sut
from checks import p08, p09, p13

PID = 'P10'
WORKERS = 8
RULE = ('generated: layouts with wires, vias, pins over all metals and rows of metal and capacitor parts, each extracted in CC, R and RC '
        'mode in any order, from contexts of their own or one shared context, whose content must stay; non-trivial: both capacitances and resistors exist')
ASSUMPTIONS = ['values of a single mode are decided by P01-P03 and P08']


@st.composite
def cases(draw):
    kind = draw(st.integers(0, 4))
    if kind == 4:       # rows of wires whose metal is in part the plate of a capacitor
        tech = draw(gen.techs())
        l = draw(st.sampled_from(sorted(p13.groups(tech)[0])))
        shapes, cap = [], []
        for k in range(draw(st.integers(1, 2))):
            x, first = draw(st.integers(0, 5)) * 500, draw(st.booleans())
            for i in range(draw(st.integers(2, 4))):
                w = draw(st.integers(2, 8)) * 500
                shapes.append([l, 'AB'[k], [x, k * 3000, x + w, k * 3000 + 1000]])
                cap.append(bool((i + first) % 2))
                x += w
        o = draw(st.integers(l - 1, l))
        if draw(st.booleans()):
            shapes.append([o - (o == l), 'C', [0, 0, draw(st.integers(1, 10)) * 1000, draw(st.integers(1, 5)) * 1000]])
            cap.append(False)
        c = {'kind': 'parts', 'tech': tech, 'shapes': shapes, 'cap': cap, 'blackbox': draw(st.booleans()), 'pins': draw(st.booleans())}
    elif kind < 2:
        c = dict(draw(p09.shape_cases()))
        c['kind'] = 'shapes'
        # labelled shapes, kept legal
        for i, s in enumerate(c['shapes']):
            s[1] = draw(st.sampled_from(gen.NETS))
        c['shapes'] = geo.legal_shapes(c['shapes'])
    else:
        c = dict(draw(p08.tree_cases()))
        c['kind'] = 'tree'
        c['blackbox'] = draw(st.booleans())
    c['shared'] = draw(st.booleans())
    c['order'] = draw(st.permutations(['RC', 'CC', 'R']))
    c['halo'] = draw(st.sampled_from([None, 1.0]))
    c['scale'] = draw(st.booleans())
    return c


def canonical(nws):
    out = {}
    for nw in nws:
        idx = {}
        nodes = []
        for n in nw.nodes:
            idx[n.node_id] = len(nodes)
            loc = n.location.point if n.location.HasField('point') else n.location.box
            nodes.append((n.node_name, n.net_name, n.layer_name, str(loc)))
        els = sorted((*sorted((nodes[idx[e.node_a.node_id]], nodes[idx[e.node_b.node_id]])), round(e.resistance, 9)) for e in nw.elements)
        out[nw.net_name] = (sorted(nodes), els)
    return out


def content(ctx):
    import klayout.db as kdb
    out = {}
    for gp in sorted(ctx.extracted_layers):
        by_net = {}
        r = ctx.shapes_of_layer(gp)
        it, tr = r.begin_shapes_rec()
        while not it.at_end():
            by_net.setdefault(str(it.shape().property('net')), kdb.Region()).insert(tr * it.trans() * it.shape().polygon)
            it.next()
        out[gp] = {k: v.merged().area() for k, v in by_net.items()}
    return out


def run(case, rec):
    if case['kind'] == 'shapes':
        if not case['shapes']:
            return
        def make():
            return p09.build_shapes(case)[0]
    elif case['kind'] == 'parts':
        pins = [[s[0], s[1], s[2]] for s, k in zip(case['shapes'], case['cap']) if not k] if case['pins'] else []
        def make():
            return p13.make(case['tech'], case['shapes'], case['cap'], [], pins)[0]
    else:
        nets = rnet.legalize(case['tree'])
        if not nets:
            return
        shapes, vias, pins, points = rnet.geometry(case['tech'], nets, [f'N{i}' for i in range(len(nets))])
        def make():
            return geo.build_l2n(case['tech'], shapes, vias=vias, pins=pins, labels=False, dbu=case['dbu'], hier=case['hier'])
    ti = layers.tech_info(case['tech'], halo=case['halo'])
    res = {}
    with sut('extraction'):
        l2n = make()
        ctx = geo.context(l2n, ti, case['blackbox']) if case['shared'] else None
        before = content(ctx) if ctx else None
        for mode in case.get('order', ('RC', 'CC', 'R')):
            keep = l2n if ctx else make()
            r = geo.run_25d(keep, ti, mode, case['scale'], blackbox=case['blackbox'], ctx=ctx)
            nws = [nw for cr in r.cell_extraction_results.values() for nw in cr.r_extraction_result.networks]
            res[mode] = (geo.caps_of(r), canonical(nws), dict(r.summarize().resistances))
    if ctx:
        after = content(ctx)
        require(after == before, lambda: f'the extractions changed the context they share: areas by layer and net {after}, before {before}')
    require(not res['R'][0], f'R mode extracted capacitances {res["R"][0]}')
    require(not res['CC'][1] and not res['CC'][2], f'CC mode extracted resistances {res["CC"][2]}')
    a, b = res['RC'][0], res['CC'][0]
    require(set(a) == set(b) and all(abs(a[k] - b[k]) <= 1e-9 * abs(b[k]) for k in b), f'capacitances in RC mode {a}, in CC mode {b}')
    require(res['RC'][1] == res['R'][1], lambda: f'networks in RC mode {res["RC"][1]}, in R mode {res["R"][1]}')
    rec.nontrivial(bool(b) and any(v[1] for v in res['R'][1].values()))
    rec.label(case['kind'])
    rec.label('shared context', case['shared'])


PARTS = [Part('modes', cases, run, quick=150, thorough=4000)]
