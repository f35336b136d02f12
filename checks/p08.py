"""P08: extracted resistor networks carry the resistance of the drawn wires, contacts and vias."""
from hypothesis import strategies as st
from kv import gen, geo, layers, mos, rnet
from kv.core import Part, require, sut

PID = 'P08'
WORKERS = 8
RULE = ('generated: trees and meshes of straight wires joined by vias over all metals of both PDKs with pins anywhere (with '
        'given or scrambled resistance tables, database units, subcells), MOS rows with contacted source/drain strips and gates, and '
        'arbitrary merged rectangles for metamorphic relations; the oracle is an independent circuit (sheet resistance x '
        'length / width, contact resistance x contact area / via area) solved for the effective resistance of every pair of '
        'ports; non-trivial: at least one pair of ports with a positive resistance')
ASSUMPTIONS = ['klayout.pex is given, its inputs (tables, ports, shapes, vias) come from the code under test',
               'effective resistances compared with 1e-6 relative tolerance']

VIA_KEYS = {'sky130A': ['poly', 'mcon', 'via', 'via2', 'via3', 'via4'],
            'ihp_sg13g2': ['poly_con', 'Via1', 'Via2', 'Via3', 'Via4', 'TopVia1', 'TopVia2']}
CAP_VIAS = {4: 'via3_cap', 5: 'via4_cap'}        # sky130A
SD_KEYS = {'sky130A': {'n': 'nsdm', 'p': 'psdm'}, 'ihp_sg13g2': {'n': 'nsd_fet', 'p': 'psd_fet'}}
SD_LAYER = {'sky130A': {'n': 'nsdm', 'p': 'psdm'}, 'ihp_sg13g2': {'n': 'nSD', 'p': 'pSD'}}


def scramble(seed, factor=1.0):
    import hashlib

    def f(*key):
        if not seed:
            return factor
        h = hashlib.sha256(repr((seed,) + key).encode()).digest()
        return factor * (0.25 + 1.5 * int.from_bytes(h[:4], 'big') / 2 ** 32)

    def edit(pb):
        r = pb.process_parasitics.resistance
        for x in r.layers:
            x.resistance *= f('l', x.layer_name)
        for x in r.contacts:
            x.resistance *= f('c', x.contact_name)
        for x in r.vias:
            x.resistance *= f('v', x.via_name)
    return edit


class Tables:
    def __init__(self, tech, pb):
        r = pb.process_parasitics.resistance
        lay = {x.layer_name: x.resistance / 1000 for x in r.layers}
        self.rho = [lay[m[0]] for m in layers.TABLES[tech]['metals']]
        self.cont = {x.device_layer_name: x.resistance / 1000 for x in r.contacts}
        self.via = {x.via_name: x.resistance / 1000 for x in r.vias}
        self.tech = tech

    def via_r(self, v):
        k = VIA_KEYS[self.tech][v]
        return self.cont[k] if v == 0 else self.via[k]


def tech_of(case, factor=1.0):
    return layers.tech_info(case['tech'], edit=scramble(case.get('seed'), factor))


def networks(l2n, ti, mode='R', blackbox=True):
    res = geo.run_25d(l2n, ti, mode, blackbox=blackbox)
    out = []
    for cr in res.cell_extraction_results.values():
        out += list(cr.r_extraction_result.networks)
    return out


def by_net(nws):
    d = {}
    for nw in nws:
        d.setdefault(nw.net_name, []).append(nw)
    return d


def edges_of(nw):
    return [(x.node_a.node_id, x.node_b.node_id, x.resistance) for x in nw.elements]


def compare(label, want, got, rec):
    if want is None:
        require(got is None, f'{label}: connected by {got} Ohm, but not connected in the layout')
        return
    require(got is not None, f'{label}: not connected, expected {want} Ohm')
    require(abs(want - got) <= 1e-6 * abs(want) + 1e-6, f'{label}: effective resistance {got} Ohm, expected {want} Ohm')
    rec.nontrivial(want > 1e-6)


@st.composite
def tree_cases(draw):
    tech = draw(gen.techs())
    c = {'tech': tech, 'seed': draw(st.sampled_from([0, 0, 1, 2, 3, 4])), 'dbu': draw(st.sampled_from([0.001, 0.001, 0.0005, 0.002])),
         'hier': draw(st.sampled_from([0, 0, 1, 3])), 'mode': draw(st.sampled_from(['R', 'RC'])),
         'off': draw(st.sampled_from([[0, 0], [-12340, 50000], [7, 13]]))}
    c['cap'] = draw(st.integers(0, 2)) == 0         # wires without vias are capacitor parts of their metals
    c['capvia'] = draw(st.booleans())               # every other via lies in a capacitor
    c['tree'] = draw(rnet.trees(len(layers.TABLES[tech]['metals'])))
    if c['cap'] and tech == 'sky130A' and draw(st.booleans()):
        for n in c['tree']['nets']:
            l = draw(st.sampled_from([3, 4, 5]))
            n['wires'] = [[l] + list(w[1:]) for w in n['wires'][:1]]
            n['joints'] = []
            n['pins'] = [p for p in n['pins'] if p[0] == 0]
    return c


def run_trees(case, rec):
    tech = case['tech']
    nets = rnet.legalize(case['tree'])
    if not nets:
        return
    names = [f'N{i}' for i in range(len(nets))]
    shapes, vias, pins, points = rnet.geometry(tech, nets, names)
    ti = tech_of(case)
    tab = Tables(tech, ti.tech)
    import klayout.db as kdb
    off = case['off']
    cap = {}
    if case.get('cap'):
        from checks import p13
        metal = {c['layer_info']['name'] for c in layers.tech_json(tech)['lvs_computed_layers'] if c['layer_info']['purpose'] == 'PURPOSE_METAL'}
        cap = {l: n for l, n in p13.groups(tech)[0].items() if n in metal and not any(l in (v, v + 1) for v, _ in vias) and any(l == s[0] for s in shapes)}
    cvias = {v: CAP_VIAS[v] for v in {v for v, _ in vias} if v in CAP_VIAS} if case.get('capvia') and tech == 'sky130A' else {}
    with sut('R extraction'):
        l2n = geo.build_l2n(tech, shapes, vias=vias, pins=pins, labels=False, dbu=case['dbu'], hier=case['hier'],
                            trans=kdb.Trans(*off), names=cap, cap_vias=cvias)
        nws = by_net(networks(l2n, ti, case['mode'], blackbox=not cap and not cvias))
    tbl = layers.TABLES[tech]
    nm = 10 * case['dbu'] * 1000
    for k, net in enumerate(nets):
        require(len(nws.get(names[k], [])) == 1, f'{len(nws.get(names[k], []))} networks for net {names[k]}')
        nw = nws[names[k]][0]
        ids = {}
        for nd in nw.nodes:
            if nd.location.HasField('point'):
                ids.setdefault((nd.layer_name, nd.location.point.x, nd.location.point.y), []).append(nd)
        nid = []
        for kk, l, x, y in points:
            if kk == k:
                key = (tbl['metals'][l][0], x + off[0], y + off[1])
                require(key in ids, f'no port node for the pin of {names[k]} at {key}, there are {sorted(ids)}')
                require(len(ids[key]) == 1, f'{len(ids[key])} port nodes for one pin of {names[k]} at {key}')
                require(ids[key][0].net_name == names[k], f'port of {names[k]} has the net name {ids[key][0].net_name}')
                nid.append(ids[key][0].node_id)
        require(sum(map(len, ids.values())) == len(nid), f'ports without a pin: {sorted(ids)}')
        want = rnet.effective([('p', i) for i in range(len(nid))],
                              rnet.model(net, tab.rho, lambda v, s: tab.via_r(v) / rnet.via_ratio(tech, v, s, nm)))
        got = rnet.effective(nid, edges_of(nw))
        for i in range(len(nid)):
            for j in range(i):
                compare(f'{names[k]} pins {j}-{i}', want[('p', i), ('p', j)], got[nid[i], nid[j]], rec)
    rec.label('capacitor parts', bool(cap))
    rec.label('capacitor vias', len(vias) > 1 and bool(cvias))
    rec.label('joints', any(n['joints'] for n in nets))
    rec.label('loops', any(len(n['joints']) >= len(n['wires']) for n in nets))
    rec.label('big vias', any(j[4] for n in nets for j in n['joints']))
    rec.label(tech)
    for n in nets:
        for w in n['wires']:
            rec.label(f'{tech}/{tbl["metals"][w[0]][0]}')


@st.composite
def mos_cases(draw):
    tech = draw(gen.techs())
    rows = []
    y = 0
    for _ in range(draw(st.integers(1, 2))):
        h = draw(st.sampled_from([2000, 3000, 5000]))
        rows.append({'pol': draw(st.sampled_from('np')), 'x': draw(st.integers(-5, 5)) * 100, 'y': y, 'h': h,
                     'gates': draw(st.integers(1, 3)), 'pitch': draw(st.sampled_from([400, 500, 600])),
                     'len': draw(st.sampled_from([150, 200, 300])),
                     'metal': draw(st.lists(st.sampled_from([500, 1000, 3500]), min_size=1, max_size=3)),
                     'contacts': draw(st.lists(st.integers(1, 3), min_size=1, max_size=3)),
                     'gate_pins': draw(st.booleans()), 'poly_ext': draw(st.sampled_from([1000, 2000]))})
        y += h + 10000
    return {'tech': tech, 'seed': draw(st.sampled_from([0, 0, 1, 2])), 'rows': rows, 'blackbox': draw(st.booleans())}


def run_mos(case, rec):
    tech = case['tech']
    ti = tech_of(case)
    tab = Tables(tech, ti.tech)
    with sut('R extraction'):
        l2n, info = mos.build(tech, case['rows'])
        nws = by_net(networks(l2n, ti))
    m = layers.TABLES[tech]['metals']
    for kind, k, i, name, (px, py), arg in info:
        row = case['rows'][k]
        require(len(nws.get(name, [])) == 1, f'{len(nws.get(name, []))} networks for net {name}')
        nw = nws[name][0]
        layer = m[0][0] if kind == 'gate' else SD_LAYER[tech][row['pol']]
        terms = [n for n in nw.nodes if n.location.HasField('box') and n.net_name == name]
        n_terms = 1 if kind == 'gate' else len({j for j in (i - 1, i) if 0 <= j < row['gates']})
        require(len(terms) == n_terms and all(n.layer_name == layer for n in terms),
                f'net {name}: device terminals {[(n.node_name, n.layer_name) for n in terms]}, expected {n_terms} on {layer}')
        pins = [n for n in nw.nodes if n.location.HasField('point')]
        if kind == 'gate' and not arg:
            require(not pins, f'net {name}: pin nodes without pin')
            continue
        require([(n.location.point.x, n.location.point.y) for n in pins] == [(px, py)],
                f'net {name}: pin nodes {pins}')
        if kind == 'gate':
            yc = row['y'] + row['h'] / 2
            want = tab.rho[0] * (py - yc) / row['len']
        else:
            edges = [(('c', j), 'T', tab.cont[SD_KEYS[tech][row['pol']]]) for j in range(len(arg))]
            ys = sorted([(y, ('c', j)) for j, y in enumerate(arg)] + [(py, 'pin')])
            edges += [(a, b, tab.rho[1] * (y2 - y1) / 200) for (y1, a), (y2, b) in zip(ys, ys[1:])]
            want = rnet.effective(['pin', 'T'], edges)['pin', 'T']
        ids = [n.node_id for n in terms] + [pins[0].node_id]
        got = rnet.effective(ids, edges_of(nw))
        for t in ids[:-1]:
            compare(f'{name} terminal to pin', want, got[t, ids[-1]], rec)
    rec.label(tech)
    rec.label('shared strip', any(r['gates'] > 1 for r in case['rows']))


@st.composite
def poly_cases(draw):
    tech = draw(gen.techs())
    n = len(layers.TABLES[tech]['metals'])
    l = draw(st.integers(0, n - 2))
    rects = []
    for _ in range(draw(st.integers(1, 5))):
        rects.append([draw(st.integers(l, l + 1)), gen.rect(draw, 12, 500, 1, 12)])
    return {'tech': tech, 'rects': rects, 'vias': [[draw(st.integers(0, 9)), draw(st.integers(0, 24)), draw(st.integers(0, 24))] for _ in range(draw(st.integers(0, 4)))],
            'pins': [[draw(st.integers(0, 5)), draw(st.integers(1, 9)), draw(st.integers(1, 9))] for _ in range(draw(st.integers(2, 4)))],
            'off': [draw(st.integers(-3000, 3000)) * 10, draw(st.integers(-3000, 3000)) * 10],
            'factor': draw(st.sampled_from([0.5, 2.0, 10.0])), 'other': draw(st.booleans()), 'dense': draw(st.booleans())}


def run_poly(case, rec):
    tech = case['tech']
    rects = [[l, 'A', r] for l, r in case['rects']]
    pins, pts = [], []
    for w, fx, fy in case['pins']:
        l, _, r = rects[w % len(rects)]
        x, y = r[0] + (r[2] - r[0]) * fx // 10, r[1] + (r[3] - r[1]) * fy // 10
        if any(abs(x - a) < 60 and abs(y - b) < 60 and l == m for m, a, b in pts):
            continue
        pins.append([l, 'A', [x - 20, y - 20, x + 20, y + 20]])
        pts.append((l, x, y))
    vias = []
    both = [(a, b) for a in rects for b in rects if b[0] == a[0] + 1]
    for k, gx, gy in case['vias']:
        if not both:
            break
        a, b = both[k % len(both)]
        r = [max(a[2][0], b[2][0]) + 50, max(a[2][1], b[2][1]) + 50, min(a[2][2], b[2][2]) - 50, min(a[2][3], b[2][3]) - 50]
        if r[2] - r[0] < 200 or r[3] - r[1] < 200:
            continue
        x, y = r[0] + (r[2] - r[0] - 200) * gx // 24, r[1] + (r[3] - r[1] - 200) * gy // 24
        v = [a[0], [x, y, x + 200, y + 200]]
        if not any(geo.rect_conflict(v[1], w[1]) for w in vias):
            vias.append(v)
    m = layers.TABLES[tech]['metals']

    def solve(off, factor, other):
        import klayout.db as kdb
        ti = layers.tech_info(tech, edit=scramble(0, factor))
        sh = rects + ([[rects[0][0], 'Z', [-40000, 0, -39000, 5000]], [rects[0][0], 'Y', [40000, 0, 39000, 5000]]] if other else [])
        pn = pins + ([[rects[0][0], 'Z', [-39600, 100, -39500, 200]]] if other else [])
        l2n = geo.build_l2n(tech, sh, vias=vias, pins=pn, labels=False, trans=kdb.Trans(*off))
        out = {}
        where = {}
        for nw in networks(l2n, ti):
            ids = {}
            for nd in nw.nodes:
                if nd.location.HasField('point'):
                    p = (nd.layer_name, nd.location.point.x - off[0], nd.location.point.y - off[1])
                    n = 0                       # klayout may report two ports at one spot
                    while p + (n,) in where:
                        n += 1
                    where[p + (n,)] = nw.net_name
                    ids[p + (n,)] = nd.node_id
            eff = rnet.effective(list(ids.values()), edges_of(nw))
            require(all(r >= 0 for _, _, r in edges_of(nw)), 'negative resistance')
            for a in ids:
                for b in ids:
                    if a < b:
                        out[a, b] = eff[ids[a], ids[b]]
        mine = {p: n for p, n in where.items() if n[0] != 'Z'}
        want = sorted(m[l][0] for l, x, y in pts)
        require(sorted(p[0] for p in mine) == want, lambda: f'ports {sorted(mine)}, pins {want}')
        return {k: v for k, v in out.items() if k[0] in mine}, mine

    with sut('R extraction'):
        base, where = solve([0, 0], 1.0, False)
        moved, _ = solve(case['off'], 1.0, False)
        scaled, _ = solve([0, 0], case['factor'], False)
        among, _ = solve([0, 0], 1.0, case['other'])
    # connectivity: pins of one connected piece are connected, pins of different pieces have no network in common
    comp = list(range(len(rects)))

    def find(i):
        while comp[i] != i:
            i = comp[i]
        return i
    for i in range(len(rects)):
        for j in range(i):
            if rects[i][0] == rects[j][0] and geo.rect_conflict(rects[i][2], rects[j][2]) and not corner(rects[i][2], rects[j][2]):
                comp[find(i)] = find(j)
    for v, r in vias:
        hit = [i for i, (l, _, q) in enumerate(rects) if l in (v, v + 1) and geo.rect_conflict(q, r)]
        for i in hit[1:]:
            comp[find(i)] = find(hit[0])
    piece = {}
    for p in where:
        i = next((i for i, (l, _, q) in enumerate(rects) if m[l][0] == p[0] and q[0] <= p[1] <= q[2] and q[1] <= p[2] <= q[3]), None)
        require(i is not None, f'port {p} is not on the net')
        piece[p] = find(i)
    corners = any(corner(a[2], b[2]) for a in rects for b in rects if a[0] == b[0])
    for (a, b), r in base.items():
        if not corners:
            require((r is not None) == (piece[a] == piece[b]), f'pins {a} and {b}: {r} Ohm, same piece: {piece[a] == piece[b]}')
        tol = 1e-6
        for what, t, f in (('moved', moved, 1.0), ('among other nets', among, 1.0), ('scaled tables', scaled, case['factor'])):
            g = t.get((a, b), 'nothing')
            require(g != 'nothing' and (g is None) == (r is None), f'{a}-{b}: {r} Ohm, {what}: {g}')
            if r is not None:
                require(abs(g - f * r) <= tol * abs(f * r) + 1e-6, f'{a}-{b}: {r} Ohm, {what} {g} Ohm (expected {f * r})')
                rec.nontrivial(r > 1e-6)
    rec.label('vias', bool(vias))
    rec.label('bent', len(rects) > 1)


def corner(a, b):
    """touch in one point only"""
    return (a[2] == b[0] or b[2] == a[0]) and (a[3] == b[1] or b[3] == a[1])


PARTS = [
    Part('wires', tree_cases, run_trees, quick=250, thorough=4000),
    Part('mos', mos_cases, run_mos, quick=60, thorough=1500),
    Part('polygons', poly_cases, run_poly, quick=40, thorough=1500),
]
