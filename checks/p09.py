"""P09: resistor networks stay within their nets; every pin and connected device terminal is a port of its net."""
from hypothesis import strategies as st
from kv import gen, geo, layers, mos, rnet
from kv.core import Part, require, sut
from checks import p08

PID = 'P09'
WORKERS = 8
RULE = ('generated: arbitrary shapes and vias on all metals with pins (labels inside and outside pin shapes, several pins and labels '
        'per net, unnamed nets, pins on nets of one or many pieces), wire trees, MOS rows, in R and RC mode, with and without '
        'blackboxing; non-trivial: at least two networks have nodes and one has a resistor')
ASSUMPTIONS = ['net membership is read back from the LVS netlist and the pin geometry through KLayout']


@st.composite
def shape_cases(draw):
    tech = draw(gen.techs())
    n = len(layers.TABLES[tech]['metals'])
    l = draw(st.integers(0, n - 2))
    hi = min(n - 1, l + draw(st.integers(0, 2)))
    shapes, vias = [], []
    for _ in range(draw(st.integers(1, 8))):
        shapes.append([draw(st.integers(l, hi)), None, gen.rect(draw, 20, 500, 1, 10)])
    for _ in range(draw(st.integers(0, 5))):
        vias.append([draw(st.integers(0, 30)), draw(st.integers(0, 30)), draw(st.integers(0, 8)), draw(st.integers(0, 8))])
    # names which differ in their last or first character or in case only
    labs = draw(st.sampled_from([['A', 'B', 'C', 'out<1>', None]] * 3 + [['data_bus_out<1>', 'data_bus_out<11>', 'data_bus_out<2>', 'xdata_bus_out<1>', 'Data_bus_out<1>'],
                                                                         ['net', 'net.1', 'net.1.$1', 'NET', '$1']]))
    pins = []
    for _ in range(draw(st.integers(0, 6))):
        pins.append([draw(st.integers(0, 20)), draw(st.sampled_from(labs)),
                     draw(st.integers(1, 9)), draw(st.integers(1, 9)), draw(st.sampled_from(['in', 'in', 'in', 'edge', 'nolabel', 'nopin', 'cover', 'cover']))])
    if draw(st.integers(0, 3)) == 0:       # a net in the notch of another one, pins as large as the metal
        w, h, t = draw(st.integers(4, 9)) * 500, draw(st.integers(4, 9)) * 500, draw(st.integers(1, 2)) * 500
        x, y = draw(st.integers(-3, 3)) * 500, draw(st.integers(-3, 3)) * 500
        fx, fy = draw(st.sampled_from([1, -1])), draw(st.sampled_from([1, -1]))
        k = draw(st.integers(l, hi))
        new = [[x, y, x + fx * w, y + fy * t], [x, y, x + fx * t, y + fy * h], [x + fx * (t + 500), y + fy * (t + 500), x + fx * w, y + fy * h]]
        new = [[k, None, [min(r[0], r[2]), min(r[1], r[3]), max(r[0], r[2]), max(r[1], r[3])]] for r in new]
        shapes = draw(st.permutations(new)) + shapes[:draw(st.integers(0, 3))]
        vias = []
        pins += [[i, draw(st.sampled_from('ABC')), draw(st.integers(1, 9)), draw(st.integers(1, 9)), draw(st.sampled_from(['in', 'cover', 'cover']))]
                 for i in range(3)]
    return {'tech': tech, 'shapes': shapes, 'vias': vias, 'pins': pins, 'mode': draw(st.sampled_from(['R', 'RC'])),
            'blackbox': draw(st.booleans()), 'hier': draw(st.sampled_from([0, 0, 2]))}


def build_shapes(case):
    import klayout.db as kdb
    tech = case['tech']
    tbl = layers.TABLES[tech]
    shapes = case['shapes']
    vias = []
    pairs = [(a, b) for a in shapes for b in shapes if b[0] == a[0] + 1 and
             min(a[2][2], b[2][2]) - max(a[2][0], b[2][0]) >= 300 and min(a[2][3], b[2][3]) - max(a[2][1], b[2][1]) >= 300]
    for i, j, gx, gy in case['vias']:
        if not pairs:
            break
        a, b = pairs[(i * 31 + j) % len(pairs)]
        r = [max(a[2][0], b[2][0]), max(a[2][1], b[2][1]), min(a[2][2], b[2][2]), min(a[2][3], b[2][3])]
        if r[2] - r[0] < 300 or r[3] - r[1] < 300:
            continue
        x, y = r[0] + (r[2] - r[0] - 200) * gx // 8, r[1] + (r[3] - r[1] - 200) * gy // 8
        vias.append([a[0], [x, y, x + 200, y + 200]])
    vias = [v for i, v in enumerate(vias) if not any(v[0] == w[0] and geo.rect_conflict(v[1], w[1]) for w in vias[:i])]
    pts = []
    ly_pins, ly_labels, covers = [], [], []
    for k, lab, fx, fy, how in case['pins']:
        l, _, r = shapes[k % len(shapes)]
        x, y = r[0] + (r[2] - r[0]) * fx // 10, r[1] + (r[3] - r[1]) * fy // 10
        if any(abs(x - q[1]) < 60 and abs(y - q[2]) < 60 for q in pts) or lab is None:
            continue
        if any(geo.rect_conflict([x - 20, y - 20, x + 20, y + 20], v[1], 20) for v in vias):
            continue
        pts.append((l, x, y, lab, how))
        if how == 'cover':      # the pin is the whole metal
            comp = {k % len(shapes)}
            while True:
                more = {j for j in range(len(shapes)) if j not in comp and shapes[j][0] == l and
                        any(geo.rect_conflict(shapes[i][2], shapes[j][2]) for i in comp)}
                if not more:
                    break
                comp |= more
            covers += [[l, shapes[i][2]] for i in sorted(comp)]
        elif how != 'nopin':
            ly_pins.append([l, [x - 20, y - 20, x + 20, y + 20]])
        if how != 'nolabel':
            ly_labels.append([l, lab, (x, y) if how != 'edge' else (x - 20, y)])
    # labels without a pin shape of their own are pins if one covers them
    pts = [(l, x, y, lab, 'in' if how == 'nopin' and any(l == cl and r[0] <= x <= r[2] and r[1] <= y <= r[3] for cl, r in covers) else how)
           for l, x, y, lab, how in pts]
    for l in sorted({c[0] for c in covers}):
        ly_pins += [[l, p] for p in kdb.Region([kdb.Polygon(kdb.Box(*r)) for cl, r in covers if cl == l]).merged().each()]
    ly = kdb.Layout()
    ly.dbu = 0.001
    top = ly.create_cell('TOP')
    cells = [top] + [ly.create_cell(f'S{i}') for i in range(case['hier'])]
    for c in cells[1:]:
        top.insert(kdb.CellInstArray(c.cell_index(), kdb.Trans()))
    for i, (l, _, r) in enumerate(shapes):
        cells[i % len(cells)].shapes(ly.layer(*tbl['metals'][l][2])).insert(kdb.Box(*r))
    for v, r in vias:
        top.shapes(ly.layer(*tbl['vias'][v][1])).insert(kdb.Box(*r))
    for l, r in ly_pins:
        top.shapes(ly.layer(*tbl['metals'][l][6])).insert(r if isinstance(r, kdb.Polygon) else kdb.Box(*r))
    for l, lab, p in ly_labels:
        top.shapes(ly.layer(*tbl['metals'][l][4])).insert(kdb.Text(lab, kdb.Trans(*p)))
    l2n = geo.l2n_from_layout(tech, ly, top)
    return l2n, shapes, vias, pts


def pieces(shapes, vias):
    comp = list(range(len(shapes)))

    def find(i):
        while comp[i] != i:
            i = comp[i]
        return i
    for i in range(len(shapes)):
        for j in range(i):
            if shapes[i][0] == shapes[j][0] and geo.rect_conflict(shapes[i][2], shapes[j][2]):
                comp[find(i)] = find(j)
    for v, r in vias:
        hit = [i for i, (l, _, q) in enumerate(shapes) if l in (v, v + 1) and geo.rect_conflict(q, r)]
        for i in hit[1:]:
            comp[find(i)] = find(hit[0])
    return [find(i) for i in range(len(shapes))]


def check_results(res, circuit_nets, rec):
    """What must hold for any extraction."""
    nws = [nw for cr in res.cell_extraction_results.values() for nw in cr.r_extraction_result.networks]
    owner = {}
    seen = set()
    for nw in nws:
        require(nw.net_name in circuit_nets, f'network for {nw.net_name!r}, nets are {sorted(circuit_nets)}')
        require(nw.net_name not in seen, f'two networks for {nw.net_name}')
        seen.add(nw.net_name)
        ids = {n.node_id for n in nw.nodes}
        require(len(ids) == len(nw.nodes), f'{nw.net_name}: node ids repeat')
        for n in nw.nodes:
            o = owner.setdefault(n.net_name, nw.net_name)
            require(o == nw.net_name, f'node {n.net_name!r} belongs to the networks of {o} and {nw.net_name}')
            require(n.net_name not in circuit_nets or n.net_name == nw.net_name,
                    f'a node of {nw.net_name} carries the name of net {n.net_name}')
        for e in nw.elements:
            require(e.node_a.node_id in ids and e.node_b.node_id in ids, f'{nw.net_name}: element to a node outside')
            require(e.resistance >= 0, f'{nw.net_name}: resistance {e.resistance}')
    with sut('summary'):
        s = res.summarize()
    for k, r in s.resistances.items():
        require(owner.get(k.net1) is not None and owner.get(k.net1) == owner.get(k.net2),
                f'the summary has {r} Ohm between {k.net1} (net {owner.get(k.net1)}) and {k.net2} (net {owner.get(k.net2)})')
    rec.nontrivial(sum(1 for nw in nws if nw.nodes) >= 2 and any(nw.elements for nw in nws))
    return nws


def run_shapes(case, rec):
    if not case['shapes']:
        return
    ti = layers.tech_info(case['tech'])
    with sut('LVS database'):
        l2n, shapes, vias, pts = build_shapes(case)
        circuit = l2n.netlist().circuit_by_name('TOP')
        names = [n.expanded_name() for n in circuit.each_net()]
    if len(set(names)) != len(names):
        return
    if any(n.pin_count() == 0 for c in l2n.netlist().each_circuit() if c.name != 'TOP' for n in c.each_net()):
        rec.label('nets inside of subcells (not compared)')
        with sut('R extraction'):
            geo.run_25d(l2n, ti, case['mode'], blackbox=case['blackbox'])
        return
    # label every piece through its labels (those in 'nolabel' spots carry none); pieces with the same labels are one net
    piece = pieces(shapes, vias)
    labels = {}
    for l, x, y, lab, how in pts:
        if how == 'nolabel':
            continue
        i = next(i for i, (ll, _, q) in enumerate(shapes) if ll == l and q[0] <= x <= q[2] and q[1] <= y <= q[3])
        labels.setdefault(piece[i], set()).add(lab)
    if any(a != b and a & b for a in labels.values() for b in labels.values()):      # KLayout joins nets with the same name only
        return
    with sut('R extraction'):
        res = geo.run_25d(l2n, ti, case['mode'], blackbox=case['blackbox'])
    nws = check_results(res, set(names), rec)
    nets = {nw.net_name: nw for nw in nws}
    m = layers.TABLES[case['tech']]['metals']
    want = {}
    for l, x, y, lab, how in pts:
        if how in ('nolabel', 'nopin'):
            continue
        i = next(i for i, (ll, _, q) in enumerate(shapes) if ll == l and q[0] <= x <= q[2] and q[1] <= y <= q[3])
        name = ','.join(sorted(labels[piece[i]]))
        want.setdefault(name, []).append(m[l][0])
    got = {}
    for nw in nws:
        for n in nw.nodes:
            if n.location.HasField('point'):
                got.setdefault(nw.net_name, []).append(n.layer_name)
                require(n.net_name == nw.net_name, f'port of {nw.net_name} is called {n.net_name}')
    require({k: sorted(v) for k, v in got.items()} == {k: sorted(v) for k, v in want.items()},
            f'ports {got}, pins with labels {want}')
    # ports on one piece are connected with each other
    corners = any(p08.corner(a[2], b[2]) for a in shapes for b in shapes if a[0] == b[0])
    for name in want:
        nw = nets[name]
        at = {}
        for n in nw.nodes:
            if n.location.HasField('point'):      # the node is not exactly at the label
                p = n.location.point
                on = {piece[i] for i, (l, _, q) in enumerate(shapes) if m[l][0] == n.layer_name and q[0] <= p.x <= q[2] and q[1] <= p.y <= q[3]}
                require(len(on) == 1 and ','.join(sorted(labels.get(min(on), ()))) == name, f'{name}: port at {n.layer_name} {p.x},{p.y} is not on the net')
                at[n.node_id] = min(on)
        eff = rnet.effective(list(at), p08.edges_of(nw))
        for i in at:
            for j in at:
                same = at[i] == at[j]
                require(same or eff[i, j] is None, f'{name}: ports {at} {i} and {j} are connected, but their shapes are not')
                require(not same or corners or eff[i, j] is not None, f'{name}: ports {at} {i} and {j} are not connected')
    rec.label('net of several pieces', len({frozenset(v) for v in labels.values()}) < len(labels))
    rec.label('several labels', any(',' in n for n in want))
    rec.label('several ports', any(len(v) > 1 for v in want.values()))
    rec.label('unnamed net', any('$' in n for n in names))
    rec.label('vias', bool(vias))
    rec.label('pin covers metal', any(p[4] == 'cover' for p in pts))


@st.composite
def mos_cases(draw):
    c = draw(p08.mos_cases())
    c['rename'] = draw(st.sampled_from([0, 0, 1, 2, 3]))
    return c


def run_mos(case, rec):
    ti = layers.tech_info(case['tech'])
    with sut('R extraction'):
        l2n, info = mos.build(case['tech'], case['rows'], rename=mos.renaming(case['rename']) if case.get('rename') else None)
        circuit = l2n.netlist().circuit_by_name('TOP')
        names = [n.expanded_name() for n in circuit.each_net()]
        res = geo.run_25d(l2n, ti, 'RC' if case['seed'] else 'R', blackbox=case['blackbox'])
    nws = check_results(res, set(names), rec)
    want = {}
    for d in circuit.each_device():
        for t in d.device_class().terminal_definitions():
            n = d.net_for_terminal(t.id())
            if n is not None:
                want[n.expanded_name()] = want.get(n.expanded_name(), 0) + 1
    got = {nw.net_name: sum(1 for n in nw.nodes if n.location.HasField('box') and n.net_name == nw.net_name) for nw in nws}
    got = {k: v for k, v in got.items() if v}
    require(got == want, f'device terminal ports {got}, device terminals {want}')
    rec.label(case['tech'])


@st.composite
def tree_cases(draw):
    c = draw(p08.tree_cases())
    c['dangling'] = draw(st.sampled_from([0, 1, 3]))
    c['names'] = draw(st.sampled_from(['N{}', 'a_rather_long_net_name_{}', 'n<{}>', 'x{}_of_the_long_names', 'VDD{}']))
    return c


def run_trees(case, rec):
    import klayout.db as kdb
    tech = case['tech']
    nets = rnet.legalize(case['tree'])
    if not nets:
        return
    names = [case['names'].format(i) for i in range(len(nets))]
    shapes, vias, pins, points = rnet.geometry(tech, nets, names)
    used = {s[0] for s in shapes}
    if case['dangling']:        # vias to a layer without any shapes
        free = [(i, v) for i, s in enumerate(shapes) for v in (s[0] - 1, s[0]) if 0 <= v < len(layers.TABLES[tech]['vias']) and not {v, v + 1} <= used]
        for i, v in free[:case['dangling']]:
            r = shapes[i][2]
            x, y = (r[0] + r[2]) // 2, (r[1] + r[3]) // 2
            if not any(geo.rect_conflict([x - 40, y - 40, x + 40, y + 40], w[1], 50) for w in vias) and \
                    not any(geo.rect_conflict([x - 40, y - 40, x + 40, y + 40], w[2], 50) for w in pins):
                vias = list(vias) + [[v, [x - 40, y - 40, x + 40, y + 40]]]
                rec.label('via to an empty layer')
    with sut('R extraction'):
        l2n = geo.build_l2n(tech, shapes, vias=vias, pins=pins, labels=False, dbu=case['dbu'], hier=case['hier'], trans=kdb.Trans(*case['off']))
        res = geo.run_25d(l2n, layers.tech_info(tech), case['mode'])
    nws = check_results(res, {n.expanded_name() for n in l2n.netlist().circuit_by_name('TOP').each_net()}, rec)
    got = {nw.net_name: sum(1 for n in nw.nodes if n.location.HasField('point')) for nw in nws}
    want = {names[k]: sum(1 for p in points if p[0] == k) for k in range(len(nets))}
    require({k: v for k, v in got.items() if v} == {k: v for k, v in want.items() if v}, f'ports {got}, pins {want}')
    rec.label('internal nodes', any(n.net_name != nw.net_name for nw in nws for n in nw.nodes))


PARTS = [
    Part('trees', tree_cases, run_trees, quick=100, thorough=1500),
    Part('shapes', shape_cases, run_shapes, quick=600, thorough=4000),
    Part('mos', mos_cases, run_mos, quick=40, thorough=1000),
]
