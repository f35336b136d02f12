"""P26: the marker report shows every extracted element with its value, where it is, and can be repaired."""
import collections
import gzip
import os
import re
import xml.etree.ElementTree as ET
from hypothesis import strategies as st
from kv import gen, cap25, geo, layers, rnet
from kv.core import Part, require, sut
from kv.cli import scratch

PID = 'P26'
WORKERS = 8
RULE = ('generated: layouts as for the capacitance checks (both PDKs, moved, in subcells, several database units and net names), extracted with a report that is '
        'read back; and report files with arbitrary category names from which categories were cut out. Oracle: the extraction results (as multisets of entries with '
        'values) and the drawn shapes; non-trivial: entries of at least two kinds, respectively a category that had to be restored')
ASSUMPTIONS = ['category titles are read as the reporter formats them (value with 3 decimals)',
               'categories which hold no marker themselves or below are of no interest to the repair']


def tree(cat):
    return [(c, tree(c)) for c in cat.each_sub_category()]


def top(rep, name):
    for c in rep.each_category():
        if c.name() == name:
            return c
    return None


def subs(cat):
    return list(cat.each_sub_category()) if cat is not None else []


def items(rep, cat):
    """all values of the markers of one category (not of those below)"""
    out = []
    for it in rep.each_item_per_category(cat.rdb_id()):
        for v in it.each_value():
            if not v.is_string():       # properties of a shape
                out.append(v)
    return out


def sub(cat, name):
    for c in subs(cat):
        if c.name() == name:
            return c
    require(False, f'category {cat.path()} has no part {name!r}')


def region(rep, cat, dbu):
    import klayout.db as kdb
    r = kdb.Region()
    for v in items(rep, cat):
        p = v.polygon() if v.is_polygon() else kdb.DPolygon(v.box()) if v.is_box() else None
        require(p is not None, f'a marker of {cat.path()} is no polygon')
        r.insert(p.to_itype(dbu))
    return r


def edges(rep, cat, dbu):
    out = []
    for v in items(rep, cat):
        require(v.is_edge(), f'a marker of {cat.path()} is no edge')
        out.append(v.edge().to_itype(dbu))
    return out


def check_report(case, rec):
    import klayout.db as kdb
    import klayout.rdb as rdb
    if not case['shapes']:
        return
    ti = layers.tech_info(case['tech'], halo=case.get('halo'), edit=cap25.edit_of(case))
    shapes, dbu, hier = gen.realize(case)
    names = layers.metal_names(case['tech'])
    with scratch() as d:
        path = os.path.join(d, 'rep.rdb.gz')
        with sut('2.5D extraction with report'):
            l2n = geo.build_l2n(case['tech'], shapes, dbu=dbu, hier=hier)
            res = geo.run_25d(l2n, ti, 'CC', case.get('scale', False), report_path=path)
        require(os.path.exists(path), 'no report written')
        rep = rdb.ReportDatabase('')
        with sut('loading the report'):
            rep.load(path)
    cr = next(iter(res.cell_extraction_results.values()))
    regs = {}
    for l, n, r in shapes:
        regs.setdefault((names[l], n), kdb.Region()).insert(kdb.Box(*r) if not isinstance(r[0], list) else kdb.Polygon([kdb.Point(*q) for q in r]))
    for r in regs.values():
        r.merge()
    co = layers.Coefs(ti.tech)
    nets_of = {}          # extracted net names per drawn net: labelled, same name
    kinds = 0

    # plates
    exp = collections.Counter()
    for k, lst in cr.overlap_table.items():
        for c in lst:
            exp[(k.layer_top, k.layer_bot, k.net_top, k.net_bot, f'{round(c.cap_value, 3)} fF')] += 1
    got = collections.Counter()
    for ct in subs(top(rep, '[C] Overlap')):
        for cb in subs(ct):
            for cn in subs(cb):
                lt, lb = ct.name().removeprefix('top_layer='), cb.name().removeprefix('bot_layer=')
                nt, nb = cn.name().split(' – ')
                for i, c in enumerate(sorted(subs(cn), key=lambda c: int(c.name()[1:].split()[0]))):
                    m = re.fullmatch(r'#(\d+) (\S+ fF)', c.name())
                    require(m and int(m.group(1)) == i + 1, f'plate entry {c.path()} numbered wrongly')
                    got[(lt, lb, nt, nb, m.group(2))] += 1
                    area = region(rep, sub(c, 'Overlap Area'), dbu)
                    v = area.merged().area() * dbu ** 2 * co.area(lt, lb) / 1000
                    require(abs(v - float(m.group(2).split()[0])) <= 0.00051 + 1e-6 * v, f'plate entry {c.path()}: marked area makes {v} fF')
                    t = region(rep, sub(c, 'Top Polygon'), dbu)
                    b = region(rep, sub(c, 'Bottom Polygon'), dbu)
                    require((area - t).is_empty() and (area - b).is_empty(), f'plate entry {c.path()}: area not within both polygons')
                    require(t.count() == 1 and (t - regs[(lt, nt)]).is_empty(), f'plate entry {c.path()}: top polygon is not of this net')
                    if lb != 'VSUBS':
                        require(b.count() == 1 and (b - regs[(lb, nb)]).is_empty(), f'plate entry {c.path()}: bottom polygon is not of this net')
    require(got == exp, lambda: f'plate entries of the report {got - exp} too many, {exp - got} missing')
    kinds += bool(exp)

    def on_boundary(e, reg):
        return e.length() == 0 or sum(x.length() for x in (kdb.Edges([e]) & reg.edges()).each()) == e.length()

    # sidewalls
    exp = collections.Counter()
    for k, lst in cr.sidewall_table.items():
        for c in lst:
            exp[(k.layer, k.net1, k.net2, f'len {c.length} µm, distance {c.distance} µm, {round(c.cap_value, 3)} fF')] += 1
    got = collections.Counter()
    for cl in subs(top(rep, '[C] Sidewall')):
        for ci in subs(cl):
            for cx in subs(ci):
                l, n1, n2 = cl.name().removeprefix('layer='), ci.name().removeprefix('inside='), cx.name().removeprefix('outside=')
                for c in subs(cx):
                    m = re.fullmatch(r'#(\d+): (len (\S+) µm, distance (\S+) µm, (\S+) fF)', c.name())
                    require(m, f'sidewall entry {c.path()}')
                    got[(l, n1, n2, m.group(2))] += 1
                    ln, dist = float(m.group(3)), float(m.group(4))
                    ee = edges(rep, c, dbu)
                    require(len(ee) == 2, f'sidewall entry {c.path()} has {len(ee)} edges')
                    a, b = ee
                    require(abs(a.length() * dbu - ln) < 1e-6 and on_boundary(a, regs[(l, n1)]), f'sidewall entry {c.path()}: inside edge {a} wrong')
                    require(abs(b.length() * dbu - ln) < 1e-6 and on_boundary(b, regs[(l, n2)]), f'sidewall entry {c.path()}: outside edge {b} wrong')
                    require(abs(abs(a.distance(b.p1)) * dbu - dist) < 1e-6, f'sidewall entry {c.path()}: edges {a} and {b} are not {dist} apart')
                    require(a.distance(b.p1) > 0, f'sidewall entry {c.path()}: outside edge {b} is behind {a}')
    require(got == exp, lambda: f'sidewall entries of the report {got - exp} too many, {exp - got} missing')
    kinds += bool(exp)

    # fringe
    exp = collections.Counter()
    for k, lst in cr.sideoverlap_table.items():
        for c in lst:
            exp[(k.layer_inside, k.net_inside, k.layer_outside, k.net_outside, f'{round(c.cap_value, 3)} fF')] += 1
    got = collections.Counter()
    for c1 in subs(top(rep, '[C] Fringe / Side Overlap')):
        for c2 in subs(c1):
            for c3 in subs(c2):
                for c4 in subs(c3):
                    key = (c1.name().removeprefix('inside_layer='), c2.name().removeprefix('inside_net='),
                           c3.name().removeprefix('outside_layer='), c4.name().removeprefix('outside_net='))
                    for c in subs(c4):
                        m = re.fullmatch(r'#(\d+): (\S+ fF)', c.name())
                        require(m, f'fringe entry {c.path()}')
                        got[key + (m.group(2),)] += 1
                        e = edges(rep, sub(c, 'Inside Edge'), dbu)
                        require(len(e) == 1 and on_boundary(e[0], regs[key[:2]]), f'fringe entry {c.path()}: inside edge {e} is not on that net')
                        p = region(rep, sub(c, 'Outside Polygon'), dbu)
                        require(p.count() >= 1, f'fringe entry {c.path()}: no outside polygon')
                        if key[2] != 'VSUBS':
                            require((p - regs[key[2:]]).is_empty(), f'fringe entry {c.path()}: outside polygon is not of that net')
                        require((p - regs[key[:2]]).area() > 0 or key[0] != key[2], f'fringe entry {c.path()}')
    require(got == exp, lambda: f'fringe entries of the report {got - exp} too many, {exp - got} missing')
    kinds += bool(exp)
    require([c.name() for c in rep.each_cell()] == [cr.cell_name], 'cell of the report')
    rec.nontrivial(kinds >= 2)
    for k in ('off', 'dbu', 'hier', 'names'):
        rec.label('varied-' + k, bool(case.get(k)))


# ---------------------------------------------------------------- resistances

@st.composite
def rcases(draw):
    c = draw(gen.varied(gen.wires()))
    pins = []
    for l, n, r in c['shapes']:
        for _ in range(draw(st.sampled_from([0, 1, 1, 2]))):
            pins.append([len(pins) % 3, l, n, draw(st.sampled_from(['lo', 'hi', 'mid'])), r])
    c['pins'] = pins
    n = len(layers.metal_names(c['tech']))
    c['device'] = draw(st.sampled_from([None, [0, 1, 40, 700], [1, 0, 300, 200], [2, 1, 1000, 2000], [1, 2, 51, 333]]))
    assert n > 2
    c['ohm'] = draw(st.sampled_from([None, None, 7, 1234, 88888]))
    c['plates'] = draw(st.sampled_from([2, 2, 2, 1, 0]))
    return c


def check_devices(rep, case, l2n, dev, names, dbu, net_terminals):
    """the device is listed with its parameters and with its terminals' nets, layers and shapes, and the terminals with their nets"""
    import klayout.db as kdb
    rtop = top(rep, '[R] Extraction Request')
    cats = [c for k in subs(rtop) if k.name() == 'Devices' for c in subs(k)]
    devs = [d for c in l2n.netlist().each_circuit() for d in c.each_device()]
    require(len(cats) == len(devs) == bool(dev), f'devices of the report {[c.name() for c in cats]}, of the layout {len(devs)}')
    exp = {}
    if dev:
        d, (ta, tb, rect) = devs[0], dev
        require(cats[0].name() == f'{d.expanded_name()}: KVCAP', f'device {cats[0].name()}')
        par = dict(c.name().split(': ') for c in subs(sub(cats[0], 'Params')))
        want = {p.name: d.parameter(p.id()) for p in d.device_class().parameter_definitions()}
        require(set(par) == set(want) and all(abs(float(par[k]) - want[k]) <= 1e-5 * abs(want[k]) for k in want), f'parameters of the device in the report {par}, in the netlist {want}')
        for n, m in (('A', ta), ('B', tb)):
            if 'AB'.index(n) < case.get('plates', 2):     # else not connected
                exp[(n, 'D' + n, names[m])] = kdb.Region(kdb.Box(*rect))

    def terms(cat):
        out = {}
        for c in subs(cat):
            m = re.fullmatch(r'(.*): net (.*), layer (.*)', c.name())
            require(m and m.groups() not in out, f'terminal {c.path()}')
            out[m.groups()] = region(rep, c, dbu)
        return out
    for what, got in [('device', terms(sub(cats[0], 'Terminals')) if cats else {}), ('nets', {k: v for _, c in net_terminals for k, v in terms(c).items()})]:
        require(set(got) == set(exp) and all((got[k] ^ exp[k]).is_empty() for k in exp), lambda: f'terminals of the {what} in the report {got}, of the layout {exp}')
    for net, c in net_terminals:
        require(all(k[1] == net for k in terms(c)), f'terminals of net {net}: {list(terms(c))}')


def check_request(rep, case, ti, shapes, pins, names, dbu, l2n, dev):
    import klayout.db as kdb
    rtop = top(rep, '[R] Extraction Request')
    require(rtop is not None, 'the report has no part for the R extraction request')

    def pins_of(cat):
        out = collections.Counter()
        for c in subs(cat):
            m = re.fullmatch(r'(.*) \(net (.*) on layer (.*)\)', c.name())
            require(m, f'pin {c.path()}')
            for v in items(rep, sub(c, 'label point')):
                b = (v.box() if v.is_box() else v.polygon().bbox()).to_itype(dbu)
                require(b.width() == b.height() == 10, f'pin {c.path()}: marker {b}')
                out[(m.group(1), m.group(2), m.group(3), b.center().x, b.center().y)] += 1
        return out
    exp = collections.Counter()       # each label on a pin shape of its metal
    ly, met = l2n._kv_layout, geo.TABLES[case['tech']]['metals']
    for l, m in enumerate(met):
        areas = [kdb.Box(*r) for k, _, r in pins if k == l]
        it = kdb.RecursiveShapeIterator(ly, ly.top_cell(), ly.layer(*m[4]))
        for t in kdb.Texts(it).each():
            if any(a.contains(t.trans.disp.to_p()) for a in areas):
                exp[(t.string, names[l], t.x, t.y)] += 1
    allp = sub(rtop, 'Pins') if pins else None
    got = pins_of(allp) if allp is not None else collections.Counter()
    require(collections.Counter({(a[0],) + a[2:]: n for a, n in got.items()}) == exp, lambda: f'pins of the report {got}, labelled {exp}')
    require(all(a[0] == a[1] for a in got), lambda: f'nets of the pins {got}')
    regs = {}
    for l, n, r in shapes:
        regs.setdefault((n, names[l]), kdb.Region()).insert(kdb.Box(*r) if not isinstance(r[0], list) else kdb.Polygon([kdb.Point(*q) for q in r]))
    check_devices(rep, case, l2n, dev, names, dbu, [(c.name().removeprefix('Net '), sub(c, 'Device Terminals')) for c in subs(sub(rtop, 'Network Extraction Request'))])
    seen = {}
    nets = collections.Counter()
    for c in subs(sub(rtop, 'Network Extraction Request')):
        net = c.name().removeprefix('Net ')
        nets += pins_of(sub(c, 'Pins'))
        for cl in subs(sub(c, 'Layer Regions')):
            k = (net, cl.name().removeprefix('Layer '))
            seen.setdefault(k, kdb.Region()).insert(region(rep, cl, dbu))
    require(nets == got, lambda: f'pins of the nets {nets}, all pins {got}')
    require(set(seen) == set(regs), lambda: f'shapes of the nets in the report {sorted(seen)}, drawn {sorted(regs)}')
    for k in regs:
        require((seen[k] ^ regs[k]).is_empty(), lambda: f'shapes of net and layer {k} in the report are not the drawn ones')
    mohm, slack = {}, {}
    for c in subs(sub(sub(rtop, '[R] Extraction Tech'), 'Conductors')):
        m = re.search(r'^\d+: (.*) \(LVS .*\), (\S+) (m?)Ω', c.name())
        require(m, f'conductor {c.path()}')
        u = 1 if m.group(3) else 1000
        mohm[m.group(1)] = float(m.group(2)) * u
        slack[m.group(1)] = 0.00051 * u  # three decimals
    for c in subs(sub(sub(rtop, '[R] Extraction Tech'), 'Vias')):
        m = re.search(r'^\d+: (.*) \(LVS .*\), (\S+) (m?)Ω', c.name())
        require(m, f'via {c.path()}')
    table = {l.layer_name: l.resistance for l in ti.tech.process_parasitics.resistance.layers}
    for _, l in regs:
        require(l in mohm and abs(mohm[l] - table[l]) <= slack[l], f'sheet resistance of {l} in the report: {mohm.get(l)} mΩ, table {table.get(l)} mΩ')


def check_resistors(case, rec):
    import klayout.rdb as rdb
    if not case['shapes']:
        return
    def other_values(pb):
        for i, l in enumerate(pb.process_parasitics.resistance.layers):
            l.resistance = case['ohm'] * (i + 1) / 7
    ti = layers.tech_info(case['tech'], halo=case.get('halo'), edit=other_values if case.get('ohm') else None)
    shapes, dbu, hier = gen.realize(case)
    names = layers.metal_names(case['tech'])
    dx, dy = case.get('off') or (0, 0)
    pins = []
    for _, l, n, where, r in case['pins']:
        w = min(r[2] - r[0], r[3] - r[1])
        x = {'lo': r[0], 'hi': r[2] - w, 'mid': r[0] + (r[2] - r[0] - w) // 2}[where] + dx
        y = {'lo': r[1], 'hi': r[3] - w, 'mid': r[1] + (r[3] - r[1] - w) // 2}[where] + dy
        nn = [s[1] for s, o in zip(shapes, case['shapes']) if o[1] == n][0]
        pins.append([l, nn, [x, y, x + w, y + w]])
    dev = case.get('device')
    if hier:    # LayoutToNetlist has no shapes for terminals on subcells
        dev = None
    if dev:     # apart from everything else
        ta, tb, w, h = dev
        x = 1000 + max(b for _, _, r in shapes for b in ([q[0] for q in r] if isinstance(r[0], (list, tuple)) else [r[2]]))
        dev = [ta, tb, [x, 0, x + w, h]]
        shapes = shapes + [[ta, 'DA', [x - 100, -50, x + w, h + 70]], [tb, 'DB', [x - 60, -300, x + w + 200, h]]][:case.get('plates', 2)]
    with scratch() as d:
        path = os.path.join(d, 'rep.rdb.gz')
        with sut('2.5D resistance extraction with report'):
            l2n = geo.build_l2n(case['tech'], shapes, dbu=dbu, hier=hier, pins=pins, device=dev and (dev[2], dev[0], dev[1]))
            res = geo.run_25d(l2n, ti, 'R', case.get('scale', False), report_path=path)
        rep = rdb.ReportDatabase('')
        with sut('loading the report'):
            rep.load(path)
    cr = next(iter(res.cell_extraction_results.values()))
    exp_n, exp_e = collections.Counter(), collections.Counter()
    for nw in cr.r_extraction_result.networks:
        byid = {n.node_id: n for n in nw.nodes}
        for n in nw.nodes:
            b = n.location.box
            p = n.location.point
            bb = (p.x - 5, p.y - 5, p.x + 5, p.y + 5) if n.location.kind == 1 else (b.lower_left.x, b.lower_left.y, b.upper_right.x, b.upper_right.y)
            exp_n[(nw.net_name, n.node_name, n.net_name, n.layer_name, bb)] += 1
        for e in nw.elements:
            a, b = byid[e.node_a.node_id], byid[e.node_b.node_id]
            exp_e[(nw.net_name, a.node_name, a.layer_name, b.node_name, b.layer_name)] += 1
    got_n, got_e = collections.Counter(), collections.Counter()
    rtop = top(rep, '[R] Extraction Result')
    vals = {}
    for cn in subs(sub(rtop, 'Networks')) if rtop is not None and subs(rtop) else []:
        net = cn.name().removeprefix('Net ')
        for c in subs(sub(cn, 'Nodes')):
            m = re.fullmatch(r'(.*), port net (.*), layer (.*)', c.name())
            require(m, f'node {c.path()}')
            for v in items(rep, c):
                bx = (v.box() if v.is_box() else v.polygon().bbox()).to_itype(dbu)
                got_n[(net, m.group(1), m.group(2), m.group(3), (bx.left, bx.bottom, bx.right, bx.top))] += 1
        for c in subs(sub(cn, 'Elements')):
            m = re.fullmatch(r'(.*) \((.*)\) ↔︎ (.*) \((.*)\): (\S+) (mΩ|Ω)', c.name())
            require(m, f'element {c.path()}')
            got_e[(net,) + m.groups()[:4]] += len(items(rep, c))
            vals.setdefault((net,) + m.groups()[:4], []).append(float(m.group(5)) * (1e-3 if m.group(6) == 'mΩ' else 1))
    require(got_n == exp_n, lambda: f'nodes of the report: {got_n - exp_n} too many, {exp_n - got_n} missing')
    require(got_e == exp_e, lambda: f'resistors of the report: {got_e - exp_e} too many, {exp_e - got_e} missing')
    for nw in cr.r_extraction_result.networks:
        byid = {n.node_id: n for n in nw.nodes}
        for e in nw.elements:
            a, b = byid[e.node_a.node_id], byid[e.node_b.node_id]
            k = (nw.net_name, a.node_name, a.layer_name, b.node_name, b.layer_name)
            require(any(abs(v - e.resistance) <= 0.00051 + 1e-9 * v for v in vals[k]), lambda: f'resistor {k}: report says {vals[k]}, extracted {e.resistance}')
    check_request(rep, case, ti, shapes, pins, names, dbu, l2n, dev)
    rec.label('device', bool(dev))
    rec.nontrivial(len(exp_e) > 0 and len(exp_n) > 2)
    rec.label('resistors', len(exp_e) > 0)
    rec.label('pins', bool(pins))


# ---------------------------------------------------------------- repair

WORDS = ['[C] Overlap', 'top_layer=met1', 'A – B', "it's", 'a.b', '#1: 0.5 fF', 'len 1.0 µm', 'x ↔︎ y', 'a\\b', "'q'", 'Ω', '$1', '"d"', "]", "a'.'b", 'Net 1', 'é', '1', '.', ' x', 'Net 1 ', ' ']


@st.composite
def reports(draw):
    paths = draw(st.lists(st.lists(st.sampled_from(WORDS), min_size=1, max_size=4), min_size=1, max_size=8))
    return {'paths': paths, 'cut': draw(st.lists(st.integers(0, 20), max_size=4)), 'gz': draw(st.booleans())}


def dump(rep):
    out = []
    for it in rep.each_item():
        names = []
        c = rep.category_by_id(it.category_id())
        while c is not None:
            names.insert(0, c.name())
            c = c.parent()
        out.append((tuple(names), rep.cell_by_id(it.cell_id()).name(), [v.to_s() for v in it.each_value()]))
    return sorted(out)


def check_repair(case, rec):
    import klayout.rdb as rdb
    import klayout.db as kdb
    from klayout_pex.klayout.repair_rdb import repair_rdb
    rep = rdb.ReportDatabase('x')
    cell = rep.create_cell('TOP')
    for i, p in enumerate(case['paths']):
        c = None
        for w in p:
            c = rep.create_category(w) if c is None else rep.create_category(c, w)
        it = rep.create_item(cell.rdb_id(), c.rdb_id())
        it.add_value(kdb.DBox(i, 0, i + 1, 2))
        it.add_value(f'entry {i}')
    want = dump(rep)
    with scratch() as d:
        path = os.path.join(d, 'r.rdb')
        rep.save(path)
        t = ET.parse(path)
        n = 0
        for k in case['cut']:
            par = [(c, x) for c in t.iter('categories') for x in list(c)]
            if par:
                a, b = par[k % len(par)]
                a.remove(b)
                n += 1
        t.write(path, encoding='utf-8', xml_declaration=True)
        if case['gz']:
            with open(path, 'rb') as f, gzip.open(path + '.gz', 'wb') as g:
                g.write(f.read())
            path += '.gz'
        with open(path, 'rb') as f:
            before = f.read()
        with sut('repair of a report'):
            repair_rdb(path)
        with open(path, 'rb') as f:
            require(f.read() == before, 'the repair changed the broken report itself')
        require(os.path.exists(path + '.repair.xml'), 'no repaired report')
        r2 = rdb.ReportDatabase('')
        with sut('loading the repaired report'):
            r2.load(path + '.repair.xml')
        got = dump(r2)
    require(got == want, lambda: f'markers after the repair: {[g for g in got if g not in want][:3]}, before {[w for w in want if w not in got][:3]}')
    rec.nontrivial(n > 0)
    rec.label('cut', n > 0)
    rec.label('non-ascii', any(not w.isascii() for p in case['paths'] for w in p))


PARTS = [Part('report', lambda: gen.varied(gen.mixed_layouts()), check_report, quick=120, thorough=2500),
         Part('resistors', rcases, check_resistors, quick=60, thorough=1200),
         Part('repair', reports, check_repair, quick=150, thorough=4000)]
