"""P20: netlist reduction keeps the circuit's behaviour and drops only capacitors below the threshold."""
import math
from hypothesis import strategies as st
from kv.core import Part, require, sut

PID = 'P20'
WORKERS = 6
RULE = ('generated: netlists of capacitors (many of them parallel, several classes, with and without bulk), resistors, MOS transistors in parallel, '
        'subcircuits, values around the threshold; oracle: pairwise capacitance and conductance between the nets, with '
        'exactly the small combined capacitors gone; non-trivial: at least one combination or removal')
ASSUMPTIONS = ['only the top circuit is reduced by threshold', 'parallel transistors may or may not be merged (total width per connection counts), and nets '
               'without pins between two devices of one class may or may not be eliminated by series combination']

CLS = ['C', 'CB', 'R', 'MOS']
SHORT = 1e30     # conductance of a resistor of 0 Ω


@st.composite
def cases(draw):
    n = draw(st.integers(2, 6))
    devs = []
    for _ in range(draw(st.integers(1, 12))):
        k = draw(st.sampled_from(['C', 'C', 'C', 'R', 'MOS', 'CB', 'C2']))
        devs.append([k, [draw(st.integers(0, n - 1)) for _ in range(4)],
                     draw(st.sampled_from([0.02e-15, 0.04e-15, 0.049e-15, 0.05e-15, 0.051e-15, 0.03e-15, 1e-15, 2.5e-13, 1e-18]))])
        if k == 'R' and draw(st.integers(0, 4)) == 0:
            devs[-1][2] = 0.0
        if k == 'R' and draw(st.integers(0, 3)) == 0:      # another one in parallel
            devs.append(['R', devs[-1][1][:2][::draw(st.sampled_from([1, -1]))] + [0, 0], draw(st.sampled_from([0.0, 2e-15, 1e-18, 2.5e-13]))])
    return {'nets': n, 'pins': draw(st.sampled_from([n, n, 0, n - 1])), 'devices': devs, 'thr': draw(st.sampled_from([None, None, 0.0, 1e-15, 0.03e-15])),
            'sub': draw(st.sampled_from([0, 0, 0, 1, 1, 4])), 'sub_first': draw(st.booleans()), 'unnamed': draw(st.one_of(st.just([]), st.lists(st.integers(0, n - 1), max_size=n, unique=True))),
            'open': draw(st.one_of(st.just([]), st.lists(st.tuples(st.integers(0, 11), st.integers(0, 3)), max_size=3))) }


def build(case):
    import klayout.db as kdb
    un = set(case.get('unnamed', ()))
    l2n = None
    if un:          # only netlists of layouts tell nets without names apart
        ly = kdb.Layout()
        cell = ly.create_cell('TOP')
        for i in range(case['nets']):
            cell.shapes(ly.layer(1, 0)).insert(kdb.Box(0, 1000 * i, 500, 1000 * i + 500))
            if i not in un:
                cell.shapes(ly.layer(2, 0)).insert(kdb.Text(f'n{i}', kdb.Trans(100, 1000 * i + 100)))
        l2n = kdb.LayoutToNetlist(kdb.RecursiveShapeIterator(ly, cell, []))
        m, t = l2n.make_layer(ly.layer(1, 0), 'm'), l2n.make_text_layer(ly.layer(2, 0), 't')
        l2n.connect(m)
        l2n.connect(m, t)
        l2n.extract_netlist()
        nl = l2n.netlist()
        nl._kv = (ly, l2n)
        at = {round(l2n.shapes_of_net(x, m, True).bbox().bottom / 1000): x for x in nl.circuit_by_name('TOP').each_net()}
    else:
        nl = kdb.Netlist()
    cc = {}
    for k, c in (('C', kdb.DeviceClassCapacitor()), ('C2', kdb.DeviceClassCapacitor()), ('CB', kdb.DeviceClassCapacitorWithBulk()), ('R', kdb.DeviceClassResistor()),
                 ('MOS', kdb.DeviceClassMOS4Transistor())):
        c.name = {'C': 'PEX_CAP', 'C2': 'mimcap', 'CB': 'capb', 'R': 'PEX_RES', 'MOS': 'nfet'}[k]
        nl.add(c)
        cc[k] = c

    def fill(circ, n, pins, devs):
        nn = [at[i] for i in range(n)] if un and circ.name == 'TOP' else [circ.create_net(f'n{i}') for i in range(n)]
        for i in range(pins):
            circ.connect_pin(circ.create_pin(f'n{i}'), nn[i])
        for i, (k, t, v) in enumerate(devs):
            d = circ.create_device(cc[k], f'd{i}')
            for td, x in zip(cc[k].terminal_definitions(), t):
                if circ.name != 'TOP' or k == 'MOS' or [i, td.id()] not in [list(o) for o in case.get('open', ())]:
                    d.connect_terminal(td.id(), nn[x])
            if k in ('C', 'CB', 'C2'):
                d.set_parameter('C', v)
            elif k == 'R':
                d.set_parameter('R', v * 1e18)
            else:
                d.set_parameter('W', v * 1e15)
                d.set_parameter('L', 0.15)
        return nn
    top = nl.circuit_by_name('TOP')
    subs = []

    def sub_circuits():
        for k in range(int(case['sub'])):
            s = kdb.Circuit()
            s.name = f'SUB{k}' if k else 'SUB'
            nl.add(s)
            fill(s, 3, 3, [['C', [0, 1, 0, 0], 1e-18], ['C', [1, 2, 0, 0], 1e-15], ['C', [2, 1, 0, 0], 2e-15 * (k + 1)]])
            subs.append(s)
    if case.get('sub_first'):
        sub_circuits()
    if top is None:
        top = kdb.Circuit()
        top.name = 'TOP'
        nl.add(top)
    nn = fill(top, case['nets'], case['pins'], case['devices'])
    names = [x.expanded_name() for x in nn]
    if not case.get('sub_first'):
        sub_circuits()
    for k, s in enumerate(subs):
        i = top.create_subcircuit(s, f'inst{k}' if k else 'inst')
        for p in range(3):
            i.connect_pin(s.pin_by_id(p), nn[p % len(nn)])
    return nl, names


def fp(circ):
    out = []
    for d in circ.each_device():
        dc = d.device_class()
        t = {x.name: d.net_for_terminal(x.id()).expanded_name() if d.net_for_terminal(x.id()) else None for x in dc.terminal_definitions()}
        out.append((dc.name, t, {p.name: d.parameter(p.id()) for p in dc.parameter_definitions()}))
    return out


def cap_like(d):
    return d[0] in ('PEX_CAP', 'mimcap', 'capb')


def kron(pairs, keep):
    """{(class) -> {frozenset: value}} after eliminating nets that are not kept (series combination only)"""
    pairs = {k: v for k, v in pairs.items() if v}
    nodes = {x for k in pairs for x in k}
    for x in sorted(nodes - keep):
        nb = {k: v for k, v in pairs.items() if x in k}
        tot = sum(nb.values())
        for k in nb:
            del pairs[k]
        items = [(next(iter(k - {x})), v) for k, v in nb.items()]
        for i in range(len(items)):
            for j in range(i + 1, len(items)):
                k = frozenset((items[i][0], items[j][0]))
                pairs[k] = pairs.get(k, 0) + items[i][1] * items[j][1] / tot
    return pairs


def table(devs, cls, conductance=False):
    t = {}
    for c, term, p in devs:
        if c == cls and term['A'] and term['B'] and term['A'] != term['B']:
            k = frozenset((term['A'], term['B']))
            t[k] = t.get(k, 0) + ((1 / p['R'] if p['R'] else SHORT) if conductance else p['C'])
            if conductance:
                t[k] = min(t[k], SHORT)
    return t


def run(case, rec):
    from klayout_pex.klayout.netlist_reducer import NetlistReducer
    nl, name = build(case)
    top = nl.circuit_by_name('TOP')
    before = fp(top)
    nets0 = [n.expanded_name() for n in top.each_net()]
    text0 = str(nl)
    with sut('netlist reduction'):
        kw = {} if case['thr'] is None else {'cap_threshold': case['thr']}
        red = NetlistReducer.reduce(netlist=nl, top_cell_name='TOP', **kw)
        rt = red.circuit_by_name('TOP')
        after = fp(rt)
    require(str(nl) == text0, 'the input netlist was modified')
    thr = 0.05e-15 if case['thr'] is None else case['thr']
    nets1 = {n.expanded_name() for n in rt.each_net()}
    pinned = {name[i] for i in range(case['pins'])} | ({name[p % case["nets"]] for p in range(3)} if case['sub'] else set())
    require([rt.net_for_pin(p.id()).expanded_name() for p in rt.each_pin()] == [name[i] for i in range(case['pins'])], 'pins changed')
    # nets that may have been eliminated: exactly two capacitors (or resistors) and nothing else after parallel combination
    conn = {}
    for c, t, p in before:
        for name, net in t.items():
            conn.setdefault(net, []).append(c)
    require(pinned & set(nets0) <= nets1, f'nets with pins lost: {sorted(pinned & set(nets0) - nets1)}')
    gone = set(nets0) - nets1
    # transistors and their connections stay (parallel ones may be merged, total width per connection is kept)
    def mos(devs):
        t = {}
        for c, term, p in devs:
            if c == 'nfet':
                k = (tuple(sorted((term['S'], term['D']))), term['G'], term['B'], round(p['L'], 6))
                t[k] = t.get(k, 0) + p['W']
        return t
    m0, m1 = mos(before), mos(after)
    require(set(m0) == set(m1) and all(abs(m0[k] - m1[k]) <= 1e-9 * m0[k] for k in m0), f'transistors changed: {m0} to {m1}')
    # resistors
    r0, r1 = table(before, 'PEX_RES', True), table(after, 'PEX_RES', True)
    elim = {x for x in nets0 if x not in pinned and set(conn.get(x, [])) == {'PEX_RES'} and x not in {n for k in r1 for n in k}}
    keepr = set(nets0) - elim
    r0 = kron(r0, keepr)
    for k in set(r0) | set(r1):
        require(abs(r0.get(k, 0) - r1.get(k, 0)) <= 1e-6 * (r0.get(k, 0) + r1.get(k, 0)), f'conductance between {sorted(k)}: {r1.get(k)}, before {r0.get(k)}')
    for k in range(int(case['sub'])):
        n = f'SUB{k}' if k else 'SUB'
        t0, t1 = (table(fp(x.circuit_by_name(n)), 'PEX_CAP') for x in (nl, red))
        require(set(t0) == set(t1) and all(abs(t0[x] - t1[x]) <= 1e-9 * t0[x] for x in t0), f'capacitances of the subcircuit {n}: {t1}, before {t0}')
    removed = 0
    small = 0
    for cls in ('PEX_CAP', 'mimcap'):
        c0, c1 = table(before, cls), table(after, cls)
        # a net may be combined away only between two capacitors of one class
        elim = {x for x in nets0 if x not in pinned and set(conn.get(x, [])) == {cls} and x not in {n for k in c1 for n in k}}
        full = [c0, kron(c0, set(nets0) - elim)]
        ok = []
        for c in full:
            exp = {k: v for k, v in c.items() if v >= thr * (1 + 1e-9)}
            edge = {k for k, v in c.items() if abs(v - thr) <= 1e-9 * thr}
            bad = [k for k in set(exp) | set(c1) if k not in edge and abs(exp.get(k, 0) - c1.get(k, 0)) > 1e-6 * (exp.get(k, 0) + c1.get(k, 0))]
            ok.append(not bad)
            small += any(k not in exp for k in c)
        require(any(ok), lambda: f'{cls} capacitances {c1}, before {c0}, threshold {thr}')
        removed += len(c0) > len(c1)
    # a capacitor which has no other one in parallel and is exactly at the threshold is not below it
    groups = {}
    for c, t, p in before:
        if cap_like((c,)) and None not in t.values():
            groups.setdefault((c, frozenset((t['A'], t['B'])), t.get('W')), []).append(p['C'])
    left = {(c, frozenset((t['A'], t['B'])), t.get('W')) for c, t, p in after if cap_like((c,)) and None not in t.values()}
    if set(nets0) <= nets1:
        for k, v in groups.items():
            require(v != [thr] or k in left, f'a capacitor of exactly the threshold {thr} F is gone: {k[0]} {sorted(k[1])}')
            rec.label('exactly at the threshold', v == [thr])
    for c, t, p in after:
        if cap_like((c,)):
            require(p['C'] >= thr * (1 - 1e-9), f'a capacitor of {p["C"]} F is left, threshold {thr}')
    # three-terminal capacitors are merged or dropped by the same rule
    def cb(devs):
        d = {}
        for c, t, p in devs:
            if c == 'capb' and None not in t.values():
                k = (frozenset((t['A'], t['B'])), t['W'])
                d[k] = d.get(k, 0) + p['C']
        return d
    b0, b1 = cb(before), cb(after)
    series = any(not (x in pinned) and 'capb' in conn.get(x, []) for x in nets0)
    if not series:
        e = {k: v for k, v in b0.items() if v >= thr * (1 - 1e-9)}
        for k in set(e) | set(b1):
            if abs(b0[k] - thr) > 1e-9 * thr if k in b0 else True:
                require(k in b1 and k in e and abs(e[k] - b1[k]) <= 1e-6 * e[k], f'capacitors with bulk: {b1}, before {b0}')
    # devices which are not connected are on their own
    def dangling(devs):
        return sorted((c, sorted((k, v or '') for k, v in t.items()), round(p.get('C', p.get('R')), 22)) for c, t, p in devs
                      if c != 'nfet' and None in t.values() and not (cap_like((c,)) and p['C'] < thr * (1 + 1e-9)))
    require(dangling(before) == dangling([d for d in after if not (cap_like(d) and d[2]['C'] < thr * (1 + 1e-9))]), lambda: (
        f'devices with unconnected terminals: {dangling(after)}, before {dangling(before)}'))
    want = [f'inst{k}' if k else 'inst' for k in range(int(case['sub']))]
    require(sorted(i.expanded_name() for i in rt.each_subcircuit()) == sorted(want), 'subcircuits changed')
    rec.label('many subcircuits', case['sub'] > 1)
    rec.nontrivial(len(after) < len(before))
    rec.label('removed', small > 0)
    rec.label('zero and another resistor', any(v > 0 and v >= SHORT for v in r0.values()) and sum(c == 'PEX_RES' for c, _, _ in before) > 1)
    rec.label('net eliminated', bool(gone))
    rec.label('unnamed nets', len(case['unnamed']) > 1)
    rec.label('open terminals', None in conn)
    rec.label('nets without pins', case['pins'] < case['nets'])


PARTS = [Part('reduce', cases, run, quick=300, thorough=6000)]
