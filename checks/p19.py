"""P19: the netlist of a field solver run realises the solver's Maxwell matrix between the nets of the layout."""
import os
from hypothesis import strategies as st
from kv import nets
from kv.core import Part, require, sut
from kv.cli import scratch

PID = 'P19'
WORKERS = 6
RULE = ('generated: LVS netlists (all device kinds, unnamed nets, subcircuits, nets called VSUBS, GND or FC_GND) and Maxwell matrices over their nets and the '
        'substrate with positive, zero and noisy entries, named as FasterCap or FastCap2 name conductors (FastCap2 with several conductors of one net); '
        'oracle: capacitance per pair of nets, with the nets tied to ground by 0 Ohm taken as one; non-trivial: at least two nets coupled')
ASSUMPTIONS = ['the substrate is the first conductor of the matrix, as the model builder has it lowest (P16 checks this)']


@st.composite
def cases(draw):
    nl = draw(nets.netlists(extra_nets=['VSUBS', 'GND', 'FC_GND', 'g1_x']))
    n = draw(st.integers(1, 6))
    val = st.sampled_from([0.0, 1e-15, 2.5e-16, 3.2e-14, 6.37145e-16, 1e-18, 4.99e-18, 5e-17, -2e-17])
    return {'netlist': nl, 'blackbox': draw(st.booleans()), 'style': draw(st.sampled_from(['fastercap', 'fastercap', 'fastcap'])),
            'pick': draw(st.lists(st.integers(0, 9), min_size=n, max_size=n)),
            'off': draw(st.lists(val, min_size=n * (n + 1) // 2, max_size=n * (n + 1) // 2)),
            'gnd': draw(st.lists(val, min_size=n + 1, max_size=n + 1)), 'dup': draw(st.lists(st.integers(0, 9), max_size=2)),
            'skew': draw(st.integers(0, 4)) == 0}


def matrix(case, names):
    """conductors (nets) and Maxwell matrix"""
    cond = ['VSUBS']
    for p in case['pick']:
        nn = names[p % len(names)]
        if nn not in cond:
            cond.append(nn)
    if case['style'] == 'fastcap':
        for p in case['dup']:
            cond.append(cond[p % len(cond)])
    n = len(cond)
    c = [[0.0] * n for _ in range(n)]
    k = 0
    for i in range(n):
        for j in range(i + 1, n):
            c[i][j] = c[j][i] = case['off'][k % len(case['off'])]
            k += 1
    m = [[-c[i][j] for j in range(n)] for i in range(n)]
    for i in range(n):
        m[i][i] = case['gnd'][i % len(case['gnd'])] + sum(c[i])
    return cond, m


def run(case, rec):
    from klayout_pex.common.capacitance_matrix import CapacitanceMatrix
    from klayout_pex.klayout.netlist_expander import NetlistExpander
    from klayout_pex.klayout.netlist_csv import NetlistCSVWriter
    nl = nets.build(case['netlist'])
    top = case['netlist']['top']
    names = nets.net_names(nl, top)
    if len(set(names)) != len(names):
        return
    cond, m = matrix(case, names)
    n = len(cond)
    labels = [f'g{i + 1}_{c}' if case['style'] == 'fastercap' else f'{c}%GROUP{i + 2}' for i, c in enumerate(cond)]
    before = nets.fingerprint(nl)
    cm = CapacitanceMatrix(conductor_names=list(labels), rows=[list(r) for r in m])
    with sut('netlist expansion (field solver)'):
        ex = NetlistExpander().expand(extracted_netlist=nl, top_cell_name=top, cap_matrix=cm, blackbox_devices=case['blackbox'])
        after = nets.fingerprint(ex)
    require(nets.fingerprint(nl) == before, 'the extracted netlist was modified')
    require(cm.rows == m and cm.conductor_names == labels, 'the matrix was modified')
    got = list(next(c for c in after if c[0] == top)[3])
    for d in next(c for c in before if c[0] == top)[3]:
        if not case['blackbox'] and d[1] in ('DeviceClassCapacitor', 'DeviceClassCapacitorWithBulk'):
            continue
        require(d in got, f'device lost or changed: {d}')
        got.remove(d)
    # what is left are the parasitics: 0 Ohm ties to ground, and capacitors
    tie = {}

    def root(x):
        while tie.get(x, x) != x:
            x = tie[x]
        return x
    caps = []
    for cls, typ, name, terms, params in got:
        t, p = dict(terms), dict(params)
        if typ == 'DeviceClassResistor':
            require(p['R'] == 0, f'resistor {name} of {p["R"]} Ohm')
            require(t['A'] is not None and t['B'] is not None, f'resistor {name} is not connected')
            tie[root(t['A'])] = root(t['B'])
        else:
            require(typ == 'DeviceClassCapacitor', f'unexpected device {typ} {name}')
            require(t['A'] is not None and t['B'] is not None, f'capacitor {name} is not connected')
            require(p['C'] > 0 and t['A'] != t['B'], f'capacitor {name} of {p["C"]} F between {t["A"]} and {t["B"]}')
            caps.append((name, t['A'], t['B'], p['C']))
    cluster = {x for x in set(names) | {'VSUBS', 'GND', 'FC_GND'} if root(x) == root('VSUBS')}
    require(cluster == {'VSUBS', 'GND', 'FC_GND'}, f'nets tied to the substrate: {sorted(cluster)}')
    others = {x for x in names if x not in cluster and root(x) != x}
    require(not others, f'nets shorted: {others}')
    G = '<ground>'
    node = lambda x: G if x in cluster else x
    want, tol = {}, {}

    def add(a, b, v, t):
        if a != b and v > 0:
            k = frozenset((a, b))
            want[k] = want.get(k, 0) + v
        if a != b:
            k = frozenset((a, b))
            tol[k] = tol.get(k, 0) + t
    for i in range(n):
        for j in range(i + 1, n):
            add(node(cond[i]), node(cond[j]), -m[i][j], 0)
        if i > 0:
            add(node(cond[i]), G, sum(m[i]), 1e-13 * sum(map(abs, m[i])))
    have = {}
    for name, a, b, v in caps:
        if node(a) != node(b):
            k = frozenset((node(a), node(b)))
            have[k] = have.get(k, 0) + v
    for k in set(have) | set(want):
        w, h = want.get(k, 0), have.get(k, 0)
        require(abs(w - h) <= 1e-12 * (w + h) + tol.get(k, 0), lambda: f'capacitance between {sorted(k)}: {h}, the matrix says {w}')
    require(len({c[0] for c in caps}) == len(caps), f'capacitor names not unique: {sorted(c[0] for c in caps)}')
    for c0 in before:
        c1 = [c for c in after if c[0] == c0[0]]
        require(len(c1) == 1, f'circuit {c0[0]} appears {len(c1)} times')
        if c0[0] != top:
            require(c1[0] == c0, f'circuit {c0[0]} changed')
        else:
            require(c1[0][2] == c0[2] and c1[0][4] == c0[4], 'pins or subcircuits of the top circuit changed')
            ns = c1[0][1]
            require(len(set(ns)) == len(ns), f'net names not unique: {ns}')
            require(set(ns) == set(c0[1]) | {'VSUBS', 'GND', 'FC_GND'}, f'nets {sorted(set(ns) ^ set(c0[1]))} new or lost')
    require(len(before) == len(after), 'circuits appeared or vanished')
    # the table
    with scratch() as d:
        p = os.path.join(d, 'x.csv')
        with sut('netlist table'):
            NetlistCSVWriter.write_csv(netlist=ex, top_cell_name=top, output_path=p)
        with open(p, encoding='utf-8') as fh:
            lines = fh.read().split('\n')
    require(lines[0] == 'Device;Net1;Net2;Capacitance [fF]' and lines[-1] == '', f'table head or end: {lines[:1]}')
    rows = [l.split(';') for l in lines[1:-1]]
    require(sorted(r[0] for r in rows) == sorted(c[0] for c in caps), f'table rows {[r[0] for r in rows]}, capacitors {[c[0] for c in caps]}')
    by = {c[0]: c for c in caps}
    for r in rows:
        _, a, b, v = by[r[0]]
        require({r[1], r[2]} == {a, b}, f'table: {r[0]} between {r[1:3]}, in the netlist {a}, {b}')
        require(abs(float(r[3]) - v * 1e15) <= 0.005 + 1e-9 * abs(v) * 1e15, f'table: {r[0]} is {r[3]} fF, in the netlist {v} F')
    rec.nontrivial(len(want) > 0 and n > 2)
    rec.label('whitebox', not case['blackbox'])
    rec.label('fastcap', case['style'] == 'fastcap')
    rec.label('two conductors of a net', len(set(cond)) < n)
    rec.label('ground in layout', bool(cluster & set(names)))


PARTS = [Part('expand', cases, run, quick=300, thorough=6000)]
