"""P07: the expanded 2.5D netlist is the LVS netlist plus exactly the extracted parasitics."""
from hypothesis import strategies as st
from kv import nets
from kv.core import Part, require, sut
from checks import p05

PID = 'P07'
RULE = ('generated: LVS netlists (MOS, R, C, L, diode, BJT with and without bulk, unnamed nets and devices, floating terminals, '
        'subcircuits, nets called VSUBS) plus extraction results over their nets, VSUBS and R nodes, in black and white box mode; non-trivial: the '
        'netlist has devices and there is at least one parasitic')
ASSUMPTIONS = ['netlist objects are compared through the KLayout netlist API']


@st.composite
def cases(draw):
    nl = draw(nets.netlists(extra_nets=['VSUBS', 'GND']))
    lo, hi = draw(st.sampled_from([(0, 6), (0, 6), (20, 40)]))
    return {'netlist': nl, 'blackbox': draw(st.booleans()),
            'caps': draw(st.lists(st.tuples(st.integers(0, 9), st.integers(0, 9),
                                            st.sampled_from([0.0, 1e-4, 0.5, 12.25, 3000.0, 1.23456789e-3, 0.1 + 0.2]),
                                            st.sampled_from(['overlap', 'sidewall', 'sideoverlap'])).map(list), min_size=lo, max_size=hi)),
            'res': draw(st.lists(st.tuples(st.integers(0, 9), st.integers(0, 9), st.sampled_from([0.0, 0.5, 12.5, 1e6])).map(list),
                                 max_size=draw(st.sampled_from([4, 4, 20]))))}


def run(case, rec):
    import klayout.db as kdb
    from klayout_pex.rcx25.netlist_expander import RCX25NetlistExpander
    nl = nets.build(case['netlist'])
    top = case['netlist']['top']
    if len(set(nets.net_names(nl, top))) != len(case['netlist']['nets']):
        return
    names = nets.net_names(nl, top) + ['VSUBS', f'{nets.net_names(nl, top)[0]}.$0', 'B.$1.5']
    names = list(dict.fromkeys(names))
    entries = []
    for a, b, v, kind in case['caps']:
        n1, n2 = names[a % len(names)], names[b % len(names)]
        if n1 != n2:
            entries.append([kind, 'met1', n1, 'met2', n2, v])
    els = [[a % len(names), b % len(names), r] for a, b, r in case['res'] if a % len(names) != b % len(names)]
    cells = [[entries, [[names, els, 3]] if els else []]]
    before = nets.fingerprint(nl)
    with sut('netlist expansion (2.5D)'):
        er = p05.fill(cells)
        ex = RCX25NetlistExpander().expand(extracted_netlist=nl, top_cell_name=top, extraction_results=er,
                                           blackbox_devices=case['blackbox'])
        after = nets.fingerprint(ex)
    require(nets.fingerprint(nl) == before, 'the extracted netlist was modified')
    caps, res, _, _ = p05.expected(cells)
    # expected devices of the top circuit
    want = []
    for d in next(c for c in before if c[0] == top)[3]:
        if not case['blackbox'] and d[1] in ('DeviceClassCapacitor', 'DeviceClassCapacitorWithBulk'):
            continue
        want.append(d)
    got = list(next(c for c in after if c[0] == top)[3])
    for d in want:
        require(d in got, f'device lost or changed: {d}')
        got.remove(d)
    par = {}
    for cls, typ, name, terms, params in got:
        kind = 'C' if typ == 'DeviceClassCapacitor' else 'R' if typ == 'DeviceClassResistor' else None
        require(kind is not None, f'unexpected device {cls} {name}')
        t = dict(terms)
        par.setdefault((kind, frozenset((t['A'], t['B']))), []).append(dict(params)[kind])
    exp = {('C', k): v * 1e-15 for k, v in caps.items()}
    exp.update({('R', k): v for k, v in res.items()})
    for k in set(par) | set(exp):
        g = par.get(k, [])
        e = exp.get(k)
        require(len(g) == 1 and e is not None and abs(g[0] - e) <= 1e-12 * abs(e) + 1e-30,
                f'{k[0]} between {sorted(k[1])}: in the netlist {g}, extracted {e}')
    for c0 in before:
        c1 = [c for c in after if c[0] == c0[0]]
        require(len(c1) == 1, f'circuit {c0[0]} appears {len(c1)} times')
        if c0[0] != top:
            require(c1[0] == c0, f'circuit {c0[0]} changed')
        else:
            require(c1[0][2] == c0[2] and c1[0][4] == c0[4], 'pins or subcircuits of the top circuit changed')
            ns = c1[0][1]
            require(len(set(ns)) == len(ns), f'net names not unique: {ns}')
            require(set(c0[1]) <= set(ns), f'nets lost: {set(c0[1]) - set(ns)}')
            used = {n for k in exp for n in k[1]} | {'VSUBS'}
            require(set(ns) == set(c0[1]) | used, f'nets {sorted(set(ns) ^ (set(c0[1]) | used))} too many or missing')
    require(len(before) == len(after), 'circuits appeared or vanished')
    rec.nontrivial(bool(case['netlist']['devices']) and bool(exp))
    rec.label('whitebox', not case['blackbox'])
    rec.label('has-C', any(d[0] in ('C', 'C3') for d in case['netlist']['devices']))
    rec.label('VSUBS-in-layout', 'VSUBS' in case['netlist']['nets'])
    rec.label('R', bool(res))


PARTS = [Part('expand', cases, run, quick=300, thorough=4000)]
