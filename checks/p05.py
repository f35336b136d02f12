"""P05: the summary loses, duplicates and misattributes nothing."""
from hypothesis import strategies as st
from kv.core import Part, require, sut

PID = 'P05'
RULE = ('generated: result tables (overlap, sidewall, side-overlap entries, resistor networks) for 1-3 cells with 2-5 net '
        'names (case variants, digits, bus names included), entered in any order; non-trivial: one net pair has at '
        'least two contributions from different tables, directions or cells')
ASSUMPTIONS = ['results enter through the add_* methods and the R network message, as the extractors do it']

NETS = ['A', 'B', 'a', 'VSUBS', 'net1', 'net10', 'NET1', 'x<1>', '$3', 'A.$1']
VAL = st.one_of(st.floats(1e-6, 1e4), st.sampled_from([0.0, 1.0, 0.001]))
RES = st.one_of(st.floats(1e-6, 1e6), st.sampled_from([0.0, 1.0, 2.0, 1000.0]))


@st.composite
def cases(draw):
    nets = draw(st.permutations(NETS))[:draw(st.integers(2, 5))]
    cells = []
    for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
        entries = []
        for _ in range(draw(st.integers(0, 12))):
            entries.append([draw(st.sampled_from(['overlap', 'sidewall', 'sideoverlap'])),
                            draw(st.sampled_from(['met1', 'met2', 'li1'])), draw(st.sampled_from(nets)),
                            draw(st.sampled_from(['met1', 'met2', 'VSUBS'])), draw(st.sampled_from(nets)), draw(VAL)])
        nws = []
        for _ in range(draw(st.integers(0, 3))):
            k = draw(st.integers(1, 5))
            nodes = [draw(st.sampled_from(nets)) for _ in range(k)]
            els = [[draw(st.integers(0, k - 1)), draw(st.integers(0, k - 1)), draw(RES)]
                   for _ in range(draw(st.integers(0, 5)))]
            nws.append([nodes, els, draw(st.integers(0, 1000))])
        cells.append([entries, nws])
    return {'cells': cells}


def fill(cells):
    from klayout_pex.rcx25.extraction_results import (
        ExtractionResults, CellExtractionResults, OverlapCap, OverlapKey, SidewallCap, SidewallKey, SideOverlapCap,
        SideOverlapKey)
    er = ExtractionResults()
    for ci, (entries, nws) in enumerate(cells):
        cr = CellExtractionResults(cell_name=f'CELL{ci}')
        for kind, l1, n1, l2, n2, v in entries:
            if kind == 'overlap':
                cr.add_overlap_cap(OverlapCap(key=OverlapKey(layer_top=l1, net_top=n1, layer_bot=l2, net_bot=n2),
                                              cap_value=v, shielded_area=0.0, unshielded_area=1.0, tech_spec=None))
            elif kind == 'sidewall':
                cr.add_sidewall_cap(SidewallCap(key=SidewallKey(layer=l1, net1=n1, net2=n2), cap_value=v,
                                                distance=1.0, length=1.0, tech_spec=None))
            else:
                cr.add_sideoverlap_cap(SideOverlapCap(key=SideOverlapKey(layer_inside=l1, net_inside=n1,
                                                                         layer_outside=l2, net_outside=n2),
                                                      cap_value=v))
        for nodes, els, base in nws:
            nw = cr.r_extraction_result.networks.add()
            nw.net_name = nodes[0]
            for i, n in enumerate(nodes):
                nd = nw.nodes.add()
                nd.node_id = base + 7 * i
                nd.node_name = f'P{i}'
                nd.net_name = n
            for i, (a, b, r) in enumerate(els):
                e = nw.elements.add()
                e.element_id = i
                e.node_a.node_id = base + 7 * a
                e.node_b.node_id = base + 7 * b
                e.resistance = r
        er.cell_extraction_results[cr.cell_name] = cr
    return er


def expected(cells):
    caps, cond, sources = {}, {}, {}
    for ci, (entries, nws) in enumerate(cells):
        for kind, l1, n1, l2, n2, v in entries:
            k = frozenset((n1, n2))
            caps[k] = caps.get(k, 0.0) + v
            sources.setdefault(k, set()).add((kind, n1, ci))
        for nodes, els, base in nws:
            for a, b, r in els:
                k = frozenset((nodes[a], nodes[b]))
                cond.setdefault(k, []).append(r)
    res = {k: (0.0 if any(r == 0.0 for r in v) else 1.0 / sum(1.0 / r for r in v)) for k, v in cond.items()}
    return caps, res, sources, cond


def check_table(got, exp, what):
    keys = [(k.net1, k.net2) for k in got]
    got2 = {}
    for k, v in got.items():
        fs = frozenset((k.net1, k.net2))
        require(fs not in got2, f'{what}: two entries for the nets {sorted(fs)}: {keys}')
        got2[fs] = v
    for k in set(exp) | set(got2):
        e, a = exp.get(k), got2.get(k)
        if e is None or a is None:
            require((e or 0.0) == 0.0 and (a or 0.0) == 0.0 and e is None,
                    f'{what} {sorted(k)}: got {a}, expected {e}')
            continue
        require(abs(e - a) <= 1e-9 * max(abs(e), abs(a), 1e-9), f'{what} {sorted(k)}: got {a}, expected {e}')


def run(case, rec):
    with sut('summary of extraction results'):
        er = fill(case['cells'])
        before = [str(c.r_extraction_result) for c in er.cell_extraction_results.values()]
        s = er.summarize()
        again = er.summarize()
    caps, res, sources, cond = expected(case['cells'])
    check_table(s.capacitances, caps, 'capacitance')
    check_table(s.resistances, res, 'resistance')
    require(dict(s.capacitances) == dict(again.capacitances) and dict(s.resistances) == dict(again.resistances),
            'a second summary differs from the first')
    require(before == [str(c.r_extraction_result) for c in er.cell_extraction_results.values()],
            'summarizing changed the results')
    rec.nontrivial(any(len(v) > 1 for v in sources.values()) or any(len(v) > 1 for v in cond.values()))
    rec.label('cells>1', len(case['cells']) > 1)
    rec.label('parallel-R', any(len(v) > 1 for v in cond.values()))
    rec.label('case-variants', any({'A', 'a'} <= set(k) or {'net1', 'NET1'} <= set(k) for k in caps))


@st.composite
def summaries(draw):
    nets = draw(st.permutations(NETS))[:draw(st.integers(2, 4))]
    pairs = st.tuples(st.sampled_from(nets), st.sampled_from(nets))
    out = []
    for _ in range(draw(st.integers(0, 4))):
        out.append([[[*k, v] for k, v in draw(st.dictionaries(pairs, x, max_size=5)).items()] for x in (VAL, RES)])
    return {'summaries': out}


def run_merged(case, rec):
    """summaries of any origin, with the nets of a pair in either order"""
    from klayout_pex.rcx25.extraction_results import ExtractionSummary, NetCoupleKey
    ss = [ExtractionSummary(capacitances={NetCoupleKey(a, b): v for a, b, v in c}, resistances={NetCoupleKey(a, b): v for a, b, v in r})
          for c, r in case['summaries']]
    with sut('merging summaries'):
        m = ExtractionSummary.merged(ss)
    caps, cond = {}, {}
    for c, r in case['summaries']:
        for a, b, v in c:
            caps.setdefault(frozenset((a, b)), []).append(v)
        for a, b, v in r:
            cond.setdefault(frozenset((a, b)), []).append(v)
    check_table(m.capacitances, {k: sum(v) for k, v in caps.items()}, 'merged capacitance')
    check_table(m.resistances, {k: (0.0 if 0.0 in v else 1.0 / sum(1.0 / r for r in v)) for k, v in cond.items()}, 'merged resistance')
    require(sum(len(s.capacitances) + len(s.resistances) for s in ss) == sum(len(c) + len(r) for c, r in case['summaries']), 'merging changed the summaries')
    rec.nontrivial(any(len(v) > 1 for v in list(caps.values()) + list(cond.values())))


PARTS = [Part('merged', summaries, run_merged, quick=200, thorough=4000), Part('tables', cases, run, quick=700, thorough=8000, fixed=[
    {'cells': [[[], [[['A', 'B'], [[0, 1, 2.0], [0, 1, 2.0]], 0]]]]}])]
