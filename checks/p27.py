"""P27: Magic's extraction files are read completely and turned into markers at the right places."""
import os
from hypothesis import strategies as st
from kv.core import Part, require, sut
from kv.cli import scratch, forked

PID = 'P27'
WORKERS = 4
RULE = ('generated: run directories of 1 to 3 cells with .ext and partly .res.ext files (ports, nodes, substrates, devices, resistor nodes and resistors with the '
        'kinds of names, numbers and layers Magic writes, mixed with all other kinds of lines), in arbitrary order; oracle: the generated records; markers: '
        'positions in µm of 1/200 per unit; non-trivial: at least three records, a name with other characters than letters and digits')
ASSUMPTIONS = ['the files are as documented for Magic (ext(5)) and printed by its source; Magic itself is not installed',
               'one internal unit is 1/200 µm, as the analyzer assumes', 'names contain no quotes']

NAMES = ['VDD', 'VSS', 'A', 'out', 'a_n51_100#', 'w_0_0#', 'out[0]', 'd<1>', 'x1/y', 'VDD.t0', 'VDD.n12', 'net.1', 'A!', 'b_bar', 'VSUBS', 'q-1', 'n\\x', '0']
LAYERS = ['m1', 'm2', 'li', 'poly', 'ndiff', 'space', 'metal1', 'pwell', 'nsd', 'li1', 'v1']
DEVS = ['fet', 'mosfet', 'asymmetric', 'bjt', 'devres', 'devcap', 'devcaprev', 'vsource', 'diode', 'pdiode', 'ndiode', 'subckt', 'rsubckt', 'msubckt', 'csubckt']
MODELS = ['sky130_fd_pr__nfet_01v8', 'None', 'sg13_lv_nmos', 'mn', 'res-1']
coord = st.integers(-200000, 200000)
num = st.one_of(st.integers(0, 10 ** 6), st.floats(0, 1e9, allow_nan=False).map(lambda v: float('%g' % v)))
name = st.sampled_from(NAMES)
NOISE = ['timestamp 1700000000', 'version 8.3', 'tech sky130A', 'style ngspice()', 'scale 1000 1 500000', 'resistclasses 4400000 2200000 950000', 'use nfet X0 1 0 -5 0 1 6',
         'cap "A" "out" 123.4', 'merge "A" "B" -12 0 0', 'equiv "A" "B"', 'subcap "A" -33.2', 'parameters sky130_fd_pr__nfet_01v8 l=l w=w', 'killnode "A"', '', 'portnode',
         'nodes "A" 1 2 3 4 m1', 'fet nfet 1 2 3 4 5 6 "VSUBS" "A" 2 0 "B" 3 0 "C" 3 0', 'attr "A" 1 2 3 4 m1 "text"']


def g(v):
    return str(v) if isinstance(v, int) else '%g' % v


@st.composite
def records(draw):
    k = draw(st.sampled_from(['port', 'node', 'node', 'substrate', 'device', 'noise']))
    if k == 'noise':
        return [k, draw(st.sampled_from(NOISE))]
    xy = [draw(coord), draw(coord)]
    if k == 'port':
        return [k, draw(name), draw(st.integers(0, 30)), xy + [xy[0] + draw(st.integers(0, 5000)), xy[1] + draw(st.integers(0, 5000))], draw(st.sampled_from(LAYERS))]
    if k == 'device':
        return [k, draw(st.sampled_from(DEVS)), draw(st.sampled_from(MODELS)), xy + [xy[0] + draw(st.integers(0, 99)), xy[1] + draw(st.integers(0, 99))]]
    return [k, draw(name), draw(st.integers(0, 9999)), draw(num), xy, draw(st.sampled_from(LAYERS))]


@st.composite
def rrecords(draw):
    k = draw(st.sampled_from(['rnode', 'rnode', 'resist', 'noise']))
    if k == 'noise':
        return [k, draw(st.sampled_from(NOISE))]
    if k == 'rnode':
        return [k, draw(name), draw(num), [draw(coord), draw(coord)]]
    return [k, draw(name), draw(name), draw(st.one_of(st.integers(0, 10 ** 7), num))]


@st.composite
def cases(draw):
    cells = draw(st.lists(st.sampled_from(['inv', 'TOP', 'nmos$1', 'a.b', 'res', 'X__Y', 'ext', 'my-cell', 'my.external', 'my', 'a.ext', 'a', 'x.res.extra']), min_size=1, max_size=3, unique=True))
    out = []
    for c in cells:
        out.append([c, draw(st.lists(records(), max_size=8)), draw(st.one_of(st.none(), st.lists(rrecords(), max_size=6)))])
    return {'cells': out, 'dbu': draw(st.sampled_from([0.001, 0.001, 0.005, 0.0005, 0.002]))}


def line(r):
    k = r[0]
    if k == 'noise':
        return r[1]
    if k == 'port':
        return f'port "{r[1]}" {r[2]} {" ".join(map(str, r[3]))} {r[4]}'
    if k in ('node', 'substrate'):
        return f'{k} "{r[1]}" {r[2]} {g(r[3])} {r[4][0]} {r[4][1]} {r[5]} 0 0 0 0 12000 440 0 0'
    if k == 'device':
        return f'device {r[1]} {r[2]} {" ".join(map(str, r[3]))} l=30 w=130 "VSUBS" "A" 60 0 "B" 130 0 "C" 130 0'
    if k == 'rnode':
        return f'rnode "{r[1]}" 0 {g(r[2])} {r[3][0]} {r[3][1]} 0'
    return f'resist "{r[1]}" "{r[2]}" {g(r[3])}'


def write(case, d):
    for c, recs, rrecs in case['cells']:
        with open(os.path.join(d, f'{c}.ext'), 'w') as f:
            f.write(''.join(line(r) + '\n' for r in recs))
        if rrecs is not None:
            with open(os.path.join(d, f'{c}.res.ext'), 'w') as f:
                f.write(''.join(line(r) + '\n' for r in rrecs))
    for other in ('inv.pex.spice', 'ext.txt', 'TOP.sim', 'TOP.nodes'):
        with open(os.path.join(d, other), 'w') as f:
            f.write('port "X" 1 0 0 1 1 m1\n')


def run_parse(case, rec):
    from pathlib import Path
    from klayout_pex.magic.magic_ext_file_parser import parse_magic_pex_run
    with scratch() as d:
        write(case, d)
        with sut('parsing a Magic run directory'):
            run = parse_magic_pex_run(Path(d))
    require(set(run.cells) == {c for c, _, _ in case['cells']}, f'cells {sorted(run.cells)}')
    n = 0
    for c, recs, rrecs in case['cells']:
        cd = run.cells[c]
        got = [(p.net, p.x_bot, p.y_bot, p.x_top, p.y_top, p.layer) for p in cd.ext_data.ports]
        exp = [(r[1], *r[3], r[4]) for r in recs if r[0] == 'port']
        require(got == exp, lambda: f'ports {got}, written {exp}')
        n += len(exp)
        got = [(p.net, p.int_r, p.fin_c, p.x_bot, p.y_bot, p.layer) for p in cd.ext_data.nodes]
        exp = [(r[1], r[2], float(g(r[3])), *r[4], r[5]) for r in recs if r[0] in ('node', 'substrate')]
        require(got == exp, lambda: f'nodes {got}, written {exp}')
        n += len(exp)
        got = [(str(p.device_type), p.model, p.x_bot, p.y_bot, p.x_top, p.y_top) for p in cd.ext_data.devices]
        exp = [(r[1], r[2], *r[3]) for r in recs if r[0] == 'device']
        require(got == exp, lambda: f'devices {got}, written {exp}')
        n += len(exp)
        require((cd.res_ext_data is None) == (rrecs is None), f'resistances of {c}')
        if rrecs is not None:
            got = [(p.name, p.fin_c, p.x_bot, p.y_bot) for p in cd.res_ext_data.rnodes]
            exp = [(r[1], float(g(r[2])), *r[3]) for r in rrecs if r[0] == 'rnode']
            require(got == exp, lambda: f'resistor nodes {got}, written {exp}')
            n += len(exp)
            got = [(p.node1, p.node2, p.value_ohm) for p in cd.res_ext_data.resistors]
            exp = [(r[1], r[2], float(g(r[3]))) for r in rrecs if r[0] == 'resist']
            require(got == exp, lambda: f'resistors {got}, written {exp}')
            n += len(exp)
    rec.nontrivial(n >= 3 and any(not str(r[1]).isalnum() for c, a, b in case['cells'] for r in a + (b or []) if r[0] != 'noise'))
    rec.label('cells>1', len(case['cells']) > 1)
    rec.label('resistances', any(r is not None for _, _, r in case['cells']))


def expected_markers(case):
    """[(cell, category path, box in µm or its lower left corner)]"""
    out = []

    def um(v):
        return v / 200.0
    for c, recs, rrecs in case['cells']:
        for r in recs:
            if r[0] == 'port':
                out.append((c, ('Ports', f'{r[1]} ({r[4]})'), [um(v) for v in r[3]]))
            elif r[0] in ('node', 'substrate'):
                out.append((c, ('Nodes', f'{r[1]} ({r[5]})'), [um(v) for v in r[4]]))
            elif r[0] == 'device':
                out.append((c, ('Devices', f'Type={r[1]} Model={r[2]}'), [um(v) for v in r[3]]))
        idx = 0
        for r in rrecs or []:
            if r[0] == 'rnode':
                out.append((c, ('Resistor Nodes', r[1]), [um(v) for v in r[3]]))
        for r in rrecs or []:
            if r[0] == 'resist':
                for n in r[1:3]:
                    for q in rrecs:
                        if q[0] == 'rnode' and q[1] == n:
                            out.append((c, ('Resistors', f'#{idx} {r[1]}↔︎{r[2]} = {float(g(r[3]))} Ω'), [um(v) for v in q[3]]))
                idx += 1
    return out


def markers(rep):
    got = []
    for it in rep.each_item():
        names = []
        c = rep.category_by_id(it.category_id())
        while c is not None:
            names.insert(0, c.name())
            c = c.parent()
        for v in it.each_value():
            if v.is_string():
                continue
            b = v.box() if v.is_box() else v.polygon().bbox()
            got.append((rep.cell_by_id(it.cell_id()).name(), tuple(names), [b.left, b.bottom, b.right, b.top]))
    return got


def compare(got, exp, dbu):
    """multisets; boxes are compared within half a database unit"""
    left = list(got)
    for c, path, xy in exp:
        hit = next((q for q in left if q[0] == c and q[1] == ('MAGIC Extraction',) + path
                    and all(abs(a - b) <= 0.5001 * dbu for a, b in zip(q[2], xy))), None)
        require(hit is not None, lambda: f'no marker for {path} of {c} at {xy} µm, there are {[q for q in left if q[1][1:] == path][:3]}')
        left.remove(hit)
    require(not left, lambda: f'markers of nothing: {left[:3]}')


def run_report(case, rec):
    import klayout.rdb as rdb
    from pathlib import Path
    from klayout_pex.magic.magic_ext_file_parser import parse_magic_pex_run
    from klayout_pex.magic.magic_log_analyzer import MagicLogAnalyzer
    with scratch() as d:
        write(case, d)
        rep = rdb.ReportDatabase('')
        with sut('Magic marker report'):
            run = parse_magic_pex_run(Path(d))
            MagicLogAnalyzer(magic_pex_run=run, report=rep, dbu=case['dbu']).analyze()
            path = os.path.join(d, 'rep.rdb.gz')
            rep.save(path)
        rep2 = rdb.ReportDatabase('')
        with sut('loading the report'):
            rep2.load(path)
    exp = expected_markers(case)
    compare(markers(rep), exp, case['dbu'])
    compare(markers(rep2), exp, case['dbu'])
    rec.nontrivial(len(exp) >= 3)
    rec.label('resistors', any(e[1][0] == 'Resistors' for e in exp))


def run_tool(case, rec):
    """the analyzer as a program of its own"""
    import klayout.rdb as rdb
    import sys
    with scratch() as d:
        m = os.path.join(d, 'magic')
        os.mkdir(m)
        write(case, m)
        out = os.path.join(d, 'o.rdb.gz') if case['dbu'] != 0.005 else os.path.join(m, 'report.rdb.gz')

        def fn():
            from klayout_pex.magic import magic_log_analyzer
            sys.argv = ['magic_log_analyzer', '-m', 'magic'] + (['-o', out] if case['dbu'] != 0.005 else [])
            magic_log_analyzer.main()
        r = forked(fn, d, {})
        require(r.kind == 'ok', f'the analyzer failed: {r}')
        require(os.path.exists(out), f'no report at {os.path.basename(out)}')
        rep = rdb.ReportDatabase('')
        with sut('loading the report'):
            rep.load(out)
    exp = expected_markers(case)
    compare(markers(rep), exp, 0.001)
    rec.nontrivial(len(exp) >= 3)
    rec.label('default path', case['dbu'] == 0.005)


PARTS = [Part('parse', cases, run_parse, quick=300, thorough=8000), Part('report', cases, run_report, quick=150, thorough=3000),
         Part('tool', cases, run_tool, quick=15, thorough=200)]
