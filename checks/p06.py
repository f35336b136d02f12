"""P06: the command line program reports what the engine extracted, with the options given."""
import os
from hypothesis import strategies as st
from kv import gen, geo, layers, cli
from kv.core import Part, Violation, require, sut

PID = 'P06'
WORKERS = 8
RULE = ('generated: LVS database files (layouts of wires, stacks, random rectangles; both PDKs; unnamed nets, bus names, '
        'pins) run through the command line program in a child process with generated options (mode, halo, scale, '
        'blackbox), files compared with an extraction through the engine API with the settings these options mean; non-trivial: at least '
        'two rows in the CSV')
ASSUMPTIONS = ['the engine itself is decided by P01-P04, P08, P09', 'KLayout SPICE reader is trusted to read back the netlist']


@st.composite
def cases(draw):
    c = dict(draw(gen.varied(gen.mixed_layouts())))
    c['opts'] = {
        'mode': draw(st.sampled_from([None, None, 'CC', 'RC', 'R'])),
        'halo': draw(st.sampled_from([None, None, 0, 0.3, 1.0, 2.5, 20.0])),
        'scale': draw(st.sampled_from([None, 'y', 'n', 'true', 'False', '1', '0'])),
        'blackbox': draw(st.sampled_from([None, 'yes', 'no'])),
        'order': draw(st.booleans()),
    }
    c['unnamed'] = draw(st.sampled_from([None, None, None, 'B']))
    c['pins'] = draw(st.lists(st.integers(0, 30), max_size=3))
    # a metal drawn as capacitor layer, a capacitor device
    c['cap_metal'] = draw(st.sampled_from([None, None, 4, 5])) if c['tech'] == 'sky130A' else None
    c['device'] = draw(st.sampled_from([None, None, [1, 0], [2, 1], [3, 2]]))
    return c


CAP = {4: 'met3_cap', 5: 'met4_cap'}


def layout_of(case):
    shapes, dbu, hier = gen.realize(case)
    shapes = gen.unique_nets(shapes)
    un = case.get('unnamed')
    if un is not None:
        un = gen.NAME_POOLS[case['names']][gen.NETS.index(un)] if case.get('names') else un
        shapes = [[l, (None if n == un else n), r] for l, n, r in shapes]
    if case.get('cap_metal') is not None:
        shapes = shapes + [[case['cap_metal'], 'CAPLAYER', [0, -20000, 1500, -18000]]]
    dev = case.get('device')
    if dev:
        y = max([0] + [q for s in shapes for q in (s[2][1::2] if not isinstance(s[2][0], list) else [v[1] for v in s[2]])]) + 50000
        box = [0, y, 4000, y + 3000]
        dev = [box] + dev
        shapes = shapes + [[dev[1], 'CAPTOP', box], [dev[2], 'CAPBOT', [-1000, y - 1000, 6000, y + 5000]]]
    pins = []
    for i in case['pins']:
        l, n, r = shapes[i % len(shapes)]
        if n is not None and r[2] - r[0] >= 4 and r[3] - r[1] >= 4:
            pins.append([l, n, r])
    return shapes, dbu, {'hier': hier, 'pins': pins, 'device': dev, 'names': {case['cap_metal']: CAP[case['cap_metal']]} if case.get('cap_metal') is not None else None}


def norm(n):
    return n.replace('\\', '')


def parse_csv(path):
    with open(path, encoding='utf-8') as fh:
        lines = fh.read().split('\n')
    require(lines[-1] == '', 'CSV does not end with a newline')
    require(lines[0] == 'Device;Net1;Net2;Capacitance [fF];Resistance [Ω]', f'CSV header {lines[0]!r}')
    return [l.split(';') for l in lines[1:-1]]


def check_csv(rows, summary):
    exp = []
    for pre, tab, col in (('C', summary.capacitances, 3), ('R', summary.resistances, 4)):
        for i, (k, v) in enumerate(sorted(tab.items(), key=lambda kv: (kv[0].net1.casefold(), kv[0].net2.casefold()))):
            exp.append((pre, i + 1, k.net1, k.net2, v))
    require(len(rows) == len(exp), lambda: f'{len(rows)} rows in the CSV, expected {len(exp)}: {rows}')
    names = [r[0] for r in rows]
    require(len(set(names)) == len(names), f'device names repeat: {names}')
    got, want = {}, {}
    for r in rows:
        require(len(r) == 5, f'CSV row {r} does not have 5 columns')
        pre = r[0][0]
        v, other = (r[3], r[4]) if pre == 'C' else (r[4], r[3])
        require(other == '', f'CSV row {r}: value in the wrong column')
        got.setdefault((pre, frozenset((r[1], r[2]))), []).append(float(v))
    for pre, i, a, b, v in exp:
        want.setdefault((pre, frozenset((a, b))), []).append(v)
    for k in set(got) | set(want):
        g, w = got.get(k, []), want.get(k, [])
        require(len(g) == len(w) == 1 and abs(g[0] - w[0]) <= 0.00051, f'CSV {k[0]} {sorted(k[1])}: {g}, extracted {w}')
    order = [(r[0][0], (r[1].casefold(), r[2].casefold())) for r in rows]
    require(order == sorted(order), f'CSV rows are not in order: {order}')


def check_spice(path, top, summary, devices):
    import klayout.db as kdb
    nl = kdb.Netlist()
    with sut('reading the SPICE netlist back'):
        nl.read(path, kdb.NetlistSpiceReader())
    c = nl.circuit_by_name(top.upper()) or nl.circuit_by_name(top)
    require(c is not None, f'no circuit {top} in the SPICE netlist')
    got = {}
    devs = 0
    for d in c.each_device():
        cls = d.device_class()
        if cls.name.upper() == 'KVCAP':
            devs += 1
            continue
        kind = 'C' if isinstance(cls, kdb.DeviceClassCapacitor) else 'R' if isinstance(cls, kdb.DeviceClassResistor) else '?'
        a, b = (d.net_for_terminal(t).expanded_name().upper() for t in ('A', 'B'))
        got.setdefault((kind, frozenset((a, b))), []).append(d.parameter(kind))
    require(devs == devices, f'{devs} capacitor devices of the layout in the SPICE netlist, expected {devices}')
    want = {}
    for kind, tab, f in (('C', summary.capacitances, 1e-15), ('R', summary.resistances, 1.0)):
        for k, v in tab.items():
            want.setdefault((kind, frozenset((k.net1.upper(), k.net2.upper()))), []).append(v * f)
    for k in set(got) | set(want):
        g, w = sorted(got.get(k, [])), sorted(want.get(k, []))
        require(len(g) == len(w) and all(abs(x - y) <= 1e-9 * max(abs(x), abs(y)) for x, y in zip(g, w)),
                f'SPICE netlist {k[0]} {sorted(k[1])}: {g}, extracted {w}')


def run(case, rec):
    if not case['shapes']:
        return
    shapes, dbu, kw = layout_of(case)
    o = case['opts']
    tech = case['tech']
    with cli.scratch() as d:
        db = os.path.join(d, 'my.lvsdb.gz')
        geo.write_lvsdb(db, tech, shapes, dbu=dbu, **kw)
        opts = []
        for k, name in (('mode', '--mode'), ('halo', '--halo'), ('scale', '--scale'), ('blackbox', '--blackbox')):
            if o[k] is not None:
                opts += [name, o[k]]
        fixed = ['--pdk', tech, '--lvsdb', db, '--2.5D', '--out_dir', os.path.join(d, 'out')]
        r = cli.kpex(opts + fixed if o['order'] else fixed + opts, d)
        require(r.kind == 'ok', lambda: f'kpex ended with {r}; {r.stdout[-400:]}')
        ti = layers.tech_info(tech, halo=o['halo'])
        mode = o['mode'] or 'CC'
        scale = o['scale'] in (None, 'y', 'true', '1')
        with sut('2.5D extraction'):
            l2n = geo.build_l2n(tech, shapes, dbu=dbu, **kw)
            res = geo.run_25d(l2n, ti, mode, scale, blackbox=o['blackbox'] == 'yes')
            s = res.summarize()
        require(mode != 'R' or not s.capacitances, 'capacitances extracted in R mode')
        require(mode != 'CC' or not s.resistances, 'resistances extracted in CC mode')
        rd = os.path.join(d, 'out', 'my__TOP')
        try:
            rows = parse_csv(os.path.join(rd, 'TOP_k25d_pex_netlist.csv'))
            check_csv(rows, s)
            check_spice(os.path.join(rd, 'TOP_k25d_pex_netlist.spice'), 'TOP', s, 1 if case.get('device') and o['blackbox'] == 'yes' else 0)
        except OSError as e:
            raise Violation(f'missing output: {e}')
        import klayout.rdb as rdb
        with sut('loading the report'):
            rep = rdb.ReportDatabase('')
            rep.load(os.path.join(rd, 'TOP_k25d_pex_report.rdb.gz'))
        require(rep.num_items() > 0 or not s.capacitances, 'the report database is empty')
    rec.nontrivial(len(rows) >= 2)
    for k, v in o.items():
        rec.label(f'{k}={v}')
    rec.label('device', bool(case.get('device')))
    rec.label('capacitor layer', case.get('cap_metal') in {s[0] for s in shapes})
    rec.label('unnamed', any('$' in r[1] + r[2] for r in rows))
    rec.label('resistors', any(r[0][0] == 'R' for r in rows))


PARTS = [Part('cli', cases, run, quick=60, thorough=1500)]
