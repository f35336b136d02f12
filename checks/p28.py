"""P28: the diagram netlist has every port, subcircuit, capacitor and resistor, connected as in the SPICE netlist."""
import json
import os
import shlex
import sys

from hypothesis import strategies as st
from kv.cli import forked, scratch
from kv.core import Part, require, sut

PID = 'P28'
WORKERS = 8
RULE = ('generated: SPICE netlists with one or more top circuits, several instances of the same subcircuit, capacitors and resistors (parallel, '
        'both ends on one net, ground nets), bus names, run through the JSON writer and the netlist program (stand-in for netlistsvg, options in any '
        'order, failing runs); oracle: the netlist itself, a bijection between nets and bits; non-trivial: at least three elements')
ASSUMPTIONS = ['transistors and other devices are refused, as before', 'values are shown in fF or Ω with three decimals']

NETS = ['A', 'B', 'OUT', 'N1', 'VDD', 'VSUBS', 'GND', 'X<0>', 'X<1>', 'NET.1']


@st.composite
def circuits(draw):
    subs = []
    for i in range(draw(st.integers(0, 2))):
        subs.append([['SUB', 'Cell', 'INV_1'][i], draw(st.integers(1, 4))])
    tops = []
    for i in range(draw(st.sampled_from([1, 1, 1, 2]))):
        els = []
        for k in range(draw(st.integers(0, 7))):
            kind = draw(st.sampled_from('CCRRX' if subs else 'CR'))
            if kind == 'X':
                s = draw(st.integers(0, len(subs) - 1))
                els.append(['X', s, [draw(st.integers(0, len(NETS) - 1)) for _ in range(subs[s][1])]])
            else:
                els.append([kind, draw(st.sampled_from([1, 2.5, 0.125, 1234.5678, 0.001])), [draw(st.integers(0, len(NETS) - 1)) for _ in range(2)]])
        pins = draw(st.lists(st.integers(0, len(NETS) - 1), min_size=1, max_size=4, unique=True))
        tops.append({'name': ['TOP', 'other_top'][i], 'pins': pins, 'els': els})
    return {'subs': subs, 'tops': tops}


def spice(case):
    out = ['* generated']
    for n, k in case['subs']:
        out.append(f'.SUBCKT {n} ' + ' '.join(f'P{i}' for i in range(k)))
        out.append(f'R1 P0 P{k - 1} 10')
        out.append(f'.ENDS {n}')
    for t in case['tops']:
        out.append(f'.SUBCKT {t["name"]} ' + ' '.join(NETS[p] for p in t['pins']))
        for i, (k, v, nets) in enumerate(t['els']):
            ns = ' '.join(NETS[n] for n in nets)
            if k == 'X':
                out.append(f'X{i} {ns} {case["subs"][v][0]}')
            else:
                out.append(f'{k}{i} {ns} {v}' + ('f' if k == 'C' else ''))
        out.append(f'.ENDS {t["name"]}')
    return '\n'.join(out + ['.END', ''])


def compare(d, case, top):
    """the JSON dictionary against the netlist of the case"""
    what = f'circuit {top["name"]}'
    require(set(d) == {'modules'} and len(d['modules']) == 1, f'{what}: {list(d)}')
    (name, mod), = d['modules'].items()
    require(name.upper() == top['name'].upper(), f'{what}: module is called {name}')
    bit = {}

    def take(n, bits, where):
        require(isinstance(bits, list) and len(bits) == 1, f'{what}: {where} has bits {bits}')
        n = NETS[n]
        require(bit.setdefault(n, bits[0]) == bits[0], f'{what}: {where}: net {n} is bit {bits[0]}, elsewhere {bit[n]}')
    ports = mod['ports']
    require(sorted(p.replace('\\', '') for p in ports) == sorted(NETS[p] for p in top['pins']), f'{what}: ports {sorted(ports)}')
    for n, p in ports.items():
        take(NETS.index(n.replace('\\', '')), p['bits'], f'port {n}')
    cells = dict(mod['cells'])
    nodes = {}       # bits by kind, to be matched with the elements
    for cn, c in cells.items():
        nodes.setdefault(c['type'], []).append((cn, c))
    # capacitors and resistors have their names
    for pre, typ in (('C', 'c_v'), ('R', 'r_v')):
        want = {i: e for i, e in enumerate(top['els']) if e[0] == pre}
        got = nodes.pop(typ, [])
        require(len(got) == len(want), f'{what}: {len(got)} elements of type {typ}, expected {len(want)}')
        for cn, c in got:
            i = int(cn.lstrip('CR$'))
            require(i in want, f'{what}: element {cn} is unknown')
            _, v, (a, b) = want[i]
            val = c['attributes']['value']
            require((val.endswith('f') if pre == 'C' else True) and abs(float(val.rstrip('f')) - v) <= 0.000501, f'{what}: {cn} has value {val}, expected {v}')
            take(a, c['connections']['A'], cn)
            take(b, c['connections']['B'], cn)
    for si, (sn, k) in enumerate(case['subs']):
        want = [e for e in top['els'] if e[0] == 'X' and e[1] == si]
        got = [c for typ in list(nodes) if typ.lstrip('$').upper() == sn.upper() for _, c in nodes.pop(typ)]
        require(len(got) == len(want), f'{what}: {len(got)} instances of {sn}, expected {len(want)}')
        for c in got:
            require(len(c['connections']) == k and set(c['connections']) == set(c['port_directions']), f'{what}: {sn} has pins {sorted(c["connections"])}')
    # instances have no names in the diagram: compare them as multisets, once all bits are known
    for e in top['els']:
        if e[0] == 'X':
            for n in e[2]:
                if NETS[n] not in bit:
                    bit[NETS[n]] = None
    by_type = {}
    for cn, c in mod['cells'].items():
        by_type.setdefault(c['type'].lstrip('$').upper(), []).append([b[0] for b in c['connections'].values()])
    free = [n for n, b in bit.items() if b is None]
    if not free:
        for si, (sn, k) in enumerate(case['subs']):
            want = sorted([bit[NETS[n]] for n in e[2]] for e in top['els'] if e[0] == 'X' and e[1] == si)
            require(sorted(by_type.get(sn.upper(), [])) == want, f'{what}: instances of {sn} connect {sorted(by_type.get(sn.upper(), []))}, expected {want}')
    else:
        # nets which only connect instances: match through the names that the pins show
        for cn, c in mod['cells'].items():
            if c['type'].lstrip('$').upper() in [s[0].upper() for s in case['subs']]:
                for pn, b in c['connections'].items():
                    net = pn.split('=', 1)[-1].replace('\\', '')
                    if net in NETS:
                        if bit.get(net) is None:
                            bit[net] = b[0]
                        require(bit[net] == b[0], f'{what}: pin {pn} of {cn} is on bit {b[0]}, net {net} is {bit[net]}')
        if all(b is not None for b in bit.values()):
            for si, (sn, k) in enumerate(case['subs']):
                want = sorted([bit[NETS[n]] for n in e[2]] for e in top['els'] if e[0] == 'X' and e[1] == si)
                require(sorted(by_type.get(sn.upper(), [])) == want, f'{what}: instances of {sn} connect {sorted(by_type.get(sn.upper(), []))}, expected {want}')
    used = [b for b in bit.values() if b is not None]
    require(len(set(used)) == len(used), f'{what}: nets share a bit: {bit}')
    gnds = [c for _, c in nodes.pop('gnd', [])]
    want = sorted(n for n in ('VSUBS', 'GND') if n in bit)
    require(sorted(c['attributes']['value'] for c in gnds) == want, f'{what}: ground symbols {gnds}, expected for {want}')
    for c in gnds:
        require(c['connections']['A'] == [bit[c['attributes']['value']]], f'{what}: ground symbol {c} is not on its net {bit}')
    require(not nodes, f'{what}: unexpected elements {nodes}')


def run_json(case, rec):
    import klayout.db as kdb
    from klayout_pex.netlistsvg.netlist_json import NetlistJSONWriter
    with scratch() as d:
        p = os.path.join(d, 'in.spice')
        with open(p, 'w') as fh:
            fh.write(spice(case))
        nl = kdb.Netlist()
        nl.read(p, kdb.NetlistSpiceReader())
        for t in case['tops']:
            c = nl.circuit_by_name(t['name'].upper()) or nl.circuit_by_name(t['name'])
            out = os.path.join(d, 'out.json')
            before = nl.to_s()
            with sut('writing the JSON netlist'):
                NetlistJSONWriter().write_json(netlist=nl, top_circuit=c, output_path=out)
            with open(out, encoding='utf-8') as fh:
                compare(json.load(fh), case, t)
            require(nl.to_s() == before, 'the netlist was changed')
            els = t['els']
            rec.nontrivial(len(els) >= 3)
            rec.label('same subcircuit twice', any(sum(1 for e in els if e[0] == 'X' and e[1] == s) > 1 for s in range(len(case['subs']))))
            rec.label('several tops', len(case['tops']) > 1)


@st.composite
def commands(draw):
    c = draw(circuits())
    c['cell'] = draw(st.sampled_from([None, None, 0, 1, 'nosuch']))
    c['case'] = draw(st.booleans())
    c['output'] = draw(st.sampled_from([None, 'o.svg', 'dir/x y.svg']))
    c['level'] = draw(st.sampled_from([None, None, 'debug', 'info', 'ERROR', 'loud']))
    c['status'] = draw(st.sampled_from([0, 0, 0, 1]))
    c['noise'] = list(draw(st.sampled_from([b'', b'ok\n', 'größer\n'.encode(), b'\xff\xfe bad\n', b'[/b] [red]x\n', b'no newline'])))
    c['file'] = draw(st.sampled_from(['in.spice', 'my net.cir']))
    return c


FAKE = '''
import json, os, sys
a = sys.argv[1:]
o = a[a.index('-o') + 1]
json.dump({'args': a, 'net': json.load(open(a[-1])), 'skin': os.path.isfile(a[a.index('--skin') + 1])}, open(%r, 'w'))
print('drawing')
sys.stdout.flush()
sys.stdout.buffer.write(%r)
sys.stdout.flush()
if %d:
    sys.exit(%d)
open(o, 'w').write('<svg/>')
'''


def run_cli(case, rec):
    with scratch() as d:
        os.mkdir(os.path.join(d, 'dir'))
        with open(os.path.join(d, case['file']), 'w') as fh:
            fh.write(spice(case))
        call = os.path.join(d, 'call.json')
        py = os.path.join(d, 'fake.py')
        with open(py, 'w') as fh:
            fh.write(FAKE % (call, bytes(case['noise']), case['status'], case['status']))
        exe = os.path.join(d, 'netlistsvg')
        with open(exe, 'w') as fh:
            fh.write(f'#!/bin/sh\nexec {shlex.quote(sys.executable)} -I -S {shlex.quote(py)} "$@"\n')
        os.chmod(exe, 0o755)
        argv = ['netlist'] + (['--log_level', case['level']] if case['level'] else []) + ['svg', '--exe', exe]
        if case['output']:
            argv += ['-o', case['output']]
        cell = case['cell']
        name = None
        if cell is not None:
            name = 'nosuch' if cell == 'nosuch' else case['tops'][cell % len(case['tops'])]['name']
            argv += ['--cell', name.lower() if case['case'] else name.upper()]
        argv.append(case['file'])

        def fn():
            from klayout_pex.netlist.netlist_cli import NetlistCLI
            sys.argv = argv
            NetlistCLI().main(argv)
        r = forked(fn, d, {})
        what = ' '.join(argv)
        used = {e[1] for t in case['tops'] for e in t['els'] if e[0] == 'X'}     # subcircuits that nobody uses are top circuits, too
        ntops = len(case['tops']) + sum(1 for i in range(len(case['subs'])) if i not in used)
        bad = case['level'] == 'loud' or name == 'nosuch' or (cell is None and ntops > 1)
        if bad:
            require(r.kind in ('exit', 'raise') and r.detail not in (0, None), f'{what}: accepted: {r}')
            require(not os.path.exists(call), f'{what}: netlistsvg ran')
            rec.label('rejected')
            return
        require(os.path.exists(call), f'{what}: netlistsvg did not run: {r}; {r.stdout[-300:]}')
        with open(call) as fh:
            c = json.load(fh)
        compare(c['net'], case, case['tops'][0 if cell is None else cell % len(case['tops'])])
        require(c['skin'], f'{what}: the skin does not exist')
        out = c['args'][c['args'].index('-o') + 1]
        require(case['output'] is None or out == case['output'], f'{what}: output to {out}')
        log = os.path.join(d, 'netlist_run', case['tops'][0 if cell is None else cell % len(case['tops'])]['name'].lower(), 'netlistsvg_log.txt')
        with open(log, encoding='utf-8') as fh:
            got = fh.read()
        want = 'drawing\n' + bytes(case['noise']).decode('utf-8', 'replace')
        require(got == want, f'{what}: the log file holds {got!r}, netlistsvg said {want!r}')
        if case['status']:
            require(r.kind != 'ok', f'{what}: netlistsvg failed, the program did not')
        else:
            require(r.kind == 'ok' and os.path.exists(os.path.join(d, out)), f'{what}: {r}')
        rec.nontrivial(cell is not None or case['output'] is not None)
        rec.label('level', case['level'] is not None)
        rec.label('cell', cell is not None)


PARTS = [Part('json', circuits, run_json, quick=300, thorough=8000), Part('cli', commands, run_cli, quick=25, thorough=600)]
