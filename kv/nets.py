"""Generated netlists (kdb.Netlist) and their structural fingerprints."""
from hypothesis import strategies as st

DEVS = ['MOS4', 'MOS3', 'R', 'R3', 'C', 'C3', 'L', 'D', 'BJT3', 'BJT4']
NAMES = ['A', 'B', 'out', 'net1', 'NET1', 'a<0>', 'VDD', None, 'a%b', 'g2_']


def device_class(kind):
    import klayout.db as kdb
    return {'MOS4': kdb.DeviceClassMOS4Transistor, 'MOS3': kdb.DeviceClassMOS3Transistor,
            'R': kdb.DeviceClassResistor, 'R3': kdb.DeviceClassResistorWithBulk, 'C': kdb.DeviceClassCapacitor,
            'C3': kdb.DeviceClassCapacitorWithBulk, 'L': kdb.DeviceClassInductor, 'D': kdb.DeviceClassDiode,
            'BJT3': kdb.DeviceClassBJT3Transistor, 'BJT4': kdb.DeviceClassBJT4Transistor}[kind]()


@st.composite
def netlists(draw, extra_nets=()):
    """{'nets': [...], 'devices': [[kind, name|None, [net index per terminal], value]], 'pins': k, 'sub': bool}"""
    k = draw(st.integers(1, 5))
    nets = draw(st.permutations(NAMES))[:k]
    for e in extra_nets:
        if draw(st.integers(0, 3)) == 0:
            nets.append(e)
    devs = []
    for i in range(draw(st.integers(0, 8))):
        devs.append([draw(st.sampled_from(DEVS)), draw(st.sampled_from([None, f'dev{i}', f'M{i}'])),
                     [draw(st.integers(-1 if draw(st.integers(0, 9)) == 0 else 0, len(nets) - 1)) for _ in range(4)],
                     draw(st.sampled_from([1.0, 2.5, 1e-15, 5e-12]))])
    return {'nets': nets, 'devices': devs, 'pins': draw(st.integers(0, len(nets))), 'sub': draw(st.booleans()),
            'top': draw(st.sampled_from(['TOP', 'my_cell', 'A'])),
            'names': draw(st.sampled_from([{}, {}, {'C': 'MIMCAP', 'C3': 'cap_cmim', 'R': 'res_high_po'}, {'C': 'cap', 'R': 'res', 'C3': 'CAP'}]))}


PARAM = {'R': 'R', 'R3': 'R', 'C': 'C', 'C3': 'C', 'L': 'L'}


def build(c):
    import klayout.db as kdb
    nl = kdb.Netlist()
    classes = {}
    for kind in DEVS:
        if any(d[0] == kind for d in c['devices']):
            cls = device_class(kind)
            cls.name = c.get('names', {}).get(kind, f'dev_{kind}')
            nl.add(cls)
            classes[kind] = cls
    top = kdb.Circuit()
    top.name = c['top']
    nl.add(top)
    nets = [top.create_net(n) if n is not None else top.create_net() for n in c['nets']]
    for i in range(c['pins']):
        p = top.create_pin(c['nets'][i] or f'p{i}')
        top.connect_pin(p, nets[i])
    for kind, name, terms, val in c['devices']:
        d = top.create_device(classes[kind], name) if name else top.create_device(classes[kind])
        for td, ni in zip(classes[kind].terminal_definitions(), terms):
            if ni >= 0:
                d.connect_terminal(td.id(), nets[ni])
        if kind in PARAM:
            d.set_parameter(PARAM[kind], val)
    if c['sub']:
        sub = kdb.Circuit()
        sub.name = 'SUBCELL'
        nl.add(sub)
        n = sub.create_net('x')
        n2 = sub.create_net('y')
        p = sub.create_pin('x')
        sub.connect_pin(p, n)
        for kind in ('C', 'MOS4'):
            if kind in classes:
                d = sub.create_device(classes[kind], 'inner')
                for td in classes[kind].terminal_definitions():
                    d.connect_terminal(td.id(), n if td.id() % 2 else n2)
        sc = top.create_subcircuit(sub, 'inst')
        sc.connect_pin(sub.pin_by_id(0), nets[0])
    return nl


def devices(circuit):
    """sorted [(class name, device name, ((terminal, net),...), ((param, value),...))]"""
    out = []
    for d in circuit.each_device():
        dc = d.device_class()
        terms = tuple((t.name, d.net_for_terminal(t.id()).expanded_name() if d.net_for_terminal(t.id()) else None)
                      for t in dc.terminal_definitions())
        par = tuple((p.name, d.parameter(p.id())) for p in dc.parameter_definitions())
        out.append((dc.name, type(dc).__name__, d.expanded_name(), terms, par))
    return sorted(out, key=repr)


def fingerprint(nl):
    return [(c.name, [n.expanded_name() for n in c.each_net()], [(p.name(), c.net_for_pin(p.id()).expanded_name() if c.net_for_pin(p.id()) else None) for p in c.each_pin()],
             devices(c), [(s.expanded_name(), s.circuit_ref().name,
                           [s.net_for_pin(p.id()).expanded_name() if s.net_for_pin(p.id()) else None
                            for p in s.circuit_ref().each_pin()])
                          for s in c.each_subcircuit()])
            for c in sorted(nl.each_circuit(), key=lambda c: c.name)]


def net_names(nl, top):
    return [n.expanded_name() for n in nl.circuit_by_name(top).each_net()]
