"""Generated interconnect trees/meshes of straight wires and vias, and their exact resistance network."""
from hypothesis import strategies as st


def effective(nodes, edges):
    """effective resistance matrix over `nodes` (list of hashables); edges [(a, b, r)]. None if not connected."""
    import numpy as np
    par = {n: n for n in nodes}
    for a, b, r in edges:
        par.setdefault(a, a)
        par.setdefault(b, b)

    def find(x):
        while par[x] != x:
            x = par[x]
        return x
    for a, b, r in edges:          # shorts first
        if r <= 1e-12:
            par[find(a)] = find(b)
    all_nodes = sorted({find(n) for n in par}, key=repr)
    idx = {n: i for i, n in enumerate(all_nodes)}
    L = np.zeros((len(idx), len(idx)))
    comp = {n: n for n in all_nodes}

    def cf(x):
        while comp[x] != x:
            x = comp[x]
        return x
    for a, b, r in edges:
        if r <= 1e-12:
            continue
        i, j = idx[find(a)], idx[find(b)]
        if i == j:
            continue
        g = 1.0 / r
        L[i, i] += g
        L[j, j] += g
        L[i, j] -= g
        L[j, i] -= g
        comp[cf(find(a))] = cf(find(b))
    P = np.linalg.pinv(L, rcond=1e-12) if len(idx) else L
    out = {}
    for x in nodes:
        for y in nodes:
            i, j = idx[find(x)], idx[find(y)]
            if cf(find(x)) != cf(find(y)):
                out[x, y] = None
            else:
                out[x, y] = float(P[i, i] + P[j, j] - 2 * P[i, j])
    return out


@st.composite
def grid_net(draw, n_metals):
    """horizontal wires over vertical ones, vias at some of the crossings"""
    l = draw(st.integers(0, n_metals - 2))
    up = draw(st.booleans())
    lh, lv = (l, l + 1) if up else (l + 1, l)
    nh, nv = draw(st.integers(1, 3)), draw(st.integers(2, 3))
    ys = [400 * i + draw(st.integers(0, 20)) for i in range(nh)]
    xs = [400 * i + draw(st.integers(0, 20)) for i in range(nv)]
    wires = [[lh, True, -100, y, 400 * nv, draw(st.integers(100, 180))] for y in ys]
    wires += [[lv, False, -100, x, 400 * nh, draw(st.integers(100, 180))] for x in xs]
    joints = [[0, nh + i, x, ys[0], draw(st.integers(0, 1))] for i, x in enumerate(xs)]
    joints += [[nh, j, xs[0], ys[j], 0] for j in range(1, nh)]
    for j in range(1, nh):
        for i in range(1, nv):
            if draw(st.integers(0, 3)):
                joints.append([j, nh + i, xs[i], ys[j], 0])
    pins = [[draw(st.integers(0, len(wires) - 1)), draw(st.integers(0, 100))] for _ in range(draw(st.integers(2, 4)))]
    return {'wires': wires, 'joints': joints, 'pins': pins}


@st.composite
def trees(draw, n_metals, n_nets=(1, 3), max_wires=5):
    """{'nets': [{'wires': [[layer, horizontal, along0, across, len, width]], 'joints': [[wire a, wire b, x, y, size]],
    'pins': [[wire, position along]]}]}; coordinates in units of 10 dbu."""
    nets = []
    for k in range(draw(st.integers(*n_nets))):
        if draw(st.integers(0, 3)) == 0:
            nets.append(draw(grid_net(n_metals)))
            continue
        l = draw(st.integers(0, n_metals - 1))
        wires = [[l, draw(st.booleans()), 0, 0, draw(st.integers(400, 2000)), draw(st.integers(100, 180))]]
        joints = []
        for _ in range(draw(st.integers(0, max_wires - 1))):
            src = draw(st.integers(0, len(wires) - 1))
            sl, sh, s0, sc, slen, sw = wires[src]
            nl = sl + draw(st.sampled_from([-1, 1]))
            if not 0 <= nl < n_metals:
                continue
            at = s0 + draw(st.integers(sw // 2 + 2, max(sw // 2 + 2, slen - sw // 2 - 2)))
            w = draw(st.integers(100, 180)) // 2 * 2
            length = draw(st.integers(400, 2000))
            h = draw(st.booleans())
            start_off = draw(st.integers(20, length - 20))
            # joint centre: on the centre lines of both
            cx, cy = (at, sc) if sh else (sc, at)
            new = [nl, h, (cx if h else cy) - start_off, (cy if h else cx), length, w]
            wires.append(new)
            joints.append([src, len(wires) - 1, cx, cy, draw(st.integers(0, 2))])
        pins = [[draw(st.integers(0, len(wires) - 1)), draw(st.integers(0, 100))] for _ in range(draw(st.integers(1, 4)))]
        nets.append({'wires': wires, 'joints': joints, 'pins': pins})
    return {'nets': nets}


def wire_rect(w, unit=10):
    l, h, a0, c, length, width = w
    width = width // 2 * 2
    r = [a0, c - width // 2, a0 + length, c + width // 2] if h else [c - width // 2, a0, c + width // 2, a0 + length]
    return [v * unit for v in r]


CONTACT_WIDTH = {'sky130A': [170, 170, 150, 200, 200, 800],
                 'ihp_sg13g2': [160, 190, 190, 190, 190, 420, 900]}     # nm, via index


def touches(a, b, gap=0):
    return a[0] <= b[2] + gap and b[0] <= a[2] + gap and a[1] <= b[3] + gap and b[1] <= a[3] + gap


def legalize(case, min_step=40):
    """Wires which would touch another wire of their layer, joints that come too close to another port of one of
    their wires, and pins likewise are dropped. Adds 'ports': {wire: [(along, key)]}."""
    nets = []
    y0 = 0
    for net in case['nets']:
        keep = {0: 0}
        wires = [list(net['wires'][0])]
        ports = {0: []}
        joints = []
        for src, dst, cx, cy, size in net['joints']:
            if src not in keep:
                continue
            w = net['wires'][dst]
            s = wires[keep[src]]
            r = wire_rect(w)
            if dst not in keep and any(o[0] == w[0] and touches(r, wire_rect(o), 1000) for o in wires):
                continue
            along_s = cx if s[1] else cy
            along_d = cx if w[1] else cy
            if any(abs(along_s - a) < min_step for a, _ in ports[keep[src]]):
                continue
            if dst in keep:         # a further via between two wires
                k = keep[dst]
                if any(abs(along_s - a) < 200 for a, _ in ports[keep[src]]) or any(abs(along_d - a) < 200 for a, _ in ports[k]):
                    continue
                j = len(joints)
                joints.append([keep[src], k, cx, cy, 0])
                ports[keep[src]].append((along_s, ('j', j)))
                ports[k].append((along_d, ('j', j)))
                continue
            keep[dst] = len(wires)
            wires.append(list(w))
            j = len(joints)
            joints.append([keep[src], keep[dst], cx, cy, size])
            ports[keep[src]].append((along_s, ('j', j)))
            ports[keep[dst]] = [(along_d, ('j', j))]
        pins = []
        for w, frac in net['pins']:
            if w not in keep:
                continue
            k = keep[w]
            _, h, a0, c, length, width = wires[k]
            at = a0 + 4 + (length - 8) * frac // 100
            if any(abs(at - a) < min_step for a, _ in ports[k]):
                continue
            ports[k].append((at, ('p', len(pins))))
            pins.append([k, at])
        if not pins:
            continue
        # nets are placed apart
        rs = [wire_rect(w, 1) for w in wires]
        dy = y0 - min(r[1] for r in rs)
        for w in wires:
            if w[1]:
                w[3] += dy
            else:
                w[2] += dy
        for j in joints:
            j[3] += dy
        for p in pins:
            if not wires[p[0]][1]:
                p[1] += dy
        for k in ports:
            if not wires[k][1]:
                ports[k] = [(a + dy, x) for a, x in ports[k]]
        y0 = max(wire_rect(w, 1)[3] for w in wires) + 100
        nets.append({'wires': wires, 'joints': joints, 'pins': pins, 'ports': ports})
    return nets


def via_half(tech, v, size):
    cw = CONTACT_WIDTH[tech][v] // 10
    return (cw + 1) // 2 * (1 + (size & 1)), (cw + 1) // 2 * (1 + (size >> 1))


def via_ratio(tech, v, size, unit_nm=10):
    """area of the via over the area of the contact it is specified for"""
    sx, sy = via_half(tech, v, size)
    return 4 * sx * sy * unit_nm ** 2 / CONTACT_WIDTH[tech][v] ** 2


def geometry(tech, nets, names, dbu_unit=10):
    """shapes, vias, pins for geo.build_l2n; pin points [(net, layer, x, y)]"""
    shapes, vias, pins, points = [], [], [], []
    for k, net in enumerate(nets):
        for w in net['wires']:
            shapes.append([w[0], names[k], wire_rect(w, dbu_unit)])
        for a, b, cx, cy, size in net['joints']:
            v = min(net['wires'][a][0], net['wires'][b][0])
            sx, sy = via_half(tech, v, size)
            vias.append([v, [(cx - sx) * dbu_unit, (cy - sy) * dbu_unit, (cx + sx) * dbu_unit, (cy + sy) * dbu_unit]])
        for w, at in net['pins']:
            l, h, a0, c, length, width = net['wires'][w]
            x, y = (at, c) if h else (c, at)
            pins.append([l, names[k], [(x - 2) * dbu_unit, (y - 2) * dbu_unit, (x + 2) * dbu_unit, (y + 2) * dbu_unit]])
            points.append((k, l, x * dbu_unit, y * dbu_unit))
    return shapes, vias, pins, points


def model(net, rho, via_r):
    """edges between ('p', i) pins and ('j', i, wire) joints. rho[layer] Ohm/sq; via_r(via index, size) Ohm"""
    edges = []
    for k, ports in net['ports'].items():
        w = net['wires'][k]
        ps = sorted(ports)
        keys = [x if x[0] == 'p' else x + (k,) for _, x in ps]
        for (a, _), (b, _), ka, kb in zip(ps, ps[1:], keys, keys[1:]):
            edges.append((ka, kb, rho[w[0]] * (b - a) / (w[5] // 2 * 2)))
    for j, (a, b, cx, cy, size) in enumerate(net['joints']):
        edges.append((('j', j, a), ('j', j, b), via_r(min(net['wires'][a][0], net['wires'][b][0]), size)))
    return edges
