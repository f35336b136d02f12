"""Rows of MOS transistors with contacts, first metal and pins, as LVS extracts them."""
from .layers import TABLES

# (source/drain layer, contact on it, well layer) per polarity
MOS = {
    'sky130A': {'n': ('nsd', 'licon_nsd_con'), 'p': ('psd', 'licon_psd_con')},
    'ihp_sg13g2': {'n': ('nsd_fet', 'cont_nsd_con'), 'p': ('psd_fet', 'cont_psd_con')},
}


def renaming(seed):
    """net names such that terminals of one and of several devices share nets (joined by name); 0: none"""
    import zlib
    def f(name):
        h = zlib.crc32(f'{seed} {name}'.encode())
        return f'n{h % (seed + 1)}' if h // 16 % 3 else name
    return f if seed else (lambda n: n)


def build(tech, rows, dbu=0.001, cls=None, top='TOP', rename=None):
    """rows: {'pol': 'n'|'p', 'x', 'y', 'h', 'gates': k, 'pitch', 'len', 'metal': [extension per S/D strip | None],
    'gate_pins': bool, 'contacts': [1..3 per strip]}; returns (l2n, expectation list)."""
    import klayout.db as kdb
    tbl = TABLES[tech]
    ly = kdb.Layout()
    ly.dbu = dbu
    c = ly.create_cell(top)
    diff = {'n': ly.layer(500, 0), 'p': ly.layer(500, 1)}
    dcont = {'n': ly.layer(501, 0), 'p': ly.layer(501, 1)}
    poly, m1 = tbl['metals'][0], tbl['metals'][1]
    cw = {'sky130A': 170, 'ihp_sg13g2': 160}[tech]
    info = []
    for k, r in enumerate(rows):
        x, y = r['x'], r['y']
        L, P, h = r['len'], r['pitch'], r['h']
        n = r['gates']
        width = n * (L + P) + P
        c.shapes(diff[r['pol']]).insert(kdb.Box(x, y, x + width, y + h))
        for g in range(n):
            gx = x + P + g * (L + P)
            c.shapes(ly.layer(*poly[2])).insert(kdb.Box(gx, y - 300, gx + L, y + h + r['poly_ext']))
            name = (rename or str)(f'g{k}_{g}')
            px, py = gx + L // 2, y + h + r['poly_ext'] - 100
            if r['gate_pins']:
                c.shapes(ly.layer(*poly[6])).insert(kdb.Box(px - 20, py - 20, px + 20, py + 20))
            c.shapes(ly.layer(*poly[4])).insert(kdb.Text(name, kdb.Trans(px, py)))
            info.append(('gate', k, g, name, (px, py), r['gate_pins']))
        for s in range(n + 1):
            sx = x + s * (L + P)
            ext = r['metal'][s % len(r['metal'])]
            mx = sx + P // 2
            mw = 200
            c.shapes(ly.layer(*m1[2])).insert(kdb.Box(mx - mw // 2, y, mx + mw // 2, y + h + ext))
            nc = r['contacts'][s % len(r['contacts'])]
            ys = [y + h * (i + 1) // (nc + 1) for i in range(nc)]
            for cy in ys:
                c.shapes(dcont[r['pol']]).insert(kdb.Box(mx - cw // 2, cy - cw // 2, mx + cw // 2, cy + cw // 2))
            name = (rename or str)(f's{k}_{s}')
            px, py = mx, y + h + ext - 100
            c.shapes(ly.layer(*m1[6])).insert(kdb.Box(px - 20, py - 20, px + 20, py + 20))
            c.shapes(ly.layer(*m1[4])).insert(kdb.Text(name, kdb.Trans(px, py)))
            info.append(('sd', k, s, name, (px, py), ys))
    return _l2n(tech, ly, c, diff, dcont, cls, rename), info


def _l2n(tech, ly, c, diff, dcont, cls, rename=None):
    import klayout.db as kdb
    tbl = TABLES[tech]
    l2n = (cls or kdb.LayoutToNetlist)(kdb.RecursiveShapeIterator(ly, c, []))
    mets = []
    for _, name, gds, tname, tgds, pname, pgds in tbl['metals']:
        r = l2n.make_layer(ly.layer(*gds), name)
        tx = l2n.make_text_layer(ly.layer(*tgds), tname)
        p = l2n.make_layer(ly.layer(*pgds), pname)
        mets.append((r, tx, p))
    poly = mets[0][0]
    regs = {}
    for pol in 'np':
        d = l2n.make_layer(diff[pol], f'active_{pol}')
        gate = d & poly
        l2n.register(gate, f'gate_{pol}')
        sd = d - poly
        l2n.register(sd, MOS[tech][pol][0])
        l2n.extract_devices(kdb.DeviceExtractorMOS3Transistor(f'{pol}mos'),
                            {'SD': sd, 'G': gate, 'tS': sd, 'tD': sd, 'tG': poly})
        ct = l2n.make_layer(dcont[pol], MOS[tech][pol][1])
        regs[pol] = (sd, gate, ct)
    for r, tx, p in mets:
        l2n.connect(r)
        l2n.connect(p)
        l2n.connect(r, tx)
        l2n.connect(r, p)
    for pol in 'np':
        sd, gate, ct = regs[pol]
        l2n.connect(sd)
        l2n.connect(ct)
        l2n.connect(sd, ct)
        l2n.connect(ct, mets[1][0])
    for name, gds, b, t in tbl['vias']:
        v = l2n.make_layer(ly.layer(*gds), name)
        l2n.connect(v)
        l2n.connect(v, mets[b][0])
        l2n.connect(v, mets[t][0])
    l2n._kv_layout = ly
    if rename:
        l2n.join_net_names('*')
    l2n.extract_netlist()
    return l2n
