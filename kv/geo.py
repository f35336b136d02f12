"""Generated layouts -> LayoutToNetlist (in process) -> extraction context."""
import os
import tempfile

from .layers import TABLES


def rect_conflict(a, b, gap=0):
    return a[0] <= b[2] + gap and b[0] <= a[2] + gap and a[1] <= b[3] + gap and b[1] <= a[3] + gap


def legal_shapes(shapes):
    """Shapes [layer, net, [x1,y1,x2,y2]]: drops, in order, what would short two nets on one layer
    (touching counts) or is degenerate."""
    out = []
    for l, n, r in shapes:
        r = [min(r[0], r[2]), min(r[1], r[3]), max(r[0], r[2]), max(r[1], r[3])]
        if r[0] == r[2] or r[1] == r[3]:
            continue
        if any(l == l2 and n != n2 and rect_conflict(r, r2) for l2, n2, r2 in out):
            continue
        out.append([l, n, r])
    return out


def build_l2n(tech, shapes, vias=(), pins=(), dbu=0.001, top='TOP', labels=True, join='*', netname=str,
              trans=None, hier=0, extra_layers=(), cls=None, names=None, device=None, cap_vias=None):
    """shapes: [metal index, net, rect | polygon points]; vias: [via index, rect];
    pins: [metal index, label, rect] (pin polygon with its label in the centre).
    `hier`: number of subcells the shapes are dealt into. Returns LayoutToNetlist."""
    import klayout.db as kdb
    tbl = TABLES[tech]
    ly = kdb.Layout()
    ly.dbu = dbu
    top_cell = ly.create_cell(top)
    cells = [top_cell]
    for k in range(hier):
        c = ly.create_cell(f'SUB{k}')
        off = kdb.Trans((k % 4), False, kdb.Vector(1000 * (k + 1), -700 * k))
        top_cell.insert(kdb.CellInstArray(c.cell_index(), off))
        cells.append(c)
    offs = [kdb.Trans()] + [kdb.Trans((k % 4), False, kdb.Vector(1000 * (k + 1), -700 * k)) for k in range(hier)]
    t = trans or kdb.Trans()

    def poly(r):
        if isinstance(r[0], (list, tuple)):
            return kdb.Polygon([kdb.Point(*p) for p in r])
        return kdb.Polygon(kdb.Box(*r))

    def inner_point(p):
        if p.is_box():
            return p.bbox().center()
        best = None
        for q in kdb.Region(p).sized(-2).each():
            for tz in q.decompose_trapezoids():     # any interior point
                b = kdb.Polygon(tz) if not isinstance(tz, kdb.Polygon) else tz
                if best is None or b.area() > best.area():
                    best = b
        pts = [q for q in (best or p).each_point_hull()]
        return kdb.Point(sum(q.x for q in pts) // len(pts), sum(q.y for q in pts) // len(pts))

    for i, (l, n, r) in enumerate(shapes):
        m = tbl['metals'][l]
        p = poly(r).transformed(t)
        k = i % len(cells)
        cells[k].shapes(ly.layer(*m[2])).insert(p.transformed(offs[k].inverted()))
        if labels and n is not None:
            c = inner_point(p)
            top_cell.shapes(ly.layer(*m[4])).insert(kdb.Text(netname(n), kdb.Trans(c.x, c.y)))
    for i, (v, r) in enumerate(vias):       # cap_vias: {via index: LVS layer of every other via}
        gds = (901, v) if v in (cap_vias or {}) and i % 2 else tbl['vias'][v][1]
        top_cell.shapes(ly.layer(*gds)).insert(poly(r).transformed(t))
    for l, lab, r in pins:
        m = tbl['metals'][l]
        p = poly(r).transformed(t)
        top_cell.shapes(ly.layer(*m[6])).insert(p)
        c = p.bbox().center()
        top_cell.shapes(ly.layer(*m[4])).insert(kdb.Text(lab, kdb.Trans(c.x, c.y)))
    more = None
    if device:
        # a capacitor device in `rect`, its terminals are the metals `ta` and `tb`
        rect_, ta, tb = device
        top_cell.shapes(ly.layer(900, 1)).insert(poly(rect_).transformed(t))

        def more(l2n, mets):
            m = l2n.make_layer(ly.layer(900, 1), 'kv_capdev')
            l2n.extract_devices(kdb.DeviceExtractorCapacitor('KVCAP', 0.001),
                                {'P1': m, 'P2': m, 'tA': mets[ta], 'tB': mets[tb]})
    return l2n_from_layout(tech, ly, top_cell, join, cls, more, names=names, cap_vias=cap_vias)


def l2n_from_layout(tech, ly, top_cell=None, join='*', cls=None, more=None, names=None, cap_vias=None):
    """names: LVS layer names that differ from the table's, by metal index"""
    import klayout.db as kdb
    tbl = TABLES[tech]
    top_cell = top_cell or ly.top_cell()
    l2n = (cls or kdb.LayoutToNetlist)(kdb.RecursiveShapeIterator(ly, top_cell, []))
    mets = []
    for i, (_, name, gds, tname, tgds, pname, pgds) in enumerate(tbl['metals']):
        r = l2n.make_layer(ly.layer(*gds), (names or {}).get(i, name))
        tx = l2n.make_text_layer(ly.layer(*tgds), tname)
        p = l2n.make_layer(ly.layer(*pgds), pname)
        l2n.connect(r)
        l2n.connect(p)
        l2n.connect(r, tx)
        l2n.connect(r, p)
        mets.append(r)
    for name, gds, b, t in tbl['vias']:
        v = l2n.make_layer(ly.layer(*gds), name)
        l2n.connect(v)
        l2n.connect(v, mets[b])
        l2n.connect(v, mets[t])
    for k, name in (cap_vias or {}).items():
        _, _, b, t = tbl['vias'][k]
        v = l2n.make_layer(ly.layer(901, k), name)
        l2n.connect(v)
        l2n.connect(v, mets[b])
        l2n.connect(v, mets[t])
    if more:
        more(l2n, mets)
    l2n._kv_layout = ly      # keep alive
    if join:
        l2n.join_net_names(join)
    l2n.extract_netlist()
    return l2n


def context(l2n, tech_info, blackbox=True):
    from klayout_pex.klayout.lvsdb_extractor import KLayoutExtractionContext
    return KLayoutExtractionContext.prepare_extraction(
        lvsdb=l2n, top_cell=l2n.internal_top_cell().name, tech=tech_info, blackbox_devices=blackbox)


def run_25d(l2n, tech_info, mode='CC', scale=False, blackbox=True, report_path=None, ctx=None):
    from klayout_pex.rcx25.extractor import RCX25Extractor
    from klayout_pex.rcx25.pex_mode import PEXMode
    ctx = ctx or context(l2n, tech_info, blackbox)
    with tempfile.TemporaryDirectory() as d:
        ex = RCX25Extractor(pex_context=ctx, pex_mode=PEXMode(mode), scale_ratio_to_fit_halo=scale,
                            delaunay_amax=50.0, delaunay_b=0.5, tech_info=tech_info,
                            report_path=report_path or os.path.join(d, 'report.rdb.gz'))
        return ex.extract()


def caps_of(results):
    """{(netA, netB) sorted: fF} of an ExtractionResults, zero entries dropped"""
    out = {}
    for k, v in results.summarize().capacitances.items():
        key = tuple(sorted((k.net1, k.net2)))
        out[key] = out.get(key, 0.0) + v
    return {k: v for k, v in out.items() if v != 0.0}


def write_lvsdb(path, *a, **kw):
    """build_l2n as an LVS database file, like the LVS scripts write it (compared with a dummy schematic)"""
    import klayout.db as kdb
    lvs = build_l2n(*a, cls=kdb.LayoutVsSchematic, **kw)
    return save_lvsdb(lvs, path)


def save_lvsdb(lvs, path):
    import klayout.db as kdb
    top = lvs.internal_top_cell().name
    ref = kdb.Netlist()
    c = kdb.Circuit()
    c.name = top
    ref.add(c)
    lvs.reference = ref
    lvs.compare(kdb.NetlistComparer())
    lvs.write(path)
    return lvs
