"""Helper of the demos: layouts in code, extracted as the sky130A LVS script names the layers."""
import os
import sys
import tempfile

sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import klayout.db as kdb  # noqa: E402
from klayout_pex.tech_info import TechInfo  # noqa: E402
from klayout_pex.log import set_log_level, LogLevel  # noqa: E402
from klayout_pex.klayout.lvsdb_extractor import KLayoutExtractionContext  # noqa: E402
from klayout_pex.rcx25.extractor import RCX25Extractor  # noqa: E402
from klayout_pex.rcx25.pex_mode import PEXMode  # noqa: E402

set_log_level(LogLevel.CRITICAL)

METALS = {'poly': ('poly_con', 66), 'li1': ('li_con', 67), 'met1': ('met1_con', 68), 'met2': ('met2_con', 69),
          'met3': ('met3_ncap', 70), 'met4': ('met4_ncap', 71), 'met5': ('met5_con', 72)}
VIAS = [('licon_poly_con', 66, 'poly', 'li1'), ('mcon_con', 67, 'li1', 'met1'), ('via1_con', 68, 'met1', 'met2'),
        ('via2_con', 69, 'met2', 'met3'), ('via3_ncap', 70, 'met3', 'met4'), ('via4_ncap', 71, 'met4', 'met5')]


def tech(edit=None, name='sky130A'):
    pb = TechInfo.parse_tech_def(os.path.join('klayout_pex_protobuf', f'{name}_tech.pb.json'))
    if edit:
        edit(pb)
    return TechInfo(tech=pb, dielectric_filter=None)


def l2n(shapes, vias=(), pins=()):
    """shapes: (metal, net, rect or point list, label position), vias: (lvs name, rect), pins: (metal, label, rect)"""
    ly = kdb.Layout()
    ly.dbu = 0.001
    c = ly.create_cell('TOP')
    for m, net, r, at in shapes:
        p = kdb.Polygon(kdb.Box(*r)) if not isinstance(r[0], tuple) else kdb.Polygon([kdb.Point(*q) for q in r])
        g = METALS[m][1]
        c.shapes(ly.layer(g, 20)).insert(p)
        if at:
            c.shapes(ly.layer(g, 5)).insert(kdb.Text(net, kdb.Trans(*at)))
    for v, r in vias:
        c.shapes(ly.layer([x[1] for x in VIAS if x[0] == v][0], 44)).insert(kdb.Box(*r))
    for m, lab, r in pins:
        b = kdb.Box(*r)
        c.shapes(ly.layer(METALS[m][1], 16)).insert(b)
        c.shapes(ly.layer(METALS[m][1], 5)).insert(kdb.Text(lab, kdb.Trans(b.center().x, b.center().y)))
    x = kdb.LayoutToNetlist(kdb.RecursiveShapeIterator(ly, c, []))
    regs = {}
    for m, (name, g) in METALS.items():
        short = name.replace('_con', '').replace('_ncap', '')
        r = x.make_layer(ly.layer(g, 20), name)
        t = x.make_text_layer(ly.layer(g, 5), short + '_label')
        p = x.make_layer(ly.layer(g, 16), short + '_pin_con')
        x.connect(r)
        x.connect(p)
        x.connect(r, t)
        x.connect(r, p)
        regs[m] = r
    for v, g, b, t in VIAS:
        r = x.make_layer(ly.layer(g, 44), v)
        x.connect(r)
        x.connect(r, regs[b])
        x.connect(r, regs[t])
    x._layout = ly
    x.join_net_names('*')
    x.extract_netlist()
    return x


def extract(x, ti=None, mode='CC', scale=False, blackbox=True):
    ti = ti or tech()
    ctx = KLayoutExtractionContext.prepare_extraction(lvsdb=x, top_cell='TOP', tech=ti, blackbox_devices=blackbox)
    with tempfile.TemporaryDirectory() as d:
        return RCX25Extractor(pex_context=ctx, pex_mode=PEXMode(mode), scale_ratio_to_fit_halo=scale,
                              delaunay_amax=50.0, delaunay_b=0.5, tech_info=ti,
                              report_path=os.path.join(d, 'r.rdb.gz')).extract()


def cap(res, a, b):
    return sum(v for k, v in res.summarize().capacitances.items() if {k.net1, k.net2} == {a, b})


def close(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(abs(a), abs(b), 1e-9)
