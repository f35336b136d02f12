EDITS = [('klayout_pex/rcx25/extractor.py', '''                layer_regions_by_name[canonical_layer_name] += all_layer_shapes
''', '''                if canonical_layer_name in layer_regions_by_name:
                    layer_regions_by_name[canonical_layer_name] += all_layer_shapes
                else:
                    layer_regions_by_name[canonical_layer_name] = all_layer_shapes
''')]
META = {'property': 'P10', 'needs': 'a layout with a metal and its capacitor part, and an extraction of resistances after one of capacitances in the same context',
        'what_it_breaks': 'the extraction adds the capacitor part to the shapes of the context, and so the next extraction sees it as metal'}
# demo
from l2n import *
from klayout_pex.rcx25.r.r_extractor import RExtractor
ly = kdb.Layout()
c = ly.create_cell('TOP')
m, t, p = ly.layer(70, 20), ly.layer(70, 5), ly.layer(70, 16)
k = ly.layer(70, 120)
c.shapes(m).insert(kdb.Box(0, 0, 20000, 1000))
c.shapes(k).insert(kdb.Box(20000, 0, 40000, 1000))
for x, n in ((500, 'A'), (19500, 'A')):
    c.shapes(t).insert(kdb.Text(n, kdb.Trans(x, 500)))
    c.shapes(p).insert(kdb.Box(x - 100, 400, x + 100, 600))
x = kdb.LayoutToNetlist(kdb.RecursiveShapeIterator(ly, c, []))
a, b, tt, pp = x.make_layer(m, 'met3_ncap'), x.make_layer(k, 'met3_cap'), x.make_text_layer(t, 'met3_label'), x.make_layer(p, 'met3_pin_con')
for q in (a, b, pp):
    x.connect(q)
x.connect(a, b)
x.connect(a, pp)
x.connect(a, tt)
x.extract_netlist()
x._layout = ly
ti = tech()
with tempfile.TemporaryDirectory() as d:
    ctx = KLayoutExtractionContext.prepare_extraction(lvsdb=x, top_cell='TOP', tech=ti, blackbox_devices=False)

    def extract(mode):
        return RCX25Extractor(pex_context=ctx, pex_mode=mode, scale_ratio_to_fit_halo=True, delaunay_amax=50, delaunay_b=0.5, tech_info=ti,
                              report_path=os.path.join(d, 'r.rdb.gz')).extract().summarize()
    r1 = dict(extract(PEXMode.R).resistances)
    c1 = dict(extract(PEXMode.CC).capacitances)
    r2 = dict(extract(PEXMode.R).resistances)
    c2 = dict(extract(PEXMode.CC).capacitances)
    s1 = ctx.shapes_of_layer((70, 20)).area()
assert s1 == 20000 * 1000, s1
assert sorted(r1.values()) == sorted(r2.values()) and c1 == c2, (r1, r2, c1, c2)
