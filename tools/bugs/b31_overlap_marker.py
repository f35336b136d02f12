EDITS = [('klayout_pex/rcx25/extraction_reporter.py', '''        self.output_shapes(cat_overlap_cap, "Overlap Area", overlap_area)
''', '''        self.output_shapes(cat_overlap_cap, "Overlap Area", kdb.Region(overlap_area.bbox()))
''')]
META = {'property': 'P26', 'needs': 'an overlap which is no rectangle', 'what_it_breaks': 'the marker of the overlap covers places where nothing overlaps'}
# demo
import klayout.rdb as rdb
from l2n import *
ti = tech()
x = l2n([('met1', 'A', (0, 0, 4000, 4000), (100, 100)), ('met2', 'B', [(1000, 1000), (1000, 3000), (1500, 3000), (1500, 1500), (3000, 1500), (3000, 1000)], (1200, 1200))])
ctx = KLayoutExtractionContext.prepare_extraction(lvsdb=x, top_cell='TOP', tech=ti, blackbox_devices=True)
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'r.rdb.gz')
    RCX25Extractor(pex_context=ctx, pex_mode=PEXMode.CC, scale_ratio_to_fit_halo=True, delaunay_amax=50, delaunay_b=0.5, tech_info=ti, report_path=p).extract()
    r = rdb.ReportDatabase('')
    r.load(p)
area = set()
for it in r.each_item():
    path = r.category_by_id(it.category_id()).path()
    if 'Overlap Area' in path and 'top_layer=met2' in path and 'bot_layer=met1' in path:
        for v in it.each_value():
            area.add(round(v.polygon().area(), 6))
assert area == {1.75}, area
