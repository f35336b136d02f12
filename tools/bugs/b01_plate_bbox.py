EDITS = [('klayout_pex/rcx25/c/overlap_extractor.py',
          '                    top_region = kdb.Region(polygon_above)\n',
          '                    top_region = kdb.Region(polygon_above.bbox())\n')]
META = {'property': 'P01', 'needs': 'a shape on an upper layer which is not a rectangle, whose bounding box reaches over a shape below that the shape itself does not cover',
        'what_it_breaks': 'plate capacitance counts the area of the bounding box of the upper shape instead of the directly facing area'}
# demo
from l2n import *
# an L of met3 goes around a met2 square
L = [(0, 0), (0, 10000), (2000, 10000), (2000, 2000), (10000, 2000), (10000, 0)]
res = extract(l2n([('met3', 'A', L, (500, 500)), ('met2', 'B', (4000, 4000, 9000, 9000), (5000, 5000))]))
plates = [e for k, es in res.cell_extraction_results['TOP'].overlap_table.items() for e in es if 'VSUBS' not in (k.net_bot, k.net_top)]
assert sum(e.cap_value for e in plates) < 1e-9, plates
