EDITS = [('klayout_pex/tech_info.py', '''        return milliohm / 1000.0
''', '''        return int(milliohm) / 1000.0
''')]
META = {'property': 'P08', 'needs': 'a technology whose sheet resistance is not a whole number of milliohms', 'what_it_breaks': 'resistances are too low'}
# demo
from l2n import *


def edit(pb):
    for x in pb.process_parasitics.resistance.layers:
        x.resistance = 10.75


x = l2n([('met1', 'A', (0, 0, 100000, 1000), None)], pins=[('met1', 'A', (0, 400, 200, 600)), ('met1', 'A', (99800, 400, 100000, 600))])
r = extract(x, tech(edit), 'R')
el = [e for c in r.cell_extraction_results.values() for nw in c.r_extraction_result.networks for e in nw.elements]
total = sum(e.resistance for e in el)
assert abs(total - 0.01075 * 99.8) < 1e-3, total
