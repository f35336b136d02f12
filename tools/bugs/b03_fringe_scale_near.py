EDITS = [('klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py',
'''                    cnear /= full_halo_ratio
                    cfar /= full_halo_ratio
''',
'''                    cfar = min(1.0, cfar / full_halo_ratio)
                    cnear /= full_halo_ratio if distance_near_um * 2.0 <= self.side_halo else 1.0
''')]
META = {'property': 'P03', 'needs': 'scaling to the halo switched on and a shape on another layer whose fringe window starts beyond half of the halo',
        'what_it_breaks': 'the near end of a far fringe window is not scaled to the halo, so that its share is too large'}
# demo
import math
from l2n import *
ti = tech()
res = extract(l2n([('met2', 'A', (0, 0, 1000, 5000), (100, 100)), ('met1', 'B', (6000, 0, 7000, 5000), (6100, 100))]), ti, scale=True)
got = sum(e.cap_value for k, es in res.cell_extraction_results['TOP'].sideoverlap_table.items() for e in es if k.layer_inside == 'met2' and k.layer_outside == 'met1')
halo = ti.tech.process_parasitics.side_halo
c = ti.overlap_cap_by_layer_names['met2']['met1'].capacitance * 0.02
f = lambda d: math.atan(c * d) / math.atan(c * halo)
exp = 5.0 * ti.side_overlap_cap_by_layer_names['met2']['met1'].capacitance / 1000 * (f(6.0) - f(5.0))
assert got > 0
assert close(got, exp, 0.01), (got, exp)
