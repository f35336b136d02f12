EDITS = [('klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py', '''                            r = range(self.inside_layer_index + 1, child_index)
''', '''                            r = range(self.inside_layer_index + 2, child_index)
''')]
META = {'property': 'P03', 'needs': 'a plate on the very next layer above between an edge and a shape further up',
        'what_it_breaks': 'the plate no longer shields the fringe capacitance to the shape above it'}
# demo
from l2n import *
def fringe(plate):
    s = [('met1', 'A', (0, 0, 1000, 10000), (500, 500)), ('met3', 'B', (1200, 0, 4000, 10000), (3000, 500))]
    if plate:
        s.append(('met2', 'C', (-9000, -3000, 9000, 13000), (8000, 500)))
    return cap(extract(l2n(s)), 'A', 'B')
assert fringe(False) > 0
assert fringe(True) == 0, fringe(True)
