EDITS = [('klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py', '''            if net1 == net2:
                return
''', '''            if net1.upper() == net2.upper():
                return
''')]
META = {'property': 'P04', 'needs': 'neighbouring wires of two nets whose names differ in upper and lower case only',
        'what_it_breaks': 'renaming nets changes the capacitance: such nets have no sidewall capacitance'}
# demo
from l2n import *


def caps(a, b):
    x = l2n([('met1', a, (0, 0, 10000, 200), (100, 100)), ('met1', b, (0, 400, 10000, 600), (100, 500))])
    r = extract(x, tech()).summarize().capacitances
    return sum(v for k, v in r.items() if {k.net1, k.net2} == {a, b})


assert abs(caps('in', 'out') - caps('d', 'D')) < 1e-9, (caps('in', 'out'), caps('d', 'D'))
