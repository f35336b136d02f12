EDITS = [('klayout_pex/rcx25/extraction_results.py',
          '        if self.net1 < self.net2:\n', '        if self.net1.casefold() < self.net2.casefold():\n')]
META = {'property': 'P05', 'needs': 'two nets whose names differ in case only, and entries for the pair in both orders',
        'what_it_breaks': 'the pair is not normalised any more, so it appears twice in the summary'}
# demo
from l2n import *
res = extract(l2n([('met1', 'OUT', (0, 0, 200, 5000), (100, 100)), ('met1', 'out', (500, 0, 700, 5000), (600, 100))]))
keys = [k for k in res.summarize().capacitances if {k.net1, k.net2} == {'OUT', 'out'}]
assert len(keys) == 1, keys
