EDITS = [('klayout_pex/tech_info.py', '''        ohm_by_square = via_resistance.resistance / 1000.0 * contact.width ** 2
''', '''        ohm_by_square = via_resistance.resistance / 1000.0 * contact.width * contact.spacing
''')]
META = {'property': 'P12', 'needs': 'a via whose spacing in the technology file differs from its width', 'what_it_breaks': 'the resistance of vias by area is wrong'}
# demo
from l2n import *


def edit(pb):
    for l in pb.process_stack.layers:
        if l.HasField('metal_layer') and l.metal_layer.contact_above.name == 'via1_con':
            l.metal_layer.contact_above.spacing = 0.3


def total(e):
    x = l2n([('met1', 'A', (0, 0, 1000, 1000), None), ('met2', 'A', (0, 0, 1000, 1000), None)], [('via1_con', (400, 400, 600, 600))],
            [('met1', 'A', (0, 0, 100, 100)), ('met2', 'A', (900, 900, 1000, 1000))])
    r = extract(x, tech(e), 'R')
    return sum(e.resistance for c in r.cell_extraction_results.values() for nw in c.r_extraction_result.networks for e in nw.elements)


assert close(total(edit), total(None)), (total(edit), total(None))
