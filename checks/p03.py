"""P03: fringe capacitance between layers, with lateral and vertical shielding."""
from hypothesis import strategies as st
from kv import gen, cap25
from kv.core import Part

PID = 'P03'
RULE = ('generated: layouts of rectangles (random, stacked, bus-like; both PDKs; halo 0.5-8 um; scaling on/off) extracted '
        'by the 2.5D engine; part fringe has sidewall coefficients 0, part total has everything on; '
        'non-trivial: at least one fringe piece between two different nets other than the substrate')
ASSUMPTIONS = ['KLayout edge-neighbourhood operations and LayoutToNetlist are trusted',
               'fringe pieces up to the reporting threshold of 0.0001 fF may be left out',
               'finding S1: pieces behind another arm of the same polygon are accepted with and without shielding']


def run_with(parts, **z):
    def run(case, rec):
        if not case['shapes']:
            return
        edit = cap25.edit_of(case, cap25.zero(**z))
        info, caps, res = cap25.check_against_reference(case, edit, parts, rec, what='capacitance')
        soc = [k for cr in res.cell_extraction_results.values() for k in cr.sideoverlap_table]
        rec.nontrivial(any(k.net_outside != 'VSUBS' for k in soc))
        rec.label('upward', any(k.layer_outside != 'VSUBS' and k.layer_inside < k.layer_outside for k in soc))
    return run


PARTS = [Part('fringe', lambda: gen.varied(gen.mixed_layouts(n_layers=(1, 7))), run_with(('plate', 'fringe'), sidewall=True),
              quick=450, thorough=6000),
         Part('total', lambda: gen.varied(gen.mixed_layouts(n_layers=(1, 7))), run_with(('plate', 'sidewall', 'fringe')),
              quick=250, thorough=4000)]
