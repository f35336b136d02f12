"""P02: sidewall capacitance between neighbouring conductors on one layer."""
from hypothesis import strategies as st
from kv import gen, cap25
from kv.core import Part

PID = 'P02'
RULE = ('generated: layouts of rectangles (random, stacked, bus-like; both PDKs; halo 0.5-8 um) extracted by the 2.5D '
        'engine with fringe coefficients set to 0; non-trivial: two different nets see each other '
        'on one layer within the halo')
ASSUMPTIONS = ['KLayout edge-neighbourhood operations and LayoutToNetlist are trusted',
               'finding S1: pieces behind another arm of the same polygon are accepted with and without shielding']


def run(case, rec, strict=False):
    if not case['shapes']:
        return
    edit = cap25.edit_of(case, cap25.zero(fringe=True))
    info, caps, res = cap25.check_against_reference(case, edit, ('plate', 'sidewall'), rec, strict_self=strict,
                                                    what='sidewall (and plate) capacitance')
    rec.nontrivial(info.get('sidewall', 0) > 0)


def run_finding(f, rec):
    run(f['case'], rec, strict=True)


PARTS = [Part('layouts', lambda: gen.varied(st.one_of(gen.wires(), gen.any_layouts(n_layers=(1, 2)), gen.rings(),
                                                     gen.wires())), run, quick=600, thorough=8000)]
