"""P30: the dielectric filter includes exactly the dielectrics which its pattern names."""
from hypothesis import strategies as st
from kv import boot, layers
from kv.core import Part, require, sut

PID = 'P30'
WORKERS = 4
RULE = ('generated: filter patterns (all or none with exclusions or inclusions, spaces, capitals, names that do not exist, illegal mixes) '
        'over generated names and over the dielectrics of both PDKs; oracle: the documented meaning; non-trivial: the filter keeps some '
        'choices and drops others')
ASSUMPTIONS = ['patterns without all and none are not specified and not generated as valid ones']

NAMES = ['nild5', 'nild6', 'capild', 'ILD1', 'ild1x', 'pass1', 'air', 'fox', 'Topox']


def spell(draw, s):
    k = draw(st.integers(0, 5))
    if k == 0:
        s = s.upper()
    elif k == 1:
        s = s.capitalize()
    pad = st.sampled_from(['', '', '', ' ', '  '])
    return draw(pad) + s + draw(pad)


@st.composite
def cases(draw):
    tech = draw(st.sampled_from([None, None] + list(boot.TECHS)))
    pool = NAMES if tech is None else sorted({l['name'] for l in layers.tech_json(tech)['process_stack']['layers']})
    base = draw(st.sampled_from(['all', 'none']))
    names = draw(st.lists(st.sampled_from(pool + ['nosuch']), max_size=5))
    sign = '-' if base == 'all' else '+'
    comps = [[base, None]] + [[sign, n] for n in names]
    illegal = draw(st.sampled_from([None] * 5 + ['both', 'sign']))
    if illegal == 'both':
        comps.append(['none' if base == 'all' else 'all', None])
    elif illegal == 'sign':
        comps.append(['+' if base == 'all' else '-', draw(st.sampled_from(pool))])
    comps = draw(st.permutations(comps))
    pattern = ','.join(spell(draw, c[0] if c[1] is None else c[0] + c[1]) for c in comps)
    choices = draw(st.lists(st.sampled_from(NAMES), max_size=7))
    return {'tech': tech, 'base': base, 'names': names, 'illegal': illegal, 'pattern': pattern, 'choices': choices}


def run(case, rec):
    from klayout_pex.util.multiple_choice import MultipleChoicePattern
    if case['illegal']:
        try:
            MultipleChoicePattern(case['pattern'])
        except ValueError:
            rec.label('rejected')
            return
        except Exception as e:
            require(False, f'pattern {case["pattern"]!r}: {type(e).__name__} {e}')
        require(False, f'contradictory pattern {case["pattern"]!r} was accepted')
    with sut(f'pattern {case["pattern"]!r}'):
        p = MultipleChoicePattern(case['pattern'])
    named = {n.lower() for n in case['names']}
    keep = (lambda n: n.lower() not in named) if case['base'] == 'all' else (lambda n: n.lower() in named)
    if case['tech'] is None:
        choices = case['choices']
        with sut('filter'):
            got = p.filter(list(choices))
            inc = [p.is_included(c) for c in choices]
        require(got == [c for c in choices if keep(c)], f'filter {case["pattern"]!r} of {choices} gives {got}')
        require(inc == [keep(c) for c in choices], f'is_included with {case["pattern"]!r} over {choices}: {inc}')
        rec.nontrivial(0 < len(got) < len(choices))
        return
    ti = layers.tech_info(case['tech'], dielectric_filter=p)
    stack = layers.tech_json(case['tech'])['process_stack']['layers']
    diel = [l for l in stack if l['layer_type'] in ('LAYER_TYPE_SIMPLE_DIELECTRIC', 'LAYER_TYPE_CONFORMAL_DIELECTRIC',
                                                    'LAYER_TYPE_SIDEWALL_DIELECTRIC')]
    body = lambda l: next(v for k, v in l.items() if k.endswith('_layer'))
    with sut('dielectrics of the technology'):
        got = [l.name for l in ti.filtered_dielectric_layers]
        byname = dict(ti.dielectric_by_name)
    want = [l['name'] for l in diel if keep(l['name'])]
    require(got == want, f'filtered dielectrics of {case["tech"]} with {case["pattern"]!r}: {got}, expected {want}')
    require(set(byname) == set(want), f'dielectric constants of {sorted(byname)}, expected {sorted(set(want))}')
    for n, k in byname.items():
        ks = [body(l)['dielectric_k'] for l in diel if l['name'] == n]
        require(k in ks, f'dielectric constant of {n} is {k}, table says {ks}')
    for m in stack:
        name = m['name']
        with sut(f'sidewall dielectric of {name}'):
            refs = [l for l in diel if not l['layer_type'].endswith('SIMPLE_DIELECTRIC') and body(l)['reference'] == name]
            s = ti.sidewall_dielectric_layer(name)
        kept = [r['name'] for r in refs if keep(r['name'])]
        require((s.name if s else None) == (kept[0] if kept else None), f'sidewall dielectric of {name}: {s and s.name}, expected {kept}')
    metals = [i for i, l in enumerate(stack) if l['layer_type'] == 'LAYER_TYPE_METAL']
    for i in metals:
        with sut('simple_dielectric_above_metal'):
            d, h = ti.simple_dielectric_above_metal(stack[i]['name'])
        nxt = next((j for j in metals if j > i), None)
        simple = [l for l in stack[i + 1:nxt] if l['layer_type'] == 'LAYER_TYPE_SIMPLE_DIELECTRIC']
        first = simple[0] if simple else None
        if first is not None and not keep(first['name']):
            require(d is None, f'simple dielectric above {stack[i]["name"]}: {d and d.name} is filtered out')
            continue
        require((d.name if d else None) == (first['name'] if first else None),
                f'simple dielectric above {stack[i]["name"]}: {d and d.name}, expected {first and first["name"]}')
        if nxt is not None:
            w = body(stack[nxt])['z'] - body(stack[i])['z']
            require(abs(h - w) < 1e-9, f'height of the dielectric above {stack[i]["name"]}: {h}, expected {w}')
    rec.nontrivial(0 < len(want) < len(diel))
    rec.label(case['tech'])


PARTS = [Part('filter', cases, run, quick=600, thorough=20000)]
