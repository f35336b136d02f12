"""Shared pieces of the 2.5D capacitance checks."""
from . import gen, geo, layers, ref25d
from .core import require, sut


def zero(plate=False, sidewall=False, fringe=False):
    """Edit of the technology that switches a class of coefficients off."""
    def edit(pb):
        c = pb.process_parasitics.capacitance
        for s in c.substrates:
            if plate:
                s.area_capacitance = 0.0
            if fringe:
                s.perimeter_capacitance = 0.0
        if plate:
            for o in c.overlaps:
                o.capacitance = 0.0
        if sidewall:
            for s in c.sidewalls:
                s.capacitance = 0.0
        if fringe:
            for s in c.sideoverlaps:
                s.capacitance = 0.0
    return edit


def scramble(seed):
    """Edit that gives every table entry its own value (a function of its names and `seed`),
    so that a coefficient taken from the wrong entry shows."""
    import hashlib

    def f(*key):
        h = hashlib.sha256(repr((seed,) + key).encode()).digest()
        return 0.25 + 1.5 * int.from_bytes(h[:4], 'big') / 2 ** 32

    def edit(pb):
        c = pb.process_parasitics.capacitance
        for s in c.substrates:
            s.area_capacitance *= f('a', s.layer_name)
            s.perimeter_capacitance *= f('p', s.layer_name)
        for o in c.overlaps:
            o.capacitance *= f('o', o.top_layer_name, o.bottom_layer_name)
        for s in c.sidewalls:
            s.capacitance *= f('s', s.layer_name)
            s.offset *= f('so', s.layer_name)
        for s in c.sideoverlaps:
            s.capacitance *= f('f', s.in_layer_name, s.out_layer_name)
        if seed % 3 == 0:       # incomplete tables: such pairs have no capacitance, but the layers still shield
            for t, keys in ((c.substrates, ('layer_name',)), (c.overlaps, ('top_layer_name', 'bottom_layer_name')), (c.sidewalls, ('layer_name',)),
                            (c.sideoverlaps, ('in_layer_name', 'out_layer_name'))):
                for i in reversed(range(len(t))):
                    if f('drop', *[getattr(t[i], k) for k in keys]) < 0.5:
                        del t[i]
    return edit


def chain(*edits):
    def edit(pb):
        for e in edits:
            if e:
                e(pb)
    return edit


def edit_of(case, *more):
    return chain(scramble(case['seed']) if case.get('seed') else None, *more)


def extract(case, edit=None, mode='CC', **build):
    """case: a (varied) layout. -> TechInfo, ExtractionResults, {pair: fF}"""
    ti = layers.tech_info(case['tech'], halo=case.get('halo'), edit=edit)
    shapes, dbu, hier = gen.realize(case)
    with sut('2.5D capacitance extraction'):
        l2n = geo.build_l2n(case['tech'], shapes, dbu=dbu, hier=hier, **build)
        res = geo.run_25d(l2n, ti, mode, case.get('scale', False))
        caps = geo.caps_of(res)
    return ti, res, caps


def check_against_reference(case, edit, parts, rec, strict_self=False, what='capacitance'):
    ti, res, caps = extract(case, edit)
    shapes, dbu, hier = gen.realize(case)
    exp, info = ref25d.total(shapes, ti.tech, layers.metal_names(case['tech']), case.get('scale', False), dbu=dbu,
                             parts=parts, strict_self=strict_self)
    for k in ('sidewall', 'self-lateral', 'same-net-below-above', 'vertically-shielded', 'fringe',
              'laterally-shielded-fringe', 'excluded-finding-S1'):
        rec.label(k, info.get(k, 0) > 0)
    for k in ('off', 'dbu', 'hier', 'names', 'seed'):
        rec.label('varied-' + k, bool(case.get(k)))
    bad = ref25d.compare(caps, exp, what)
    require(not bad, lambda: '; '.join(bad[:4]))
    return info, caps, res
