"""P16: the FasterCap model of a layout stacks its materials as the technology's process stack says."""
import math
from hypothesis import strategies as st
from kv import gen, layers
from kv.core import Part, require, sut
from . import p11, p14

PID = 'P16'
WORKERS = 8
RULE = ('generated: LVS databases with shapes of several nets on the metals, contacts, diffusions and capacitor layers of both PDKs, with the process stack as '
        'shipped or with generated sidewall and conformal dielectrics on the metals, dielectric filters, several database units; oracle: the vertical '
        'profile of materials at sample points in every kind of place (inside of shapes, in each sidewall ring, elsewhere, outside), computed from the technology file; '
        'non-trivial: at least two conductors besides the substrate or a shape with a sidewall dielectric')
ASSUMPTIONS = ['surfaces follow from the materials put in (P14)', 'shapes of nets and layers are those drawn (P11)',
               'diffusions are 0.1 µm thick and start at z=0, air is 5 µm thick, the halo around the layout 8 µm (constants of the builder)',
               'layers of different nets do not touch, as in extracted layouts']


def fl(v, dbu):
    return math.floor(v / dbu + 1e-6)


def stack(tech, edit=None):
    j = layers.tech_json(tech)['process_stack']['layers']
    return [dict(l) for l in j]


def kind(l):
    return l['layer_type'].replace('LAYER_TYPE_', '')


def body(l):
    return l.get({'METAL': 'metal_layer', 'SIMPLE_DIELECTRIC': 'simple_dielectric_layer', 'SIDEWALL_DIELECTRIC': 'sidewall_dielectric_layer',
                  'CONFORMAL_DIELECTRIC': 'conformal_dielectric_layer', 'DIFFUSION': 'diffusion_layer', 'SUBSTRATE': 'substrate_layer',
                  'FIELD_OXIDE': 'field_oxide_layer', 'NWELL': 'nwell_layer'}[kind(l)], {})


def apply_chains(stk, chains):
    """replaces the sidewall and conformal dielectrics by generated ones"""
    if chains is None:
        return stk
    out = []
    for l in stk:
        if kind(l) in ('SIDEWALL_DIELECTRIC', 'CONFORMAL_DIELECTRIC'):
            continue
        out.append(l)
        if kind(l) == 'METAL':
            ref = l['name']
            for i, (k, w, h, n) in enumerate(chains.get(l['name'], [])):
                name = f'{"sw" if k == "s" else "cf"}{i}_{l["name"]}'
                if k == 's':
                    out.append({'name': name, 'layer_type': 'LAYER_TYPE_SIDEWALL_DIELECTRIC', 'sidewall_dielectric_layer':
                                {'dielectric_k': 2.0 + i, 'height_above_metal': h, 'width_outside_sidewall': w, 'reference': ref}})
                else:
                    out.append({'name': name, 'layer_type': 'LAYER_TYPE_CONFORMAL_DIELECTRIC', 'conformal_dielectric_layer':
                                {'dielectric_k': 2.0 + i, 'thickness_over_metal': h, 'thickness_where_no_metal': n, 'thickness_sidewall': w,
                                 'reference': ref}})
                ref = name
    return out


def conductor_layers(tech):
    """[(stack index, name, drw pair, z1, z2, 'metal'|'contact'|'diff'|'diffcontact', [lvs indices])]"""
    tab = p11.lvs_layers(tech)
    comp = {n: g for n, _, g in tab}
    drw = {}
    for c in layers.tech_json(tech)['layers']:
        g = c.get('drw_gds_pair')
        if g:
            drw[c['name']] = (g.get('layer', 0), g.get('datatype', 0))
    out = []
    for l in stack(tech):
        b = body(l)
        if kind(l) == 'METAL':
            todo = [(l['name'], b.get('z', 0), b.get('z', 0) + b['thickness'], 'metal')]
            if 'contact_above' in b:
                c = b['contact_above']
                todo.append((c['name'], b.get('z', 0) + b['thickness'], b.get('z', 0) + b['thickness'] + c['thickness'], 'contact'))
        elif kind(l) == 'DIFFUSION':
            c = b['contact_above']
            todo = [(l['name'], 0, 0.1, 'diff'), (c['name'], 0, c['thickness'], 'diffcontact')]
        else:
            continue
        for name, z1, z2, k in todo:
            pair = comp.get(name) or drw.get(name)
            out.append((l['name'], name, pair, z1, z2, k, [i for i, t in enumerate(tab) if t[2] == pair]))
    return out


@st.composite
def cases(draw):
    tech = draw(gen.techs())
    cl = conductor_layers(tech)
    stk = stack(tech)
    pool = draw(st.lists(st.sampled_from(range(len(cl))), min_size=1, max_size=6, unique=True))
    metals = [i for i, c in enumerate(cl) if c[5] == 'metal']
    shapes = []
    many = draw(st.integers(0, 7)) == 0         # many shapes and nets on one or two layers
    if many:
        pool = [i for i, c in enumerate(cl) if c[5] == 'diff'] if draw(st.integers(0, 2)) == 0 else pool[:2]
    for _ in range(draw(st.sampled_from([9, 12, 16])) if many else draw(st.integers(1, 7))):
        i = draw(st.sampled_from(pool if many or draw(st.integers(0, 3)) else metals))
        c = cl[i]
        r = gen.rect(draw, 60 if many else 24, 200, 1, 8)
        net = draw(st.sampled_from(['A', 'B', 'VSUBS', 'x<0>', None]))
        shapes.append([draw(st.sampled_from(c[6])), net, r])
        if c[5] == 'diff' and draw(st.integers(0, 2)) == 0:      # of L shape
            w, h = draw(st.sampled_from([3000, 6000])), draw(st.sampled_from([3000, 6000]))
            shapes += [[shapes[-1][0], net, [r[0], r[1], r[0] + w, r[1] + 200]], [shapes[-1][0], net, [r[0], r[1], r[0] + 200, r[1] + h]]]
        if c[5] == 'diff' and draw(st.booleans()):      # contact inside of the diffusion
            k = [q for q in cl if q[0] == c[0] and q[5] == 'diffcontact'][0]
            shapes.append([draw(st.sampled_from(k[6])), net, [r[0] + 50, r[1] + 50, r[2] - 50, r[3] - 50]])
        if c[5] == 'metal' and draw(st.booleans()):      # via inside of the metal
            k = [q for q in cl if q[0] == c[0] and q[5] == 'contact']
            if k:
                shapes.append([draw(st.sampled_from(k[0][6])), net, [r[0] + 50, r[1] + 50, r[2] - 50, r[3] - 50]])
    chains = None
    if draw(st.integers(0, 2)):
        chains = {}
        names = [l['name'] for l in stk if kind(l) == 'METAL']
        used = sorted({cl_i[0] for s in shapes for cl_i in cl if s[0] in cl_i[6] and cl_i[0] in names})
        for n in used or names[:1]:
            if draw(st.integers(0, 3)) == 0:
                continue
            T = [body(l)['thickness'] for l in stk if l['name'] == n][0]
            form = draw(st.sampled_from(['s', 'ss', 'c', 'sc', 'cc', 'ccc', 'ssc']))
            w = lambda: draw(st.sampled_from([0.02, 0.05, 0.1, 0.15, 0.0431, 0.29, 0.043, 0.051, 0.145]))
            ch = []
            for i, k in enumerate(form):
                if k == 's':
                    h = draw(st.sampled_from([0.0, 0.01])) if i == 0 and form == 's' else (T if i == 0 else 0.01)
                    ch.append(['s', w(), h, 0.0])
                else:
                    ch.append(['c', w(), draw(st.sampled_from([0.01, 0.02])), draw(st.sampled_from([0.01, 0.005, 0.02]))])
            if form in ('sc',):
                ch[0][2] = draw(st.sampled_from([0.01, T, 0.0]))
            chains[n] = ch
    return {'tech': tech, 'shapes': shapes, 'chains': chains, 'order': [], 'hier': 0, 'blackbox': draw(st.integers(0, 3)) == 0, 'file': False,
            'dbu': draw(st.sampled_from([0.001, 0.001, 0.001, 0.005])), 'filter': draw(st.sampled_from(['all', 'all', 'all', 'none', 'some'])),
            'pick': draw(st.lists(st.integers(0, 40), min_size=1, max_size=4)), 'k_void': draw(st.sampled_from([1.0, 3.5]))}


def spec(case, stk, included, shapes, bbox, cl):
    """[(material or net, footprint test (x, y), z1, z2)] in order of precedence; coordinates in dbu, heights in µm"""
    dbu = case['dbu']
    m = math.floor(8 / dbu + 1e-6)
    block = (bbox[0] - m, bbox[1] - m, bbox[2] + m, bbox[3] + m)

    def inr(x, y, r, d=0):
        return r[0] - d < x < r[2] + d and r[1] - d < y < r[3] + d

    def on(rects, d=0):
        return lambda x, y: any(inr(x, y, r, d) for r in rects)

    everywhere = lambda x, y: inr(x, y, block)
    conds, diels = [], {}
    diffs = []
    by_layer = {}
    for c in cl:
        rects = {}
        for pair, net, r in shapes:
            if pair == c[2]:
                rects.setdefault(net, []).append(r)
        by_layer[c[1]] = [r for v in rects.values() for r in v]
        for net, rs in rects.items():
            conds.append(('+' + net, on(rs), c[3], c[4]))
            if c[5] == 'diff':
                diffs += rs
    sub = [body(l) for l in stk if kind(l) == 'SUBSTRATE'][0]
    mu = math.floor(1 / dbu + 1e-6)
    conds.append(('+VSUBS', lambda x, y: everywhere(x, y) and not on(diffs, mu)(x, y),
                  -sub.get('height', 0) - sub['thickness'], -sub.get('height', 0)))
    fox = [l['name'] for l in stk if kind(l) == 'FIELD_OXIDE'][0]
    metals = [l for l in stk if kind(l) == 'METAL']
    order = [fox] + [l['name'] for l in stk if 'DIELECTRIC' in kind(l)]
    diels.setdefault(fox, []).append((everywhere, 0, body(metals[0]).get('z', 0)))
    widths = {0}
    for mi, l in enumerate(metals):
        z, T = body(l).get('z', 0), body(l)['thickness']
        rects = by_layer[l['name']]
        d, h, nm = 0, 0, None
        ref = l['name']
        chain = False
        while rects:
            nxt = [q for q in stk if kind(q) in ('SIDEWALL_DIELECTRIC', 'CONFORMAL_DIELECTRIC') and body(q)['reference'] == ref and included(q['name'])]
            if not nxt:
                break
            q = nxt[0]
            chain = True
            b = body(q)
            if kind(q) == 'SIDEWALL_DIELECTRIC':
                d += math.floor(round(b.get('width_outside_sidewall', 0) / dbu, 6))
                h += b.get('height_above_metal', 0) or T
                diels.setdefault(q['name'], []).append((on(rects, d), z, z + h))
            else:
                d += math.floor(round(b.get('thickness_sidewall', 0) / dbu, 6))
                # conformal: on top of what is there; the metal itself counts once
                h += b.get('thickness_over_metal', 0) + (T if h < T else 0)
                diels.setdefault(q['name'], []).append((on(rects, d), z, z + h))
                if b.get('thickness_where_no_metal', 0) > 0:
                    f = on(rects, d)
                    z0 = nm or 0
                    nm = z0 + b['thickness_where_no_metal']
                    diels.setdefault(q['name'], []).append((lambda x, y, f=f: everywhere(x, y) and not f(x, y), z + z0, z + nm))
            widths.add(d)
            ref = q['name']
        # the simple dielectric between this metal and the next
        i = stk.index(l)
        simple, top = None, None
        for q in stk[i + 1:]:
            if kind(q) == 'SIMPLE_DIELECTRIC' and simple is None:
                simple = q['name']
            if kind(q) == 'METAL':
                top = body(q).get('z', 0)
                break
        if top is None:
            top = z + 5.0
        if simple and included(simple):
            f = on(rects, d)
            if rects:
                diels.setdefault(simple, []).append((f, z + h, top))
            diels.setdefault(simple, []).append((lambda x, y, f=f: everywhere(x, y) and not f(x, y), z + (nm or 0), top))
    return conds, [('-' + n, v) for n, v in diels.items() if n in order and v], {n: i for i, n in enumerate(dict.fromkeys(order))}, widths, block, diffs, mu


def profile(conds, diels, prio, x, y, dbu):
    segs = [(-1, m, fl(z1, dbu), fl(z2, dbu)) for m, f, z1, z2 in conds if fl(z2, dbu) > fl(z1, dbu) and f(x, y)]
    for m, v in diels:
        for f, z1, z2 in v:
            if fl(z2, dbu) > fl(z1, dbu) and f(x, y):
                segs.append((prio[m[1:]], m, fl(z1, dbu), fl(z2, dbu)))
    zs = sorted({z for s in segs for z in s[2:]})
    out = []
    for a, b in zip(zs, zs[1:]):
        c = [s for s in segs if s[2] <= a and b <= s[3]]
        m = min(c)[1] if c else None
        if out and out[-1][0] == m:
            out[-1][2] = b
        else:
            out.append([m, a, b])
    return [tuple(o) for o in out if o[0] is not None]


def prepared(case):
    from klayout_pex.klayout.lvsdb_extractor import KLayoutExtractionContext
    tech = case['tech']
    tab = p11.lvs_layers(tech)
    cl = conductor_layers(tech)
    zr = {}
    for c in cl:
        zr.setdefault(c[2], (c[3], c[4], c[5], c[0]))
    bb = case['blackbox']
    # drop what would short different nets
    kept, diffs = [], {}
    for i, (l, n, r) in enumerate(case['shapes']):
        name, k, pair = tab[l]
        z1, z2, sort, owner = zr[pair]
        key = n if n is not None else f'?{i}'
        if sort == 'diffcontact' and not any(o == owner and kk == key and q[0] <= r[0] and q[1] <= r[1] and r[2] <= q[2] and r[3] <= q[3]
                                            for o, kk, q in diffs.get(owner, [])):
            continue
        if r[2] <= r[0] or r[3] <= r[1]:
            continue
        if any(key != k2 and z1 <= w[1] + 1e-9 and w[0] <= z2 + 1e-9 and r[0] <= q[2] and q[0] <= r[2] and r[1] <= q[3] and q[1] <= r[3]
               for w, k2, q in ((zr[tab[l2][2]], n2 if n2 is not None else f'?{j}', r2) for j, (l2, n2, r2) in kept)):
            continue
        kept.append((i, (l, n, r)))
        if sort == 'diff':
            diffs.setdefault(owner, []).append((owner, key, r))
    return kept, tab, cl


def run(case, rec):
    import numpy as np
    from google.protobuf import json_format
    from klayout_pex.klayout.lvsdb_extractor import KLayoutExtractionContext
    from klayout_pex.fastercap.fastercap_input_builder import FasterCapInputBuilder
    from klayout_pex.util.multiple_choice import MultipleChoicePattern
    kept, tab, cl = prepared(case)
    if not kept:
        return
    stk = apply_chains(stack(case['tech']), case['chains'])
    names = list(dict.fromkeys(l['name'] for l in stk if 'DIELECTRIC' in kind(l)))
    picked = sorted({names[i % len(names)] for i in case['pick']})
    pat = {'all': 'all', 'none': 'none', 'some': 'all,' + ','.join('-' + p for p in picked)}[case['filter']]
    included = {'all': lambda n: True, 'none': lambda n: False, 'some': lambda n: n not in picked}[case['filter']]

    def edit(pb):
        if case['chains'] is not None:
            import klayout_pex_protobuf.kpex.tech.process_stack_pb2 as psp
            pb.process_stack.CopyFrom(json_format.ParseDict({'layers': stk}, psp.ProcessStackInfo()))
    sub = dict(case)
    sub['shapes'] = [s for _, s in kept]
    sub['order'] = sorted({s[0] for s in sub['shapes']})
    with sut('building the FasterCap model of a layout'):
        ti = layers.tech_info(case['tech'], edit=edit, dielectric_filter=MultipleChoicePattern(pat))
        l2n, accepted, _, _ = p11.build(sub)
        ctx = KLayoutExtractionContext.prepare_extraction(lvsdb=l2n, top_cell='TOP', tech=ti, blackbox_devices=case['blackbox'])
        model = FasterCapInputBuilder(pex_context=ctx, tech_info=ti, k_void=case['k_void']).build()
        surf = p14.surfaces(model)
    # names of unnamed nets as the context has them
    hidden = lambda l: case['blackbox'] and tab[l][1] in ('KIND_DEVICE_CAPACITOR', 'KIND_DEVICE_RESISTOR')
    shapes = [(tab[l][2], '?' if k.startswith('?') else k, r) for l, k, r in accepted if not hidden(l)]
    bb = ctx.top_cell_bbox()
    conds, diels, prio, widths, block, diffs, mu = spec(case, stk, included, shapes, (bb.left, bb.bottom, bb.right, bb.top), cl)
    # sample points: one in (most) cells of the arrangement
    dbu = case['dbu']
    ws = sorted(widths)
    xs, ys = {block[0], block[2]}, {block[1], block[3]}
    for _, _, r in shapes:
        for w in ws + [mu]:
            xs |= {r[0] - w, r[2] + w}
            ys |= {r[1] - w, r[3] + w}
    mids = lambda s: [(a + b) / 2 for a, b in zip(sorted(s), sorted(s)[1:]) if b - a >= 3]
    px = [block[0] - 50] + mids(xs)
    py = [block[1] - 50] + mids(ys)
    pts = [(x + 0.137, y - 0.211) for x in px for y in py]
    if len(pts) > 150:
        step = len(pts) / 150
        pts = [pts[int(i * step)] for i in range(150)]
    # right inside and outside of the sides of shapes and of their sidewall dielectrics
    near = []
    for _, _, r in shapes:
        cx, cy = (r[0] + r[2]) / 2 + 0.137, (r[1] + r[3]) / 2 - 0.211
        for w in ws:
            near += [(r[0] - w - e, cy) for e in (0.4, -0.4)] + [(r[2] + w + e, cy) for e in (0.4, -0.4)]
            near += [(cx, r[1] - w - e) for e in (0.4, -0.4)] + [(cx, r[3] + w + e) for e in (0.4, -0.4)]
    pts += near[::max(1, len(near) // 60) | 1]
    hor = []
    for outside, ins, t in surf:
        n = p14.normal(t)
        if abs(n[2]) > max(abs(n[0]), abs(n[1])):
            low, high = (ins, outside) if n[2] > 0 else (outside, ins)
            hor.append((t.p0.x, t.p0.y, t.p1.x, t.p1.y, t.p2.x, t.p2.y, t.p0.z, low, high))
    A = np.array([h[:7] for h in hor], dtype=float) / dbu if hor else np.zeros((0, 7))
    kinds = set()
    anon = lambda m: '+?' if m and m.startswith('+$') else m
    for x, y in pts:
        s = [(A[:, 2 * i] - x) * (A[:, (2 * i + 3) % 6] - y) - (A[:, (2 * i + 2) % 6] - x) * (A[:, 2 * i + 1] - y) for i in range(3)]
        hit = np.nonzero(((s[0] > 0) & (s[1] > 0) & (s[2] > 0)) | ((s[0] < 0) & (s[1] < 0) & (s[2] < 0)))[0]
        hs = sorted((round(A[i, 6]), hor[i][7], hor[i][8]) for i in hit) if len({round(A[i, 6]) for i in hit}) == len(hit) else None
        require(hs is not None, f'two surfaces at the same place at ({x:.0f},{y:.0f})')
        got, cur, z0 = [], None, None
        for z, low, high in hs:
            require(low == cur, lambda: f'at ({x:.0f},{y:.0f}) z={z}: surface between {low} and {high}, but below is {cur}: {hs}')
            if cur is not None:
                got.append((anon(cur), z0, z))
            cur, z0 = high, z
        require(cur is None, f'at ({x:.0f},{y:.0f}): {cur} has no top')
        want = [(m, a, b) for m, a, b in profile(conds, diels, prio, x, y, dbu)]
        require(got == want, lambda: f'materials at ({x:.0f},{y:.0f}): {got}, the process stack says {want}')
        kinds.update(m for m, _, _ in want)
    mats = model.materials
    for l in stk:
        if 'DIELECTRIC' in kind(l) and included(l['name']) or kind(l) == 'FIELD_OXIDE':
            ks = {body(q)['dielectric_k'] for q in stk if q['name'] == l['name']}
            require(any(abs(mats.get(l['name'], -1) - k) < 1e-9 for k in ks), f'permittivity of {l["name"]}: {mats.get(l["name"])}, expected {ks}')
    require(model.k_void == case['k_void'], 'permittivity of the void')
    rec.nontrivial(len([k for k in kinds if k[0] == '+']) > 2 or len(widths) > 1)
    rec.label('large L', case['filter'] is not None and any(r[2] - r[0] >= 3000 or r[3] - r[1] >= 3000 for _, _, r in shapes))
    rec.label('sidewall', len(widths) > 1)
    rec.label('shipped stack', case['chains'] is None)
    rec.label('diffusion', bool(diffs))
    rec.label('unnamed net', '+?' in kinds)


PARTS = [Part('profiles', cases, run, quick=50, thorough=2500)]
