"""P13: every layer which the LVS decks extract is coped with in every mode, and counts as what it is."""
import functools

from hypothesis import strategies as st
from kv import boot, gen, geo, layers
from kv.core import Part, require, sut
from checks import p11

PID = 'P13'
WORKERS = 8
RULE = ('generated: layouts over the metals of both PDKs (some shapes on the capacitor part of their metal) plus shapes on any of the other LVS '
        'layers of the decks (wells, implants, taps, contacts, vias, capacitor plates, finger capacitors, pins, unknown layers), black- and '
        'whitebox, extracted in CC, RC and R mode, and as FasterCap model; oracle: the extraction of the metals alone; non-trivial: there are '
        'capacitances and shapes on at least one other layer')
ASSUMPTIONS = ['plates of MIM capacitors (metals of the process stack without parasitics tables) shield others; with them only that '
               'the extraction runs and reports nothing for them is required',
               'contacts and vias are drawn unconnected']


@functools.lru_cache(None)
def groups(tech):
    """(index of the capacitor part per metal index, LVS layers without influence, plates without tables)"""
    tab = layers.TABLES[tech]['metals']
    j = layers.tech_json(tech)
    stack = {l['name'] for l in j['process_stack']['layers'] if 'metal_layer' in l}
    with_table = {s['layer_name'] for s in j['process_parasitics']['capacitance']['substrates']}
    own = {m[1] for m in tab} | {v[0] for v in layers.TABLES[tech]['vias']}
    cap, inert, plates = {}, [], []
    for c in j['lvs_computed_layers']:
        n, o, k = c['layer_info']['name'], c['original_layer_name'], c['kind']
        if n in own or k == 'KIND_LABEL' or k == 'KIND_PIN':
            continue
        if n in stack and o in with_table:
            cap[[m[0] for m in tab].index(o)] = n
        elif n in stack:
            plates.append(n)
        else:
            inert.append(n)
    return cap, inert + ['some_layer'], plates


@st.composite
def cases(draw):
    c = dict(draw(gen.mixed_layouts()))
    cap, inert, plates = groups(c['tech'])
    c['cap'] = [draw(st.integers(0, 2)) == 0 for _ in c['shapes']]
    pool = draw(st.lists(st.sampled_from(inert), min_size=1, max_size=4, unique=True))
    if draw(st.integers(0, 3)) == 0:
        pool = [draw(st.sampled_from(plates))] + pool[:1]
    xs = [v for s in c['shapes'] for v in s[2]] or [0, 1000]
    lo, hi = min(xs), max(max(xs), min(xs) + 1000)
    extra = []
    for _ in range(draw(st.integers(1, 6))):
        x, y = draw(st.integers(lo, hi)), draw(st.integers(lo, hi))
        extra.append([draw(st.sampled_from(pool)), draw(st.sampled_from(['A', 'B', 'x1', None])),
                      [x, y, x + draw(st.integers(100, 4000)), y + draw(st.integers(100, 4000))]])
    c['extra'] = extra
    c['blackbox'] = draw(st.booleans())
    c['mode'] = draw(st.sampled_from(['CC', 'CC', 'RC', 'R']))
    c['model'] = draw(st.integers(0, 5)) == 0
    return c


def make(tech, shapes, on_cap, extra, pins=()):
    """shapes[i] is drawn on the capacitor part of its metal if on_cap[i]; extra shapes on LVS layers by name"""
    import klayout.db as kdb
    tbl = layers.TABLES[tech]
    cap, _, _ = groups(tech)
    ly = kdb.Layout()
    top = ly.create_cell('TOP')
    capgds = {}
    for i, (l, n, r) in enumerate(shapes):
        m = tbl['metals'][l]
        if on_cap[i] and l in cap:
            capgds.setdefault(l, ly.layer(700 + l, 0))
            li = capgds[l]
        else:
            li = ly.layer(*m[2])
        top.shapes(li).insert(kdb.Box(*r))
        top.shapes(ly.layer(*m[4])).insert(kdb.Text(n, kdb.Trans((r[0] + r[2]) // 2, (r[1] + r[3]) // 2)))
    for l, n, r in pins:
        x, y = (r[0] + r[2]) // 2, (r[1] + r[3]) // 2
        top.shapes(ly.layer(*tbl['metals'][l][6])).insert(kdb.Box(x - 100, y - 100, x + 100, y + 100))
    names = list(dict.fromkeys(e[0] for e in extra))
    done = []
    for e in extra:
        if any(e[0] == q[0] and e[1] != q[1] and geo.rect_conflict(e[2], q[2]) for q in done):
            continue
        done.append(e)
        i = names.index(e[0])
        top.shapes(ly.layer(800 + i, 0)).insert(kdb.Box(*e[2]))
        if e[1] is not None:
            x = (e[2][0] + e[2][2]) // 2, (e[2][1] + e[2][3]) // 2
            top.shapes(ly.layer(800 + i, 1)).insert(kdb.Text(e[1], kdb.Trans(*x)))

    def more(l2n, mets):
        keep = []
        for l in sorted(capgds):
            r = l2n.make_layer(ly.layer(700 + l, 0), cap[l])
            l2n.connect(r)
            l2n.connect(r, mets[l])
            for x in [x for x in range(len(mets)) if x == l]:
                t = l2n.make_text_layer(ly.layer(*tbl['metals'][l][4]), f'cap_text_{l}')
                l2n.connect(r, t)
                keep.append(t)
            keep.append(r)
        for i, n in enumerate(names):
            r = l2n.make_layer(ly.layer(800 + i, 0), n)
            t = l2n.make_text_layer(ly.layer(800 + i, 1), f'extra_text_{i}')
            l2n.connect(r)
            l2n.connect(r, t)
            keep += [r, t]
        l2n._kv_keep = keep
    return geo.l2n_from_layout(tech, ly, top, more=more), done


def run(case, rec):
    from klayout_pex.fastercap.fastercap_input_builder import FasterCapInputBuilder
    if not case['shapes']:
        return
    tech, shapes = case['tech'], case['shapes']
    cap, inert, plates = groups(tech)
    on_cap = [f and s[0] in cap for f, s in zip(case['cap'], shapes)]
    bb = case['blackbox']
    ti = layers.tech_info(tech, halo=case['halo'])
    with sut(f'{case["mode"]} extraction, {"black" if bb else "white"}box, layers {sorted({e[0] for e in case["extra"]})}'):
        l2n, extra = make(tech, shapes, on_cap, case['extra'])
        ctx = geo.context(l2n, ti, bb)
        res = geo.run_25d(l2n, ti, case['mode'], case['scale'], blackbox=bb, ctx=ctx)
        got = geo.caps_of(res)
    has_plates = any(e[0] in plates for e in extra)
    # what is not drawn on layers with tables has no part in anything
    keep = [i for i in range(len(shapes)) if not (bb and on_cap[i])]
    nets = {shapes[i][1] for i in keep} | {'VSUBS'}
    require(set(n for k in got for n in k) <= nets, f'nets {sorted(got)}, but only {sorted(nets)} have metal')
    if not has_plates or bb:
        want = {}
        if keep:
            with sut('extraction of the metals alone'):
                # the same bounding box (the substrate ends at a halo around it)
                xs = [r for _, _, r in shapes] + [e[2] for e in extra]
                x1, y1, x2, y2 = min(r[0] for r in xs), min(r[1] for r in xs), max(r[2] for r in xs), max(r[3] for r in xs)
                corners = [['some_layer', None, [x1, y1, x1 + 1, y1 + 1]], ['some_layer', None, [x2 - 1, y2 - 1, x2, y2]]]
                l0, _ = make(tech, [shapes[i] for i in keep], [False] * len(keep), corners)
                want = geo.caps_of(geo.run_25d(l0, ti, 'R' if case['mode'] == 'R' else 'CC', case['scale'], blackbox=True))
        tol = lambda v: 1e-6 * abs(v) + 1e-9
        bad = [(k, got.get(k, 0.0), want.get(k, 0.0)) for k in sorted(set(got) | set(want))
               if abs(got.get(k, 0.0) - want.get(k, 0.0)) > tol(want.get(k, 0.0))]
        require(not bad, f'{tech}, {"black" if bb else "white"}box: with shapes on {sorted({e[0] for e in extra})} and capacitor parts '
                         f'{[cap[shapes[i][0]] for i in range(len(shapes)) if on_cap[i]]}: (nets, got, metals alone) {bad[:4]}')
    if case['model']:
        with sut('FasterCap model'):
            FasterCapInputBuilder(pex_context=ctx, tech_info=ti, k_void=3.9).build()
        rec.label('model')
    rec.nontrivial(bool(got) and bool(extra))
    rec.label(f'{case["mode"]}')
    rec.label('whitebox', not bb)
    rec.label('plates', has_plates)
    rec.label('capacitor part', any(on_cap))
    for e in extra:
        rec.label('on ' + e[0])


PARTS = [Part('layers', cases, run, quick=120, thorough=4000)]
