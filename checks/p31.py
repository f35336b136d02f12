"""P31: the shipped technologies agree with their LVS decks, layer maps and with themselves."""
import functools
import glob
import os
import re

from hypothesis import strategies as st
from kv import boot, layers
from kv.core import Part, require

PID = 'P31'
WORKERS = 2
RULE = ('the records of the generated technology files of both PDKs, all of them (as fixed cases) and drawn at random; oracles: the LVS '
        'decks and layer maps shipped next to them, eps0 k / d from the process stack, physical order; every record is non-trivial')
ASSUMPTIONS = ['effective dielectric constants between two plates lie in 3.6 to 4.7',
               'fringe coefficients fall with distance (3 % tolerance)',
               'layers without entry in the layer map (IHP via datatypes) are not compared']

EPS0 = 8.8541878   # aF/um


@functools.lru_cache(None)
def deck(tech):
    base = os.path.join(boot.REPO, 'pdk', tech, 'libs.tech', 'kpex')
    src = ''
    for f in sorted(glob.glob(os.path.join(base, '**', '*.lvs'), recursive=True)):
        with open(f, encoding='utf-8') as fh:
            src += ''.join(l.split('#')[0] + '\n' for l in fh)
    assigned = set(re.findall(r'^\s*(\w+)\s*=(?!=)', src, re.M))
    graph = {}
    for a, b in re.findall(r'\bconnect\(\s*(\w+)\s*,\s*(\w+)\s*\)', src):
        graph.setdefault(a, set()).add(b)
        graph.setdefault(b, set()).add(a)
    lyp = {}
    for f in glob.glob(os.path.join(base, '*.lyp')):
        with open(f, encoding='utf-8') as fh:
            t = fh.read()
        for name, l, d in re.findall(r'<name>([^<]+)</name>\s*<source>(\d+)/(\d+)(?:@1)?</source>', t):
            lyp[name.split(' - ')[0].strip()] = (int(l), int(d))
    return assigned, graph, lyp


def gp(d):
    return None if d is None else (d.get('layer', 0), d.get('datatype', 0))


@functools.lru_cache(None)
def data(tech):
    return layers.tech_json(tech)


def cid(tech, lvs):
    """canonical name of an LVS or stack layer name"""
    for c in data(tech)['lvs_computed_layers']:
        if c['layer_info']['name'] == lvs:
            return c['original_layer_name']
    return lvs


def stack_metals(tech):
    """canonical -> (z, thickness) of the metals outside of capacitors, bottom up"""
    kinds = {c['layer_info']['name']: c['kind'] for c in data(tech)['lvs_computed_layers']}
    out = {}
    for l in data(tech)['process_stack']['layers']:
        if 'metal_layer' in l and kinds.get(l['name'], 'KIND_REGULAR') == 'KIND_REGULAR':
            m = l['metal_layer']
            out[cid(tech, l['name'])] = (m.get('z', 0), m['thickness'])
    return out


def r_layer(tech, l):
    _, _, lyp = deck(tech)
    n = l['name']
    for key, names in (('drw_gds_pair', ['drawing']), ('pin_gds_pair', ['pin']), ('label_gds_pair', ['text' if tech == 'ihp_sg13g2' else 'label'])):
        if key in l:
            known = {k: lyp[f'{n}.{k}'] for k in names if f'{n}.{k}' in lyp}
            if known:
                require(gp(l[key]) in known.values(), f'{tech}: {key} of {n} is {gp(l[key])}, layer map says {known}')


def r_layer_unique(tech, l):
    same = [m['name'] for m in data(tech)['layers'] if gp(m['drw_gds_pair']) == gp(l['drw_gds_pair'])]
    require(same == [l['name']], f'{tech}: layers {same} have GDS pair {gp(l["drw_gds_pair"])}')


def r_computed(tech, c):
    assigned, _, _ = deck(tech)
    j = data(tech)
    n, o, k = c['layer_info']['name'], c['original_layer_name'], c['kind']
    require(n in assigned, f'{tech}: the LVS deck has no layer {n}')
    require(sum(1 for x in j['lvs_computed_layers'] if x['layer_info']['name'] == n) == 1, f'{tech}: LVS layer {n} is listed twice')
    by = {l['name']: l for l in j['layers']}
    pair = gp(c['layer_info']['drw_gds_pair'])
    if k in ('KIND_PIN', 'KIND_LABEL'):
        base = o.split('.')[0]
        require(base in by, f'{tech}: {n} refers to unknown layer {o}')
        require(o.split('.')[1] in (('pin',) if k == 'KIND_PIN' else ('label', 'text')), f'{tech}: {n} of kind {k} is {o}')
        want = gp(by[base].get('pin_gds_pair' if k == 'KIND_PIN' else 'label_gds_pair'))
        require(pair == want, f'{tech}: {n} has GDS pair {pair}, layer {base} says {want}')
    elif o != '<TODO>':
        require(o in by, f'{tech}: {n} refers to unknown layer {o}')
        own = gp(by[o]['drw_gds_pair'])
        shared = [x['layer_info']['name'] for x in j['lvs_computed_layers']
                  if gp(x['layer_info']['drw_gds_pair']) == pair and x['original_layer_name'] != o]
        require(not shared, f'{tech}: {n} ({o}) shares GDS pair {pair} with {shared}')
        other = [l['name'] for l in j['layers'] if gp(l['drw_gds_pair']) == pair and l['name'] != o]
        require(not other, f'{tech}: {n} ({o}) has the GDS pair {pair} of {other}')
        # derived layers get a datatype of their own on the layer they come from (taps: sky130A 65)
        require(pair == own or pair[1] >= 100 or k != 'KIND_REGULAR', f'{tech}: {n} has GDS pair {pair}, {o} has {own}')
        p, q = by[o].get('purpose'), c['layer_info'].get('purpose')
        ok = {p, 'PURPOSE_MIM_CAP'} | ({'PURPOSE_NTAP', 'PURPOSE_PTAP'} if p in ('PURPOSE_NTAP_OR_PTAP', 'PURPOSE_DIFF') else set())
        require(q in ok, f'{tech}: {n} has purpose {q}, {o} has {p}')


def r_contact(tech, l):
    """A contact bridges exactly from the layer below to the metal above, and the deck connects the three."""
    m = next(v for k, v in l.items() if k.endswith('_layer'))
    c = m['contact_above']
    zs = {x['name']: (x['metal_layer'].get('z', 0), x['metal_layer']['thickness']) for x in data(tech)['process_stack']['layers']
          if 'metal_layer' in x}
    can = {}
    for n, z in zs.items():
        can.setdefault(cid(tech, n), z)
    above = can.get(cid(tech, c['metal_above']))
    require(above is not None, f'{tech}: contact {c["name"]} ends at unknown metal {c["metal_above"]}')
    bottom = m['z'] + m['thickness'] if 'metal_layer' in l else 0.0
    require(abs(bottom + c['thickness'] - above[0]) < 1e-6,
            f'{tech}: contact {c["name"]} above {l["name"]} ends at {bottom + c["thickness"]:.4f}, {c["metal_above"]} begins at {above[0]:.4f}')
    comp = {x['layer_info']['name']: x for x in data(tech)['lvs_computed_layers']}
    require(c['name'] in comp, f'{tech}: contact {c["name"]} is no LVS layer')
    if 'metal_layer' in l and comp[c['name']]['kind'] == 'KIND_REGULAR':
        require(cid(tech, c['layer_below']) == cid(tech, l['name']),
                f'{tech}: contact {c["name"]} on {l["name"]} claims to be on {c["layer_below"]}')
    require(c['width'] > 0 and c['spacing'] > 0 and c.get('border', 0) >= 0, f'{tech}: contact {c["name"]} has no size')
    if comp[c['name']]['kind'] == 'KIND_REGULAR' and 'metal_layer' in l:
        _, graph, _ = deck(tech)
        metal = {x['layer_info']['name'] for x in data(tech)['lvs_computed_layers']
                 if x['layer_info'].get('purpose') in ('PURPOSE_METAL',) and x['kind'] == 'KIND_REGULAR'} | {'metal5_con'}
        reach, todo = set(), [c['name']]
        while todo:
            v = todo.pop()
            for w in graph.get(v, ()):
                if w not in reach:
                    reach.add(w)
                    if w not in metal:
                        todo.append(w)
        got = {cid(tech, w) if w != 'metal5_con' else 'Metal5' for w in reach & metal}
        for end in (l['name'], c['metal_above']):
            require(cid(tech, end) in got, f'{tech}: the LVS deck connects {c["name"]} to {sorted(got)}, not to {end}')


def r_plate(tech, o):
    m = stack_metals(tech)
    if 'layer_name' in o:
        z = m[o['layer_name']][0]
        d, what, v = z, f'substrate capacitance of {o["layer_name"]}', o['area_capacitance']
    else:
        t, b = o['top_layer_name'], o['bottom_layer_name']
        d = m[t][0] - sum(m[b])
        what, v = f'overlap capacitance of {t} over {b}', o['capacitance']
        require(d > 0, f'{tech}: {what}: {t} is not above {b}')
    k = v * d / EPS0
    require(3.6 <= k <= 4.7, f'{tech}: {what} is {v:.3f} aF/um^2, over {d:.3f} um that needs a dielectric constant of {k:.2f}')


def r_complete(tech, name):
    j = data(tech)['process_parasitics']
    ms = list(stack_metals(tech))
    i = ms.index(name)
    q, r = j['capacitance'], j['resistance']
    once = lambda what, lst: require(len(lst) == 1, f'{tech}: {len(lst)} entries for {what}')
    once(f'substrate capacitance of {name}', [s for s in q['substrates'] if s['layer_name'] == name])
    once(f'sidewall capacitance of {name}', [s for s in q['sidewalls'] if s['layer_name'] == name])
    once(f'layer resistance of {name}', [s for s in r['layers'] if s['layer_name'] == name])
    sub = next(s for s in q['substrates'] if s['layer_name'] == name)
    side = {}
    for o in ms:
        if o != name:
            e = [s['capacitance'] for s in q['sideoverlaps'] if (s['in_layer_name'], s['out_layer_name']) == (name, o)]
            once(f'side overlap capacitance {name} to {o}', e)
            side[o] = e[0]
    for b in ms[:i]:
        once(f'overlap capacitance {name} over {b}', [s for s in q['overlaps'] if (s['top_layer_name'], s['bottom_layer_name']) == (name, b)])
    up = [side[o] for o in ms[i + 1:]]
    down = [side[o] for o in ms[:i][::-1]] + [sub['perimeter_capacitance']]
    for seq, what in ((up, 'upwards'), (down, 'downwards')):
        for a, b in zip(seq, seq[1:]):
            require(b > 0 and b <= a * 1.03, f'{tech}: fringe coefficients of {name} {what} {seq} do not fall with distance')


def r_resistance(tech, c):
    """every contact and via between regular layers has a resistance, and every resistance belongs to something"""
    j = data(tech)
    r = j['process_parasitics']['resistance']
    name = c['layer_info']['name']
    if c['layer_info'].get('purpose') == 'PURPOSE_VIA' and c['kind'] == 'KIND_REGULAR':
        n = [v for v in r['vias'] if v['via_name'] == c['original_layer_name']]
        require(len(n) == 1 and n[0]['resistance'] > 0, f'{tech}: {len(n)} resistances for via {name} ({c["original_layer_name"]})')
    if c['layer_info'].get('purpose') == 'PURPOSE_CONTACT' and c['kind'] == 'KIND_REGULAR':
        n = [v for v in r['contacts'] if v['contact_name'] == name]
        require(len(n) == 1 and n[0]['resistance'] > 0, f'{tech}: {len(n)} resistances for contact {name}')
        dev = {x['layer_info']['name'] for x in j['lvs_computed_layers']} | {l['name'] for l in j['layers']}
        require(n[0]['device_layer_name'] in dev, f'{tech}: contact {name} is on unknown layer {n[0]["device_layer_name"]}')


def r_known(tech, names):
    j = data(tech)
    known = {'pwell'} | {l['name'] for l in j['layers']} | {c['layer_info']['name'] for c in j['lvs_computed_layers']}
    for n in names:
        require(n in known, f'{tech}: the parasitics tables mention unknown layer {n}')


def r_order(tech, _):
    ms = stack_metals(tech)
    z = 0
    for n, (b, t) in ms.items():
        require(b > z and t > 0, f'{tech}: metal {n} at {b} begins below the top {z} of the metal before it')
        z = b + t
    ps = data(tech)['process_stack']['layers']
    require(sum(l['layer_type'] == 'LAYER_TYPE_SUBSTRATE' for l in ps) == 1 and
            sum(l['layer_type'] == 'LAYER_TYPE_FIELD_OXIDE' for l in ps) == 1, f'{tech}: substrate or field oxide missing')
    require(data(tech)['process_parasitics']['side_halo'] > 0, f'{tech}: no halo')
    require(list(ms) == layers.metal_names(tech), f'{tech}: metals {list(ms)}')


def r_physics(tech, name):
    m = stack_metals(tech)[name]
    p = data(tech)['process_parasitics']
    sw = next(s for s in p['capacitance']['sidewalls'] if s['layer_name'] == name)
    k = sw['capacitance'] / EPS0 / m[1]
    require(6 <= k <= 32, f'{tech}: sidewall capacitance of {name} is {sw["capacitance"]} at thickness {m[1]}')
    require(-0.1 <= sw.get('offset', 0) < 2, f'{tech}: sidewall offset of {name} is {sw.get("offset")}')
    if name not in ('poly', 'GatPoly', 'li1'):
        rho = next(s for s in p['resistance']['layers'] if s['layer_name'] == name)['resistance'] * m[1]
        require(25 <= rho <= 60, f'{tech}: resistivity of {name} would be {rho:.1f} mOhm um')


def r_via(tech, l):
    c = l['metal_layer']['contact_above']
    v = [x for x in data(tech)['process_parasitics']['resistance']['vias'] if x['via_name'] == cid(tech, c['name'])]
    for x in v:
        r = x['resistance'] / 1000 * c['width'] ** 2
        require(0.05 <= r <= 1.5, f'{tech}: {c["name"]} of width {c["width"]} has {x["resistance"]} mOhm, that is {r:.3f} Ohm um^2')


def r_diel(tech, l):
    ref = next(v for k, v in l.items() if k.endswith('_layer')).get('reference')
    names = {x['name'] for x in data(tech)['process_stack']['layers']}
    require(ref in names, f'{tech}: dielectric {l["name"]} refers to unknown layer {ref}')


RULES = {
    'layer': (r_layer, lambda j: j['layers']),
    'layer-unique': (r_layer_unique, lambda j: j['layers']),
    'computed': (r_computed, lambda j: j['lvs_computed_layers']),
    'resistance': (r_resistance, lambda j: j['lvs_computed_layers']),
    'contact': (r_contact, lambda j: [l for l in j['process_stack']['layers']
                                      if next(v for k, v in l.items() if k.endswith('_layer')).get('contact_above', {}).get('name')]),
    'plate': (r_plate, lambda j: j['process_parasitics']['capacitance']['substrates'] +
              [o for o in j['process_parasitics']['capacitance']['overlaps']
               if {o['top_layer_name'], o['bottom_layer_name']} <= set(layers.metal_names(j['name']))]),
    'complete': (r_complete, lambda j: layers.metal_names(j['name'])),
    'known': (r_known, lambda j: [[s['in_layer_name'], s['out_layer_name']] for s in j['process_parasitics']['capacitance']['sideoverlaps']] +
              [[s['top_layer_name'], s['bottom_layer_name']] for s in j['process_parasitics']['capacitance']['overlaps']]),
    'order': (r_order, lambda j: [None]),
    'physics': (r_physics, lambda j: layers.metal_names(j['name'])),
    'via': (r_via, lambda j: [l for l in j['process_stack']['layers'] if l.get('metal_layer', {}).get('contact_above', {}).get('name')]),
    'dielectric': (r_diel, lambda j: [l for l in j['process_stack']['layers'] if 'DIELECTRIC' in l['layer_type']]),
}


def all_cases():
    out = []
    for t in boot.TECHS:
        for r, (_, sel) in RULES.items():
            out += [[t, r, i] for i in range(len(sel(data(t))))]
    return out


def run(case, rec):
    t, r, i = case
    f, sel = RULES[r]
    recs = sel(data(t))
    require(i < len(recs), f'{t}: record {i} of {r} is gone')
    f(t, recs[i])
    rec.nontrivial()
    rec.label(r)


class Lazy(Part):
    def __getattribute__(self, name):
        if name == 'fixed':
            return all_cases()
        return super().__getattribute__(name)


PARTS = [Lazy('records', lambda: st.sampled_from(all_cases()), run, quick=200, thorough=500)]
