"""P12: technology definitions reach the extraction unchanged (C++ builders, file formats, TechInfo lookups)."""
import functools
import os
import struct
import subprocess
import tempfile

from hypothesis import strategies as st
from kv import boot
from kv.core import Part, require, sut

PID = 'P12'
WORKERS = 6
RULE = ('generated: technology messages with up to 8 entries per table (shared GDS pairs, missing tables and fields, any layer order), '
        'calls of the C++ technology builders with any names and numbers, and all pairs of file formats; oracle: the generated '
        'tables themselves; non-trivial: at least two entries share a GDS pair or a layer, or three builder calls')
ASSUMPTIONS = ['layer names are unique within a table, as the lookups by name need it',
               'numbers are compared to 1e-6 (the C++ builders of the capacitance tables take float)']

NAMES = ['m0', 'm1', 'Metal2', 'met3_ncap', 'poly', 'nsd', 'x-y', 'Via 1', 'VSUBSx']
TECH_PURPOSES = 14


# ---------------------------------------------------------------------------------------- TechInfo lookups

def gds():
    return st.tuples(st.integers(0, 4), st.integers(0, 3)).map(list)


def num():
    return st.integers(-4000, 400000).map(lambda i: i / 1000)


def pos():
    return st.integers(1, 40000).map(lambda i: i / 1000)


def uniq(names, **kw):
    return st.lists(st.sampled_from(names), unique=True, **kw)


@st.composite
def lookup_cases(draw):
    layers = [{'name': n, 'drw': draw(gds()), 'purpose': draw(st.integers(0, 13)), 'pin': draw(st.one_of(st.none(), gds()))} for n in draw(uniq(NAMES, max_size=8))]
    comp = [{'name': n, 'drw': draw(gds()), 'kind': draw(st.integers(0, 5)), 'orig': draw(st.sampled_from(NAMES))}
            for n in draw(uniq(NAMES + ['c1', 'c2', 'c3'], max_size=8))]
    stack = []
    for n in draw(st.permutations(NAMES + ['s1', 's2', 's3']))[:draw(st.integers(1, 9))]:
        t = draw(st.sampled_from(['metal', 'metal', 'nwell', 'diffusion', 'simple', 'substrate', 'fox']))
        e = {'name': n, 'type': t, 'z': draw(pos()), 'th': draw(pos())}
        if t in ('metal', 'nwell', 'diffusion') and draw(st.integers(0, 3)):
            e['contact'] = {'name': draw(st.sampled_from([f'k{len(stack)}'] + [c['name'] for c in comp if c['name'] not in [x['contact']['name'] for x in stack if 'contact' in x]])), 'below': draw(st.sampled_from(NAMES)), 'above': draw(st.sampled_from(NAMES)),
                            'thickness': draw(pos()), 'width': draw(pos()), 'spacing': draw(pos()), 'border': draw(pos())}
        stack.append(e)
    pairs = [(a, b) for a in NAMES for b in NAMES]
    return {'layers': layers, 'computed': comp, 'stack': stack,
            'res': [[n, draw(num())] for n in draw(uniq(NAMES, max_size=5))],
            'contacts': [[f'q{i}', n, draw(num())] for i, n in enumerate(draw(uniq(NAMES, max_size=4)))],
            'vias': [[n, draw(num())] for n in draw(uniq(NAMES, max_size=4))],
            'sub': [[n, draw(num()), draw(num())] for n in draw(uniq(NAMES, max_size=5))],
            'overlap': [[a, b, draw(num())] for a, b in draw(uniq(pairs, max_size=8))],
            'sidewall': [[n, draw(num()), draw(num())] for n in draw(uniq(NAMES, max_size=5))],
            'side': [[a, b, draw(num())] for a, b in draw(uniq(pairs, max_size=8))],
            'halo': draw(pos()), 'pair': draw(st.sampled_from(NAMES + ['nix']))}


def write_json(case, path):
    """The technology as a JSON file, written without the code under test."""
    import json
    T = {'metal': 'METAL', 'nwell': 'NWELL', 'diffusion': 'DIFFUSION', 'simple': 'SIMPLE_DIELECTRIC', 'substrate': 'SUBSTRATE',
         'fox': 'FIELD_OXIDE'}

    def pair(g):
        return {k: v for k, v in zip(('layer', 'datatype'), g) if v or len(case['res']) % 2}

    def stack_entry(e):
        d = {'name': e['name'], 'layer_type': 'LAYER_TYPE_' + T[e['type']]}
        c = e.get('contact')
        cd = {} if not c else {'contact_above': {'name': c['name'], 'layer_below': c['below'], 'metal_above': c['above'],
                                                 'thickness': c['thickness'], 'width': c['width'], 'spacing': c['spacing'],
                                                 'border': c['border']}}
        match e['type']:
            case 'metal':
                d['metal_layer'] = {'z': e['z'], 'thickness': e['th'], **cd}
            case 'nwell' | 'diffusion':
                d[e['type'] + '_layer'] = {'z': e['z'], 'reference': 'fox', **cd}
            case 'simple':
                d['simple_dielectric_layer'] = {'dielectric_k': e['th'], 'reference': 'x'}
            case 'substrate':
                d['substrate_layer'] = {'height': e['z'], 'thickness': e['th']}
            case 'fox':
                d['field_oxide_layer'] = {'dielectric_k': e['th']}
        return d
    purposes = ['UNSPECIFIED', 'DNWELL', 'NWELL', 'PWELL', 'DIFF', 'NTAP_OR_PTAP', 'NTAP', 'PTAP', 'P_IMPLANT', 'N_IMPLANT',
                'CONTACT', 'METAL', 'VIA', 'MIM_CAP']
    kinds = ['UNSPECIFIED', 'REGULAR', 'DEVICE_CAPACITOR', 'DEVICE_RESISTOR', 'PIN', 'LABEL']
    d = {'name': 'gen',
         'layers': [{'name': l['name'], 'drw_gds_pair': pair(l['drw']), 'purpose': 'PURPOSE_' + purposes[l['purpose']], **({'pin_gds_pair': pair(l['pin'])} if l['pin'] else {})}
                    for l in case['layers']],
         'lvs_computed_layers': [{'kind': 'KIND_' + kinds[c['kind']], 'original_layer_name': c['orig'],
                                  'layer_info': {'name': c['name'], 'drw_gds_pair': pair(c['drw'])}} for c in case['computed']],
         'process_stack': {'layers': [stack_entry(e) for e in case['stack']]},
         'process_parasitics': {
             'side_halo': case['halo'],
             'resistance': {'layers': [{'layer_name': n, 'resistance': r} for n, r in case['res']],
                            'contacts': [{'contact_name': c, 'device_layer_name': n, 'resistance': r} for c, n, r in case['contacts']],
                            'vias': [{'via_name': n, 'resistance': r} for n, r in case['vias']]},
             'capacitance': {
                 'substrates': [{'layer_name': n, 'area_capacitance': a, 'perimeter_capacitance': p} for n, a, p in case['sub']],
                 'overlaps': [{'top_layer_name': a, 'bottom_layer_name': b, 'capacitance': c} for a, b, c in case['overlap']],
                 'sidewalls': [{'layer_name': n, 'capacitance': c, 'offset': o} for n, c, o in case['sidewall']],
                 'sideoverlaps': [{'in_layer_name': a, 'out_layer_name': b, 'capacitance': c} for a, b, c in case['side']]}}}
    with open(path, 'w') as fh:
        json.dump(d, fh)


def run_lookup(case, rec):
    from klayout_pex.tech_info import TechInfo
    with tempfile.TemporaryDirectory() as td:
        path = os.path.join(td, 't.json')
        write_json(case, path)
        with sut('TechInfo.from_json'):
            ti = TechInfo.from_json(path, dielectric_filter=None)

    def eq(name, got, want):
        require(got == want, f'{name}: {got}, technology file says {want}')

    comp, lays = case['computed'], case['layers']
    with sut('layer lookups'):
        eq('gds_pair_for_computed_layer_name', ti.gds_pair_for_computed_layer_name, {c['name']: tuple(c['drw']) for c in comp})
        eq('gds_pair_for_layer_name', ti.gds_pair_for_layer_name, {c['name']: tuple(c['drw']) for c in lays})
        eq('computed_layer_info_by_name', {k: (v.layer_info.name, v.kind, v.original_layer_name) for k, v in ti.computed_layer_info_by_name.items()},
           {c['name']: (c['name'], c['kind'], c['orig']) for c in comp})
        got = {k: v.layer_info.name for k, v in ti.computed_layer_info_by_gds_pair.items()}
        eq('GDS pairs of the LVS layers', set(got), {tuple(c['drw']) for c in comp})
        for k, v in got.items():
            require(v in [c['name'] for c in comp if tuple(c['drw']) == k], f'LVS layer {v} listed for {k}')
        got = ti.canonical_layer_name_by_gds_pair
        eq('GDS pairs with a canonical name', set(got), {tuple(c['drw']) for c in comp})
        for k, v in got.items():
            require(v in [c['orig'] for c in comp if tuple(c['drw']) == k], f'canonical name {v} of {k}')
        eq('layer_info_by_name', {k: (v.name, v.purpose) for k, v in ti.layer_info_by_name.items()},
           {c['name']: (c['name'], c['purpose']) for c in lays})
        got = {k: v.name for k, v in ti.layer_info_by_gds_pair.items()}
        eq('GDS pairs of the layers', set(got), {tuple(c['drw']) for c in lays})
        for k, v in got.items():
            require(v in [c['name'] for c in lays if tuple(c['drw']) == k], f'layer {v} listed for {k}')
        got = ti.pin_layer_mapping_for_drw_gds_pair
        eq('GDS pairs of the layers with pins', set(got), {tuple(c['drw']) for c in lays if c['pin']})
        for k, v in got.items():
            require(tuple(v) in [tuple(c['pin']) for c in lays if c['pin'] and tuple(c['drw']) == k], f'pin layer {v} listed for {k}')
        n = case['pair']
        w = next((tuple(c['drw']) for c in comp if c['name'] == n), None) or \
            next((tuple(c['drw']) for c in lays if c['name'] == n), None)
        eq(f'gds_pair({n})', ti.gds_pair(n), w)
    with sut('process stack lookups'):
        eq('process_stack_layer_by_name', {k: v.name for k, v in ti.process_stack_layer_by_name.items()},
           {e['name']: e['name'] for e in case['stack']})
        pair_of = {**{c['name']: tuple(c['drw']) for c in lays}, **{c['name']: tuple(c['drw']) for c in comp}}
        got = {k: v.name for k, v in ti.process_stack_layer_by_gds_pair.items()}
        eq('GDS pairs of the process stack', set(got), {pair_of[e['name']] for e in case['stack'] if e['name'] in pair_of})
        for k, v in got.items():
            require(pair_of.get(v) == k and v in [e['name'] for e in case['stack']], f'layer {v} of the process stack listed for {k}')
        of = lambda t: [e for e in case['stack'] if e['type'] == t]
        eq('process_metal_layers', [(l.name, l.metal_layer.z, l.metal_layer.thickness) for l in ti.process_metal_layers],
           [(e['name'], e['z'], e['th']) for e in of('metal')])
        eq('process_diffusion_layers', [(l.name, l.diffusion_layer.z) for l in ti.process_diffusion_layers],
           [(e['name'], e['z']) for e in of('diffusion')])
        if of('substrate'):
            eq('process_substrate_layer', ti.process_substrate_layer.name, of('substrate')[0]['name'])
        if of('fox'):
            eq('field_oxide_layer', ti.field_oxide_layer.name, of('fox')[0]['name'])
        if of('metal'):
            eq('gate_poly_layer', ti.gate_poly_layer.name, of('metal')[0]['name'])
        cts = [(e, e['contact']) for e in case['stack'] if 'contact' in e]
        got = ti.contact_above_metal_layer_name
        want = {e['name']: e['contact']['name'] for e in of('metal') if 'contact' in e and e['contact']['name'] in [c['name'] for c in comp]}
        eq('metals with a contact above', set(got), set(want))
        for k, v in got.items():
            g = next(c['drw'] for c in comp if c['name'] == want[k])
            require(v in [c['orig'] for c in comp if c['drw'] == g], f'contact above {k} is {v}')
        full = lambda c: (c.name, c.layer_below, c.metal_above, c.thickness, c.width, c.spacing, c.border)
        want = lambda c: (c['name'], c['below'], c['above'], c['thickness'], c['width'], c['spacing'], c['border'])
        got = {k: full(v) for k, v in ti.contact_by_contact_lvs_layer_name.items() if k}
        eq('contact_by_contact_lvs_layer_name', got, {c['name']: want(c) for e, c in cts})
        got = {k: full(v) for k, v in ti.contact_by_device_lvs_layer_name.items() if v.name}
        eq('contact_by_device_lvs_layer_name', got, {e['name']: want(c) for e, c in cts if e['type'] != 'metal'})
        eq('bottom_and_top_layer_name_by_via', ti.bottom_and_top_layer_name_by_via_computed_layer_name,
           {c['name']: (c['below'], c['above']) for e, c in cts if e['type'] == 'metal'})
    with sut('parasitics lookups'):
        eq('side halo', ti.tech.process_parasitics.side_halo, case['halo'])
        eq('layer resistance', {k: v.resistance for k, v in ti.layer_resistance_by_layer_name.items()}, dict(map(tuple, case['res'])))
        eq('contact resistance', {k: (v.contact_name, v.resistance) for k, v in ti.contact_resistance_by_device_layer_name.items()},
           {n: (c, r) for c, n, r in case['contacts']})
        eq('via resistance', {k: v.resistance for k, v in ti.via_resistance_by_layer_name.items()}, dict(map(tuple, case['vias'])))
        eq('substrate capacitance', {k: (v.area_capacitance, v.perimeter_capacitance) for k, v in ti.substrate_cap_by_layer_name.items()},
           {n: (a, p) for n, a, p in case['sub']})
        eq('sidewall capacitance', {k: (v.capacitance, v.offset) for k, v in ti.sidewall_cap_by_layer_name.items()},
           {n: (c, o) for n, c, o in case['sidewall']})
        flat = lambda d, f, g: {(a, b): (f(v), g(v), v.capacitance) for a, e in d.items() for b, v in e.items()}
        sub = 'VSUBS'
        want = {(a, b): (a, b, c) for a, b, c in case['overlap']}
        want.update({(n, sub): (n, sub, a) for n, a, _ in case['sub']})
        eq('overlap capacitance', flat(ti.overlap_cap_by_layer_names, lambda v: v.top_layer_name, lambda v: v.bottom_layer_name), want)
        want = {(a, b): (a, b, c) for a, b, c in case['side']}
        want.update({(n, sub): (n, sub, p) for n, _, p in case['sub']})
        eq('side overlap capacitance', flat(ti.side_overlap_cap_by_layer_names, lambda v: v.in_layer_name, lambda v: v.out_layer_name), want)
        for e, c in cts:
            if e['type'] == 'metal' and case['vias']:
                v = ti.via_resistance_by_layer_name[case['vias'][0][0]]
                x = ti.milliohm_by_cnt_to_ohm_by_square_for_via(ti.contact_by_contact_lvs_layer_name[c['name']], v)
                w = case['vias'][0][1] / 1000 * c['width'] ** 2
                require(abs(x - w) <= 1e-9 * abs(w), f'via resistance {x} Ohm um^2, {case["vias"][0][1]} mOhm at width {c["width"]} is {w}')
            if e['type'] == 'diffusion' and case['contacts']:
                q = case['contacts'][0]
                x = ti.milliohm_by_cnt_to_ohm_by_square_for_contact(ti.contact_by_contact_lvs_layer_name[c['name']],
                                                                    ti.contact_resistance_by_device_layer_name[q[1]])
                w = q[2] / 1000 * c['width'] ** 2
                require(abs(x - w) <= 1e-9 * abs(w), f'contact resistance {x} Ohm um^2, expected {w}')
        require(abs(ti.milliohm_to_ohm(case['halo'] * 1000) - case['halo']) < 1e-9 * case['halo'], 'milliohm_to_ohm')
    drw = [tuple(c['drw']) for c in comp] + [tuple(c['drw']) for c in lays]
    rec.nontrivial(len(set(drw)) < len(drw) or bool(case['overlap'] and case['side'] and case['sub']))
    rec.label('shared GDS pair', len(set(map(lambda c: tuple(c['drw']), comp))) < len(comp))
    rec.label('side overlap without substrate entry', any(a not in [s[0] for s in case['sub']] for a, _, _ in case['side']))


# ---------------------------------------------------------------------------------------- C++ builders and formats

HARNESS = r'''
#include "protobuf.h"
#include <string>
#include <vector>
using namespace kpex::tech;
typedef std::vector<std::string> V;
static double D(const std::string &s) { return std::stod(s); }
static long L(const std::string &s) { return std::stol(s); }
int main(int argc, char **argv) {
    Format fs[] = {Format::PROTOBUF_TEXTUAL, Format::PROTOBUF_BINARY, Format::JSON};
    std::string line;
    Technology tech;
    while (std::getline(std::cin, line)) {
        V f; size_t p = 0;
        for (;;) { size_t q = line.find('\t', p); f.push_back(line.substr(p, q - p)); if (q == std::string::npos) break; p = q + 1; }
        const std::string &c = f[0];
        ProcessStackInfo *psi = tech.mutable_process_stack();
        ProcessParasiticsInfo *ppi = tech.mutable_process_parasitics();
        if (c == "write") write(tech, f[1], fs[L(f[2])]);
        else if (c == "clear") tech.Clear();
        else if (c == "name") tech.set_name(f[1]);
        else if (c == "convert") convert(f[1], fs[L(f[2])], f[3], fs[L(f[4])]);
        else if (c == "layer") addLayer(&tech, (LayerInfo::Purpose)L(f[1]), f[2], L(f[3]), L(f[4]), L(f[5]), L(f[6]), L(f[7]), L(f[8]), f[9]);
        else if (c == "computed") addComputedLayer(&tech, (LayerInfo::Purpose)L(f[1]), (ComputedLayerInfo_Kind)L(f[2]), f[3], L(f[4]), L(f[5]), f[6], f[7]);
        else if (c == "substrate") addSubstrateLayer(psi, f[1], D(f[2]), D(f[3]), f[4]);
        else if (c == "nwell" || c == "diffusion" || c == "metal") {
            ProcessStackInfo::Contact *co = nullptr;
            size_t n = 4;
            if (c == "nwell") { auto l = addNWellLayer(psi, f[1], D(f[2]), f[3]); if (f.size() > n) co = l->mutable_contact_above(); }
            else if (c == "diffusion") { auto l = addDiffusionLayer(psi, f[1], D(f[2]), f[3]); if (f.size() > n) co = l->mutable_contact_above(); }
            else { auto l = addMetalLayer(psi, f[1], D(f[2]), D(f[3])); if (f.size() > n) co = l->mutable_contact_above(); }
            if (co) setContact(co, f[n], f[n + 1], f[n + 2], D(f[n + 3]), D(f[n + 4]), D(f[n + 5]), D(f[n + 6]));
        }
        else if (c == "fox") addFieldOxideLayer(psi, f[1], D(f[2]));
        else if (c == "sidewalldiel") addSidewallDielectric(psi, f[1], D(f[2]), D(f[3]), D(f[4]), f[5]);
        else if (c == "simple") addSimpleDielectric(psi, f[1], D(f[2]), f[3]);
        else if (c == "conformal") addConformalDielectric(psi, f[1], D(f[2]), D(f[3]), D(f[4]), D(f[5]), f[6]);
        else if (c == "res2") addLayerResistance(ppi->mutable_resistance(), f[1], D(f[2]));
        else if (c == "res3") addLayerResistance(ppi->mutable_resistance(), f[1], D(f[2]), D(f[3]));
        else if (c == "contact") addContactResistance(ppi->mutable_resistance(), f[1], f[2], f[3], D(f[4]));
        else if (c == "via") addViaResistance(ppi->mutable_resistance(), f[1], D(f[2]));
        else if (c == "sub") addSubstrateCap(ppi->mutable_capacitance(), f[1], D(f[2]), D(f[3]));
        else if (c == "overlap") addOverlapCap(ppi->mutable_capacitance(), f[1], f[2], D(f[3]));
        else if (c == "sidewall") addSidewallCap(ppi->mutable_capacitance(), f[1], D(f[2]), D(f[3]));
        else if (c == "sideoverlap") addSidewallOverlapCap(ppi->mutable_capacitance(), f[1], f[2], D(f[3]));
        else if (c == "done") { std::cout << "\nKVDONE" << std::endl; }
        else return 3;
    }
    return 0;
}
'''


@functools.lru_cache(None)
def harness():
    """Path of the compiled driver, or None when the C++ interface is a different one."""
    import fcntl
    import hashlib
    b = os.path.join(boot.REPO, 'build', 'kpex_offline')
    src = os.path.join(boot.REPO, 'cxx', 'gen_tech_pb')
    h = hashlib.sha256(HARNESS.encode())
    for f in ('protobuf.cpp', 'protobuf.h'):
        with open(os.path.join(src, f), 'rb') as fh:
            h.update(fh.read())
    h.update(boot._sources_digest())
    d = os.path.join('/tmp', f'kv-p12-{os.getuid()}')
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, h.hexdigest()[:16])
    with open(os.path.join(d, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        if os.path.exists(exe + '.failed'):
            return None
        cc = os.path.join(d, 'h.cpp')
        with open(cc, 'w') as fh:
            fh.write(HARNESS)
        objs = []
        for dp, _, fs in os.walk(os.path.join(b, 'CMakeFiles', 'kpex-protobuf.dir')):
            objs += [os.path.join(dp, f) for f in fs if f.endswith('.o')]
        r = subprocess.run(['g++', '-std=c++23', '-O0', '-I', src, '-I', os.path.join(b, 'generated'), cc,
                            os.path.join(src, 'protobuf.cpp'), *objs, '-lprotobuf', '-lpthread', '-o', exe + '.tmp'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            with open(exe + '.failed', 'w') as fh:
                fh.write(r.stdout)
            return None
        os.rename(exe + '.tmp', exe)
        return exe


class Driver:
    proc = None

    @classmethod
    def send(cls, lines):
        if cls.proc is None or cls.proc.poll() is not None:
            cls.proc = subprocess.Popen([harness()], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                        text=True, encoding='utf-8')
        cls.proc.stdin.write('\n'.join(lines) + '\ndone\n')
        cls.proc.stdin.flush()
        for l in cls.proc.stdout:
            if l.strip() == 'KVDONE':
                return
        rc = cls.proc.wait()
        cls.proc = None
        require(False, f'the technology builder ended with {rc} on {lines}')


TEXT = st.text(st.characters(codec='utf-8', exclude_characters='\t\n\r\0', exclude_categories=('Cs',)), max_size=8)
ORDER = ['layer', 'computed', 'substrate', 'nwell', 'diffusion', 'metal', 'fox', 'sidewalldiel', 'simple', 'conformal', 'res2', 'res3',
         'contact', 'via', 'sub', 'overlap', 'sidewall', 'sideoverlap']


@st.composite
def builder_cases(draw):
    u = lambda: draw(st.sampled_from([0, 1, 5, 66, 65535, 2 ** 32 - 1]))
    i = lambda: draw(st.sampled_from([-1, 0, 1, 5, 20, 65535]))
    n = lambda: draw(st.one_of(st.sampled_from([0.0, 0.5, 1e-9, 12345.678, -0.023]), num()))
    t = lambda: draw(st.one_of(st.sampled_from(NAMES), TEXT))
    calls = []
    for c in draw(st.lists(st.sampled_from(ORDER), min_size=1, max_size=8)):
        match c:
            case 'layer':
                a = [draw(st.integers(0, 13)), t(), u(), u(), i(), i(), i(), i(), t()]
            case 'computed':
                a = [draw(st.integers(0, 13)), draw(st.integers(0, 5)), t(), u(), u(), t(), t()]
            case 'substrate':
                a = [t(), n(), n(), t()]
            case 'nwell' | 'diffusion':
                a = [t(), n(), t()]
            case 'metal':
                a = [t(), n(), n()]
            case 'fox' | 'res2' | 'via':
                a = [t(), n()]
            case 'sidewalldiel':
                a = [t(), n(), n(), n(), t()]
            case 'simple':
                a = [t(), n(), t()]
            case 'conformal':
                a = [t(), n(), n(), n(), n(), t()]
            case 'res3' | 'sub' | 'sidewall':
                a = [t(), n(), n()]
            case 'contact':
                a = [t(), t(), t(), n()]
            case 'overlap' | 'sideoverlap':
                a = [t(), t(), n()]
        if c in ('nwell', 'diffusion', 'metal') and draw(st.booleans()):
            a += [t(), t(), t(), n(), n(), n(), n()]
        calls.append([c] + a)
    if draw(st.booleans()):
        calls.insert(0, ['name', t()])
    return {'calls': calls, 'chain': draw(st.lists(st.integers(0, 2), min_size=1, max_size=4))}


def expected(calls):
    import klayout_pex_protobuf.kpex.tech.tech_pb2 as tech_pb2
    import klayout_pex_protobuf.kpex.tech.process_stack_pb2 as ps
    P = ps.ProcessStackInfo
    t = tech_pb2.Technology()
    t.process_stack.SetInParent()
    t.process_parasitics.SetInParent()

    def pair(m, l, d):
        m.SetInParent()
        m.layer, m.datatype = l, d

    def contact(co, a):
        co.SetInParent()
        co.name, co.layer_below, co.metal_above, co.thickness, co.width, co.spacing, co.border = a

    for c, *a in calls:
        r, q = t.process_parasitics.resistance, t.process_parasitics.capacitance
        match c:
            case 'name':
                t.name = a[0]
            case 'layer':
                l = t.layers.add()
                l.purpose, l.name, l.description = a[0], a[1], a[8]
                pair(l.drw_gds_pair, a[2], a[3])
                if a[4] >= 0 and a[5] >= 0:
                    pair(l.pin_gds_pair, a[4], a[5])
                if a[6] >= 0 and a[7] >= 0:
                    pair(l.label_gds_pair, a[6], a[7])
            case 'computed':
                l = t.lvs_computed_layers.add()
                l.kind, l.original_layer_name = a[1], a[5]
                l.layer_info.purpose, l.layer_info.name, l.layer_info.description = a[0], a[2], a[6]
                pair(l.layer_info.drw_gds_pair, a[3], a[4])
            case 'substrate' | 'nwell' | 'diffusion' | 'metal' | 'fox' | 'sidewalldiel' | 'simple' | 'conformal':
                l = t.process_stack.layers.add()
                l.name = a[0]
                match c:
                    case 'substrate':
                        l.layer_type = P.LAYER_TYPE_SUBSTRATE
                        s = l.substrate_layer
                        s.SetInParent()
                        s.height, s.thickness, s.reference = a[1:]
                    case 'nwell':
                        l.layer_type = P.LAYER_TYPE_NWELL
                        l.nwell_layer.SetInParent()
                        l.nwell_layer.z, l.nwell_layer.reference = a[1:3]
                        if a[3:]:
                            contact(l.nwell_layer.contact_above, a[3:])
                    case 'diffusion':
                        l.layer_type = P.LAYER_TYPE_DIFFUSION
                        l.diffusion_layer.SetInParent()
                        l.diffusion_layer.z, l.diffusion_layer.reference = a[1:3]
                        if a[3:]:
                            contact(l.diffusion_layer.contact_above, a[3:])
                    case 'metal':
                        l.layer_type = P.LAYER_TYPE_METAL
                        l.metal_layer.SetInParent()
                        l.metal_layer.z, l.metal_layer.thickness = a[1:3]
                        if a[3:]:
                            contact(l.metal_layer.contact_above, a[3:])
                    case 'fox':
                        l.layer_type = P.LAYER_TYPE_FIELD_OXIDE
                        l.field_oxide_layer.SetInParent()
                        l.field_oxide_layer.dielectric_k = a[1]
                    case 'sidewalldiel':
                        l.layer_type = P.LAYER_TYPE_SIDEWALL_DIELECTRIC
                        s = l.sidewall_dielectric_layer
                        s.SetInParent()
                        s.dielectric_k, s.height_above_metal, s.width_outside_sidewall, s.reference = a[1:]
                    case 'simple':
                        l.layer_type = P.LAYER_TYPE_SIMPLE_DIELECTRIC
                        l.simple_dielectric_layer.SetInParent()
                        l.simple_dielectric_layer.dielectric_k, l.simple_dielectric_layer.reference = a[1:]
                    case 'conformal':
                        l.layer_type = P.LAYER_TYPE_CONFORMAL_DIELECTRIC
                        s = l.conformal_dielectric_layer
                        s.SetInParent()
                        s.dielectric_k, s.thickness_over_metal, s.thickness_where_no_metal, s.thickness_sidewall, s.reference = a[1:]
            case 'res2' | 'res3':
                x = r.layers.add()
                x.layer_name, x.resistance = a[0], a[1]
                if c == 'res3':
                    x.corner_adjustment_fraction = a[2]
            case 'contact':
                x = r.contacts.add()
                x.contact_name, x.device_layer_name, x.layer_above, x.resistance = a
            case 'via':
                x = r.vias.add()
                x.via_name, x.resistance = a
            case 'sub':
                x = q.substrates.add()
                x.layer_name, x.area_capacitance, x.perimeter_capacitance = a
            case 'overlap':
                x = q.overlaps.add()
                x.top_layer_name, x.bottom_layer_name, x.capacitance = a
            case 'sidewall':
                x = q.sidewalls.add()
                x.layer_name, x.capacitance, x.offset = a
            case 'sideoverlap':
                x = q.sideoverlaps.add()
                x.in_layer_name, x.out_layer_name, x.capacitance = a
    return t


def tree(m):
    """Message as nested dicts; unset and default are the same (so that an empty submessage does not matter)."""
    out = {}
    for f, v in m.ListFields():
        if f.is_repeated if hasattr(f, 'is_repeated') and not callable(f.is_repeated) else f.label == f.LABEL_REPEATED:
            out[f.name] = [tree(x) if f.message_type else x for x in v]
        elif f.message_type:
            d = tree(v)
            if d or f.name.endswith('_pair') or f.name.endswith('_layer') or f.name == 'contact_above':
                out[f.name] = d
        elif v != 0 and v != '':
            out[f.name] = v
    return out


def close(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f'{path}: fields {sorted(a)} instead of {sorted(b)}'
        for k in a:
            r = close(a[k], b[k], f'{path}.{k}')
            if r:
                return r
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f'{path}: {len(a)} entries instead of {len(b)}'
        for i, (x, y) in enumerate(zip(a, b)):
            r = close(x, y, f'{path}[{i}]')
            if r:
                return r
        return None
    if isinstance(a, float) and isinstance(b, float):
        return None if abs(a - b) <= 1e-6 * max(abs(a), abs(b)) else f'{path}: {a} instead of {b}'
    return None if a == b else f'{path}: {a!r} instead of {b!r}'


def parse(path, fmt):
    import google.protobuf.json_format
    import google.protobuf.text_format
    import klayout_pex_protobuf.kpex.tech.tech_pb2 as tech_pb2
    from klayout_pex.tech_info import TechInfo
    if fmt == 2:
        return TechInfo.parse_tech_def(path)
    t = tech_pb2.Technology()
    with open(path, 'rb') as fh:
        data = fh.read()
    if fmt == 1:
        t.ParseFromString(data)
    else:
        google.protobuf.text_format.Parse(data.decode('utf-8'), t)
    return t


def run_builder(case, rec):
    if harness() is None:
        rec.label('C++ interface differs, not run')
        return
    want = tree(expected(case['calls']))
    fix = lambda x: repr(x) if isinstance(x, float) else str(x)
    with tempfile.TemporaryDirectory() as td:
        cmds = ['clear'] + ['\t'.join(fix(x) for x in c) for c in case['calls']]
        chain = case['chain']
        p = lambda i: os.path.join(td, f'f{i}')
        cmds.append(f'write\t{p(0)}\t{chain[0]}')
        for i in range(1, len(chain)):
            cmds.append(f'convert\t{p(i - 1)}\t{chain[i - 1]}\t{p(i)}\t{chain[i]}')
        Driver.send(cmds)
        for i, f in enumerate(chain):
            require(os.path.exists(p(i)), f'nothing was written in format {f}')
            with sut(f'reading the technology file (format {f})'):
                got = tree(parse(p(i), f))
            r = close(got, want)
            require(r is None, f'technology file after {[ "text", "binary", "JSON"][f]} (step {i}): {r}')
    rec.nontrivial(len(case['calls']) >= 3)
    rec.label('conversion', len(chain) > 1)


PARTS = [
    Part('lookup', lookup_cases, run_lookup, quick=300, thorough=6000),
    Part('builders', builder_cases, run_builder, quick=250, thorough=5000),
]
