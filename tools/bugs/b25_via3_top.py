EDITS = [('cxx/gen_tech_pb/pdk/ihp_sg13g2.cpp', '''"via3_drw",      "metal3_con",    "metal4_con", ''', '''"via3_drw",      "metal3_con",    "metal5_n_cap",''')]
META = {'property': 'P31', 'needs': 'the third via of the IHP process', 'what_it_breaks': 'the via bridges from Metal3 to Metal5, past Metal4'}
# demo
import json
import os
with open(os.path.join('klayout_pex_protobuf', 'ihp_sg13g2_tech.pb.json')) as f:
    j = json.load(f)
metals = [l for l in j['process_stack']['layers'] if 'metal_layer' in l]
by = {l['name']: l['metal_layer'] for l in metals}
seen = set()
for l in metals:
    c = l['metal_layer'].get('contact_above')
    if c and c['metal_above'] in by:
        a, b = l['metal_layer'], by[c['metal_above']]
        gap = b['z'] - a['z'] - a['thickness']
        assert abs(gap - c['thickness']) < 1e-3 * max(1, gap), (l['name'], c)
