EDITS = [('klayout_pex/netlistsvg/netlist_json.py', '''            if gnd_id is None:
''', '''            if not gnd_id:
''')]
META = {'property': 'P28', 'needs': 'a ground net which is the first net of the diagram (e.g. the first pin)', 'what_it_breaks': 'the ground symbol is missing'}
# demo
import os
import sys
sys.path.insert(0, os.getcwd())
import klayout.db as kdb
from klayout_pex.netlistsvg.netlist_json import NetlistJSONWriter
for pins in (['VSUBS', 'A'], ['A', 'VSUBS']):
    nl = kdb.Netlist()
    c = kdb.Circuit()
    c.name = 'TOP'
    nl.add(c)
    dc = kdb.DeviceClassCapacitor()
    dc.name = 'CAP'
    nl.add(dc)
    nets = {n: c.create_net(n) for n in pins}
    for n in pins:
        c.connect_pin(c.create_pin(n), nets[n])
    d = c.create_device(dc, '1')
    d.connect_terminal('A', nets['A'])
    d.connect_terminal('B', nets['VSUBS'])
    d.set_parameter('C', 1e-15)
    m = NetlistJSONWriter().netlist_json_dict(nl, c)['modules']['TOP']
    g = [x['connections']['A'] for x in m['cells'].values() if x['type'] == 'gnd']
    assert g == [m['ports']['VSUBS']['bits']], (pins, g)
