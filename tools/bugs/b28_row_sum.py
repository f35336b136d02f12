EDITS = [('klayout_pex/klayout/netlist_expander.py', '''                cap_ii -= cap_value  # subtract summands to filter out Cii
''', '''                cap_ii -= max(cap_value, 0.0)  # subtract summands to filter out Cii
''')]
META = {'property': 'P19', 'needs': 'a matrix with a small positive off-diagonal value', 'what_it_breaks': 'the capacitance to the substrate is not the sum of the row'}
# demo
from l2n import *
from klayout_pex.klayout.netlist_expander import NetlistExpander
from klayout_pex.common.capacitance_matrix import CapacitanceMatrix
nl = kdb.Netlist()
c = kdb.Circuit()
c.name = 'TOP'
nl.add(c)
for n in ('VSUBS', 'A', 'B'):
    c.create_net(n)
m = CapacitanceMatrix(['g1_VSUBS', 'g2_A', 'g3_B'], [[9e-15, -1e-15, -1e-15], [-1e-15, 5e-15, 1e-15], [-1e-15, 1e-15, 5e-15]])
e = NetlistExpander().expand(extracted_netlist=nl, top_cell_name='TOP', cap_matrix=m, blackbox_devices=True)
total = 0
for d in e.circuit_by_name('TOP').each_device():
    if d.device_class().name == 'PEX_CAP' and {d.net_for_terminal('A').name, d.net_for_terminal('B').name} == {'A', 'VSUBS'}:
        total += d.parameter('C')
assert abs(total - 6e-15) < 1e-20, total
