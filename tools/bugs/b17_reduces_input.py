EDITS = [('klayout_pex/klayout/netlist_reducer.py', '''        reduced_netlist: kdb.Netlist = netlist.dup()
''', '''        reduced_netlist: kdb.Netlist = netlist
''')]
META = {'property': 'P20', 'needs': 'the netlist is used again after it was reduced', 'what_it_breaks': 'the netlist which was to be reduced is changed itself'}
# demo
import os
import sys
sys.path.insert(0, os.getcwd())
import klayout.db as kdb
from klayout_pex.log import set_log_level, LogLevel
set_log_level(LogLevel.CRITICAL)
from klayout_pex.klayout.netlist_reducer import NetlistReducer
nl = kdb.Netlist()
dc = kdb.DeviceClassCapacitor()
dc.name = 'PEX_CAP'
nl.add(dc)
c = kdb.Circuit()
c.name = 'TOP'
nl.add(c)
a, b = c.create_net('a'), c.create_net('b')
for v in (1e-18, 1e-15):
    d = c.create_device(dc)
    d.connect_terminal('A', a)
    d.connect_terminal('B', b)
    d.set_parameter('C', v)
text = str(nl)
NetlistReducer.reduce(netlist=nl, top_cell_name='TOP')
assert str(nl) == text
