EDITS = [('klayout_pex/rcx25/netlist_expander.py', '''            r.set_parameter('R', res_value)
''', '''            r.set_parameter('R', round(res_value, 3))
''')]
META = {'property': 'P07', 'needs': 'a resistance below one milliohm', 'what_it_breaks': 'the resistor of the netlist is a short circuit'}
# demo
from l2n import *
from klayout_pex.rcx25.netlist_expander import RCX25NetlistExpander
from klayout_pex.rcx25.extraction_results import ExtractionSummary, NetCoupleKey


class Results:
    def summarize(self):
        return ExtractionSummary(capacitances={}, resistances={NetCoupleKey('A', 'B'): 0.00025})


nl = kdb.Netlist()
c = kdb.Circuit()
c.name = 'TOP'
nl.add(c)
e = RCX25NetlistExpander.expand(extracted_netlist=nl, top_cell_name='TOP', extraction_results=Results(), blackbox_devices=True)
got = [d.parameter('R') for d in e.circuit_by_name('TOP').each_device()]
assert len(got) == 1 and abs(got[0] - 0.00025) < 1e-12, got
