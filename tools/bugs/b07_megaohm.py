EDITS = [('klayout_pex/rcx25/r/resistor_network.py', '''        if abs(s_sum) > 1e-10:
''', '''        if abs(s_sum) > 1e-6:
''')]
META = {'property': 'P29', 'needs': 'a node whose resistors are all of megaohms is eliminated',
        'what_it_breaks': 'the connection between its neighbours is lost'}
# demo
import os
import sys
sys.path.insert(0, os.getcwd())
import klayout.db as kdb
from klayout_pex.rcx25.r.conductance import Conductance
from klayout_pex.rcx25.r.resistor_network import ResistorNetwork
n = ResistorNetwork()
a, b, c = (n.node_id(kdb.Point(100 * i, 0)) for i in range(3))
n.add_cond(a, b, Conductance(4e-7))
n.add_cond(b, c, Conductance(4e-7))
n.eliminate_node(b)
got = [x.cond for x in n.s.values()]
assert got and all(abs(x - 2e-7) < 1e-12 for x in got), got
