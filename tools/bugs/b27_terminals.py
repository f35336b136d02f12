EDITS = [('klayout_pex/klayout/lvsdb_extractor.py', '''                    if nt.terminal_id() != td.id():
                        continue
''', '')]
META = {'property': 'P11', 'needs': 'a device with two terminals on the same net', 'what_it_breaks': 'each of the two terminals is listed with the shapes of both'}
# demo
from l2n import *
ly = kdb.Layout()
c = ly.create_cell('TOP')
act, gate, met = ly.layer(65, 20), ly.layer(66, 20), ly.layer(67, 20)
x = kdb.LayoutToNetlist(kdb.RecursiveShapeIterator(ly, c, []))
c.shapes(act).insert(kdb.Box(0, 0, 3000, 1000))
c.shapes(gate).insert(kdb.Box(1000, -500, 2000, 1500))
c.shapes(met).insert(kdb.Polygon([kdb.Point(*q) for q in ((0, -2000), (0, 1000), (900, 1000), (900, -1000), (2100, -1000), (2100, 1000), (3000, 1000), (3000, -2000))]))
ra, rg, rm = x.make_layer(act, 'act'), x.make_layer(gate, 'poly_con'), x.make_layer(met, 'li_con')
sd = x.make_layer('sd')
sd.insert(ra - rg)
g = ra & rg
x.register(g, 'g')
w = x.make_layer('w')
x.extract_devices(kdb.DeviceExtractorMOS3Transistor('NMOS'), {'SD': sd, 'G': g, 'P': rg, 'tS': sd, 'tD': sd, 'tG': rg, 'W': w})
for q in (sd, rg, rm):
    x.connect(q)
x.connect(sd, rm)
x.extract_netlist()
x._layout = ly
ctx = KLayoutExtractionContext.prepare_extraction(lvsdb=x, top_cell='TOP', tech=tech(), blackbox_devices=False)
(d,) = ctx.devices_by_name.values()
names = sorted(q.name for q in d.terminals)
assert names == ['D', 'G', 'S'], names
