EDITS = [('klayout_pex/klayout/lvsdb_extractor.py', '''                        if p.inside(pos):
''', '''                        if p.bbox().contains(pos):
''')]
META = {'property': 'P09', 'needs': 'U-shaped pins of two nets with their arms between each other',
        'what_it_breaks': 'a pin becomes a port of the other net'}
# demo
from l2n import *
U1 = [(0, 0), (0, 2500), (5000, 2500), (5000, 2000), (500, 2000), (500, 500), (5000, 500), (5000, 0)]
U2 = [(1000, 1000), (1000, 1500), (5500, 1500), (5500, 3000), (1000, 3000), (1000, 3500), (6000, 3500), (6000, 1000)]
ly = kdb.Layout()
c = ly.create_cell('TOP')
for n, u, at in (('A', U1, (2000, 2250)), ('B', U2, (2000, 1250))):
    for dt in (16, 20):
        c.shapes(ly.layer(68, dt)).insert(kdb.Polygon([kdb.Point(*q) for q in u]))
    c.shapes(ly.layer(68, 5)).insert(kdb.Text(n, kdb.Trans(*at)))
y = kdb.LayoutToNetlist(kdb.RecursiveShapeIterator(ly, c, []))
m, t, p = y.make_layer(ly.layer(68, 20), 'met1_con'), y.make_text_layer(ly.layer(68, 5), 'met1_label'), y.make_layer(ly.layer(68, 16), 'met1_pin_con')
for a, b in ((m, None), (p, None), (m, t), (m, p)):
    y.connect(a) if b is None else y.connect(a, b)
y.extract_netlist()
ctx = KLayoutExtractionContext.prepare_extraction(lvsdb=y, top_cell='TOP', tech=tech(), blackbox_devices=True)
nets = {q.label: q.net_name for l in ctx.pins_pb2_by_layer.values() for q in l}
assert nets == {'A': 'A', 'B': 'B'}, nets
