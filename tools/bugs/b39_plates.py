EDITS = [('klayout_pex/klayout/lvsdb_extractor.py', '''            if computed_layer_info and blackbox_devices:
''', '''            if computed_layer_info and blackbox_devices and computed_layer_info.layer_info.purpose != tech_pb2.LayerInfo.Purpose.PURPOSE_METAL:
'''), ('klayout_pex/klayout/lvsdb_extractor.py', '''                if blackbox_devices:
''', '''                if blackbox_devices and computed_layer_info.layer_info.purpose != tech_pb2.LayerInfo.Purpose.PURPOSE_METAL:
''')]
META = {'property': 'P13', 'needs': 'a MIM capacitor of sky130A, whose bottom plate is a part of met3 or met4 of its own, in blackbox extraction (two places)',
        'what_it_breaks': 'the plates of capacitors, which their models already contain, are extracted once more'}
# demo
from l2n import *


def build(plate):
    ly = kdb.Layout()
    ly.dbu = 0.001
    c = ly.create_cell('TOP')
    for k, (g, y) in enumerate(((68, 0), (70, 1000))):
        c.shapes(ly.layer(g, 20)).insert(kdb.Box(0, y, 10000, y + 2000))
        c.shapes(ly.layer(g, 5)).insert(kdb.Text('AB'[k], kdb.Trans(100, y + 100)))
    if plate:
        c.shapes(ly.layer(70, 220)).insert(kdb.Box(10000, 1000, 20000, 3000))
        c.shapes(ly.layer(68, 20)).insert(kdb.Box(10000, 0, 20000, 2000))
    x = kdb.LayoutToNetlist(kdb.RecursiveShapeIterator(ly, c, []))
    regs = {}
    for name, g, d in (('met1_con', 68, 20), ('met3_ncap', 70, 20), ('met3_cap', 70, 220)):
        regs[name] = x.make_layer(ly.layer(g, d), name)
        x.connect(regs[name])
    x.connect(regs['met3_ncap'], regs['met3_cap'])
    for name, lay in (('met1_label', 'met1_con'), ('met3_label', 'met3_ncap')):
        x.connect(regs[lay], x.make_text_layer(ly.layer(68 if '1' in name else 70, 5), name))
    x._layout = ly
    x.extract_netlist()
    return x


white = cap(extract(build(True), blackbox=False), 'A', 'B')
black = cap(extract(build(True), blackbox=True), 'A', 'B')
assert black < 0.75 * white, (black, white)
