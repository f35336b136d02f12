EDITS = [('klayout_pex/kpex_cli.py', '''            layout.dbu = lvsdb.internal_layout().dbu

''', '''
''')]
META = {'property': 'P34', 'needs': 'a database unit other than 0.001', 'what_it_breaks': 'the layer dumps have another unit, and so shapes of another size'}
# demo
import subprocess
from l2n import *
with tempfile.TemporaryDirectory() as d:
    for dbu in (0.001, 0.005):
        ly = kdb.Layout()
        ly.dbu = dbu
        c = ly.create_cell('TOP')
        c.shapes(ly.layer(68, 20)).insert(kdb.DBox(0, 0, 1, 2))
        c.shapes(ly.layer(68, 5)).insert(kdb.DText('A', kdb.DTrans(0.5, 0.5)))
        y = kdb.LayoutVsSchematic(kdb.RecursiveShapeIterator(ly, c, []))
        m, t = y.make_layer(ly.layer(68, 20), 'met1_con'), y.make_text_layer(ly.layer(68, 5), 'met1_label')
        y.connect(m)
        y.connect(m, t)
        y.extract_netlist()
        y.write(os.path.join(d, 'x.lvsdb'))
        r = subprocess.run([sys.executable, '-m', 'klayout_pex.kpex_cli', '--pdk', 'sky130A', '--lvsdb', os.path.join(d, 'x.lvsdb'), '--2.5D',
                            '--out_dir', os.path.join(d, 'out')], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, KPEX_KLAYOUT_EXE='/bin/true'))
        assert r.returncode == 0
        g = kdb.Layout()
        g.read(os.path.join(d, 'out', 'x__TOP', 'TOP_nonempty_LVS_layers.gds.gz'))
        assert str(g.top_cell().dbbox()) == '(0,0;1,2)', g.top_cell().dbbox()
