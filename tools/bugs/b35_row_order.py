EDITS = [('klayout_pex/kpex_cli.py', '''                for idx, (key, cap_value) in enumerate(sorted(summary.capacitances.items())):
''', '''                for idx, (key, cap_value) in enumerate(set(summary.capacitances.items())):
''')]
META = {'property': 'P35', 'needs': 'two runs with different hash seeds', 'what_it_breaks': 'the rows of the table and the names of the capacitors differ from run to run'}
# demo
import subprocess
from l2n import *
with tempfile.TemporaryDirectory() as d:
    ly = kdb.Layout()
    c = ly.create_cell('TOP')
    for i in range(8):
        c.shapes(ly.layer(68, 20)).insert(kdb.Box(0, 1000 * i, 5000 + 100 * i, 1000 * i + 500))
        c.shapes(ly.layer(68, 5)).insert(kdb.Text(f'N{i}', kdb.Trans(100, 1000 * i + 100)))
    y = kdb.LayoutVsSchematic(kdb.RecursiveShapeIterator(ly, c, []))
    m, t = y.make_layer(ly.layer(68, 20), 'met1_con'), y.make_text_layer(ly.layer(68, 5), 'met1_label')
    y.connect(m)
    y.connect(m, t)
    y.extract_netlist()
    y.write(os.path.join(d, 'x.lvsdb'))
    got = set()
    for seed in ('1', '2', '3'):
        r = subprocess.run([sys.executable, '-m', 'klayout_pex.kpex_cli', '--pdk', 'sky130A', '--lvsdb', os.path.join(d, 'x.lvsdb'), '--2.5D', '--out_dir', os.path.join(d, 'o')],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, KPEX_KLAYOUT_EXE='/bin/true', PYTHONHASHSEED=seed))
        assert r.returncode == 0
        with open(os.path.join(d, 'o', 'x__TOP', 'TOP_k25d_pex_netlist.csv'), encoding='utf-8') as f:
            got.add(f.read())
assert len(got) == 1, got
