EDITS = [('klayout_pex/kpex_cli.py', '''        if args.halo is not None:
''', '''        if args.halo:
''')]
META = {'property': 'P06', 'needs': '--halo 0', 'what_it_breaks': 'the halo of the technology is used instead of none'}
# demo
import subprocess
from l2n import *
with tempfile.TemporaryDirectory() as d:
    x = l2n([('met1', 'A', (0, 0, 500, 20000), (100, 100)), ('met1', 'B', (800, 0, 1300, 20000), (900, 100))])
    y = kdb.LayoutVsSchematic(kdb.RecursiveShapeIterator(x._layout, x._layout.top_cell(), []))
    m, t = y.make_layer(x._layout.layer(68, 20), 'met1_con'), y.make_text_layer(x._layout.layer(68, 5), 'met1_label')
    y.connect(m)
    y.connect(m, t)
    y.extract_netlist()
    y.write(os.path.join(d, 'x.lvsdb'))
    for halo in ('8', '0'):
        r = subprocess.run([sys.executable, '-m', 'klayout_pex.kpex_cli', '--pdk', 'sky130A', '--lvsdb', os.path.join(d, 'x.lvsdb'), '--2.5D', '--halo', halo,
                            '--out_dir', os.path.join(d, 'out')], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, KPEX_KLAYOUT_EXE='/bin/true'))
        assert r.returncode == 0
        with open(os.path.join(d, 'out', 'x__TOP', 'TOP_k25d_pex_netlist.csv'), encoding='utf-8') as f:
            rows = [l.split(';') for l in f.read().splitlines()[1:]]
        ab = [float(r[3]) for r in rows if {r[1], r[2]} == {'A', 'B'}]
        assert (sum(ab) > 0) == (halo == '8'), (halo, rows)
