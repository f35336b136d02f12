EDITS = [('klayout_pex/kpex_cli.py', '''                                               gds_path=args.effective_gds_path,
                                               schematic_path''', '''                                               gds_path=args.gds_path,
                                               schematic_path''')]
META = {'property': 'P24', 'needs': 'a GDS file with several cells of which one that is not the only top cell is chosen by --cell',
        'what_it_breaks': 'LVS is run on the whole file, and so on another cell'}
# demo
import os
import subprocess
import sys
import tempfile
import klayout.db as kdb
with tempfile.TemporaryDirectory() as d:
    ly = kdb.Layout()
    a, b = ly.create_cell('OUTER'), ly.create_cell('INNER')
    l = ly.layer(68, 20)
    b.shapes(l).insert(kdb.Box(0, 0, 1000, 1000))
    a.insert(kdb.CellInstArray(b.cell_index(), kdb.Trans(0, 0)))
    ly.write(os.path.join(d, 'in.gds'))
    exe = os.path.join(d, 'klayout')
    with open(exe, 'w') as f:
        f.write(f'#!/bin/sh\nfor a; do echo "$a" >> {d}/args; case "$a" in input=*) cp "${{a#input=}}" {d}/seen;; esac; done\nexit 1\n')
    os.chmod(exe, 0o755)
    env = dict(os.environ, KPEX_KLAYOUT_EXE=exe)
    subprocess.run([sys.executable, '-m', 'klayout_pex.kpex_cli', '--pdk', 'sky130A', '--gds', os.path.join(d, 'in.gds'), '--cell', 'INNER',
                    '--2.5D', '--out_dir', os.path.join(d, 'out'), '--cache-lvs', 'no'], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    seen = kdb.Layout()
    seen.read(os.path.join(d, 'seen'))
    tops = [c.name for c in seen.top_cells()]
    assert tops == ['INNER'], tops
