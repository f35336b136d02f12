EDITS = [('klayout_pex/magic/magic_runner.py', '''f"\\nextract halo {round(halo * halo_scale)}"''', '''f"\\nextract halo {int(halo * halo_scale)}"''')]
META = {'property': 'P32', 'needs': 'a halo whose product with 200 is just below a whole number, e.g. 0.145', 'what_it_breaks': 'Magic gets a halo that is smaller by one unit'}
# demo
import os
import sys
import tempfile
sys.path.insert(0, os.getcwd())
from klayout_pex.magic.magic_runner import *
with tempfile.TemporaryDirectory() as d:
    for k in range(1, 2000):
        halo = float(f'{k * 0.005:.3f}')
        if k % 29:
            continue
        prepare_magic_script(gds_path='a.gds', cell_name='X', run_dir_path=d, script_path=os.path.join(d, 's'), output_netlist_path=os.path.join(d, 'o'),
                             pex_mode=MagicPEXMode.CC, c_threshold=0.1, r_threshold=1, tolerance=1, halo=halo, short_mode=MagicShortMode.NONE,
                             merge_mode=MagicMergeMode.NONE)
        with open(os.path.join(d, 's')) as f:
            got = [l.split()[-1] for l in f if l.startswith('extract halo')]
        assert got == [str(k)], (halo, got)
