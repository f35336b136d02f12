EDITS = [('klayout_pex/magic/magic_ext_file_parser.py', '''        res_ext_path = res_paths_by_cell_name.get(cell, None)
''', '''        res_ext_path = res_paths_by_cell_name.get(cell.lower(), None)
''')]
META = {'property': 'P27', 'needs': 'a cell with capitals in its name', 'what_it_breaks': 'the resistors of the cell are not read'}
# demo
from pathlib import Path
from l2n import *
from klayout_pex.magic.magic_ext_file_parser import parse_magic_pex_run
for cell in ('inv', 'INV_x1'):
    with tempfile.TemporaryDirectory() as d:
        with open(os.path.join(d, f'{cell}.ext'), 'w') as f:
            f.write('node "A" 0 1.5 0 0 m1 0 0\n')
        with open(os.path.join(d, f'{cell}.res.ext'), 'w') as f:
            f.write('rnode "A.n0" 0 1.5 0 0 0\nresist "A.n0" "A" 12.5\n')
        run = parse_magic_pex_run(Path(d))
        r = run.cells[cell].res_ext_data
        assert r is not None and [q.value_ohm for q in r.resistors] == [12.5], (cell, r)
