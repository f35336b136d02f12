EDITS = [('klayout_pex/fastcap/fastcap_runner.py', '''                    cells.pop(1)
''', '''                    cells = [c for k, c in enumerate(cells) if k == 0 or c != str(row_number)]
''')]
META = {'property': 'P17', 'needs': 'a FastCap2 matrix with an entry that reads like the number of its row',
        'what_it_breaks': 'the entry is lost and the row is too short'}
# demo
import os
import sys
import tempfile
sys.path.insert(0, os.getcwd())
from klayout_pex.log import set_log_level, LogLevel
set_log_level(LogLevel.CRITICAL)
from klayout_pex.fastcap.fastcap_runner import fastcap_parse_capacitance_matrix
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'log')
    with open(p, 'w') as f:
        f.write('CAPACITANCE MATRIX, picofarads\n' + ' ' * 13 + ''.join('%10d ' % i for i in (1, 2)) + '\n'
                'A%GROUP1 1         1     -0.5\nB%GROUP2 2      -0.5        2\n')
    m = fastcap_parse_capacitance_matrix(p)
    rows = [[x * 1e12 / 1e-6 for x in r] for r in m.rows]
    assert [len(r) for r in rows] == [2, 2], rows
    assert abs(m.rows[0][0] / m.rows[0][1] + 2) < 1e-9 and abs(m.rows[1][1] / m.rows[1][0] + 4) < 1e-9, m.rows
