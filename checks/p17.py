"""P17: the capacitance matrix is what the field solver printed last; its CSV form and averaging keep it."""
import os
from hypothesis import strategies as st
from kv.core import Part, require, sut
from kv.cli import scratch

PID = 'P17'
WORKERS = 4
RULE = ('generated: FasterCap and FastCap2 logs with several iterations, matrices of 1 to 14 conductors of any names and name lengths, units from attofarads to '
        'farads, noise lines around; matrices written to and read from CSV with several separators; oracle: the generated matrix; non-trivial: two or more '
        'conductors or iterations')
ASSUMPTIONS = ['the log formats are those of the solvers as far as the stored logs show them; FastCap2 pads names and row numbers to columns',
               'net names contain no white space and, for CSV, no separator', 'FasterCap coordinates are µm, so that values are 1e6 too large']

UNITS = {'farads': 1.0, 'millifarads': 1e-3, 'microfarads': 1e-6, 'nanofarads': 1e-9, 'picofarads': 1e-12, 'femtofarads': 1e-15, 'attofarads': 1e-18}
BASE = ['VSUBS', 'A', 'VDD', '$1', '$12', 'out<0>', 'net_1', 'a/b', 'x.y', 'very_long_net_name_of_a_block', 'Dimension', '1', '-1', 'Q', 'é', 'a,b']

value = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 1.1171e-09, -3.60633e-10, 7850.0, -3.682e+05, 54.97, 1e-20, -2.5e-15, 123456.0]),
                  st.floats(-1e6, 1e6, allow_nan=False).map(lambda v: float('%.6g' % v)))


@st.composite
def matrix(draw, nmax=14):
    n = draw(st.one_of(st.integers(1, 4), st.integers(2, nmax)))
    v = draw(st.lists(value, min_size=n * n, max_size=n * n))
    return [v[i * n:(i + 1) * n] for i in range(n)]


NOISE = ['', 'Iteration number #1 ***************************', 'Warning: capacitance matrix is not diagonally dominant due to row 3',
         'Solve statistics:', 'GMRES Iteration: 0 1 2 3 ', 'Dimension', 'Capacitance matrix is', '***************************************',
         'Total allocated memory: 1234 kilobytes', 'g1_A  1e-9 2e-9', '3 x 3']


@st.composite
def logs(draw):
    its = []
    n = None
    for _ in range(draw(st.sampled_from([1, 2, 3]))):
        its.append([draw(st.lists(st.sampled_from(NOISE), max_size=4)), draw(matrix())])
    return {'its': its, 'tail': draw(st.lists(st.sampled_from(NOISE), max_size=4)),
            'names': draw(st.permutations(BASE)), 'unit': draw(st.sampled_from(sorted(UNITS))), 'cut': draw(st.integers(0, 5)) == 0,
            'eof': draw(st.booleans()), 'group': draw(st.integers(1, 20))}


def names(case, n, fastcap):
    if fastcap:
        return [f'{case["names"][i % len(case["names"])]}%GROUP{case["group"] + i}' for i in range(n)]
    return [f'g{i + 1}_{case["names"][i % len(case["names"])]}' for i in range(n)]


def write(path, lines, eof):
    with open(path, 'w', encoding='utf-8') as fh:
        fh.write('\n'.join(lines) + ('\n' if eof else ''))


def compare(got, nn, m, f, what):
    require(got.conductor_names == nn, lambda: f'{what}: conductors {got.conductor_names}, printed {nn}')
    require(got.dimension == len(nn) and len(got.rows) == len(nn) and all(len(r) == len(nn) for r in got.rows),
            lambda: f'{what}: {len(got.rows)} rows of {[len(r) for r in got.rows]} for {len(nn)} conductors: {got.rows}')
    for i in range(len(nn)):
        for j in range(len(nn)):
            require(abs(got[i][j] - m[i][j] * f) <= 1e-9 * abs(m[i][j] * f), lambda: f'{what}: [{i}][{j}] is {got[i][j]}, printed {m[i][j]} times {f}')


def run_fastercap(case, rec):
    from klayout_pex.fastercap.fastercap_runner import fastercap_parse_capacitance_matrix
    lines = ['Running FasterCap version 6.0.7', '']
    for noise, m in case['its']:
        nn = names(case, len(m), False)
        lines += noise + ['Capacitance matrix is:', f'Dimension {len(m)} x {len(m)}']
        lines += [f'{a}  ' + ' '.join('%.6g' % v for v in r) + ' ' for a, r in zip(nn, m)]
    last = len(lines)
    lines += case['tail']
    cut = case['cut'] and last > 3
    if cut:
        lines = lines[:last - 1]
    with scratch() as d:
        p = os.path.join(d, 'log.txt')
        write(p, lines, case['eof'] or cut)
        if cut:     # the last matrix is incomplete: an error or a complete matrix, but nothing else
            try:
                got = fastercap_parse_capacitance_matrix(p)
            except Exception:
                rec.label('incomplete')
                return
            require(any(got.conductor_names == names(case, len(m), False) and len(got.rows) == len(m) for _, m in case['its'][:-1]),
                    lambda: f'an incomplete matrix was taken: {got}')
            return
        with sut('parsing the FasterCap log'):
            got = fastercap_parse_capacitance_matrix(p)
    compare(got, names(case, len(case['its'][-1][1]), False), case['its'][-1][1], 1e-6, 'FasterCap log')
    rec.nontrivial(len(case['its']) > 1 or len(case['its'][-1][1]) > 1)
    rec.label('iterations', len(case['its']) > 1)


def run_fastcap(case, rec):
    from klayout_pex.fastcap.fastcap_runner import fastcap_parse_capacitance_matrix
    lines = ['Running fastcap 2.0', '  Input: x.lst']
    its = case['its'][:2]
    for noise, m in its:
        n = len(m)
        nn = names(case, n, True)
        w = max(map(len, nn))
        iw = len(str(n))
        lines += ['mksCapDump: Warning - capacitance matrix has non-negative off-diagonals', '  row 1 col 4', '']
        lines += ['', f'CAPACITANCE MATRIX, {case["unit"]}', ' ' * (w + iw) + ''.join(' %10d' % (j + 1) for j in range(n)) + ' ']
        lines += [f'{a:<{w}} {i + 1:>{iw}}' + ''.join(' %10.6g' % v for v in r) for i, (a, r) in enumerate(zip(nn, m))]
    lines += case['tail']
    with scratch() as d:
        p = os.path.join(d, 'log.txt')
        write(p, lines, case['eof'])
        with sut('parsing the FastCap2 log'):
            got = fastcap_parse_capacitance_matrix(p)
    m = its[-1][1]
    compare(got, names(case, len(m), True), m, UNITS[case['unit']] * 1e-6, 'FastCap2 log')
    rec.nontrivial(len(m) > 1)
    rec.label('ten or more conductors', len(m) >= 10)


@st.composite
def csv_cases(draw):
    return {'m': draw(matrix(8)), 'names': draw(st.permutations(BASE)), 'sep': draw(st.sampled_from([';', '\t', '|', ';']))}


def run_csv(case, rec):
    from klayout_pex.common.capacitance_matrix import CapacitanceMatrix
    m = [[v * 1e-6 * (1 + i / 3e6) for i, v in enumerate(r)] for r in case['m']]     # with more digits than printed ones
    n = len(m)
    nn = [f'g{i + 1}_{case["names"][i]}' for i in range(n)]
    cm = CapacitanceMatrix(conductor_names=list(nn), rows=[list(r) for r in m])
    with scratch() as d, sut('CSV'):
        p = os.path.join(d, 'm.csv')
        cm.write_csv(p, separator=case['sep'])
        back = CapacitanceMatrix.parse_csv(p, separator=case['sep'])
        if case['sep'] == ';':
            cm.write_csv(p)
            require(CapacitanceMatrix.parse_csv(p) == back, 'the default separator is not the semicolon')
        avg = cm.averaged_off_diagonals()
        again = avg.averaged_off_diagonals()
    compare(back, nn, m, 1.0, 'CSV round trip')
    compare(cm, nn, m, 1.0, 'the matrix after writing and averaging')
    want = [[(m[i][j] + m[j][i]) / 2 for j in range(n)] for i in range(n)]
    for i in range(n):
        for j in range(n):
            t = 1e-12 * (abs(m[i][j]) + abs(m[j][i]))
            require(abs(avg[i][j] - want[i][j]) <= t, lambda: f'average of [{i}][{j}]: {avg[i][j]}, expected {want[i][j]} of {m}')
    require(avg.rows == again.rows and avg.conductor_names == nn, 'averaging again changes the matrix')
    require(all(avg[i][j] == avg[j][i] for i in range(n) for j in range(n)), 'the averaged matrix is not symmetrical')
    rec.nontrivial(n > 1)


PARTS = [Part('fastercap', logs, run_fastercap, quick=250, thorough=8000),
         Part('fastcap', logs, run_fastcap, quick=250, thorough=8000),
         Part('csv', csv_cases, run_csv, quick=250, thorough=8000)]
