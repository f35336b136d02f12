"""tools/automut.py N SEED FILE...: N random small changes of each file of klayout_pex, tried against the checks that concern the file.

Prints those that pass the tests and are not caught (SURVIVES), with their difference.  JOBS mutants at a time.
"""
import ast
import atexit
import difflib
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed

CHECKS = {
    'rcx25/c/sidewall_and_fringe_extractor.py': 'P03 P02 P04 P26', 'rcx25/c/overlap_extractor.py': 'P01', 'rcx25/c/polygon_utils.py': 'P03 P04',
    'rcx25/c/geometry_restorer.py': 'P04 P03 P26', 'rcx25/extractor.py': 'P10 P13 P04 P02 P08 P26 P06', 'rcx25/extraction_results.py': 'P05 P06',
    'rcx25/extraction_reporter.py': 'P26 P06', 'rcx25/netlist_expander.py': 'P07', 'rcx25/pex_mode.py': 'P10 P23',
    'rcx25/r/r_extractor.py': 'P08 P09 P13 P25', 'rcx25/r/resistor_network.py': 'P29 P09', 'rcx25/r/conductance.py': 'P29',
    'rcx25/types.py': 'P05 P06',
    'klayout/lvsdb_extractor.py': 'P11 P13 P34', 'klayout/netlist_expander.py': 'P19', 'klayout/netlist_reducer.py': 'P20',
    'klayout/netlist_csv.py': 'P19 P22', 'klayout/repair_rdb.py': 'P26', 'klayout/shapes_pb2_converter.py': 'P25', 'klayout/lvs_runner.py': 'P24 P33',
    'klayout/rex_core.py': 'P25 P08',
    'tech_info.py': 'P12 P13 P16 P22', 'fastercap/fastercap_model_generator.py': 'P14 P15', 'fastercap/fastercap_input_builder.py': 'P16',
    'fastercap/fastercap_runner.py': 'P22 P17', 'fastcap/fastcap_runner.py': 'P22 P17', 'common/capacitance_matrix.py': 'P17 P22',
    'magic/magic_ext_file_parser.py': 'P27', 'magic/magic_ext_data_structures.py': 'P27', 'magic/magic_log_analyzer.py': 'P27',
    'magic/magic_runner.py': 'P32', 'netlistsvg/netlistsvg_runner.py': 'P28', 'netlistsvg/netlist_json.py': 'P28', 'netlist/netlist_cli.py': 'P28',
    'log/logger.py': 'P33', 'util/multiple_choice.py': 'P30', 'util/argparse_helpers.py': 'P23 P30', 'env.py': 'P23 P22 P32', 'pdk_config.py': 'P23',
    'kpex_cli.py': 'P23 P24 P34 P06 P22 P33 P32 P10',
}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '*', ast.BitAnd: '|', ast.BitOr: '&'}
LOG = {'info', 'debug', 'warning', 'error', 'rule', 'subproc', 'print', 'register_additional_handler', 'add_argument', 'add_argument_group'}
INNER = r'''
mount --bind "$0/repo" /repo && mount --bind "$0/verif" /verif && mount --bind "$0/vp" /opt/vp && mount --bind "$0/tmp" /var/tmp || exit 9
T=/var/tmp
bash /opt/vp/build.sh >$T/b.log 2>&1 || { echo "BUILD FAILS"; exit; }
bash /opt/vp/test.sh $T/o.json >/dev/null 2>&1
python3 - <<'Q' || exit
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/var/tmp/o.json'))
m=set(b['stable'])-set(o['passed'])
if m: print('tests fail'); raise SystemExit(1)
Q
for c in $1; do
  cd /verif; KV_FAST=1 VERIF_SEED=1 VERIF_TIER=quick timeout 900 /opt/venv/bin/python run.py $c > $T/c.out 2>&1; r=$?
  [ $r = 1 ] && grep -q "VIOLATION property=$c" $T/c.out && { echo "caught by $c: $(grep -m1 '^P.. \[' $T/c.out | cut -c1-120)"; exit; }
  [ $r = 0 ] || { echo "EXIT $r of $c: $(tail -1 $T/c.out | cut -c1-150)"; exit; }
done
echo SURVIVES
'''


def mutants(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    at = lambda l, c: off[l - 1] + c
    span = lambda n: (at(n.lineno, n.col_offset), at(n.end_lineno, n.end_col_offset))
    text = lambda n: b[span(n)[0]:span(n)[1]].decode()
    out = []

    def between(x, y, new):
        out.append((span(x)[1], span(y)[0], ' ' + new + ' '))

    def visit(n, skip):
        if isinstance(n, ast.Call):
            f = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')
            if f in LOG:
                return
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.JoinedStr, ast.arguments)) or isinstance(n, ast.AnnAssign) and n.value is None:
            return
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and getattr(n.test.left, 'id', '') == '__name__':
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            between(n.left, n.comparators[0], CMP[type(n.ops[0])])
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.JoinedStr):
            t = b[span(n.left)[1]:span(n.right)[0]].decode()
            if '(' not in t and ')' not in t:
                between(n.left, n.right, BIN[type(n.op)])
        if isinstance(n, ast.BoolOp) and len(n.values) == 2:
            t = b[span(n.values[0])[1]:span(n.values[1])[0]].decode()
            if '(' not in t and ')' not in t and '#' not in t:
                out.append((span(n.values[0])[1], span(n.values[1])[0], t.replace(' and ', ' or ') if isinstance(n.op, ast.And) else t.replace(' or ', ' and ')))
        if isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None and n.value is not Ellipsis:
            v = n.value
            new = {True: 'False', False: 'True'}[v] if isinstance(v, bool) else (str(v + 1) if isinstance(v, int) else repr(v * 1.25 if v else 0.5))
            out.append((*span(n), new))
            if isinstance(v, int) and not isinstance(v, bool) and v > 0:
                out.append((*span(n), str(v - 1)))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            out.append((*span(n), text(n.operand)))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)) and not isinstance(n.test, (ast.Compare, ast.UnaryOp)):
            out.append((*span(n.test), f'(not ({text(n.test)}))'))
        if isinstance(n, ast.If):
            out.append((*span(n.test), 'False'))
            if n.orelse:
                out.append((*span(n.test), 'True'))
        if isinstance(n, (ast.AugAssign, ast.Break, ast.Continue)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            f = n.value.func if isinstance(n, ast.Expr) else None
            if not (f is not None and (f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')) in LOG):
                out.append((*span(n), 'pass'))
        if isinstance(n, (ast.For, ast.comprehension)):
            for new in ('list(%s)[:3]', 'list(%s)[:-1]', 'list(%s)[1:]'):
                out.append((*span(n.iter), new % text(n.iter)))
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value and '\n' not in n.value and len(n.value) < 30:
            out.append((*span(n), repr(n.value + '_')))
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
            x, y = n.args[:2]
            if text(x) != text(y):
                out.append((span(x)[0], span(y)[1], text(y) + b[span(x)[1]:span(y)[0]].decode() + text(x)))
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            for p, q in (('left', 'right'), ('top', 'bottom'), ('p1', 'p2'), ('x', 'y'), ('width', 'height'), ('first', 'second'), ('min', 'max')):
                for p, q in ((p, q), (q, p)):
                    if n.attr == p:
                        out.append((span(n)[1] - len(p), span(n)[1], q))
        for c in ast.iter_child_nodes(n):
            visit(c, skip)
    visit(tree, False)
    res = []
    for s, e, new in out:
        t = (b[:s] + new.encode() + b[e:]).decode()
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        if t != src:
            res.append(t)
    return res


def one(m):
    name, f, checks, t = m
    p0 = BASE + '/repo/klayout_pex/' + f
    w = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    try:
        shutil.copytree(BASE + '/repo', w + '/repo', symlinks=True)
        shutil.copytree(BASE + '/verif', w + '/verif', symlinks=True)
        os.makedirs(w + '/verif/evidence')
        os.makedirs(w + '/tmp')
        shutil.copytree('/opt/vp', w + '/vp', symlinks=True)
        open(w + '/repo/klayout_pex/' + f, 'w').write(t)
        r = subprocess.run(['unshare', '-m', 'bash', '-c', INNER, w, checks], capture_output=True, text=True, errors='replace', cwd='/')
        d = [l for l in difflib.unified_diff(open(p0).read().split('\n'), t.split('\n'), lineterm='', n=0)][2:]
        o = r.stdout.strip()
        return f'{name}: {o}' + ('' if 'caught' in o or 'tests fail' in o else '\n    ' + '\n    '.join(d)) + (r.stderr[-300:] if r.returncode == 9 else '')
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    BASE = tempfile.mkdtemp(prefix='ambase.', dir='/tmp')    # what is there now, whatever is edited meanwhile
    atexit.register(shutil.rmtree, BASE, True)
    shutil.copytree('/repo', BASE + '/repo', symlinks=True)
    shutil.copytree('/verif', BASE + '/verif', symlinks=True, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    todo = []
    for f in sys.argv[3:] or CHECKS:
        ms = mutants(open('/repo/klayout_pex/' + f).read())
        random.Random(f'{seed}{f}').shuffle(ms)
        for i, t in enumerate(ms[:n]):
            todo.append((f'{f}#{seed}.{i}/{len(ms)}', f, CHECKS[f], t))
    random.Random(seed).shuffle(todo)
    if os.environ.get('LIST'):
        print(len(todo))
        raise SystemExit
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '3'))) as ex:
        for r in as_completed([ex.submit(one, t) for t in todo]):
            print(r.result(), flush=True)
