EDITS = [('klayout_pex/fastercap/fastercap_runner.py', '''    if ooc_condition is not None:
''', '''    if ooc_condition:
''')]
META = {'property': 'P22', 'needs': 'the out-of-core condition 0', 'what_it_breaks': 'FasterCap does not get -f0, the option asked for'}
# demo
import os
import sys
import tempfile
sys.path.insert(0, os.getcwd())
from klayout_pex.fastercap.fastercap_runner import run_fastercap
from klayout_pex.log import set_log_level, LogLevel
set_log_level(LogLevel.CRITICAL)
with tempfile.TemporaryDirectory() as d:
    exe = os.path.join(d, 'fc')
    with open(exe, 'w') as f:
        f.write(f'#!/bin/sh\nfor a; do echo "$a"; done > {d}/args\n')
    os.chmod(exe, 0o755)
    for ooc in (0, 2, None):
        run_fastercap(exe_path=exe, lst_file_path='x.lst', log_path=os.path.join(d, 'log'), tolerance=0.05, d_coeff=0.5, mesh_refinement_value=0.5,
                      ooc_condition=ooc, auto_preconditioner=True, galerkin_scheme=False, jacobi_preconditioner=False)
        args = open(os.path.join(d, 'args')).read().split()
        assert [a for a in args if a.startswith('-f')] == ([] if ooc is None else [f'-f{ooc}']), args
