EDITS = [('klayout_pex/log/logger.py', '''    __logger.log(LogLevel.SUBPROCESS, msg, **kwargs)
''', '''    __logger.log(LogLevel.SUBPROCESS, str(msg).strip(), **kwargs)
''')]
META = {'property': 'P33', 'needs': 'output of a program with blanks at the beginning of a line', 'what_it_breaks': 'the blanks are missing in the log, so that columns are not aligned'}
# demo
import logging
from l2n import *
from klayout_pex.log import subproc, register_additional_handler
set_log_level(LogLevel.SUBPROCESS)
with tempfile.TemporaryDirectory() as d:
    h = logging.FileHandler(os.path.join(d, 'x.log'), encoding='utf-8')
    register_additional_handler(h)
    subproc('    1   2')
    h.close()
    with open(os.path.join(d, 'x.log'), encoding='utf-8') as f:
        got = f.read()
assert got == '    1   2\n', got
