EDITS = [('klayout_pex/util/argparse_helpers.py', '''    match str(arg).lower():
''', '''    match str(arg):
''')]
META = {'property': 'P23', 'needs': 'a boolean in capitals, e.g. True', 'what_it_breaks': 'the value is rejected'}
# demo
from l2n import *
from klayout_pex.util.argparse_helpers import true_or_false
for w, v in (('yes', True), ('True', True), ('TRUE', True), ('Y', True), ('No', False), ('false', False), ('F', False), ('0', False)):
    try:
        got = true_or_false(w)
    except Exception as e:
        got = e
    assert got is v, (w, got)
