EDITS = [('klayout_pex/util/multiple_choice.py', '''        if self.has_none and len(self.excluded) >= 1:
''', '''        if self.has_none and len(self.excluded) > 1:
''')]
META = {'property': 'P30', 'needs': 'a pattern of none and one exclusion', 'what_it_breaks': 'the contradictory pattern is accepted'}
# demo
import os
import sys
sys.path.insert(0, os.getcwd())
from klayout_pex.util.multiple_choice import MultipleChoicePattern
for p in ('none,-a', 'none,-a,-b', '-a,none'):
    try:
        MultipleChoicePattern(pattern=p)
    except ValueError:
        continue
    raise AssertionError(f'{p} was accepted')
