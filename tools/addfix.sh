#!/bin/sh
# addfix.sh PROPERTY TEXT: records the last commit of /repo as the fix of a finding
cd /verif && H=$(git -C /repo log --format=%h -1) P="$1" T="$2" python3 - <<'Q' && python3 tools/fixed.py && python3 tools/build_manifest.py && python3 tools/build_design.py
import os
p='tools/fixed.py'; s=open(p).read()
i=s.index('FIXED'); j=s.index('\n]',i)
s=s[:j]+'\n    '+repr((os.environ['P'],os.environ['H'],os.environ['T']))+','+s[j:]
open(p,'w').write(s)
Q
