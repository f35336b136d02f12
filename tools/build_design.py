"""Writes DESIGN.md from tools/design/*.md, tools/props.py, known_findings.jsonl and seeded/."""
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE  # noqa: E402


def read(name):
    p = os.path.join(HERE, 'design', name)
    return open(p).read().strip() if os.path.isfile(p) else ''


def seconds(pid):
    try:
        e = json.load(open(os.path.join(VERIF, 'evidence', f'{pid}.json')))
        return f'{e["coverage"]["evaluations"]} cases'
    except OSError:
        return '?'


out = [read('head.md'), '', '## Properties', '']
for p in PROPS:
    pid = p['id']
    if not os.path.isfile(os.path.join(VERIF, 'checks', pid.lower() + '.py')):
        continue
    src = open(os.path.join(VERIF, 'checks', pid.lower() + '.py')).read()
    m = re.search(r"^RULE = (\(.*?\))\n(?=[A-Z])", src, re.M | re.S)
    rule = ' '.join(eval(m.group(1)).split()) if m else ''
    m = re.search(r"^ASSUMPTIONS = (\[.*?\])\n", src, re.M | re.S)
    ass = eval(m.group(1)) if m else []
    out += [f'### {pid} {p["title"]}', '', f'*Decided by* {p["technique"]}.', '', read(f'{pid}.md'), '',
            f'*Search*: {rule}.', '']
    if ass:
        out += ['*Assumed*: ' + '; '.join(ass) + '.', '']
if NOT_APPLICABLE:
    out += ['## Not applicable', ''] + [f'* {n["property"]}: {n["reason"]}' for n in NOT_APPLICABLE] + ['']
out += [read('findings.md'), '', '### Repaired ("fix:" commits)', '', '| property | commit | what failed |', '|---|---|---|']
finds = []
for l in open(os.path.join(VERIF, 'known_findings.jsonl')):
    d = json.loads(l)
    if d['status'] == 'fixed':
        out.append(f'| {d["property"]} | {d["commit"]} | {d["summary"]} |')
    else:
        finds.append(d)
out += ['', '### Recorded, not repaired', ''] + [f'* **{d["id"]}** ({d["property"]}): {d["summary"]}. {d.get("why", "")}' for d in finds]
out += ['', read('seeded.md'), '', '| bug | property | needs | breaks | caught by |', '|---|---|---|---|---|']
res = {}
rp = os.path.join(HERE, 'design', 'seeded_results.json')
if os.path.isfile(rp):
    res = json.load(open(rp))
sd = os.path.join(VERIF, 'seeded')
for b in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, b, 'meta.json')))
    out.append(f'| {b} | {m["property"]} | {m["needs"]} | {m["what_it_breaks"]} | {res.get(b, "?")} |')
out += ['', read('tail.md')]
open(os.path.join(VERIF, 'DESIGN.md'), 'w').write('\n'.join(out).rstrip() + '\n')
