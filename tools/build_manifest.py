"""Writes properties.jsonl and MANIFEST.json from tools/props.py (a property is claimed when checks/<id>.py exists)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE  # noqa: E402

PY = '/opt/venv/bin/python'


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as fh:
        for p in PROPS:
            d = {
                'id': p['id'], 'title': p['title'], 'statement': ' '.join(p['statement'].split()),
                'quantifier': {'over': p.get('over', ['inputs']), 'text': ' '.join(p['text'].split())},
                'why_tests_cant': ' '.join(p['why'].split()),
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                            'observe_at': p.get('observe', [])},
            }
            for f in p['files']:
                assert os.path.exists('/repo/' + f), f
            assert len(d['title']) <= 80, d['title']
            assert d['statement'].count('. ') <= 2, (p['id'], d['statement'].count('. '))
            fh.write(json.dumps(d, ensure_ascii=False) + '\n')
    checks = []
    for p in PROPS:
        i = p['id']
        if not os.path.isfile(os.path.join(VERIF, 'checks', i.lower() + '.py')):
            continue
        checks.append({
            'property': i,
            'quick_cmd': f'{PY} run.py {i}',
            'thorough_cmd': f'VERIF_TIER=thorough {PY} run.py {i}',
            'evidence_file': f'evidence/{i}.json',
            'technique': p['technique'],
            'level': p.get('level', 'exploration'),
            'level_note': ' '.join(p['note'].split()),
        })
    m = {
        'version': 1,
        'setup_cmd': f'{PY} run.py --setup',
        'checks': checks,
        'not_applicable': NOT_APPLICABLE,
        'notes': 'No hooks in /repo: the checks import klayout_pex from /repo\'s working tree and rebuild the generated '
                 'technology files and protobuf modules when their sources changed. The /repo commits starting with '
                 '"fix:" are listed in known_findings.jsonl.',
    }
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')
    claimed = {c['property'] for c in checks}
    na = {n['property'] for n in NOT_APPLICABLE}
    for p in PROPS:
        if p['id'] not in claimed and p['id'] not in na:
            print('neither claimed nor not applicable:', p['id'])
    print(len(checks), 'checks')


main()
