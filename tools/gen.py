"""Writes properties.jsonl and MANIFEST.json from tools/table.py, so that the two
never disagree.  Run:  python3 tools/gen.py"""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from table import PROPS, NOT_APPLICABLE, NOTES  # noqa

with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as fp:
    for p in PROPS:
        fp.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': list(dict.fromkeys('fault_sequences' if o in ('faults', 'environments') else o for o in p['over'])), 'text': p['for_all']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
        }) + '\n')

checks = []
for p in PROPS:
    cid = p['id']
    if cid in [n['property'] for n in NOT_APPLICABLE]:
        continue
    if not os.path.exists(os.path.join(VERIF, 'checks', cid.lower() + '.py')):
        print('no check yet:', cid)
        continue
    checks.append({
        'property': cid, 'quick_cmd': './run.sh %s quick' % cid,
        'thorough_cmd': './run.sh %s thorough' % cid,
        'evidence_file': 'evidence/%s.json' % cid,
        'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
have = {c['property'] for c in checks}
na = list(NOT_APPLICABLE)
for p in PROPS:
    if p['id'] not in have and p['id'] not in [n['property'] for n in na]:
        na.append({'property': p['id'], 'reason': 'check not built yet'})
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as fp:
    json.dump({'version': 1, 'setup_cmd': './run.sh --selftest', 'checks': checks,
               'not_applicable': na, 'notes': NOTES}, fp, indent=1)
    fp.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
