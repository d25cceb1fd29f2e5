#!/usr/bin/env python3
"""Regenerates properties.jsonl, MANIFEST.json and race-properties.txt from tools/props/*.py.

Each file defines P = dict(id, title, statement, over, text, why, files, mechanism=[(name, where)],
observe=[...], note, technique=..., race=False)."""
import glob, json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props = []
for f in sorted(glob.glob(here + '/props/P*.py')):
    ns = {}
    exec(open(f).read(), ns)
    props.append(ns['P'])
with open(root + '/properties.jsonl', 'w') as o:
    for p in props:
        assert len(p['title']) <= 80, p['id']
        s = ' '.join(p['statement'].split())
        o.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': s,
            'quantifier': {'over': p['over'], 'text': ' '.join(p['text'].split())},
            'why_tests_cant': ' '.join(p['why'].split()),
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']],
                        'observe_at': p['observe'], 'hook_needed': None}}, ensure_ascii=False) + '\n')
json.dump({
    'version': 1,
    'setup_cmd': 'bash setup.sh',
    'checks': [{
        'property': p['id'], 'quick_cmd': 'bash check.sh ' + p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough bash check.sh ' + p['id'],
        'technique': p.get('technique', 'runtime monitoring: generated workload, online oracle'),
        'level': 'exploration', 'level_note': ' '.join(p['note'].split())} for p in props],
    'not_applicable': [],
    'notes': 'No hook is compiled in /repo: the monitors observe the exported API, the command line binary and the file system. The commits in /repo are repairs ("fix:"), listed in known-findings.jsonl.'
}, open(root + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(root + '/MANIFEST.json', 'a').write('\n')
open(root + '/race-properties.txt', 'w').write(''.join(p['id'] + '\n' for p in props if p.get('race')))
print(len(props), 'properties')
