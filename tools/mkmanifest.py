#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property of properties.jsonl that has searches in the harness."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = ''.join(open(f).read() for f in sorted(glob.glob(root + '/harness/props/*_test.go')))
notes = json.load(open(root + '/tools/notes.json'))
checks = []
for l in open(root + '/properties.jsonl'):
    p = json.loads(l)
    tests = re.findall(r'^func (Test%s_\w+)\(' % p['id'], src, re.M)
    if not tests:
        print('no check yet:', p['id'])
        continue
    n = notes[p['id']]
    checks.append(dict(property=p['id'], quick_cmd='./check ' + p['id'], thorough_cmd='VERIF_TIER=thorough ./check ' + p['id'],
                       technique=n[0], level='exploration', level_note=n[1]))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=[]), open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks')
