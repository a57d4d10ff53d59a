"""Regenerates MANIFEST.json from the list below (kept by hand)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
import sys
sys.path.insert(0, os.path.join(HERE, 'harness'))
NOTES = json.load(open(os.path.join(HERE, 'harness', 'level_notes.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in NOTES and 'technique' in NOTES[p]:
        checks.append(dict(property=p, quick_cmd='VERIF_TIER=quick python3 check.py %s --tier quick' % p,
                           thorough_cmd='VERIF_TIER=thorough python3 check.py %s --tier thorough' % p,
                           evidence_file='evidence/%s.json' % p, technique=NOTES[p]['technique'], level='exploration',
                           level_note=NOTES[p]['note']))
    else:
        na.append(dict(property=p, reason=NOTES.get(p, {}).get('reason', 'check under construction; not claimed yet')))
m = dict(version=1, setup_cmd='python3 harness/build.py', checks=checks, not_applicable=na,
         notes='All checks are runtime monitors: harness/props/<id>.py drives the real code of /repo (C++ modules rebuilt from /repo/cpp by harness/build.py) and compares what it observes with independent oracles. No hooks were added to /repo.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
