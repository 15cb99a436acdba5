#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties that have a monitor."""
import json, re, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = ''.join(open(os.path.join(here, 'harness/src/props', f)).read() for f in sorted(os.listdir(os.path.join(here, 'harness/src/props'))))
have = set(re.findall(r'id: "(C\d\d)"', src))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
from technique import T as technique
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append({
            'property': i,
            'quick_cmd': 'bash run.sh %s quick' % i,
            'thorough_cmd': 'bash run.sh %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': technique[i][0],
            'level': 'exploration',
            'level_note': technique[i][1],
        })
    else:
        na.append({'property': i, 'reason': 'monitor still being built'})
m = {'version': 1, 'setup_cmd': 'bash run.sh setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo are needed: every property is observed through the public interface and the command line tools. '
              'Defects found and repaired are listed in known_findings.txt.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
