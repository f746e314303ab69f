#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and explore/registry.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'explore'))
sys.dont_write_bytecode = True
from registry import PROPS
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(l)
    p = d['id']
    if p in PROPS:
        s = PROPS[p]
        checks.append(dict(property=p, quick_cmd='python3 check.py %s --tier quick' % p,
                           thorough_cmd='python3 check.py %s --tier thorough' % p,
                           evidence_file='evidence/%s.json' % p, technique=s['technique'], level=s['level'],
                           level_note='Exhaustive within the stated bounds, on the real code built from the working tree: '
                           + s['bounds']['quick'] + '. ' + ('Assumes: ' + '; '.join(s['assumptions']) + '.' if s['assumptions'] else
                           'Trusts the compiler, the sanitizer and the reference model written in harness/.')))
    else:
        na.append(dict(property=p, reason='no check built yet'))
m = dict(version=1, setup_cmd='python3 -c "import sys; sys.exit(0)" && g++ --version >/dev/null && clang --version >/dev/null',
         checks=checks, not_applicable=na,
         notes='No hooks are needed in /repo: every check compiles the unmodified sources from the working tree.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not')
