"""Writes MANIFEST.json from the registry (claimed) and properties.jsonl (the rest)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.dirname(here))
from lfa.registry import CHECKS
from meta.technique import TECH, NA
base = os.path.dirname(here)
props = [json.loads(l) for l in open(base + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        t, n = TECH[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='python3 check.py %s --thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=t, level='other', level_note=n))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check is registered for this property at this commit')))
json.dump(dict(version=1, setup_cmd='bash tool/build.sh', checks=checks, not_applicable=na,
               notes='All checks are static: they compile drivers against /repo/include, never run them, and decide rules over the normalised LLVM IR or over what the compilers accept. See DESIGN.md.'),
          open(base + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
