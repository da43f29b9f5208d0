#!/usr/bin/env python3
"""Write MANIFEST.json from harness/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/harness')
from checks import CHECKS
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = {}
m = dict(version=1, setup_cmd='python3 run_check.py --setup',
         hooks=dict(guard='THREAD_SAFE', enable='The checks compile /repo/src themselves; no hook code was added. C04 uses the existing THREAD_SAFE define (-DTHREAD_SAFE), formula/ran/model/io/extpolys checks use the existing USE_COCOA define with the stand-in headers in harness/cocoa.', source_commits=[]),
         checks=[dict(property=p, quick_cmd='python3 run_check.py %s quick' % p, thorough_cmd='python3 run_check.py %s thorough' % p,
                      evidence_file='evidence/%s.json' % p, technique=CHECKS[p]['technique'], level='exploration', level_note=CHECKS[p]['note'])
                 for p in props if p in CHECKS],
         not_applicable=[dict(property=p, reason=NA.get(p, 'not claimed: no monitor has been built for it yet')) for p in props if p not in CHECKS])
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not claimed')
