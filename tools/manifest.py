#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json, os, subprocess, sys
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,ROOT)
from registry import CHECKS
ids=[json.loads(l)['id'] for l in open(os.path.join(ROOT,'properties.jsonl'))]
try:
    from registry import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE={}
m=dict(version=1,setup_cmd='python3 run.py --selftest',
 checks=[dict(property=i,quick_cmd='python3 run.py %s quick'%i,thorough_cmd='python3 run.py %s thorough'%i,technique=CHECKS[i]['technique'],level=CHECKS[i]['level'],level_note=CHECKS[i]['note']) for i in ids if i in CHECKS],
 not_applicable=[dict(property=i,reason=NOT_APPLICABLE.get(i,'check not built yet')) for i in ids if i not in CHECKS])
json.dump(m,open(os.path.join(ROOT,'MANIFEST.json'),'w'),indent=1)
print(len(m['checks']),'claimed',len(m['not_applicable']),'not')
