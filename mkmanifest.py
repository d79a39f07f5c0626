#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json, os
from props import PROPS
V = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl')) if l.strip()]
NA = getattr(__import__('props'), 'NOT_APPLICABLE', {})
m = dict(version=1, setup_cmd='bash setup.sh',
    hooks=dict(guard='cfg(kani)', enable='set by cargo kani', source_commits=['b2b96a3', 'bd967b9', '4474f32', 'eca3554', '107fe4a']),
    checks=[dict(property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p, technique=PROPS[p]['technique'], level=PROPS[p]['level'], level_note=PROPS[p]['note']) for p in ids if p in PROPS],
    not_applicable=[dict(property=p, reason=NA.get(p, 'not built yet')) for p in ids if p not in PROPS])
open(os.path.join(V, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + '\n')
