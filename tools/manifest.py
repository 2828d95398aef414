"""Rewrites MANIFEST.json from registry.py and properties.jsonl."""
import json, sys
sys.path.insert(0, '/verif')
from registry import PROPS
ps = [json.loads(l) for l in open('/verif/properties.jsonl') if l.strip()]
chk, na = [], []
for p in ps:
    i = p['id']
    if i not in PROPS:
        na.append({'property': i, 'reason': 'no check yet'})
        continue
    c = PROPS[i]
    chk.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough VERIF_BUDGET=3000 python3 check.py ' + i,
                'technique': 'explicit TLA+ specification model-checked with TLC; calls of the real code recorded and validated against it '
                             '(trace conformance by TLC)' + (', driven by behaviours TLC generates from the specification' if c.get('gen') else ''),
                'level': 'model_checking',
                'level_note': c.get('note', 'The model (%s) is checked exhaustively on its bounded instance; the code is bound to it by '
                              'validating every recorded call of seeded inputs, so conformance is established on the explored inputs only.'
                              % ', '.join(sorted({m[1] for m in c.get('mc', [])})))})
json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': chk, 'not_applicable': na}, open('/verif/MANIFEST.json', 'w'), indent=1)
