"""Regenerates MANIFEST.json from an/registry.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'an'))
import registry
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
TECH = 'static analysis: abstract interpretation of the type-checked program into value-flow terms (global value numbering), compared by normal form'
NOTE = ('Decides the property on the summarised program for symbolic inputs of any size; real arithmetic (no rounding/overflow/NaN), '
        'library calls by summary (an/lib.py), user closures and type parameters uninterpreted. A construct outside the decided fragment is '
        'reported as undecided in the evidence and is not an alarm.')
m = {'version': 1, 'setup_cmd': './check.sh --setup',
     'checks': [{'property': p, 'quick_cmd': './check.sh %s quick' % p, 'thorough_cmd': './check.sh %s thorough' % p,
                 'evidence_file': 'evidence/%s.json' % p, 'technique': registry.CHECKS[p].get('technique', TECH), 'level': 'other',
                 'level_note': registry.CHECKS[p].get('note', NOTE)} for p in ids if p in registry.CHECKS],
     'not_applicable': [{'property': p, 'reason': registry.NA.get(p, 'check not built yet')} for p in ids if p not in registry.CHECKS]}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
