"""writes MANIFEST.json from specs.PROPS / INFO and properties.jsonl"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import specs
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    info = specs.INFO.get(i, {})
    if i in specs.PROPS and not info.get('unclaimed'):
        checks.append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                       'technique': info.get('technique', 'contract-based deductive verification: verification conditions generated from the Python and Cython sources, discharged by z3/cvc5'),
                       'level': info.get('level', 'proof'),
                       'level_note': info.get('note', 'All obligations of the listed contracts, both back ends, unbounded; assumptions in the evidence file.')})
    else:
        na.append({'property': i, 'reason': specs.NA.get(i, 'no check yet')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'python3-vt -m vf.check; see DESIGN.md'}, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
