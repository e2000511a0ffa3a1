"""Regenerate MANIFEST.json from analysis/rules.json and the list of properties."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rules = json.load(open(H + '/analysis/rules.json'))
props = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
na = {'C27': 'Stack depth is a quantitative run-time bound: recursive descent, recursive printing and recursive drops use stack proportional to nesting depth, and no sound static bound on the nesting of an input exists.',
      'C28': 'Parse time is a quantitative run-time bound over backtracking depth; no sound static argument in reach bounds it.'}
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup',
     'checks': [{'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
                 'technique': rules[p]['technique'], 'level': rules[p]['level'], 'level_note': rules[p]['note']} for p in props if p in rules],
     'not_applicable': [{'property': p, 'reason': na.get(p, 'No check claimed yet.')} for p in props if p not in rules],
     'notes': 'No hooks in /repo: the checks read the compiler\'s MIR of the unmodified crate.'}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
