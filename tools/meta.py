#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  python3 tools/meta.py rewrites both."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import jobs as J
E = 'src/embedDB/embedDB.c'
D = 'lib/Distribution/embedDB.c'
Q = 'src/query-interface/advancedQueries.c'
S = 'src/spline/spline.c'
U = 'lib/EmbedDB-Utility/embedDBUtility.c'
P = []


def prop(pid, title, statement, over, text, why, files, mech, state=(), observe=(), na=None, technique=None, note=None):
    P.append(dict(id=pid, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                           'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state], 'observe_at': list(observe)},
                  _na=na, _t=technique, _n=note))


TESTS = 'The unit tests insert a few fixed key sequences (mostly consecutive 32-bit keys at one page size) and look at chosen keys; '
NOTE_FP = 'bounded as listed in the job table; floating-point division and conversion are uninterpreted functions of their exact operands (AVG is checked up to congruence)'
exec(open(os.path.join(HERE, 'tools', 'props.py')).read())

TECH = 'symbolic execution of the LLVM IR of the real sources, assertions decided by Z3 over all values within stated bounds; counterexamples replayed natively'
NOTE = 'bounded: every value of every symbolic input, for the page sizes, record counts and operation shapes listed in the job table (DESIGN.md); nothing is claimed outside those bounds'


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
    checks, na = [], []
    for p in P:
        if p['_na'] or p['id'] not in J.JOBS:
            na.append({'property': p['id'], 'reason': p['_na'] or 'check under construction'})
            continue
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                       'technique': p['_t'] or TECH, 'level': 'model_checking', 'level_note': p['_n'] or NOTE})
    m = {'version': 1, 'setup_cmd': 'bash engine/build.sh', 'checks': checks, 'not_applicable': na}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks;', [x['property'] for x in na])


main()
