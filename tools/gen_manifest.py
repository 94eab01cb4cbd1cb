"""writes MANIFEST.json from properties.jsonl and the modules in checks/"""
import importlib
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
NA = json.load(open('tools/not_applicable.json')) if os.path.exists('tools/not_applicable.json') else {}
checks, na = [], []
for l in open('properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    if os.path.exists('checks/%s.py' % i) and i not in NA:
        m = importlib.import_module('checks.' + i)
        checks.append(dict(property=i, quick_cmd='./run_check.sh %s quick' % i, thorough_cmd='./run_check.sh %s thorough' % i,
                           technique=getattr(m, 'TECHNIQUE', 'symbolic execution of the real code (clang IR of the C kernels, translated Cython, Python) with Z3 deciding every branch and assertion; '
                                             'counterexamples and path witnesses replayed on the compiled code'),
                           level='model_checking', level_note='bounded: ' + m.BOUNDS + '. Outside: ' + m.OUTSIDE))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check has been built yet')))
d = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='Checks exit 0 also when a configuration could not be decided (INCOMPLETE / INCONCLUSIVE lines and the evidence file say so); see DESIGN.md.')
json.dump(d, open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
