"""Regenerate MANIFEST.json from props.PROPS and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ('solver-based checking of the real code: forking symbolic execution of clang IR of the library, '
        'assertions over symbolic inputs decided by z3 (linear arithmetic / bit-vectors), counterexamples replayed natively')
NOTE = 'bounded symbolic execution of the compiled library; bounds: %s'
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {}
checks = []
for i in ids:
    if i in props.PROPS:
        P = props.PROPS[i]
        b = P['bounds']
        checks.append(dict(property=i, quick_cmd='./check %s --tier quick' % i, thorough_cmd='./check %s --tier thorough' % i, technique=TECH,
                           level=P['level'], level_note=NOTE % (b if isinstance(b, str) else 'quick: %s; thorough: %s' % (b['quick'], b['thorough']))))
na = [dict(property=i, reason=NA.get(i, 'check under construction')) for i in ids if i not in props.PROPS]
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
