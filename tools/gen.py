#!/usr/bin/env python3
"""regenerate properties.jsonl and MANIFEST.json from config.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); sys.dont_write_bytecode = True
import config as c
NOTE = ('Every obligation is generated from the LLVM IR of the current sources of /repo, executed symbolically on unconstrained inputs, and discharged by an algebraic identity test '
        '(residue field, one-sided error < 2^-50 per identity) or z3; doubles are treated as mathematical reals, external library calls by their contract.')
with open(V + '/properties.jsonl', 'w') as f:
    for i, p in sorted(list(c.PROPERTIES.items()) + list(c.NOT_APPLICABLE.items())):
        assert len(p['title']) <= 80, (i, len(p['title']))
        f.write(json.dumps(dict(id=i, title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=p['mech']))) + '\n')
m = dict(version=1, setup_cmd='python3-vt gv/build.py all',
         checks=[dict(property=i, quick_cmd='python3-vt gv/check.py ' + i, thorough_cmd='python3-vt gv/check.py %s --tier thorough' % i,
                      technique='contracts on the real code, VCs from LLVM IR, identity test + z3', level=p['level'], level_note=(p['note'] + ' ' if p['note'] else '') + NOTE + (' Bounds: ' + p['bounds'] + '.' if p.get('bounds') else '') + (' Assumed: ' + '; '.join(p['assumptions']) + '.' if p['assumptions'] else ''))
                 for i, p in sorted(c.PROPERTIES.items())],
         not_applicable=[dict(property=i, reason=p['reason']) for i, p in sorted(c.NOT_APPLICABLE.items())])
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
