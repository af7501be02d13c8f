"""Writes MANIFEST.json from the checks present (run from /verif)."""
import json, os
CH = {
 'P02': ('exhaustive enumeration of element-addition sequences on the real analysis, each compared with an exact rational reference model',
         'All sequences of the stated alphabet up to the bound; values fixed. Trusts the 60-line reference tableau.'),
}
NA = {}
exec(open('tools/checks_meta.py').read()) if os.path.exists('tools/checks_meta.py') else None
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
checks = []
na = []
for i in ids:
    if os.path.exists('checks/%s.py' % i.lower()) and i in CH:
        checks.append({'property': i, 'quick_cmd': './check %s quick' % i,
                       'thorough_cmd': './check %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'model checking: ' + CH[i][0], 'level': 'model_checking',
                       'level_note': CH[i][1]})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Checks run the real code of /repo\'s working tree in forked workers inside a scratch directory; see DESIGN.md.'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
