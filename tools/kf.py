"""Adds a record to known_findings.json:  kf.py finding PID KEY WHAT WHERE  |  kf.py fixed PID COMMIT WHAT"""
import json, sys
d = json.load(open('known_findings.json'))
if sys.argv[1] == 'finding':
    _, _, pid, key, what, where = sys.argv
    d['findings'] = [f for f in d['findings'] if (f['property'], f['key']) != (pid, key)]
    d['findings'].append(dict(property=pid, key=key, what=what, where=where))
else:
    _, _, pid, commit, what = sys.argv
    d['fixed'].append('fixed: property=%s %s %s' % (pid, commit, what))
json.dump(d, open('known_findings.json', 'w'), indent=1)
