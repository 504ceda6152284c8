"""Appends a 'fixed' entry to known_findings.json: addfix.py PROP COMMIT WHAT."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(p))
d['findings'].append(dict(property=sys.argv[1], status='fixed', line='fixed: property=%s %s %s' % tuple(sys.argv[1:4])))
json.dump(d, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
