#!/usr/bin/env python3
"""finding.py PROP COMMIT TEXT: append a fixed entry to known_findings.json"""
import json, sys
p = '/verif/known_findings.json'
k = json.load(open(p))
k.append({'property': sys.argv[1], 'status': 'fixed', 'commit': sys.argv[2], 'what': sys.argv[3],
          'text': 'fixed: property=%s %s %s' % tuple(sys.argv[1:4])})
json.dump(k, open(p, 'w'), indent=1)
