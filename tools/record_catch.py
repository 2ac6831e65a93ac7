#!/usr/bin/env python3
"""record_catch.py ID LOG: note in tools/caught.json which obligation caught a planted bug"""
import sys, json, os, re
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'caught.json')
c = json.load(open(f)) if os.path.exists(f) else {}
t = open(sys.argv[2]).read()
m = re.search(r'failed obligation: (\w+) / (.{0,90})', t)
c[sys.argv[1]] = '%s: %s%s' % (m.group(1), m.group(2), ' (no failing input)' if 'no-failing' in t and not re.search(r'VIOLATION.*json$', t, re.M) else '') if m else 'missed'
json.dump(c, open(f, 'w'), indent=1, sort_keys=True)
