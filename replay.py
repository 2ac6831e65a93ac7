#!/usr/bin/env python3
"""replay.py FILE: rebuild the contract file from /repo's working tree and run the recorded input natively."""
import sys, json, os, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
r = json.load(open(sys.argv[1]))
w = tempfile.mkdtemp()
f = os.path.join(check.V, 'contracts', r['contract_file'])
ll, err = check.compile_all([f], w)[f]
if not ll:
    print(err); sys.exit(2)
o = dict(check.harnesses(f)).get(r['harness'], {})
rc, out = check.Native(w).replay(ll, r['harness'], r['inputs'], o)
print(out)
shutil.rmtree(w)
sys.exit(rc if rc is not None else 2)
