import sys, time, json
sys.path.insert(0, __file__.rsplit('/', 2)[0])
from engine.ir import Module
from engine.symex import Exec
from engine import smt
m = Module(sys.argv[1])
opts = {'verbose': True}
for a in sys.argv[2:]:
    if '=' in a:
        k, v = a.split('=', 1)
        opts[k] = int(v)
for h in [a for a in sys.argv[2:] if '=' not in a]:
    t = time.time()
    E = Exec(m, h, dict(opts))
    E.run()
    print('==', h, 'paths', E.paths, 'infeasible', E.infeasible, 'time %.1f' % (time.time() - t), 'steps', E.total, 'solver', smt.STATS, 'feas', E.pr.feas_q, '%.1f' % E.pr.feas_t)
    for l, r in E.results.items():
        print('  ', l, r)
    print('   covers', E.covers)
    seen = set()
    for u in E.undecided:
        k = (u[0], u[1])
        if k in seen: continue
        seen.add(k)
        print('   UNDECIDED', u[0], u[1], str(u[2])[:600])
    for f in E.failed[:5]:
        print('   FAILED', f['label'], f['backend'], f['goal'][:200], f['model'], f['where'][-1:])
