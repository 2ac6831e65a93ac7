"""Run one harness; write a JSON result."""
import sys, time, json, os, resource
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
from fractions import Fraction
from engine.ir import Module
from engine.symex import Exec
from engine import smt


def conv(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, Fraction):
        return float(v)
    return v


def main():
    ll, h, opts, out = sys.argv[1:5]
    t0 = time.time()
    E = None
    res = {'harness': h, 'error': None}
    try:
        m = Module(ll)
        E = Exec(m, h, json.loads(opts))
        E.run()
    except MemoryError:
        res['error'] = 'out of memory'
    except RecursionError:
        res['error'] = 'recursion'
    except Exception as e:
        import traceback
        res['error'] = '%s: %s' % (type(e).__name__, traceback.format_exc()[-1500:])
    if E is not None:
        res.update(paths=E.paths, infeasible=E.infeasible, steps=E.total, results=E.results, covers=E.covers,
                   throws=E.throws,
                   failed=[dict(f, model={k: conv(v) for k, v in (f['model'] or {}).items()}, inputs=None) for f in E.failed],
                   undecided=[(u[0], u[1], (dict(u[2], model=None, inputs=None) if isinstance(u[2], dict) else u[2])) for u in E.undecided[:60]],
                   n_undecided=len(E.undecided),
                   funcs=sorted(E.funcs_run), externs=E.externs)
    res['wall'] = time.time() - t0
    res['solver'] = smt.STATS
    res['feas_q'] = E.pr.feas_q if E else 0
    json.dump(res, open(out, 'w'), default=str)


main()
