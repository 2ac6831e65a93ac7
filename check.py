#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: regenerate every obligation of PROPERTY from /repo's working tree and discharge it."""
import sys, os, re, json, time, glob, subprocess, tempfile, shutil, hashlib, random

V = os.path.dirname(os.path.abspath(__file__))
PY = 'python3-vt'
sys.stdout.reconfigure(line_buffering=True)


def log(*a):
    print(*a)


def contract_files(prop):
    return sorted(glob.glob(os.path.join(V, 'contracts', prop + '_*.cpp')))


def harnesses(path):
    """[(name, opts)] from HARNESS(name) with optional preceding  // @opts k=v ..."""
    out = []
    opts = {}
    for l in open(path):
        m = re.match(r'\s*//\s*@opts\s+(.*)', l)
        if m:
            for kv in m.group(1).split():
                k, _, v = kv.partition('=')
                opts[k] = (int(v) if re.match(r'-?\d+$', v) else True if v in ('', 'true') else v)
        m = re.match(r'\s*HARNESS\((\w+)\)', l)
        if m:
            out.append((m.group(1), opts))
            opts = {}
    return out


def cache_dir():
    d = os.environ.get('VP_CACHE') or os.path.join(V, '.cache')
    os.makedirs(d, exist_ok=True)
    return d


def src_key(src):
    """key over the contract file, the harness headers, the engine build flags and all of /repo's C++ sources"""
    h = hashlib.sha1()
    files = [src, os.path.join(V, 'engine/build.sh')] + sorted(glob.glob(os.path.join(V, 'inc/*')))
    for f in files:
        h.update(open(f, 'rb').read())
    for root, ds, fs in os.walk('/repo'):
        ds[:] = sorted(d for d in ds if d not in ('.git', 'doc', 'examples', 'debian', 'data', 'gui', 'scripts'))
        for f in sorted(fs):
            if f.endswith(('.hpp', '.cpp', '.h', '.ipp', '.tpp', '.hh', '.in', '.ihh', '.icc')):
                p = os.path.join(root, f)
                h.update(p.encode())
                h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]


def compile_all(files, work):
    """-> {file: (ll path or None, error text)}; compiled in parallel"""
    procs = {}
    out = {}
    for f in files:
        key = src_key(f)
        ll = os.path.join(cache_dir(), os.path.basename(f) + '.' + key + '.ll')
        if os.path.exists(ll):
            out[f] = (ll, '')
            continue
        for old in glob.glob(os.path.join(cache_dir(), os.path.basename(f) + '.*')):
            try:
                os.remove(old)
            except OSError:
                pass
        tmp = os.path.join(work, os.path.basename(f) + '.ll')
        e = open(os.path.join(work, os.path.basename(f) + '.err'), 'wb')
        procs[f] = (subprocess.Popen([os.path.join(V, 'engine/build.sh'), f, tmp], stdout=e, stderr=e), tmp, ll, e)
    for f, (p, tmp, ll, e) in procs.items():
        rc = p.wait()
        e.close()
        if rc == 0 and os.path.exists(tmp):
            shutil.move(tmp, ll)
            out[f] = (ll, '')
        else:
            out[f] = (None, open(e.name, errors='replace').read()[-3000:])
    return out


def run_jobs(jobs, work, wall):
    """jobs: [(file, ll, harness, opts)] -> results"""
    todo = list(jobs)
    running = []
    results = []
    while todo or running:
        while todo and len(running) < 8:
            f, ll, h, o = todo.pop(0)
            outp = os.path.join(work, h + '.json')
            lim = o.get('time', 240)
            p = subprocess.Popen([PY, os.path.join(V, 'engine/job.py'), ll, h, json.dumps(o), outp],
                                 stdout=subprocess.DEVNULL, stderr=open(outp + '.err', 'w'), start_new_session=True)
            running.append((p, f, ll, h, o, outp, time.time() + lim + 60))
        time.sleep(0.05)
        nr = []
        for r in running:
            p, f, ll, h, o, outp, dl = r
            if p.poll() is None:
                if time.time() > dl:
                    try:
                        os.killpg(p.pid, 9)
                    except OSError:
                        pass
                    p.wait()
                    results.append((f, ll, h, o, {'harness': h, 'error': 'watchdog timeout'}))
                else:
                    nr.append(r)
            else:
                try:
                    res = json.load(open(outp))
                except Exception:
                    res = {'harness': h, 'error': 'job died: ' + open(outp + '.err').read()[-800:]}
                results.append((f, ll, h, o, res))
        running = nr
    return results


class Native(object):
    def __init__(self, work):
        self.work = work
        self.bins = {}

    def get(self, ll):
        if ll in self.bins:
            return self.bins[ll]
        b = os.path.join(self.work, 'nat_' + hashlib.md5(ll.encode()).hexdigest()[:8])
        r = subprocess.run([os.path.join(V, 'engine/link.sh'), ll, b], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            log('native link failed:', r.stdout.decode(errors='replace')[-500:])
            b = None
        self.bins[ll] = b
        return b

    def run(self, ll, args, opts, timeout):
        b = self.get(ll)
        if not b:
            return None, ''
        env = dict(os.environ)
        if opts.get('allow_throw'):
            env['VP_ALLOW_THROW'] = '1'
        try:
            r = subprocess.run([b] + args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout, env=env, cwd=self.work)
            return r.returncode, r.stdout.decode(errors='replace')
        except subprocess.TimeoutExpired:
            return None, 'timeout'

    def replay(self, ll, h, model, opts):
        fn = os.path.join(self.work, h + '.in')
        with open(fn, 'w') as f:
            for k, v in model.items():
                try:
                    f.write('%s %.17g\n' % (k, float(v)))
                except (TypeError, ValueError, OverflowError):
                    pass
        return self.run(ll, [h, 'replay', fn], opts, 20)

    def search(self, ll, h, seed, secs, opts):
        return self.run(ll, [h, 'search', str(seed), str(secs)], opts, secs + 30)


def parse_native(out):
    fl = ''
    inp = {}
    for l in out.splitlines():
        if l.startswith('FAIL '):
            fl = l[5:]
        elif l.startswith('INPUT '):
            _, k, v = l.split()
            inp[k] = float(v)
    return fl, inp


def manifest(prop):
    try:
        for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']:
            if c['property'] == prop:
                return c
    except Exception:
        pass
    return {}


def known(prop):
    try:
        return [k for k in json.load(open(os.path.join(V, 'known_findings.json'))) if k.get('property') == prop and k.get('status') == 'known']
    except FileNotFoundError:
        return []


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[3:]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='vp_' + prop + '_')
    try:
        rc = check(prop, tier, seed, work, t0, only)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def demangle(names):
    try:
        r = subprocess.run(['c++filt'], input='\n'.join(names).encode(), stdout=subprocess.PIPE)
        return r.stdout.decode().split('\n')[:len(names)]
    except Exception:
        return list(names)


def check(prop, tier, seed, work, t0, only):
    files = contract_files(prop)
    if not files:
        log('no contract files for', prop)
        return 2
    comp = compile_all(files, work)
    tcomp = time.time() - t0
    jobs = []
    broken = []
    for f in files:
        ll, err = comp[f]
        if ll is None:
            broken.append((f, err))
            continue
        for h, o in harnesses(f):
            if only and h not in only:
                continue
            o = dict(o)
            if o.get('thorough') and tier != 'thorough':
                continue
            o['seed'] = seed
            if tier == 'thorough':
                o['ptime'] = 3 * o.get('ptime', 20)
                o['time'] = 3 * o.get('time', 240)
            else:
                o.setdefault('time', 240)
            jobs.append((f, ll, h, o))
    jobs.sort(key=lambda j: -j[3].get('weight', 1))
    results = run_jobs(jobs, work, 600)
    nat = Native(work)
    obl = disc = bobl = bdisc = 0
    backends = {}
    solver_t = 0.0
    violations = []
    undec = []
    covers_missing = []
    funcs = set()
    hinfo = []
    kn = known(prop)
    known_hit = []
    search_left = 300.0 if tier == 'quick' else 1200.0
    for f, ll, h, o, r in sorted(results, key=lambda x: x[2]):
        bounded = bool(o.get('bounded'))
        n = p = 0
        for l, x in (r.get('results') or {}).items():
            n += x['n']
            p += x['proved']
            for b, c in x['backends'].items():
                backends[b] = backends.get(b, 0) + c
        if bounded:
            bobl += n
            bdisc += p
        else:
            obl += n
            disc += p
        solver_t += (r.get('solver') or {}).get('time', 0.0)
        funcs.update(r.get('funcs') or [])
        hinfo.append({'harness': h, 'file': os.path.basename(f), 'paths': r.get('paths'), 'obligations': n, 'discharged': p,
                      'labels': {l: x['n'] for l, x in (r.get('results') or {}).items()},
                      'bounded': o.get('bounded', False), 'wall_s': round(r.get('wall', 0), 2)})
        # vacuity
        if not r.get('error') and not r.get('failed') and not r.get('undecided'):
            if n == 0:
                covers_missing.append('%s: no obligations' % h)
            for c, ok in (r.get('covers') or {}).items():
                if not ok:
                    covers_missing.append('%s: %s' % (h, c))
        fails = r.get('failed') or []
        und = r.get('undecided') or []
        done_labels = set()
        for fl in fails:
            if fl['label'] in done_labels:
                continue
            kf = [k for k in kn if k['harness'] == h and k['label'] in fl['label']]
            if kf:
                known_hit.append(kf[0])
                done_labels.add(fl['label'])
                continue
            rc, out = nat.replay(ll, h, fl['model'] or {}, o)
            conf = (rc == 1)
            inp = parse_native(out)[1] if conf else (fl['model'] or {})
            nfl = parse_native(out)[0] if conf else ''
            if not conf and search_left > 0:
                t1 = time.time()
                rc, out = nat.search(ll, h, seed, 20, o)
                search_left -= time.time() - t1
                if rc == 1:
                    conf = True
                    nfl, inp = parse_native(out)
            done_labels.add(fl['label'])
            violations.append((f, h, fl['label'], conf, inp, nfl, fl))
            if conf:
                break
        if (und or r.get('error')) and not any(v[1] == h for v in violations):
            reason = r.get('error') or '; '.join(sorted(set(str(u[1]) for u in und)))[:400]
            found = False
            if search_left > 0:
                t1 = time.time()
                rc, out = nat.search(ll, h, seed, 25 if tier == 'quick' else 120, o)
                search_left -= time.time() - t1
                if rc == 1:
                    nfl, inp = parse_native(out)
                    if not any(k['harness'] == h and k['label'] in nfl for k in kn):
                        violations.append((f, h, nfl, True, inp, nfl, {'goal': '', 'backend': 'native search', 'where': ''}))
                        found = True
                reason += ' | bounded stand-in: native search ' + out.strip()[:80]
            if not found:
                undec.append((h, reason))
    for k in {(k['harness'], k['label']): k for k in known_hit}.values():
        log('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    # ---- evidence
    dm = sorted(set(x for x in demangle(sorted(funcs))))
    mine = [d for d in dm if not re.match(r'(non-virtual thunk|virtual thunk|void |bool |int |double |unsigned|typename |decltype)?\s*(std::|boost::|Eigen::|__gnu|h_|hb_|vp|operator|__)', d)]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': manifest(prop).get('level', 'proof'),
        'coverage': {
            'explanation': manifest(prop).get('level_note', ''),
            'obligations': obl, 'discharged': disc,
            'bounded_obligations': bobl, 'bounded_discharged': bdisc,
            'checker_cmd': 'python3 /verif/check.py %s %s' % (prop, tier),
            'trusted_base': TRUSTED,
            'backends': backends, 'solver_time_s': round(solver_t, 2), 'compile_time_s': round(tcomp, 2),
            'functions_under_contract': mine,
            'harnesses': hinfo, 'undecided': undec[:40], 'vacuity_failures': covers_missing,
            'extraction_failures': [(os.path.basename(f), e[-600:]) for f, e in broken],
        },
        'assumptions': ASSUMPTIONS,
        'violations': len(violations),
        'wall_s': round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(V, 'evidence', 'replays'), exist_ok=True)
    with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as fo:
        json.dump(ev, fo, indent=1)
    for f, e in broken:
        log('EXTRACTION-ERROR %s\n%s' % (os.path.basename(f), e[-1500:]))
    for h, why in undec:
        log('UNDECIDED property=%s harness=%s %s' % (prop, h, why))
    for c in covers_missing:
        log('VACUOUS property=%s %s' % (prop, c))
    n = 0
    for f, h, l, conf, inp, nfl, fl in violations:
        n += 1
        rp = os.path.join(V, 'evidence', 'replays', '%s-%s-%d.json' % (prop, h, n))
        json.dump({'property': prop, 'contract_file': os.path.basename(f), 'harness': h, 'failed_obligation': l,
                   'native_failure': nfl, 'confirmed_on_real_code': conf, 'inputs': inp, 'goal': fl.get('goal'),
                   'backend': fl.get('backend'), 'where': fl.get('where'),
                   'replay_cmd': 'python3 /verif/replay.py %s' % rp}, open(rp, 'w'), indent=1, default=str)
        log('  failed obligation: %s / %s %s' % (h, l, nfl))
        log('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if conf else ' no-failing-input-found'))
    log('%s: obligations %d discharged %d (bounded stand-ins %d/%d), %d harnesses, undecided %d, violations %d, %.1fs' % (
        prop, obl, disc, bdisc, bobl, len(results), len(undec), len(violations), time.time() - t0))
    if violations:
        return 1
    if broken or covers_missing:
        return 2
    return 0


TRUSTED = [
    'clang 18 front end and -O1 pipeline (C++ to LLVM IR)', '/verif/engine symbolic executor (LLVM IR semantics, memory model)',
    'models of libc/libstdc++ entry points in /verif/engine/runtime.py', 'rational-function normaliser /verif/engine/nf.py',
    'z3 5.3.2', 'cvc5 1.1.2']
ASSUMPTIONS = [
    'doubles are mathematical reals (no rounding, overflow, NaN unless a constant NaN is stored)',
    'signed machine integers do not overflow; distinct heap/stack objects are disjoint',
    'stand-in functions defined in the contract file replace the callees it lists (see its header comment)',
    'division by a symbolic quantity assumes a non-zero divisor on that path',
    'global constructors (plugin/boost registration) are not executed']

if __name__ == '__main__':
    main()
