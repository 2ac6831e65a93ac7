"""Trusted models of libc / libstdc++ / compiler runtime entry points and the vp_* contract API."""
import re, math, struct
from fractions import Fraction as F
from .terms import *
from .ir import Unsupported, sgn
from .symex import (Ptr, NULL, UNDEF, CALLED, PathEnd, Violation, Split, tid, padd, tI)

EX = {}
RX = []


def ex(*names):
    def d(f):
        for n in names:
            EX[n] = f
        return f
    return d


def rx(*pats):
    def d(f):
        for p in pats:
            RX.append((re.compile(p), f))
        return f
    return d


def lookup(name):
    f = EX.get(name)
    if f:
        return f
    for p, f in RX:
        if p.match(name):
            return f
    return None


def cstring(E, st, p):
    out = bytearray()
    i = 0
    while True:
        b = E.load(st, Ptr(p.obj, padd(p.off, i)), ('i', 8))
        if b is UNDEF or not isinstance(b, int):
            raise Unsupported('symbolic string')
        if b == 0:
            return out.decode('latin1')
        out.append(b)
        i += 1
        if i > 4000:
            raise Unsupported('long string')


# ------------------------------------------------------------------ contract API
def uniq(E, st, p):
    nm = cstring(E, st, p)
    k = st.ghost.get(('n', nm), 0)
    st.ghost[('n', nm)] = k + 1
    return nm if k == 0 else '%s#%d' % (nm, k)


def decl(E, st, t):
    st.inputs.append(t)
    return t


@ex('vp_real')
def _(E, st, a, ins):
    return decl(E, st, rv(uniq(E, st, a[0])))


@ex('vp_pos')
def _(E, st, a, ins):
    nm = uniq(E, st, a[0])
    E.pr.kinds[nm] = ('pos',)
    t = decl(E, st, rv(nm))
    E.pr.assume(st, rlt(R0, t))
    return t


@ex('vp_nonneg')
def _(E, st, a, ins):
    nm = uniq(E, st, a[0])
    E.pr.kinds[nm] = ('nonneg',)
    t = decl(E, st, rv(nm))
    E.pr.assume(st, rle(R0, t))
    return t


@ex('vp_range')
def _(E, st, a, ins):
    nm = uniq(E, st, a[0])
    lo, hi = a[1].args[0], a[2].args[0]
    E.pr.kinds[nm] = ('range', float(lo), float(hi))
    t = decl(E, st, rv(nm))
    E.pr.assume(st, rle(rc(lo), t))
    E.pr.assume(st, rle(t, rc(hi)))
    return t


@ex('vp_int')
def _(E, st, a, ins):
    nm = uniq(E, st, a[0])
    lo, hi = sgn(a[1], 32), sgn(a[2], 32)
    if lo == hi:
        return lo & 0xffffffff
    return decl(E, st, iv(nm, lo, hi))


@ex('vp_long')
def _(E, st, a, ins):
    nm = uniq(E, st, a[0])
    lo, hi = sgn(a[1], 64), sgn(a[2], 64)
    return decl(E, st, iv(nm, lo, hi))


@ex('vp_bits')
def _(E, st, a, ins):
    return decl(E, st, vv(uniq(E, st, a[0]), 32))


@ex('vp_bool')
def _(E, st, a, ins):
    return decl(E, st, bv(uniq(E, st, a[0])))


@ex('vp_choice')
def _(E, st, a, ins):
    nm = cstring(E, st, a[0])
    key = ('n', nm)
    k = st.ghost.get(key, 0)
    full = nm if k == 0 else '%s#%d' % (nm, k)
    n = a[1]
    if n == 1:
        st.ghost[key] = k + 1
        return 0
    t = iv(full, 0, n - 1)
    if t.id not in st.subst:
        raise Split([ieq(t, ic(i)) for i in range(n)])
    st.ghost[key] = k + 1
    st.inputs.append(t)
    return st.subst[t.id]


@ex('vp_unit3', 'vp_unit4')
def _(E, st, a, ins):
    nm = uniq(E, st, a[0])
    k = 3 if ins[3][1] == 'vp_unit3' else 4
    vs = [decl(E, st, rv('%s.%d' % (nm, i))) for i in range(k)]
    s = R1
    for v in vs[:-1]:
        s = rsub(s, rmul(v, v))
    st.rules[vs[-1].id] = s
    E.pr.assume(st, req(rmul(vs[-1], vs[-1]), s))
    # give the samples values on the unit sphere
    import random, hashlib
    for smp in range(E.pr.NS):
        r = random.Random(hashlib.md5(('%s|%d|%d' % (nm, smp, E.pr.seed)).encode()).digest())
        # exact rational points on the sphere are not needed: the sample is patched below
        while True:
            x = [r.gauss(0, 1) if r.random() < .85 else 0.0 for _ in range(k)]
            q = math.sqrt(sum(y * y for y in x))
            if q > 1e-6:
                break
        g = E.pr.given.setdefault(smp, {})
        for i in range(k):
            g['%s.%d' % (nm, i)] = x[i] / q
    st.samples = [q for q in st.ghost.get('presamples', list(range(E.pr.NS)))]
    st.samples = [q for q in range(E.pr.NS) if all(E.pr.holds(q, c) or _is_rule(st, c) for c in st.pc)]
    for i, v in enumerate(vs):
        E.store(st, Ptr(a[1].obj, padd(a[1].off, 8 * i)), v, ('f', 64))
    return None


def _is_rule(st, c):
    if c.op != 'req':
        return False
    for x in c.args:
        if x.op == 'mul' and x.args[0] is x.args[1] and x.args[0].id in st.rules:
            return True
    return False


@ex('vp_rule')
def _(E, st, a, ins):
    """assume a[0]^2 == a[1], used as a rewrite rule (a[0] must be an input variable)"""
    if a[0].op == 'rv':
        st.rules[a[0].id] = a[1]
    E.pr.assume(st, req(rmul(a[0], a[0]), a[1]))
    return None


@ex('vp_assume')
def _(E, st, a, ins):
    c = a[0]
    c = E.as_bool(c) if not isinstance(c, int) else bc(c & 1)
    if c is FALSE:
        raise PathEnd()
    if c is TRUE:
        return None
    fe = E.pr.feasible(st, c)
    if fe is False:
        E.infeasible += 1
        raise PathEnd()
    E.pr.assume(st, c)
    return None


def label(E, st, p):
    return cstring(E, st, p)


@ex('vp_check')
def _(E, st, a, ins):
    c = a[0]
    if c is UNDEF:
        c = FALSE
    else:
        c = E.as_bool(c) if not isinstance(c, int) else bc(c & 1)
    E.obligation(st, c, label(E, st, a[1]))
    return None


def num(E, v):
    if v is UNDEF:
        return NAN
    return v


@ex('vp_eq')
def _(E, st, a, ins):
    x, y = num(E, a[0]), num(E, a[1])
    if x.op == 'nan' and y.op == 'nan':
        g = TRUE
    else:
        g = req(x, y)
    E.obligation(st, g, label(E, st, a[2]))
    return None


@ex('vp_le')
def _(E, st, a, ins):
    E.obligation(st, rle(num(E, a[0]), num(E, a[1])), label(E, st, a[2]))
    return None


@ex('vp_lt')
def _(E, st, a, ins):
    E.obligation(st, rlt(num(E, a[0]), num(E, a[1])), label(E, st, a[2]))
    return None


@ex('vp_lemma')
def _(E, st, a, ins):
    """prove, then use as a known fact (cut)"""
    c = E.as_bool(a[0]) if not isinstance(a[0], int) else bc(a[0] & 1)
    if c is TRUE:
        return None
    if E.obligation(st, c, 'lemma: ' + label(E, st, a[1])):
        E.pr.assume(st, c)
    return None


@ex('vp_case')
def _(E, st, a, ins):
    """case split: the rest of the harness is proved separately under c and under not c"""
    return 1 if E.branch(st, a[0]) else 0


@ex('vp_cover')
def _(E, st, a, ins):
    l = label(E, st, a[0])
    if E.covers.get(l):
        return None
    E.covers.setdefault(l, False)
    if st.samples:
        E.covers[l] = True
    else:
        from . import smt
        try:
            Em = smt.Emit()
            s = Em.script(list(st.pc))
            r, m = smt.run_solver(s, Em.vars, 'z3', 5.0, model=False)
            if r == 'sat':
                E.covers[l] = True
        except Exception:
            pass
    return None


@ex('vp_known')
def _(E, st, a, ins):
    return 0


@ex('vp_symbolic')
def _(E, st, a, ins):
    return 1


@ex('vp_stop')
def _(E, st, a, ins):
    raise PathEnd()


@ex('vp_trace')
def _(E, st, a, ins):
    st.log.append(str(a[0]))
    if E.o.get('verbose'):
        print('TRACE', cstring(E, st, a[0]), a[1:])
    return None


@ex('vp_thread')
def _(E, st, a, ins):
    st.ghost['thread'] = a[0]
    return None


@ex('omp_get_thread_num')
def _(E, st, a, ins):
    return st.ghost.get('thread', 0)


@ex('vp_nthreads')
def _(E, st, a, ins):
    st.ghost['nthreads'] = a[0]
    return None


@ex('omp_get_max_threads', 'omp_get_num_threads')
def _(E, st, a, ins):
    return st.ghost.get('nthreads', 1)


@ex('omp_set_num_threads', 'omp_init_lock', 'omp_destroy_lock', 'omp_set_lock', 'omp_unset_lock')
def _(E, st, a, ins):
    return None


@ex('omp_in_parallel')
def _(E, st, a, ins):
    return 0


@ex('omp_get_wtime')
def _(E, st, a, ins):
    return R0


# ------------------------------------------------------------------ memory
@ex('malloc', '_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t')
def _(E, st, a, ins):
    n = a[0]
    if not isinstance(n, int):
        n = E.concretize(st, n)
    if n > 1 << 30:
        raise Violation('allocation of absurd size')
    return E.new_obj(st, n, 'heap')


@ex('_ZnwmSt11align_val_t', '_ZnamSt11align_val_t')
def _(E, st, a, ins):
    n = a[0] if isinstance(a[0], int) else E.concretize(st, a[0])
    return E.new_obj(st, n, 'heap')


@ex('aligned_alloc')
def _(E, st, a, ins):
    n = a[1] if isinstance(a[1], int) else E.concretize(st, a[1])
    return E.new_obj(st, n, 'heap')


@ex('posix_memalign')
def _(E, st, a, ins):
    n = a[2] if isinstance(a[2], int) else E.concretize(st, a[2])
    E.store(st, a[0], E.new_obj(st, n, 'heap'), ('p',))
    return 0


@ex('calloc')
def _(E, st, a, ins):
    n = a[0] * a[1]
    p = E.new_obj(st, n, 'heap')
    E.memset(st, p, 0, n)
    return p


@ex('realloc')
def _(E, st, a, ins):
    p = E.new_obj(st, a[1], 'heap')
    if a[0].obj is not None:
        o = E.obj(st, a[0].obj)
        E.memcpy(st, p, a[0], min(o.size, a[1]))
        E.wobj(st, a[0].obj).freed = True
    return p


@ex('free', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t', '_ZdaPvSt11align_val_t')
def _(E, st, a, ins):
    p = a[0]
    if p is UNDEF:
        raise Violation('memory-safety: free of uninitialised pointer')
    if p.obj is None:
        if p.off == 0:
            return None
        raise Violation('memory-safety: free of invalid pointer')
    o = E.wobj(st, p.obj)
    if o.freed:
        raise Violation('memory-safety: double free')
    if p.off != 0:
        raise Violation('memory-safety: free of interior pointer')
    o.freed = True
    o.cells = {}
    return None


@rx(r'llvm\.memcpy\.', r'llvm\.memmove\.')
def _(E, st, a, ins):
    E.memcpy(st, a[0], a[1], a[2])
    return None


@ex('memcpy', 'memmove')
def _(E, st, a, ins):
    E.memcpy(st, a[0], a[1], a[2])
    return a[0]


@rx(r'llvm\.memset\.')
def _(E, st, a, ins):
    E.memset(st, a[0], a[1], a[2])
    return None


@ex('memset')
def _(E, st, a, ins):
    E.memset(st, a[0], a[1], a[2])
    return a[0]


@ex('memcmp', 'bcmp')
def _(E, st, a, ins):
    n = a[2] if isinstance(a[2], int) else E.concretize(st, a[2])
    for i in range(n):
        x = E.load(st, Ptr(a[0].obj, padd(a[0].off, i)), ('i', 8))
        y = E.load(st, Ptr(a[1].obj, padd(a[1].off, i)), ('i', 8))
        if not isinstance(x, int) or not isinstance(y, int):
            raise Unsupported('memcmp symbolic')
        if x != y:
            return (1 if x > y else -1) & 0xffffffff
    return 0


@ex('strlen')
def _(E, st, a, ins):
    return len(cstring(E, st, a[0]))


@ex('strcmp')
def _(E, st, a, ins):
    x, y = cstring(E, st, a[0]), cstring(E, st, a[1])
    return 0 if x == y else (1 if x > y else -1) & 0xffffffff


@ex('getenv')   # no variable is set
def _(E, st, a, ins):
    return NULL


@ex('memchr')
def _(E, st, a, ins):
    n = a[2]
    for i in range(n):
        x = E.load(st, Ptr(a[0].obj, padd(a[0].off, i)), ('i', 8))
        if x == a[1] & 255:
            return Ptr(a[0].obj, padd(a[0].off, i))
    return NULL


# ------------------------------------------------------------------ no-ops
@rx(r'llvm\.lifetime\.', r'llvm\.dbg\.', r'llvm\.experimental\.noalias', r'llvm\.invariant', r'llvm\.prefetch',
    r'llvm\.donothing', r'llvm\.stackrestore', r'llvm\.assume$')
def _(E, st, a, ins):
    return None


@rx(r'llvm\.stacksave')
def _(E, st, a, ins):
    return NULL


@rx(r'llvm\.expect\.', r'llvm\.launder', r'llvm\.strip', r'llvm\.ssa\.copy')
def _(E, st, a, ins):
    return a[0]


@rx(r'llvm\.is\.constant')
def _(E, st, a, ins):
    return 0


@rx(r'llvm\.objectsize')
def _(E, st, a, ins):
    return (1 << 64) - 1


@ex('llvm.trap', 'abort', '__assert_fail', '_ZSt9terminatev', '__clang_call_terminate', 'exit', '_exit',
    '_ZSt16__throw_bad_castv', '__cxa_pure_virtual', '__cxa_deleted_virtual', '__stack_chk_fail')
def _(E, st, a, ins):
    raise Violation('abnormal termination (%s)' % ins[3][1])


@ex('llvm.eh.typeid.for', 'llvm.eh.typeid.for.p0')
def _(E, st, a, ins):
    return tid(a[0].obj[1])


@ex('__cxa_guard_acquire')
def _(E, st, a, ins):
    k = (a[0].obj, a[0].off)
    return 0 if k in st.guards else 1


@ex('__cxa_guard_release')
def _(E, st, a, ins):
    st.guards.add((a[0].obj, a[0].off))
    E.store(st, a[0], 1, ('i', 8))
    return None


@ex('__cxa_guard_abort')
def _(E, st, a, ins):
    return None


@ex('__cxa_atexit', 'atexit', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_init', 'pthread_mutex_destroy',
    'pthread_mutexattr_init', 'pthread_mutexattr_settype', 'pthread_mutexattr_destroy', 'pthread_mutex_trylock',
    'pthread_cond_destroy', 'pthread_cond_init', 'pthread_cond_signal', 'pthread_cond_broadcast',
    'pthread_rwlock_wrlock', 'pthread_rwlock_unlock', 'pthread_rwlock_rdlock', 'usleep', 'sched_yield', 'getpid',
    'gettimeofday', 'pthread_condattr_init', 'pthread_condattr_setclock', 'pthread_condattr_destroy', 'clock_gettime',
    'fflush', 'puts', 'printf', 'fprintf', 'putchar')
def _(E, st, a, ins):
    return 0


@ex('pthread_self')
def _(E, st, a, ins):
    return 1


@ex('_ZNSt6chrono3_V212system_clock3nowEv', '_ZNSt6chrono3_V212steady_clock3nowEv', 'time', 'clock')
def _(E, st, a, ins):
    return 0


# ------------------------------------------------------------------ exceptions
@ex('__cxa_allocate_exception')
def _(E, st, a, ins):
    return E.new_obj(st, a[0], 'exception')


@ex('__cxa_free_exception')
def _(E, st, a, ins):
    return None


@ex('__cxa_throw')
def _(E, st, a, ins):
    do_throw(E, st, a[0], a[1].obj[1], ins)
    return CALLED


def do_throw(E, st, p, ti, ins):
    st.exc = (p, ti)
    if ins[6] is not None:
        E.jump(st, st.frames[-1], ins[6])
        return
    E.unwind(st)


@ex('__cxa_rethrow')
def _(E, st, a, ins):
    do_throw(E, st, st.exc[0], st.exc[1], ins)
    return CALLED


@ex('__cxa_begin_catch')
def _(E, st, a, ins):
    return a[0]


@ex('__cxa_end_catch')
def _(E, st, a, ins):
    return None


@ex('__cxa_get_exception_ptr')
def _(E, st, a, ins):
    return a[0]


THROWERS = {'_ZSt20__throw_length_errorPKc': '_ZTISt12length_error', '_ZSt24__throw_out_of_range_fmtPKcz': '_ZTISt12out_of_range',
            '_ZSt20__throw_out_of_rangePKc': '_ZTISt12out_of_range',
            '_ZSt17__throw_bad_allocv': '_ZTISt9bad_alloc', '_ZSt28__throw_bad_array_new_lengthv': '_ZTISt20bad_array_new_length',
            '_ZSt19__throw_logic_errorPKc': '_ZTISt11logic_error', '_ZSt24__throw_invalid_argumentPKc': '_ZTISt16invalid_argument',
            '_ZSt20__throw_system_errori': '_ZTISt12system_error', '_ZSt25__throw_bad_function_callv': '_ZTISt17bad_function_call',
            '__cxa_throw_bad_array_new_length': '_ZTISt20bad_array_new_length',
            '__cxa_bad_cast': '_ZTISt8bad_cast', '__cxa_bad_typeid': '_ZTISt10bad_typeid',
            '_ZSt21__throw_runtime_errorPKc': '_ZTISt13runtime_error'}


@ex(*THROWERS)
def _(E, st, a, ins):
    p = E.new_obj(st, 64, 'exception')
    do_throw(E, st, p, THROWERS[ins[3][1]], ins)
    return CALLED


@rx(r'_ZNSt13runtime_errorC[12]', r'_ZNSt11logic_errorC[12]', r'_ZNSt16invalid_argumentC[12]', r'_ZNSt12domain_errorC[12]',
    r'_ZNSt12out_of_rangeC[12]', r'_ZNSt13runtime_errorD[012]', r'_ZNSt11logic_errorD[012]', r'_ZNSt16invalid_argumentD[012]',
    r'_ZNSt9exceptionD[012]', r'_ZNSt12domain_errorD[012]', r'_ZNSt14overflow_errorC[12]', r'_ZNSt12length_errorC[12]')
def _(E, st, a, ins):
    return None


# ------------------------------------------------------------------ streams (output is not part of any contract)
@rx(r'_ZStlsI', r'_ZNSo', r'_ZNKSo', r'_ZSt4endlI', r'_ZSt5flushI', r'_ZSt16__ostream_insert', r'_ZNSt8ios_base', r'_ZNSt9basic_ios',
    r'_ZNSt13basic_ostream', r'_ZSt11setprecision', r'_ZStrsI', r'_ZNSi', r'_ZNSt13basic_filebuf', r'_ZNSt14basic_ofstream',
    r'_ZNSt14basic_ifstream', r'_ZNKSt12__basic_file', r'_ZNSt12__basic_file', r'_ZNKSt5ctype', r'_ZNSt6localeC', r'_ZNSt6localeD',
    r'_ZNSt15basic_streambuf', r'_ZNSt15basic_stringbuf', r'_ZStlsRSo', r'_ZlsRSo', r'_ZN5Eigen.*lsI', r'_ZNSt19basic_ostringstream',
    r'_ZNSt18basic_stringstream', r'_ZNSt7__cxx1118basic_stringstream', r'_ZNSt7__cxx1119basic_ostringstream',
    r'_ZNSt7__cxx1115basic_stringbuf', r'_ZN5EigenlsI', r'_ZNSt7__cxx1119basic_istringstream', r'_ZNSolsE')
def _(E, st, a, ins):
    E.stubs_used['iostream'] = 1
    return a[0] if a else None


@rx(r'_ZNKSt7__cxx1119basic_ostringstream.*3strEv', r'_ZNKSt7__cxx1118basic_stringstream.*3strEv', r'_ZNKSt7__cxx1115basic_stringbuf.*3strEv')
def _(E, st, a, ins):
    # returns std::string by sret: empty string
    p = a[0]
    E.store(st, p, Ptr(p.obj, padd(p.off, 16)), ('p',))
    E.store(st, Ptr(p.obj, padd(p.off, 8)), 0, ('i', 64))
    E.store(st, Ptr(p.obj, padd(p.off, 16)), 0, ('i', 8))
    return None


# ------------------------------------------------------------------ math
def un(name, fn):
    def h(E, st, a, ins):
        x = a[0]
        if x is UNDEF:
            return UNDEF
        if isinstance(x, tuple):
            return tuple(fn(y) for y in x)
        return fn(x)
    return h


def cf(name, f):
    """constant-fold exactly representable trivial points, else uninterpreted"""
    def g(x):
        if x.op == 'nan':
            return NAN
        if x.op == 'rc':
            if name == 'sin' and x.args[0] == 0:
                return R0
            if name == 'cos' and x.args[0] == 0:
                return R1
            if name == 'tan' and x.args[0] == 0:
                return R0
            if name == 'exp' and x.args[0] == 0:
                return R1
            if name == 'log' and x.args[0] == 1:
                return R0
            if name == 'atan' and x.args[0] == 0:
                return R0
            if name == 'asin' and x.args[0] == 0:
                return R0
            if name == 'acos' and x.args[0] == 1:
                return R0
        if x.op == 'inf':
            return NAN
        return ruf(name, x)
    return g


EX['sqrt'] = EX['llvm.sqrt.f64'] = EX['sqrtf'] = EX['llvm.sqrt.f32'] = EX['llvm.sqrt.f80'] = EX['sqrtl'] = un('sqrt', rsqrt)
EX['fabs'] = EX['llvm.fabs.f64'] = EX['llvm.fabs.f32'] = EX['llvm.fabs.f80'] = un('fabs', rabs)
for n in ('sin', 'cos', 'tan', 'exp', 'log', 'acos', 'asin', 'atan', 'log10', 'cbrt', 'tanh', 'sinh', 'cosh', 'tgamma', 'lgamma', 'erf', 'erfc'):
    EX[n] = EX['llvm.%s.f64' % n] = un(n, cf(n, None))


@ex('sincos')
def _(E, st, a, ins):
    E.store(st, a[1], cf('sin', None)(a[0]), ('f', 64))
    E.store(st, a[2], cf('cos', None)(a[0]), ('f', 64))
    return None


@ex('atan2')
def _(E, st, a, ins):
    if a[0].op == 'rc' and a[0].args[0] == 0 and a[1].op == 'rc' and a[1].args[0] > 0:
        return R0
    return ruf('atan2', a[0], a[1])


@ex('pow', 'llvm.pow.f64')
def _(E, st, a, ins):
    x, y = a
    if y.op == 'rc':
        e = y.args[0]
        if e.denominator == 1 and 0 <= e <= 8:
            r = R1
            for _ in range(int(e)):
                r = rmul(r, x)
            return r
        if e.denominator == 1 and -8 <= e < 0:
            r = R1
            for _ in range(int(-e)):
                r = rmul(r, x)
            return rdiv(R1, r)
        if e == F(1, 2):
            return rsqrt(x)
        if e == F(3, 2):
            return rmul(x, rsqrt(x))
    if x is R1:
        return R1
    return ruf('pow', x, y)


@ex('llvm.powi.f64.i32')
def _(E, st, a, ins):
    e = sgn(a[1], 32) if isinstance(a[1], int) else E.concretize(st, a[1])
    r = R1
    for _ in range(abs(e)):
        r = rmul(r, a[0])
    return r if e >= 0 else rdiv(R1, r)


@ex('llvm.fmuladd.f64', 'llvm.fma.f64', 'fma')
def _(E, st, a, ins):
    if UNDEF in a:
        return UNDEF
    return radd(rmul(a[0], a[1]), a[2])


@ex('floor', 'llvm.floor.f64')
def _(E, st, a, ins):
    if is_special(a[0]):
        return a[0]
    return i2r(rfloor_i(a[0]))


@ex('ceil', 'llvm.ceil.f64')
def _(E, st, a, ins):
    if is_special(a[0]):
        return a[0]
    return rneg(i2r(rfloor_i(rneg(a[0]))))


@ex('trunc', 'llvm.trunc.f64')
def _(E, st, a, ins):
    x = a[0]
    if is_special(x):
        return x
    return E.fork_ite(st, rle(R0, x), i2r(rfloor_i(x)), rneg(i2r(rfloor_i(rneg(x)))))


@ex('round', 'llvm.round.f64')
def _(E, st, a, ins):
    x = a[0]
    h = rc(F(1, 2))
    return E.fork_ite(st, rle(R0, x), i2r(rfloor_i(radd(x, h))), rneg(i2r(rfloor_i(radd(rneg(x), h)))))


@ex('fmod')
def _(E, st, a, ins):
    x, y = a
    q = rdiv(x, y)
    t = E.fork_ite(st, rle(R0, q), i2r(rfloor_i(q)), rneg(i2r(rfloor_i(rneg(q)))))
    return rsub(x, rmul(y, t))


@ex('fmax', 'llvm.maxnum.f64', 'llvm.maximum.f64')
def _(E, st, a, ins):
    if a[0].op == 'nan':
        return a[1]
    if a[1].op == 'nan':
        return a[0]
    return E.fork_ite(st, rle(a[1], a[0]), a[0], a[1])


@ex('fmin', 'llvm.minnum.f64', 'llvm.minimum.f64')
def _(E, st, a, ins):
    if a[0].op == 'nan':
        return a[1]
    if a[1].op == 'nan':
        return a[0]
    return E.fork_ite(st, rle(a[0], a[1]), a[0], a[1])


@ex('copysign', 'llvm.copysign.f64')
def _(E, st, a, ins):
    x = rabs(a[0])
    return E.fork_ite(st, rle(R0, a[1]), x, rneg(x))


@ex('__isnan', 'isnan')
def _(E, st, a, ins):
    return 1 if a[0].op == 'nan' else 0


@ex('llvm.is.fpclass.f64')
def _(E, st, a, ins):
    x, msk = a
    if x.op == 'nan':
        return 1 if msk & 3 else 0
    if x.op == 'inf':
        return 1 if (msk & (0x200 if x.args[0] > 0 else 4)) else 0
    fin = msk & 0x1f8
    if fin == 0:
        return 0
    if fin == 0x1f8:
        return 1
    raise Unsupported('fpclass')


@ex('frexp', 'ldexp', 'scalbn')
def _(E, st, a, ins):
    if ins[3][1] != 'frexp' and isinstance(a[1], int):
        return rmul(a[0], rc(F(2) ** sgn(a[1], 32)))
    raise Unsupported('frexp')


# ------------------------------------------------------------------ integer intrinsics
@rx(r'llvm\.(u|s)(max|min)\.i(\d+)$')
def _(E, st, a, ins):
    m = re.match(r'llvm\.(u|s)(max|min)\.i(\d+)$', ins[3][1])
    sg, k, w = m.group(1), m.group(2), int(m.group(3))
    x, y = a
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if isinstance(x, int) and isinstance(y, int):
        kx, ky = (sgn(x, w), sgn(y, w)) if sg == 's' else (x, y)
        return (x if kx >= ky else y) if k == 'max' else (x if kx <= ky else y)
    c = E.icmp(st, sg + 'ge', ('i', w), x, y)
    c = c if isinstance(c, Term) else bc(c)
    d = E.pr.decide(st, c)
    if d is not None:
        return (x if d else y) if k == 'max' else (y if d else x)
    X, Y = E.toI(x, w), E.toI(y, w)
    return E.fix(iite(c, X, Y) if k == 'max' else iite(c, Y, X), w)


@rx(r'llvm\.abs\.i(\d+)$')
def _(E, st, a, ins):
    w = int(ins[3][1].split('.i')[-1])
    x = a[0]
    if isinstance(x, int):
        return abs(sgn(x, w)) & ((1 << w) - 1)
    return iite(ile(I0, x), x, ineg(x))


@rx(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)$')
def _(E, st, a, ins):
    m = re.match(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)$', ins[3][1])
    sg, k, w = m.group(1), m.group(2), int(m.group(3))
    x, y = a
    if not (isinstance(x, int) and isinstance(y, int)):
        X, Y = E.toI(x, w), E.toI(y, w)
        r = {'add': iadd, 'sub': isub, 'mul': imul}[k](X, Y)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg == 's' else (0, (1 << w) - 1)
        if r.lo is not None and r.hi is not None and r.lo >= lo and r.hi <= hi and r.hi < 1 << (w - 1):
            return (E.fix(r, w), 0)
        return (E.fix(E.wrap(st, r, w), w), bnot(band(ile(ic(lo), r), ile(r, ic(hi)))))
    if sg == 's':
        x, y = sgn(x, w), sgn(y, w)
    r = {'add': x + y, 'sub': x - y, 'mul': x * y}[k]
    if sg == 's':
        o = not (-(1 << (w - 1)) <= r < (1 << (w - 1)))
    else:
        o = not (0 <= r < (1 << w))
    return (r & ((1 << w) - 1), int(o))


@rx(r'llvm\.usub\.sat\.i(\d+)$')
def _(E, st, a, ins):
    w = int(ins[3][1].split('.i')[-1])
    x, y = a
    if isinstance(x, int) and isinstance(y, int):
        return max(0, x - y)
    X, Y = E.toI(x, w), E.toI(y, w)
    return E.fix(iite(ile(Y, X), isub(X, Y), I0), w)


@rx(r'llvm\.ctlz\.i(\d+)$')
def _(E, st, a, ins):
    w = int(ins[3][1].split('.i')[-1])
    x = a[0] if isinstance(a[0], int) else E.concretize(st, E.toI(a[0], w))
    return w - (x & ((1 << w) - 1)).bit_length()


@rx(r'llvm\.cttz\.i(\d+)$')
def _(E, st, a, ins):
    w = int(ins[3][1].split('.i')[-1])
    x = a[0] if isinstance(a[0], int) else E.concretize(st, E.toI(a[0], w))
    return (x & -x).bit_length() - 1 if x else w


@rx(r'llvm\.ctpop\.i(\d+)$')
def _(E, st, a, ins):
    x = a[0] if isinstance(a[0], int) else E.concretize(st, a[0])
    return bin(x).count('1')


@rx(r'llvm\.fsh[lr]\.i(\d+)$')
def _(E, st, a, ins):
    w = int(ins[3][1].split('.i')[-1])
    if not all(isinstance(x, int) for x in a):
        raise Unsupported('fshl symbolic')
    k = a[2] % w
    v = (a[0] << w) | a[1]
    if 'fshl' in ins[3][1]:
        return (v >> (w - k)) & ((1 << w) - 1) if k else a[0]
    return (v >> k) & ((1 << w) - 1)


# ------------------------------------------------------------------ RTTI
@ex('__dynamic_cast')
def _(E, st, a, ins):
    p, src, dst = a[0], a[1].obj[1], a[2].obj[1]
    if p.obj is None:
        return NULL
    vp = E.load(st, p, ('p',))
    off = E.load(st, Ptr(vp.obj, vp.off - 16), ('i', 64))
    off = sgn(off, 64)
    ti = E.load(st, Ptr(vp.obj, vp.off - 8), ('p',))
    full = Ptr(p.obj, padd(p.off, off))
    tn = ti.obj[1]
    r = E.derives(tn, dst)
    if r is None:
        return NULL
    return Ptr(full.obj, padd(full.off, r))


@ex('_ZNKSt9type_infoeqERKS_')
def _(E, st, a, ins):
    return int(a[0] == a[1])


# ------------------------------------------------------------------ libstdc++ red-black trees / lists (trusted container runtime)
LEFT, RIGHT, PARENT, COLOR = 16, 24, 8, 0


def rp(E, st, p, o):
    return E.load(st, Ptr(p.obj, padd(p.off, o)), ('p',))


def wp(E, st, p, o, v):
    E.store(st, Ptr(p.obj, padd(p.off, o)), v, ('p',))


def isnull(p):
    return p.obj is None


def rb_incr(E, st, x):
    r = rp(E, st, x, RIGHT)
    if not isnull(r):
        x = r
        while True:
            l = rp(E, st, x, LEFT)
            if isnull(l):
                return x
            x = l
    y = rp(E, st, x, PARENT)
    while x == rp(E, st, y, RIGHT):
        x = y
        y = rp(E, st, y, PARENT)
    if rp(E, st, x, RIGHT) != y:
        x = y
    return x


def rb_decr(E, st, x):
    col = E.load(st, Ptr(x.obj, padd(x.off, COLOR)), ('i', 32))
    pp_ = rp(E, st, x, PARENT)
    if col == 0 and not isnull(pp_) and rp(E, st, pp_, PARENT) == x:
        return rp(E, st, x, RIGHT)
    l = rp(E, st, x, LEFT)
    if not isnull(l):
        y = l
        while True:
            r = rp(E, st, y, RIGHT)
            if isnull(r):
                return y
            y = r
    y = rp(E, st, x, PARENT)
    while x == rp(E, st, y, LEFT):
        x = y
        y = rp(E, st, y, PARENT)
    return y


@ex('_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base')
def _(E, st, a, ins):
    return rb_incr(E, st, a[0])


@ex('_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base')
def _(E, st, a, ins):
    return rb_decr(E, st, a[0])


def col(E, st, p, v=None):
    q = Ptr(p.obj, padd(p.off, COLOR))
    if v is None:
        return E.load(st, q, ('i', 32))
    E.store(st, q, v, ('i', 32))


def rotl(E, st, x, h):
    y = rp(E, st, x, RIGHT)
    yl = rp(E, st, y, LEFT)
    wp(E, st, x, RIGHT, yl)
    if not isnull(yl):
        wp(E, st, yl, PARENT, x)
    xp = rp(E, st, x, PARENT)
    wp(E, st, y, PARENT, xp)
    if x == rp(E, st, h, PARENT):
        wp(E, st, h, PARENT, y)
    elif x == rp(E, st, xp, LEFT):
        wp(E, st, xp, LEFT, y)
    else:
        wp(E, st, xp, RIGHT, y)
    wp(E, st, y, LEFT, x)
    wp(E, st, x, PARENT, y)


def rotr(E, st, x, h):
    y = rp(E, st, x, LEFT)
    yr = rp(E, st, y, RIGHT)
    wp(E, st, x, LEFT, yr)
    if not isnull(yr):
        wp(E, st, yr, PARENT, x)
    xp = rp(E, st, x, PARENT)
    wp(E, st, y, PARENT, xp)
    if x == rp(E, st, h, PARENT):
        wp(E, st, h, PARENT, y)
    elif x == rp(E, st, xp, RIGHT):
        wp(E, st, xp, RIGHT, y)
    else:
        wp(E, st, xp, LEFT, y)
    wp(E, st, y, RIGHT, x)
    wp(E, st, x, PARENT, y)


@ex('_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_')
def _(E, st, a, ins):
    left, x, p, h = a
    if not isinstance(left, int):
        left = E.branch(st, left)
    wp(E, st, x, PARENT, p)
    wp(E, st, x, LEFT, NULL)
    wp(E, st, x, RIGHT, NULL)
    col(E, st, x, 0)
    if left & 1:
        wp(E, st, p, LEFT, x)
        if p == h:
            wp(E, st, h, PARENT, x)
            wp(E, st, h, RIGHT, x)
        elif p == rp(E, st, h, LEFT):
            wp(E, st, h, LEFT, x)
    else:
        wp(E, st, p, RIGHT, x)
        if p == rp(E, st, h, RIGHT):
            wp(E, st, h, RIGHT, x)
    # the tree is kept unbalanced: balance is not observable through the container interface
    return None


@ex('_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_')
def _(E, st, a, ins):
    z, h = a
    y = z
    zl, zr = rp(E, st, z, LEFT), rp(E, st, z, RIGHT)
    if isnull(zl):
        x = zr
    elif isnull(zr):
        x = zl
    else:
        y = zr
        while True:
            l = rp(E, st, y, LEFT)
            if isnull(l):
                break
            y = l
        x = rp(E, st, y, RIGHT)
    if y != z:
        wp(E, st, zl, PARENT, y)
        wp(E, st, y, LEFT, zl)
        if y != zr:
            xp = rp(E, st, y, PARENT)
            if not isnull(x):
                wp(E, st, x, PARENT, xp)
            wp(E, st, xp, LEFT, x)
            wp(E, st, y, RIGHT, zr)
            wp(E, st, zr, PARENT, y)
        zp = rp(E, st, z, PARENT)
        if rp(E, st, h, PARENT) == z:
            wp(E, st, h, PARENT, y)
        elif rp(E, st, zp, LEFT) == z:
            wp(E, st, zp, LEFT, y)
        else:
            wp(E, st, zp, RIGHT, y)
        wp(E, st, y, PARENT, zp)
        col(E, st, y, col(E, st, z))
    else:
        xp = rp(E, st, y, PARENT)
        if not isnull(x):
            wp(E, st, x, PARENT, xp)
        if rp(E, st, h, PARENT) == z:
            wp(E, st, h, PARENT, x)
        elif rp(E, st, xp, LEFT) == z:
            wp(E, st, xp, LEFT, x)
        else:
            wp(E, st, xp, RIGHT, x)
        if rp(E, st, h, LEFT) == z:
            if isnull(zr):
                wp(E, st, h, LEFT, rp(E, st, z, PARENT))
            else:
                q = x
                while True:
                    l = rp(E, st, q, LEFT)
                    if isnull(l):
                        break
                    q = l
                wp(E, st, h, LEFT, q)
        if rp(E, st, h, RIGHT) == z:
            if isnull(zl):
                wp(E, st, h, RIGHT, rp(E, st, z, PARENT))
            else:
                q = x
                while True:
                    l = rp(E, st, q, RIGHT)
                    if isnull(l):
                        break
                    q = l
                wp(E, st, h, RIGHT, q)
    return z


@ex('_ZNSt8__detail15_List_node_base7_M_hookEPS0_')
def _(E, st, a, ins):
    t, pos = a
    prev = rp(E, st, pos, 8)
    wp(E, st, t, 0, pos)
    wp(E, st, t, 8, prev)
    wp(E, st, prev, 0, t)
    wp(E, st, pos, 8, t)
    return None


@ex('_ZNSt8__detail15_List_node_base9_M_unhookEv')
def _(E, st, a, ins):
    t = a[0]
    nx, pv = rp(E, st, t, 0), rp(E, st, t, 8)
    wp(E, st, pv, 0, nx)
    wp(E, st, nx, 8, pv)
    return None


@ex('_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_')
def _(E, st, a, ins):
    raise Unsupported('list transfer')


# boost::python / misc: reference counting no-ops
@ex('_Py_Dealloc', 'Py_IncRef', 'Py_DecRef')
def _(E, st, a, ins):
    return None


@ex('sysconf')
def _(E, st, a, ins):
    return 64
