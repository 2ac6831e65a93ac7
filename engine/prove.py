"""Obligation discharge: constant folding, field-identity normal form, sign analysis, SMT (z3, cvc5).
Also concrete sampling (used only to find feasible paths / refutations quickly, never to prove)."""
import math, hashlib, random, time
from fractions import Fraction as F
from .terms import *
from . import nf as nfm
from .nf import NF, TooBig, ONE
from . import smt

try:
    import mpmath
except Exception:
    mpmath = None


class Res(object):
    __slots__ = ('status', 'backend', 'model')

    def __init__(self, status, backend, model=None):
        self.status = status
        self.backend = backend
        self.model = model


class Prover(object):
    NS = 96

    def __init__(self, seed=1):
        self.seed = seed
        self.vals = {}            # sample idx -> {term id: float}
        self.given = {}           # sample idx -> {var name: value} (from models)
        self.nfs = {}
        self.kinds = {}           # var name -> kind for sampling
        self.fcache = {}
        self.keycache = {}
        self.feas_q = 0
        self.feas_t = 0.0

    # ------------------------------------------------------------ sampling
    def sample_var(self, k, t):
        nm = t.args[0]
        g = self.given.get(k)
        if g is not None and nm in g:
            return g[nm]
        h = hashlib.md5(('%s|%s|%s' % (self.seed, k, nm)).encode()).digest()
        rnd = random.Random(int.from_bytes(h[:8], 'big'))
        kind = self.kinds.get(nm)
        if t.op == 'bv':
            return rnd.random() < 0.5
        if t.op == 'iv':
            lo, hi = t.lo, t.hi
            if lo is None:
                lo = -8
            if hi is None:
                hi = max(lo + 16, 8)
            if hi - lo > 64 and rnd.random() < 0.8:
                a = max(lo, -4)
                b = min(hi, a + 12)
                if a > b:
                    a, b = lo, hi
                return rnd.randint(a, b)
            return rnd.randint(lo, hi)
        if t.op == 'v':
            return rnd.choice([0, 1, 2, 3, rnd.getrandbits(t.sort)]) & ((1 << t.sort) - 1)
        # real
        if kind and kind[0] == 'pos':
            return rnd.choice([1.0, 2.0, 0.5]) if rnd.random() < 0.2 else math.exp(rnd.uniform(-2, 2))
        if kind and kind[0] == 'nonneg':
            return rnd.choice([0.0, 1.0]) if rnd.random() < 0.3 else math.exp(rnd.uniform(-2, 2))
        if kind and kind[0] == 'range':
            a, b = kind[1], kind[2]
            return rnd.choice([a, b]) if rnd.random() < 0.15 else rnd.uniform(a, b)
        if rnd.random() < 0.2:
            return rnd.choice([0.0, 1.0, -1.0, 0.5, 2.0])
        return rnd.uniform(-2, 2)

    def ev(self, k, t):
        """float evaluation of t at sample k; None if undefined"""
        memo = self.vals.setdefault(k, {})
        r = memo.get(t.id, memo)
        if r is not memo:
            return r
        st = [t]
        while st:
            x = st[-1]
            if x.id in memo:
                st.pop()
                continue
            todo = [a for a in x.args if isinstance(a, Term) and a.id not in memo]
            if todo:
                st.extend(todo)
                continue
            memo[x.id] = self.ev1(k, x, memo)
            st.pop()
        return memo[t.id]

    def ev1(self, k, x, memo):
        op = x.op
        if op in ('rv', 'iv', 'bv', 'v'):
            return self.sample_var(k, x)
        try:
            A = [memo[a.id] if isinstance(a, Term) else a for a in x.args]
            if any(a is None for a in A):
                return None
            return evop(op, A, x)
        except (ZeroDivisionError, ValueError, OverflowError, TypeError):
            return None

    def holds(self, k, c):
        v = self.ev(k, c)
        return v is True

    # ------------------------------------------------------------ path condition handling
    def nf(self, st):
        key = tuple(sorted((a, b.id) for a, b in st.rules.items()))
        n = self.nfs.get(key)
        if n is None:
            n = self.nfs[key] = NF(dict(st.rules))
            n.nonneg = self.is_nonneg_atom
        return n

    slow = set()

    def ckey(self, st, c):
        """canonical key of a comparison (or None)"""
        rk = tuple(sorted((a, b.id) for a, b in st.rules.items()))
        ck = (c.id, rk)
        if ck in self.keycache:
            return self.keycache[ck]
        r = None
        op = c.op
        if op in ('rlt', 'rle', 'req'):
            limited = nfm.DEADLINE[0] is None
            if limited:
                if ck in self.slow:
                    return None
                nfm.DEADLINE[0] = time.time() + 0.4
            try:
                nf = self.nf(st)
                n, d = nf.norm(rsub(c.args[1], c.args[0]))
                if not n:
                    r = ('const', op != 'rlt')
                elif len(n) == 1 and ONE in n and not d:
                    v = n[ONE]
                    r = ('const', v > 0 if op == 'rlt' else v >= 0 if op == 'rle' else False)
                elif self.evident(nf, n, d, op) is not None:
                    r = ('const', self.evident(nf, n, d, op))
                elif len(n) < 400:
                    pos = all(self.pos_factor(nf, f) for f, e in d.items() if e % 2)
                    if pos:
                        dd = ()
                    else:
                        dd = tuple(sorted(f for f, e in d.items() if e % 2 and not self.pos_factor(nf, f)))
                    lead = max(n)
                    s = abs(n[lead])
                    if op == 'req' and n[lead] < 0:
                        s = -s
                    if op == 'req':
                        dd = ()
                    r = (op, tuple(sorted((m, v / s) for m, v in n.items())), dd)
            except TooBig:
                r = None
                if limited:
                    self.slow.add(ck)
                    return None
            except (Special, ZeroDivisionError):
                r = None
            finally:
                if limited:
                    nfm.DEADLINE[0] = None
        self.keycache[ck] = r
        return r

    def evident(self, nf, n, d, op):
        """n/d (op) 0 from the declared signs of the atoms alone: True/False/None"""
        for f, e in d.items():
            if not (nf.p_nonneg(nf.fpoly(f)) and self.strict(nf, nf.fpoly(f))):
                return None
        if nf.p_nonneg(n):
            if op == 'rle':
                return True
            if self.strict(nf, n):
                return op == 'rlt'
        else:
            m = {k: -v for k, v in n.items()}
            if nf.p_nonneg(m):
                if op == 'rlt':
                    return False
                if self.strict(nf, m):
                    return False
        return None

    def strict(self, nf, p):
        """a nonnegative polynomial has a strictly positive monomial"""
        for m in p:
            for a, e in m:
                t = nf.atoms[a]
                k = self.kinds.get(t.args[0]) if t.op == 'rv' else None
                if not (k and (k[0] == 'pos' or k[0] == 'range' and k[1] > 0)):
                    break
            else:
                return True
        return False

    def pos_factor(self, nf, f):
        if f >= 0:
            t = nf.atoms[f]
            return self.is_nonneg_atom(t)
        return False

    def is_nonneg_atom(self, t):
        if t.op in ('sqrt', 'abs'):
            return True
        if t.op == 'rv':
            k = self.kinds.get(t.args[0])
            if k and (k[0] in ('pos', 'nonneg') or k[0] == 'range' and k[1] >= 0):
                return True
        if t.op == 'uf' and t.args[0] in ('exp',):
            return True
        return False

    def neg_key(self, key):
        if key[0] == 'rlt':
            return ('rle', tuple((m, -v) for m, v in key[1]), key[2])
        if key[0] == 'rle':
            return ('rlt', tuple((m, -v) for m, v in key[1]), key[2])
        return None

    def decide(self, st, c):
        """syntactic decision of c under the path condition: True/False/None"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c.id in st.pckeys:
            return True
        n = bnot(c)
        if n.id in st.pckeys:
            return False
        if c.op == 'and':
            a, b = self.decide(st, c.args[0]), self.decide(st, c.args[1])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if c.op == 'or':
            a, b = self.decide(st, c.args[0]), self.decide(st, c.args[1])
            if a or b:
                return True
            if a is False and b is False:
                return False
            return None
        if c.op == 'not':
            a = self.decide(st, c.args[0])
            return None if a is None else not a
        k = self.ckey(st, c)
        if k is not None:
            if k[0] == 'const':
                return k[1]
            if k in st.pckeys:
                return True
            if k[0] == 'rle':
                if ('rlt',) + k[1:] in st.pckeys:
                    return True
                nk = self.neg_key(k)
                if nk in st.pckeys:
                    return False
                if self.eqkey(k) in st.pckeys:
                    return True
            elif k[0] == 'rlt':
                nk = self.neg_key(k)
                if nk in st.pckeys or ('rlt',) + nk[1:] in st.pckeys:
                    return False
                if self.eqkey(k) in st.pckeys:
                    return False
            elif k[0] == 'req':
                for s in (1, -1):
                    if ('rlt', tuple((m, v * s) for m, v in k[1]), ()) in st.pckeys:
                        return False
        return None

    def eqkey(self, k):
        lead = k[1][-1][1]
        s = 1 if lead > 0 else -1
        return ('req', tuple((m, v * s) for m, v in k[1]), ())

    def assume(self, st, c):
        if c is TRUE:
            return
        if c.op == 'and':
            self.assume(st, c.args[0])
            self.assume(st, c.args[1])
            return
        if c.id in st.pckeys:
            return
        st.pc.append(c)
        st.pckeys.add(c.id)
        k = self.ckey(st, c)
        if k is not None and k[0] != 'const':
            st.pckeys.add(k)
        if c.op == 'ieq' and c.args[1].op == 'ic':
            st.subst[c.args[0].id] = c.args[1].args[0]
        elif c.op == 'ieq' and c.args[0].op == 'ic':
            st.subst[c.args[1].id] = c.args[0].args[0]
        st.samples = [k for k in st.samples if self.holds(k, c)]

    def entails_quick(self, st, c):
        d = self.decide(st, c)
        if d is not None:
            return d
        # refute by sample first
        for k in st.samples[:8]:
            if self.ev(k, c) is False:
                return False
        if c.op in ('ile', 'ilt', 'and'):
            r = self.query(st, bnot(c), 1.0, ints_only=True)
            return r == 'unsat'
        return False

    def cone(self, st, c, extra=()):
        """path conditions connected to c through shared variables"""
        sups = [(p, self.support(p)) for p in st.pc]
        S = set(self.support(c))
        for e in extra:
            S |= self.support(e)
        out = []
        rest = sups
        ch = True
        while ch:
            ch = False
            nr = []
            for p, s in rest:
                if s & S:
                    out.append(p)
                    S |= s
                    ch = True
                else:
                    nr.append((p, s))
            rest = nr
        return out

    _sup = {}

    def support(self, t):
        r = self._sup.get(t.id)
        if r is None:
            r = frozenset(x.id for x in subterms([t]) if x.op in ('rv', 'iv', 'bv', 'v'))
            self._sup[t.id] = r
        return r

    def query(self, st, c, timeout, ints_only=False):
        """sat/unsat/unknown of pc & c"""
        pc = self.cone(st, c)
        if ints_only:
            pc = [p for p in pc if not any(x.sort == R for x in subterms([p]))]
        key = (frozenset(p.id for p in pc), c.id, timeout >= 2)
        r = self.fcache.get(key)
        if r is not None:
            return r
        try:
            E = smt.Emit()
            s = E.script(pc + [c])
            t0 = time.time()
            r, m = smt.run_solver(s, E.vars, 'z3', timeout, model=False)
            self.feas_q += 1
            self.feas_t += time.time() - t0
        except (Special, NotImplementedError):
            r = 'unknown'
        self.fcache[key] = r
        return r

    def feasible(self, st, c, timeout=1.0):
        """False only if pc & c is unsatisfiable"""
        if c is FALSE:
            return False
        d = self.decide(st, c)
        if d is not None and c is not TRUE:
            return d
        for k in st.samples:
            if self.holds(k, c):
                return True
        if c is TRUE:
            if not st.pc:
                return True
            # full path condition
            try:
                E = smt.Emit()
                s = E.script(list(st.pc))
                r, m = smt.run_solver(s, E.vars, 'z3', timeout, model=False)
            except (Special, NotImplementedError):
                r = 'unknown'
            return r != 'unsat'
        r = self.query(st, c, timeout)
        self.last_unknown = r not in ('sat', 'unsat')
        return r != 'unsat'

    last_unknown = False

    def int_values(self, st, t, limit):
        if t.id in st.subst:
            return [st.subst[t.id]]
        if t.lo is not None and t.hi is not None and t.hi - t.lo < limit:
            cand = range(t.lo, t.hi + 1)
            out = [v for v in cand if self.feasible(st, ieq(t, ic(v)))]
            return out
        # strided: single variable
        vs = [x for x in subterms([t]) if x.op == 'iv']
        if len(vs) == 1 and vs[0].lo is not None and vs[0].hi is not None and vs[0].hi - vs[0].lo < limit:
            x = vs[0]
            out = []
            for v in range(x.lo, x.hi + 1):
                if self.feasible(st, ieq(x, ic(v))):
                    u = substitute_int(t, x, v)
                    if u.op != 'ic':
                        break
                    out.append(u.args[0])
            else:
                return sorted(set(out))
        # model enumeration
        out = []
        try:
            pc = self.cone(st, ieq(t, I0))
            extra = []
            while len(out) <= limit:
                E = smt.Emit()
                nm = mk('iv', ('conc!%d' % t.id, None, None), I)
                s = E.script(pc + [ieq(nm, t)] + extra)
                r, m = smt.run_solver(s, [(v, x) for v, x in E.vars if x is nm], 'z3', 3.0)
                if r == 'unsat':
                    return sorted(out)
                if r != 'sat' or not m:
                    return None
                v = int(list(m.values())[0])
                out.append(v)
                extra.append(bnot(ieq(t, ic(v))))
        except Special:
            return None
        return None

    # ------------------------------------------------------------ proving
    def prove(self, st, goal, ptime=20):
        if goal is TRUE:
            return Res('proved', 'const')
        if goal.op == 'and':
            r1 = self.prove(st, goal.args[0], ptime)
            if r1.status != 'proved':
                return r1
            r2 = self.prove(st, goal.args[1], ptime)
            if r2.status != 'proved':
                return r2
            return r2 if r1.backend in ('const',) else r1
        if goal is not FALSE:
            if goal.op in ('req', 'rle') and self.abstract_proof(st, goal):
                return Res('proved', 'normal-form')
            # sample refutation
            for k in st.samples[:24]:
                if self.clear_violation(k, goal) and self.confirm_mp(st, k, goal):
                    return Res('refuted', 'sampling', self.sample_model(st, k))
            nfm.DEADLINE[0] = time.time() + 3 * ptime
            try:
                d = self.decide(st, goal)
            finally:
                nfm.DEADLINE[0] = None
            if d is True:
                return Res('proved', 'normal-form')
            if self.sign_proof(st, goal):
                return Res('proved', 'sign')
        else:
            if st.samples:
                for k in st.samples:
                    if self.confirm_mp(st, k, goal):
                        return Res('refuted', 'sampling', self.sample_model(st, k))
        ng = bnot(goal)
        try:
            return self.smt_prove(st, goal, ng, ptime)
        except (Special, NotImplementedError) as e:
            return Res('unknown', 'unsupported:%s' % e)

    def abstract_proof(self, st, goal):
        """a == b  (or a <= b) after generalising shared subterms to fresh variables: sound, incomplete, cheap"""
        root = rsub(goal.args[0], goal.args[1])
        # linear cancellation
        co = {}
        stk = [(root, F(1))]
        nst = 0
        while stk:
            x, c = stk.pop()
            nst += 1
            if nst > 20000:
                return False
            if x.op == 'add':
                stk.append((x.args[0], c))
                stk.append((x.args[1], c))
            elif x.op == 'neg':
                stk.append((x.args[0], -c))
            elif x.op == 'mul' and x.args[0].op == 'rc':
                stk.append((x.args[1], c * x.args[0].args[0]))
            elif x.op == 'mul' and x.args[1].op == 'rc':
                stk.append((x.args[0], c * x.args[1].args[0]))
            else:
                y, v = co.get(x.id, (x, F(0)))
                co[x.id] = (x, v + c)
        root = None
        for x, c in co.values():
            if c:
                y = rmul(rc(c), x)
                root = y if root is None else radd(root, y)
        if root is None:
            return True
        par = {}
        order = []
        seen = {root.id}
        stk = [root]
        RO = ('add', 'mul', 'neg', 'div')
        while stk:
            x = stk.pop()
            order.append(x)
            if x.op in RO:
                for a in x.args:
                    par.setdefault(a.id, set()).add(x.id)
                    if a.id not in seen:
                        seen.add(a.id)
                        stk.append(a)
        if len(order) < 60:
            return False
        # topological order (parents first)
        indeg = {x.id: 0 for x in order}
        for x in order:
            if x.op in RO:
                for a in set(x.args):
                    indeg[a.id] += 1
        byid = {x.id: x for x in order}
        ready = [root]
        sd = {root.id: 0}
        maxsd = 0
        while ready:
            x = ready.pop()
            if x.op in RO:
                for a in set(x.args):
                    d = sd[x.id] + (1 if len(par[a.id]) > 1 and a.op in RO else 0)
                    if d > sd.get(a.id, -1):
                        sd[a.id] = d
                    indeg[a.id] -= 1
                    if indeg[a.id] == 0:
                        ready.append(a)
            maxsd = max(maxsd, sd[x.id])
        old = nfm.DEADLINE[0]
        try:
            for k in range(1, min(maxsd, 9)):
                nf = NF(dict(st.rules))
                nf.nonneg = self.is_nonneg_atom
                for x in order:
                    if x.op in RO and len(par.get(x.id, ())) > 1 and sd[x.id] == k:
                        nf.memo[x.id] = nf.atom(x)
                nfm.DEADLINE[0] = time.time() + 0.4
                try:
                    n, d = nf.norm(root)
                except (TooBig, Special, ZeroDivisionError):
                    continue
                if not n:
                    return True
                if goal.op == 'rle' and len(n) == 1 and () in n and n[()] < 0 and not d:
                    return True
        finally:
            nfm.DEADLINE[0] = old
        return False

    def smt_prove(self, st, goal, ng, ptime):
        cone = self.cone(st, ng) if goal is not FALSE else list(st.pc)
        lem = list(st.lemmas)
        attempts = []
        poly = None
        try:
            poly = self.poly_script(st, cone, ng)
        except (TooBig, Special, ZeroDivisionError):
            poly = None
        attempts.append(('z3', 'raw', 2))
        if poly:
            attempts.append(('z3', 'poly', 3))
        attempts.append(('cvc5', 'raw', 4))
        if poly:
            attempts.append(('cvc5', 'poly', 5))
            attempts.append(('z3', 'poly', ptime))
        attempts.append(('z3', 'raw', ptime))
        last = 'unknown'
        for which, form, to in attempts:
            if to > ptime:
                to = ptime
            E = None
            if form == 'raw':
                E = smt.Emit()
                s = E.script(cone + lem + ([ng] if goal is not FALSE else []))
                vs = [(v, t) for v, t in E.vars if t.op in ('rv', 'iv', 'bv', 'v')]
            else:
                s, vs = poly
            r, m = smt.run_solver(s, vs, which, to)
            if r == 'unsat':
                return Res('proved', which + '/' + form)
            if r == 'sat':
                model = {}
                for nm, t in vs:
                    if m and nm in m and t.op in ('rv', 'iv', 'bv', 'v'):
                        model[t.args[0]] = m[nm]
                # validate
                k = self.add_sample(model)
                if all(self.holds(k, c) for c in st.pc) and (goal is FALSE or (self.ev(k, goal) is False and (
                        goal.op != 'req' or mpmath is None or self.confirm_mp(st, k, goal)))):
                    return Res('refuted', which, self.sample_model(st, k))
                has_uf = any(t.op == 'uf' for t in subterms(cone + [ng]))
                last = 'sat-unvalidated'
                if not has_uf and form == 'raw' and len(cone) == len(st.pc):
                    return Res('refuted', which + '(model not replayed in floats)', self.sample_model(st, k))
        return Res('unknown', last)

    def poly_script(self, st, cone, ng):
        """division-free polynomial form over atoms"""
        nf = self.nf(st)
        out = []
        pend = []
        used = set()

        def conv(c):
            if c.op in ('rlt', 'rle', 'req'):
                n, d = nf.norm(rsub(c.args[1], c.args[0]))
                if len(n) > 600:
                    raise TooBig()
                p = self.pstr(nf, n, used)
                odd = [f for f, e in d.items() if e % 2 and not self.pos_factor(nf, f)]
                for f in d:
                    fs = self.pstr(nf, nf.fpoly(f), used)
                    pend.append('(not (= %s 0.0))' % fs)
                if c.op == 'req':
                    return '(= %s 0.0)' % p
                for f in odd:
                    p = '(* %s %s)' % (p, self.pstr(nf, nf.fpoly(f), used))
                return '(%s %s 0.0)' % ('>' if c.op == 'rlt' else '>=', p)
            if c.op == 'not':
                return '(not %s)' % conv(c.args[0])
            if c.op in ('and', 'or', 'xor'):
                return '(%s %s %s)' % (c.op, conv(c.args[0]), conv(c.args[1]))
            if c is TRUE:
                return 'true'
            if c is FALSE:
                return 'false'
            if c.op == 'bv':
                used.add(c)
                return 'x%d' % c.id
            raise TooBig()
        asserts = []
        for c in cone + list(st.lemmas):
            try:
                asserts.append(conv(c))
            except TooBig:
                if c in cone and False:
                    raise
        if ng is not TRUE:
            asserts.append(conv(ng))
        asserts += pend
        # atom axioms
        decl = []
        ax = []
        done = set()
        E = smt.Emit()
        vs = []
        work = list(used)
        while work:
            t = work.pop()
            if t.id in done:
                continue
            done.add(t.id)
            nm = 'x%d' % t.id
            decl.append('(declare-const %s %s)' % (nm, smt.sortname(t.sort)))
            vs.append((nm, t))
            if t.op in ('sqrt', 'abs'):
                ax.append('(>= %s 0.0)' % nm)
            if t.id in nf.rules:
                p, q = nf.rules[t.id]
                u2 = set()
                ps, qs = self.pstr(nf, p, u2), self.pstr(nf, q, u2)
                ax.append('(= (* %s %s %s) %s)' % (nm, nm, qs, ps))
                work += list(u2)
            if t.op == 'uf' and t.args[0] in ('sin', 'cos'):
                ax.append('(and (<= (- 1.0) %s) (<= %s 1.0))' % (nm, nm))
            if t.op == 'uf' and t.args[0] == 'exp':
                ax.append('(> %s 0.0)' % nm)
            if t.op in ('ite', 'i2r'):
                raise TooBig()
            if t.op == 'rv':
                k = self.kinds.get(t.args[0])
        s = '\n'.join(decl + ['(assert %s)' % a for a in ax + asserts] + ['(check-sat)'])
        return s, vs

    def pstr(self, nf, p, used):
        terms = []
        for m, c in sorted(p.items()):
            fs = []
            if c != 1 or not m:
                fs.append(smt.q_frac(c))
            for a, e in m:
                used.add(nf.atoms[a])
                fs += ['x%d' % a] * e
            terms.append(fs[0] if len(fs) == 1 else '(* %s)' % ' '.join(fs))
        if not terms:
            return '0.0'
        return terms[0] if len(terms) == 1 else '(+ %s)' % ' '.join(terms)

    def sign_proof(self, st, goal):
        """goal  0 <= n/d  or 0 < n/d by all monomials being visibly (non)negative"""
        if goal.op not in ('rle', 'rlt'):
            return False
        try:
            nf = self.nf(st)
            n, d = nf.norm(rsub(goal.args[1], goal.args[0]))
        except (TooBig, Special, ZeroDivisionError):
            return False
        if goal.op == 'rlt':
            return False
        for f, e in d.items():
            if e % 2 and not self.atom_nonneg(st, nf, f):
                return False
        for m, c in n.items():
            if c < 0:
                return False
            for a, e in m:
                if e % 2 and not self.atom_nonneg(st, nf, a):
                    return False
        return True

    def atom_nonneg(self, st, nf, f):
        if f < 0:
            p = nf.fac[f]
            for m, c in p.items():
                if c < 0:
                    return False
                for a, e in m:
                    if e % 2 and not self.atom_nonneg(st, nf, a):
                        return False
            return True
        t = nf.atoms[f]
        if t.op in ('sqrt', 'abs') or t.op == 'uf' and t.args[0] == 'exp':
            return True
        for c in (rle(R0, t), rlt(R0, t)):
            if self.decide(st, c):
                return True
        return False

    # ------------------------------------------------------------ samples
    def add_sample(self, model):
        k = 1000 + len(self.given)
        g = {}
        for nm, v in model.items():
            g[nm] = float(v) if isinstance(v, F) and v.denominator != 1 else (v if isinstance(v, bool) else (int(v) if not isinstance(v, float) else v))
        # reals must be floats
        self.given[k] = g
        return k

    def clear_violation(self, k, goal):
        v = self.ev(k, goal)
        if v is not False:
            return False
        if goal.op in ('req', 'rle', 'rlt'):
            a, b = self.ev(k, goal.args[0]), self.ev(k, goal.args[1])
            if a is None or b is None:
                return False
            if abs(a - b) <= 1e-7 * (1e-3 + abs(a) + abs(b)):
                return False
        return True

    def confirm_mp(self, st, k, goal):
        """re-evaluate path condition and goal with 60 digits"""
        if mpmath is None:
            return True
        with mpmath.workdps(60):
            memo = {}
            eps = mpmath.mpf(10) ** -25
            for c in st.pc:
                if not self.mp_holds(k, c, memo, eps, True):
                    return False
            if goal is FALSE:
                return True
            return self.mp_holds(k, bnot(goal), memo, eps, False)

    def mp_holds(self, k, c, memo, eps, lenient):
        v = self.mpev(k, c, memo, eps if lenient else 0)
        if v is True:
            if not lenient and c.op == 'not' and c.args[0].op == 'req':
                a = self.mpev(k, c.args[0].args[0], memo, 0)
                b = self.mpev(k, c.args[0].args[1], memo, 0)
                return abs(a - b) > eps * (1 + abs(a) + abs(b))
            if not lenient and c.op in ('rlt', 'rle'):
                a = self.mpev(k, c.args[0], memo, 0)
                b = self.mpev(k, c.args[1], memo, 0)
                return abs(a - b) > eps * (1 + abs(a) + abs(b))
            return True
        return False

    def mpev(self, k, t, memo, eps):
        st = [t]
        while st:
            x = st[-1]
            if x.id in memo:
                st.pop()
                continue
            todo = [a for a in x.args if isinstance(a, Term) and a.id not in memo]
            if todo:
                st.extend(todo)
                continue
            try:
                if x.op in ('rv',):
                    r = mpmath.mpf(self.sample_var(k, x))
                elif x.op in ('iv', 'bv', 'v'):
                    r = self.sample_var(k, x)
                else:
                    A = [memo[a.id] if isinstance(a, Term) else a for a in x.args]
                    if any(a is None for a in A):
                        r = None
                    else:
                        r = evop(x.op, A, x, mpmath)
            except Exception:
                r = None
            memo[x.id] = r
            st.pop()
        return memo[t.id]

    def sample_model(self, st, k):
        m = {}
        for t in st.inputs:
            v = self.sample_var(k, t)
            m[t.args[0]] = v
        return m


def evop(op, A, x, mp=None):
    M = mp or math
    if op == 'rc':
        return float(A[0]) if mp is None else mp.mpf(A[0].numerator) / A[0].denominator
    if op == 'ic' or op == 'vc':
        return A[0]
    if op == 'add':
        return A[0] + A[1]
    if op == 'mul':
        return A[0] * A[1]
    if op == 'div':
        return A[0] / A[1]
    if op == 'neg':
        return -A[0]
    if op == 'sqrt':
        if A[0] < 0:
            return None
        return M.sqrt(A[0])
    if op == 'abs':
        return abs(A[0])
    if op == 'rlt' or op == 'ilt':
        return bool(A[0] < A[1])
    if op == 'rle' or op == 'ile':
        return bool(A[0] <= A[1])
    if op in ('req', 'ieq', 'vceq'):
        return bool(A[0] == A[1])
    if op == 'not':
        return not A[0]
    if op == 'and':
        return A[0] and A[1]
    if op == 'or':
        return A[0] or A[1]
    if op == 'xor':
        return bool(A[0]) != bool(A[1])
    if op == 'true':
        return True
    if op == 'false':
        return False
    if op == 'ite':
        return A[1] if A[0] else A[2]
    if op == 'iadd':
        return A[0] + A[1]
    if op == 'imul':
        return A[0] * A[1]
    if op == 'idiv':
        return A[0] // A[1]
    if op == 'imod':
        return A[0] % A[1]
    if op == 'i2r':
        return float(A[0]) if mp is None else mp.mpf(A[0])
    if op == 'floor':
        return int(M.floor(A[0]))
    if op == 'uf':
        f = A[0]
        if f in ('sin', 'cos', 'tan', 'exp', 'log', 'acos', 'asin', 'atan', 'atan2', 'sinh', 'cosh', 'tanh'):
            return getattr(M, f)(*A[1:])
        if f == 'pow':
            r = M.pow(A[1], A[2]) if mp is None else mp.power(A[1], A[2])
            return r
        if f == 'log10':
            return M.log10(A[1])
        if f == 'cbrt':
            return (abs(A[1]) ** (1.0 / 3)) * (1 if A[1] >= 0 else -1)
        return None
    w = x.sort
    if op[0] == 'v' and isinstance(w, int):
        m = (1 << w) - 1
        if op == 'vand':
            return A[0] & A[1]
        if op == 'vor':
            return A[0] | A[1]
        if op == 'vxor':
            return A[0] ^ A[1]
        if op == 'vadd':
            return (A[0] + A[1]) & m
        if op == 'vsub':
            return (A[0] - A[1]) & m
        if op == 'vmul':
            return (A[0] * A[1]) & m
        if op == 'vshl':
            return (A[0] << A[1]) & m if A[1] < w else 0
        if op == 'vlshr':
            return A[0] >> A[1]
        if op == 'vashr':
            s = A[0] - (1 << w) if A[0] >> (w - 1) else A[0]
            return (s >> min(A[1], w - 1)) & m
        if op == 'vzext':
            return A[0]
        if op == 'vsext':
            ow = x.args[0].sort
            s = A[0] - (1 << ow) if A[0] >> (ow - 1) else A[0]
            return s & m
        if op == 'vtrunc':
            return A[0] & m
        if op == 'vofb':
            return 1 if A[0] else 0
    if op.startswith('vc') and w == B:
        ow = x.args[0].sort
        a, b = A
        if op[2] == 's':
            a = a - (1 << ow) if a >> (ow - 1) else a
            b = b - (1 << ow) if b >> (ow - 1) else b
        return {'eq': a == b, 'ult': a < b, 'ule': a <= b, 'slt': a < b, 'sle': a <= b}[op[2:]]
    return None


def substitute_int(t, x, v):
    if t is x:
        return ic(v)
    if t.op == 'ic':
        return t
    if t.op == 'iadd':
        return iadd(substitute_int(t.args[0], x, v), substitute_int(t.args[1], x, v))
    if t.op == 'imul':
        return imul(substitute_int(t.args[0], x, v), substitute_int(t.args[1], x, v))
    if t.op == 'idiv':
        return iediv(substitute_int(t.args[0], x, v), t.args[1])
    if t.op == 'imod':
        return imod(substitute_int(t.args[0], x, v), t.args[1])
    return t
