"""Rational-function normal form over atoms: decision procedure for real-field identities.

A Real term is normalised to num/den, num a polynomial {monomial: coeff} and den a
product of irreducible-looking factors.  Square roots, and unit-vector style
assumptions, are used as rewrite rules a^2 -> p/q.
"""
from fractions import Fraction as F
from .terms import *


import time


class TooBig(Exception):
    pass


LIMIT = 60000
DEADLINE = [None]


ONE = ()


def p_const(c):
    return {ONE: c} if c else {}


def p_atom(aid):
    return {((aid, 1),): F(1)}


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            out.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def p_add(a, b, sb=1):
    if len(a) < len(b) and sb == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + sb * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_scale(a, c):
    return {m: v * c for m, v in a.items()} if c else {}


def p_mul(a, b):
    if len(a) * len(b) > LIMIT * 12:
        raise TooBig()
    if DEADLINE[0] is not None and len(a) * len(b) > 500 and time.time() > DEADLINE[0]:
        raise TooBig()
    r = {}
    if len(a) < len(b):
        a, b = b, a
    for mb, cb in b.items():
        for ma, ca in a.items():
            m = mono_mul(ma, mb)
            v = r.get(m, 0) + ca * cb
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


def p_pow(a, n):
    r = {ONE: F(1)}
    for _ in range(n):
        r = p_mul(r, a)
    return r


def p_key(p):
    return tuple(sorted(p.items()))


def mkey(m):
    return tuple((-a, e) for a, e in m)


def mono_div(m, l):
    """m / l or None"""
    if not l:
        return m
    d = dict(m)
    for a, e in l:
        x = d.get(a, 0) - e
        if x < 0:
            return None
        if x:
            d[a] = x
        else:
            del d[a]
    return tuple(sorted(d.items()))


def p_divexact(num, fp, maxq=4000):
    """num / fp when exact, else None (lex order)"""
    lf = max(fp, key=mkey)
    cf = fp[lf]
    l0 = max(num, key=mkey)
    if mono_div(l0, lf) is None:
        return None
    tf = min(fp, key=mkey)
    if mono_div(min(num, key=mkey), tf) is None:
        return None
    import heapq
    rem = dict(num)
    heap = [_Neg(mkey(m), m) for m in rem]
    heapq.heapify(heap)
    rest = [(m, c) for m, c in fp.items() if m != lf]
    q = {}
    while heap:
        m = heapq.heappop(heap).m
        c = rem.pop(m, None)
        if not c:
            continue
        d = mono_div(m, lf)
        if d is None:
            return None
        k = c / cf
        q[d] = k
        if len(q) > maxq:
            return None
        for fm, fc in rest:
            x = mono_mul(d, fm)
            o = rem.get(x)
            if o is None:
                rem[x] = -k * fc
                heapq.heappush(heap, _Neg(mkey(x), x))
            else:
                v = o - k * fc
                rem[x] = v
    return q


def p_sqrt(p, maxn=60):
    """polynomial whose square is p, up to sign, or None"""
    if len(p) > 400:
        return None

    def rat(v):
        import math
        if v <= 0:
            return None
        a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
        return F(a, b) if a * a == v.numerator and b * b == v.denominator else None
    l = max(p, key=mkey)
    c = rat(p[l])
    if c is None or any(e % 2 for _, e in l):
        return None
    lm = tuple((a, e // 2) for a, e in l)
    s = {lm: c}
    rem = p_add(p, p_mul(s, s), -1)
    while rem:
        m = max(rem, key=mkey)
        d = mono_div(m, lm)
        if d is None or len(s) >= maxn or mkey(d) >= mkey(lm):
            return None
        k = rem[m] / (2 * c)
        t = {d: k}
        # (s+t)^2 - s^2 = 2 s t + t^2
        rem = p_add(rem, p_add(p_scale(p_mul(s, t), F(2)), p_mul(t, t)), -1)
        if d in s:
            return None
        s[d] = k
    return s


class _Neg(object):
    __slots__ = ('k', 'm')

    def __init__(self, k, m):
        self.k = k
        self.m = m

    def __lt__(self, o):
        return self.k > o.k


class NF(object):
    """normaliser with a set of square rules  atom_id -> (num, den_poly)"""

    def __init__(self, rules=None, subst=None):
        self.memo = {}
        self.atoms = {}          # atom id -> Term
        self.rules = {}          # atom id -> (p, q) meaning atom^2 = p/q
        self.user_rules = rules or {}   # term id -> Term  (term^2 = Term)
        self.subst = subst or {}  # term id -> Term replaced before normalising
        self.sqrtkey = {}
        self.fac = {}            # factor id (negative) -> poly
        self.fackey = {}
        self.nonneg = None       # Term -> bool: atom known to be nonnegative

    def p_nonneg(self, p):
        """all coefficients >= 0 over nonnegative monomials"""
        if self.nonneg is None:
            return False
        for m, c in p.items():
            if c < 0:
                return False
            for a, e in m:
                if e % 2 and not self.nonneg(self.atoms[a]):
                    return False
        return True

    def p_abs(self, n, d):
        """|n/d| as n/d or -n/d where the signs are evident, else None"""
        for f, e in d.items():
            if e % 2 and not self.p_nonneg(self.fpoly(f)):
                return None
        if self.p_nonneg(n):
            return n, d
        m = p_scale(n, F(-1))
        if self.p_nonneg(m):
            return m, d
        return None

    # den: dict factor_id -> exp ; factor_id >=0 : atom id, <0 : polynomial
    def factor_poly(self, p):
        """p (nonzero) -> (coef, {factor:exp})"""
        # common monomial
        it = iter(p)
        m0 = dict(next(it))
        for m in it:
            if not m0:
                break
            d = dict(m)
            for k in list(m0):
                e = min(m0[k], d.get(k, 0))
                if e:
                    m0[k] = e
                else:
                    del m0[k]
        den = dict(m0)
        if m0:
            q = {}
            for m, c in p.items():
                d = dict(m)
                for k, e in m0.items():
                    d[k] -= e
                    if not d[k]:
                        del d[k]
                q[tuple(sorted(d.items()))] = c
            p = q
        lead = max(p)
        c0 = p[lead]
        if len(p) > 1:
            p = {m: c / c0 for m, c in p.items()}
            k = p_key(p)
            f = self.fackey.get(k)
            if f is None:
                f = -(len(self.fackey) + 1)
                self.fackey[k] = f
                self.fac[f] = p
            den[f] = den.get(f, 0) + 1
        return c0, den

    def fpoly(self, f):
        return self.fac[f] if f < 0 else p_atom(f)

    def reduce(self, num, den):
        """apply square rules to num and den"""
        changed = True
        while changed:
            changed = False
            mx = {}
            for m in num:
                for a, e in m:
                    if e >= 2 and a in self.rules:
                        if mx.get(a, 0) < e:
                            mx[a] = e
            for a in mx:
                e = max((eb for m in num for b, eb in m if b == a), default=0)
                if e < 2:
                    continue
                p, q = self.rules[a]
                k = e // 2
                qtriv = (len(q) == 1 and ONE in q)
                pw = [{ONE: F(1)}]
                qw = [{ONE: F(1)}]
                for _ in range(k):
                    pw.append(p_mul(pw[-1], p))
                    qw.append(p_mul(qw[-1], q))
                out = {}
                for m, c in num.items():
                    j = 0
                    mm = m
                    for idx, (b, eb) in enumerate(m):
                        if b == a:
                            j = eb // 2
                            if eb % 2:
                                mm = m[:idx] + ((b, 1),) + m[idx + 1:]
                            else:
                                mm = m[:idx] + m[idx + 1:]
                            break
                    t = {mm: c}
                    if j:
                        t = p_mul(t, pw[j])
                    if k - j and not qtriv:
                        t = p_mul(t, qw[k - j])
                    elif k - j:
                        t = p_scale(t, q[ONE] ** (k - j))
                    out = p_add(out, t)
                num = out
                if qtriv:
                    num = p_scale(num, F(1) / q[ONE] ** k) if q[ONE] != 1 else num
                else:
                    den = dict(den)
                    c0, fs = self.factor_poly(q)
                    num = p_scale(num, F(1) / c0 ** k)
                    for f, x in fs.items():
                        den[f] = den.get(f, 0) + x * k
                if qtriv and q[ONE] != 1:
                    pass
                changed = True
            for a in list(den):
                if a >= 0 and a in self.rules and den[a] >= 2:
                    p, q = self.rules[a]
                    k = den[a] // 2
                    den = dict(den)
                    den[a] -= 2 * k
                    if not den[a]:
                        del den[a]
                    if not p:
                        raise TooBig()
                    c0, fs = self.factor_poly(p)
                    num = p_scale(num, F(1) / c0 ** k)
                    for f, x in fs.items():
                        den[f] = den.get(f, 0) + x * k
                    if not (len(q) == 1 and ONE in q and q[ONE] == 1):
                        num = p_mul(num, p_pow(q, k))
                    changed = True
        # cancel common atoms
        if den and num:
            for a in [x for x in den if x >= 0]:
                e = den[a]
                for m in num:
                    d = 0
                    for b, eb in m:
                        if b == a:
                            d = eb
                            break
                    if d < e:
                        e = d
                    if not e:
                        break
                if e:
                    q = {}
                    for m, c in num.items():
                        q[tuple((b, eb - e) if b == a else (b, eb) for b, eb in m if not (b == a and eb == e))] = c
                    num = q
                    den = dict(den)
                    den[a] -= e
                    if not den[a]:
                        del den[a]
            for f in [x for x in den if x < 0]:
                # exact proportionality  num = c * f
                fp = self.fac[f]
                if len(fp) == len(num):
                    lead = max(fp)
                    c = num.get(lead)
                    if c is not None and all(num.get(m) == v * c for m, v in fp.items()):
                        num = p_const(c)
                        den = dict(den)
                        den[f] -= 1
                        if not den[f]:
                            del den[f]
                elif len(num) > len(fp) or len(num) > 1:
                    while f in den:
                        q = p_divexact(num, fp)
                        if q is None:
                            break
                        num = q
                        den = dict(den)
                        den[f] -= 1
                        if not den[f]:
                            del den[f]
        if not num:
            den = {}
        return num, den

    def lcm(self, d1, d2):
        if d1 == d2:
            return d1, None, None
        out = dict(d1)
        for f, e in d2.items():
            if out.get(f, 0) < e:
                out[f] = e
        m1 = {ONE: F(1)}
        m2 = {ONE: F(1)}
        for f, e in out.items():
            k = e - d1.get(f, 0)
            if k:
                m1 = p_mul(m1, p_pow(self.fpoly(f), k))
            k = e - d2.get(f, 0)
            if k:
                m2 = p_mul(m2, p_pow(self.fpoly(f), k))
        return out, m1, m2

    def add(self, a, b):
        (n1, d1), (n2, d2) = a, b
        if not n1:
            return b
        if not n2:
            return a
        d, m1, m2 = self.lcm(d1, d2)
        if m1 is not None:
            n1 = p_mul(n1, m1)
            n2 = p_mul(n2, m2)
        return self.reduce(p_add(n1, n2), d)

    def mul(self, a, b):
        (n1, d1), (n2, d2) = a, b
        if not n1 or not n2:
            return ({}, {})
        # cancel single factors
        d = dict(d1)
        for f, e in d2.items():
            d[f] = d.get(f, 0) + e
        return self.reduce(p_mul(n1, n2), d)

    def inv(self, a):
        n, d = a
        if not n:
            raise ZeroDivisionError()
        c0, fs = self.factor_poly(n)
        num = p_const(F(1) / c0)
        den = dict(fs)
        for f, e in d.items():
            k = min(e, den.get(f, 0))
            if k:
                den[f] -= k
                if not den[f]:
                    del den[f]
            if e - k:
                num = p_mul(num, p_pow(self.fpoly(f), e - k))
        return self.reduce(num, den)

    def atom(self, t):
        if t.id not in self.atoms:
            self.atoms[t.id] = t
            u = self.user_rules.get(t.id)
            if u is not None:
                n, d = self.norm(u)
                q = {ONE: F(1)}
                for f, e in d.items():
                    q = p_mul(q, p_pow(self.fpoly(f), e))
                self.rules[t.id] = (n, q)
        return (p_atom(t.id), {})

    def sqrt_atom(self, t):
        n, d = self.norm(t.args[0])
        if not n:
            return ({}, {})
        if not d and len(n) == 1 and ONE in n and n[ONE] > 0:
            v = n[ONE]
            import math as _m
            rn, rd = _m.isqrt(v.numerator), _m.isqrt(v.denominator)
            if rn * rn == v.numerator and rd * rd == v.denominator:
                return ({ONE: F(rn, rd)}, {})
        if self.nonneg is not None and all(e % 2 == 0 for e in d.values()):
            s = p_sqrt(n)
            if s is not None:
                r = self.p_abs(s, {f: e // 2 for f, e in d.items()})
                if r is not None:
                    return r
        k = (p_key(n), tuple(sorted(d.items())))
        a = self.sqrtkey.get(k)
        if a is None:
            # perfect square constant factor extraction
            self.sqrtkey[k] = a = t
            self.atoms[t.id] = t
            q = {ONE: F(1)}
            for f, e in d.items():
                q = p_mul(q, p_pow(self.fpoly(f), e))
            self.rules[t.id] = (n, q)
        return (p_atom(a.id), {})

    def norm(self, t):
        r = self.memo.get(t.id)
        if r is not None:
            return r
        # iterative post-order to avoid deep recursion
        st = [t]
        while st:
            x = st[-1]
            if x.id in self.memo:
                st.pop()
                continue
            s = self.subst.get(x.id)
            if s is not None:
                if s.id not in self.memo:
                    st.append(s)
                    continue
                self.memo[x.id] = self.memo[s.id]
                st.pop()
                continue
            op = x.op
            if op in ('add', 'mul', 'div', 'neg'):
                todo = [a for a in x.args if a.id not in self.memo]
                if todo:
                    st.extend(todo)
                    continue
                m = [self.memo[a.id] for a in x.args]
                if op == 'add':
                    v = self.add(m[0], m[1])
                elif op == 'mul':
                    v = self.mul(m[0], m[1])
                elif op == 'neg':
                    v = (p_scale(m[0][0], F(-1)), m[0][1])
                else:
                    if not m[1][0]:
                        raise ZeroDivisionError()
                    v = self.mul(m[0], self.inv(m[1]))
            elif op == 'rc':
                v = (p_const(x.args[0]), {})
            elif op == 'sqrt':
                if x.args[0].id not in self.memo:
                    st.append(x.args[0])
                    continue
                v = self.sqrt_atom(x)
            elif op in ('nan', 'inf'):
                raise Special('special in norm')
            elif op == 'abs':
                a = x.args[0]
                if a.id not in self.memo:
                    st.append(a)
                    continue
                v = self.abs_atom(x)
            elif op == 'uf':
                v = self.uf_atom(x)
            else:
                v = self.atom(x)
            self.memo[x.id] = v
            st.pop()
        return self.memo[t.id]

    def abs_atom(self, t):
        n, d = self.norm(t.args[0])
        if not n:
            return ({}, {})
        r = self.p_abs(n, d)
        if r is not None:
            return r
        # |x| canonical up to sign
        lead = max(n)
        if n[lead] < 0:
            n = p_scale(n, F(-1))
        k = ('abs', p_key(n), tuple(sorted(d.items())))
        a = self.sqrtkey.get(k)
        if a is None:
            self.sqrtkey[k] = a = t
            self.atoms[t.id] = t
            q = {ONE: F(1)}
            for f, e in d.items():
                q = p_mul(q, p_pow(self.fpoly(f), e))
            self.rules[t.id] = (p_mul(n, n), p_mul(q, q))
        return (p_atom(a.id), {})

    def uf_atom(self, t):
        name = t.args[0]
        ks = []
        for a in t.args[1:]:
            n, d = self.norm(a)
            ks.append((p_key(n), tuple(sorted(d.items()))))
        sign = 1
        if name in ('sin', 'cos', 'tan', 'atan', 'asin') and len(ks) == 1 and ks[0][0]:
            n, d = self.norm(t.args[1])
            if n[max(n)] < 0:
                ks = [(p_key(p_scale(n, F(-1))), ks[0][1])]
                if name != 'cos':
                    sign = -1
        k = ('uf', name, tuple(ks))
        a = self.sqrtkey.get(k)
        if a is None:
            self.sqrtkey[k] = a = t
            self.atoms[t.id] = t
            if name == 'sin' and len(ks) == 1:
                c = self.uf_atom(ruf('cos', t.args[1]))
                cid = list(c[0])[0][0][0]
                self.rules[t.id] = ({ONE: F(1), ((cid, 2),): F(-1)}, {ONE: F(1)})
        return ({((a.id, 1),): F(sign)}, {})

    def is_zero(self, t):
        n, d = self.norm(t)
        return not n

    def to_term(self, p):
        out = R0
        for m, c in sorted(p.items()):
            x = rc(c)
            for a, e in m:
                for _ in range(e):
                    x = rmul(x, self.atoms[a])
            out = radd(out, x)
        return out
