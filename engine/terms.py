"""Hash-consed terms: Real (mathematical reals), Int (mathematical integers), BV, Bool.

Used by the symbolic executor (symex.py) to build verification conditions from
LLVM IR and by prove.py to discharge them.
"""
from fractions import Fraction as F
import math

R, I, B = 'R', 'I', 'B'        # sorts; bit-vector sorts are ints (the width)

_tab = {}
_cnt = [0]


class Term(object):
    __slots__ = ('op', 'args', 'sort', 'id', 'lo', 'hi', '__weakref__')

    def __repr__(self):
        return pp(self)


def mk(op, args, sort, lo=None, hi=None):
    k = (op, args, sort)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.sort = sort
        t.lo = lo
        t.hi = hi
        _cnt[0] += 1
        t.id = _cnt[0]
        _tab[k] = t
    return t


def pp(t, d=6):
    if not isinstance(t, Term):
        return str(t)
    if t.op in ('rc', 'ic'):
        return str(t.args[0]) if t.op == 'ic' or t.args[0].denominator < 10**6 else repr(float(t.args[0]))
    if t.op in ('rv', 'iv', 'bv', 'v'):
        return str(t.args[0])
    if d <= 0:
        return '..'
    return '(' + t.op + ' ' + ' '.join(pp(a, d - 1) for a in t.args) + ')'


# ------------------------------------------------------------------ reals
def rc(x):
    return mk('rc', (F(x),), R)


R0 = rc(0)
R1 = rc(1)
NAN = mk('nan', (), R)
PINF = mk('inf', (1,), R)
NINF = mk('inf', (-1,), R)


def rv(name):
    return mk('rv', (name,), R)


def from_double(d):
    if d != d:
        return NAN
    if d == math.inf:
        return PINF
    if d == -math.inf:
        return NINF
    return mk('rc', (F(d),), R)


def is_special(t):
    return t.op == 'nan' or t.op == 'inf'


class Special(Exception):
    pass


def radd(a, b):
    if a.op == 'rc':
        if b.op == 'rc':
            return mk('rc', (a.args[0] + b.args[0],), R)
        if a.args[0] == 0:
            return b
        a, b = b, a
    elif b.op == 'rc' and b.args[0] == 0:
        return a
    if a.op == 'nan' or b.op == 'nan':
        return NAN
    if a.op == 'inf':
        if b.op == 'inf' and b is not a:
            return NAN
        return a
    if b.op == 'inf':
        return b
    if a.op == 'neg' and a.args[0] is b:
        return R0
    if b.op == 'neg' and b.args[0] is a:
        return R0
    if a.id > b.id:
        a, b = b, a
    return mk('add', (a, b), R)


def rneg(a):
    if a.op == 'rc':
        return mk('rc', (-a.args[0],), R)
    if a.op == 'nan':
        return a
    if a.op == 'inf':
        return NINF if a is PINF else PINF
    if a.op == 'neg':
        return a.args[0]
    return mk('neg', (a,), R)


def rsub(a, b):
    return radd(a, rneg(b))


def rmul(a, b):
    if b.op == 'rc':
        a, b = b, a
    if a.op == 'rc':
        if b.op == 'rc':
            return mk('rc', (a.args[0] * b.args[0],), R)
        c = a.args[0]
        if b.op == 'nan':
            return NAN
        if b.op == 'inf':
            if c == 0:
                return NAN
            return b if c > 0 else rneg(b)
        if c == 0:
            return R0
        if c == 1:
            return b
        if c == -1:
            return rneg(b)
        if b.op == 'neg':
            return rmul(rc(-c), b.args[0])
    if a.op == 'nan' or b.op == 'nan':
        return NAN
    if a.op == 'inf' or b.op == 'inf':
        raise Special('inf*symbolic')
    s = False
    if a.op == 'neg':
        a = a.args[0]
        s = not s
    if b.op == 'neg':
        b = b.args[0]
        s = not s
    if a.id > b.id:
        a, b = b, a
    t = mk('mul', (a, b), R)
    return rneg(t) if s else t


def rdiv(a, b):
    if b.op == 'rc':
        c = b.args[0]
        if a.op == 'nan':
            return NAN
        if c == 0:
            if a.op == 'rc':
                if a.args[0] == 0:
                    return NAN
                return PINF if a.args[0] > 0 else NINF
            if a.op == 'inf':
                return a
            raise Special('symbolic/0')
        if a.op == 'inf':
            return a if c > 0 else rneg(a)
        return rmul(mk('rc', (1 / c,), R), a)
    if a.op == 'nan' or b.op == 'nan':
        return NAN
    if b.op == 'inf':
        return R0
    if a.op == 'inf':
        raise Special('inf/symbolic')
    if a.op == 'rc' and a.args[0] == 0:
        return R0
    s = False
    if a.op == 'neg':
        a = a.args[0]
        s = not s
    if b.op == 'neg':
        b = b.args[0]
        s = not s
    if a is b:
        t = R1
    else:
        t = mk('div', (a, b), R)
    return rneg(t) if s else t


def _isqrt_exact(n):
    r = math.isqrt(n)
    return r if r * r == n else None


def rsqrt(a):
    if a.op == 'rc':
        c = a.args[0]
        if c < 0:
            return NAN
        p, q = _isqrt_exact(c.numerator), _isqrt_exact(c.denominator)
        if p is not None and q is not None:
            return rc(F(p, q))
    if a.op == 'nan':
        return NAN
    if a.op == 'inf':
        return a if a is PINF else NAN
    return mk('sqrt', (a,), R)


def rabs(a):
    if a.op == 'rc':
        return mk('rc', (abs(a.args[0]),), R)
    if a.op == 'nan':
        return a
    if a.op == 'inf':
        return PINF
    if a.op == 'neg':
        return rabs(a.args[0])
    if a.op in ('abs', 'sqrt'):
        return a
    return mk('abs', (a,), R)


def ruf(name, *args):
    for a in args:
        if a.op == 'nan':
            return NAN
    return mk('uf', (name,) + args, R)


def rite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return mk('ite', (c, a, b), a.sort)


# ------------------------------------------------------------------ bools
TRUE = mk('true', (), B)
FALSE = mk('false', (), B)


def bc(x):
    return TRUE if x else FALSE


def bv(name):
    return mk('bv', (name,), B)


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'rlt':
        return mk('rle', (a.args[1], a.args[0]), B)
    if a.op == 'rle':
        return mk('rlt', (a.args[1], a.args[0]), B)
    if a.op == 'ilt':
        return mk('ile', (a.args[1], a.args[0]), B)
    if a.op == 'ile':
        return mk('ilt', (a.args[1], a.args[0]), B)
    return mk('not', (a,), B)


def band(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is b:
        return a
    if bnot(a) is b:
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk('and', (a, b), B)


def bor(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is b:
        return a
    if bnot(a) is b:
        return TRUE
    if a.id > b.id:
        a, b = b, a
    return mk('or', (a, b), B)


def bxor(a, b):
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is TRUE:
        return bnot(b)
    if b is TRUE:
        return bnot(a)
    if a is b:
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk('xor', (a, b), B)


def _cmpspecial(a, b, f):
    """IEEE comparison when one side is nan/inf; the other side is a finite real."""
    if a.op == 'nan' or b.op == 'nan':
        return FALSE
    va = (a.args[0] * 2 if a.op == 'inf' else 0)
    vb = (b.args[0] * 2 if b.op == 'inf' else 0)
    return bc(f(va, vb))


def rlt(a, b):
    if a.op == 'rc' and b.op == 'rc':
        return bc(a.args[0] < b.args[0])
    if is_special(a) or is_special(b):
        return _cmpspecial(a, b, lambda x, y: x < y)
    if a is b:
        return FALSE
    if a.op == 'neg' and b.op == 'neg':
        return rlt(b.args[0], a.args[0])
    if (b.op == 'rc' and b.args[0] <= 0) and a.op in ('sqrt', 'abs'):
        return FALSE
    return mk('rlt', (a, b), B)


def rle(a, b):
    if a.op == 'rc' and b.op == 'rc':
        return bc(a.args[0] <= b.args[0])
    if is_special(a) or is_special(b):
        return _cmpspecial(a, b, lambda x, y: x <= y)
    if a is b:
        return TRUE
    if a.op == 'neg' and b.op == 'neg':
        return rle(b.args[0], a.args[0])
    if (a.op == 'rc' and a.args[0] <= 0) and b.op in ('sqrt', 'abs'):
        return TRUE
    return mk('rle', (a, b), B)


def req(a, b):
    if a.op == 'rc' and b.op == 'rc':
        return bc(a.args[0] == b.args[0])
    if is_special(a) or is_special(b):
        return _cmpspecial(a, b, lambda x, y: x == y)
    if a is b:
        return TRUE
    if a.id > b.id:
        a, b = b, a
    return mk('req', (a, b), B)


# ------------------------------------------------------------------ ints (mathematical; signed view)
def ic(x):
    return mk('ic', (x,), I, x, x)


I0 = ic(0)


def iv(name, lo, hi):
    return mk('iv', (name, lo, hi), I, lo, hi)


def _n(x):
    return x


def iadd(a, b):
    if a.op == 'ic' and b.op == 'ic':
        return ic(a.args[0] + b.args[0])
    if a.op == 'ic':
        a, b = b, a
    if b.op == 'ic':
        if b.args[0] == 0:
            return a
        if a.op == 'iadd' and a.args[1].op == 'ic':
            return iadd(a.args[0], ic(a.args[1].args[0] + b.args[0]))
    elif a.id > b.id:
        a, b = b, a
    lo = a.lo + b.lo if a.lo is not None and b.lo is not None else None
    hi = a.hi + b.hi if a.hi is not None and b.hi is not None else None
    return mk('iadd', (a, b), I, lo, hi)


def imul(a, b):
    if a.op == 'ic' and b.op == 'ic':
        return ic(a.args[0] * b.args[0])
    if a.op == 'ic':
        a, b = b, a
    if b.op == 'ic':
        if b.args[0] == 0:
            return I0
        if b.args[0] == 1:
            return a
        if a.op == 'imul' and a.args[1].op == 'ic':
            return imul(a.args[0], ic(a.args[1].args[0] * b.args[0]))
        if a.op == 'iadd' and a.args[1].op == 'ic':
            return iadd(imul(a.args[0], b), ic(a.args[1].args[0] * b.args[0]))
    elif a.id > b.id:
        a, b = b, a
    lo = hi = None
    if None not in (a.lo, a.hi, b.lo, b.hi):
        c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
        lo, hi = min(c), max(c)
    return mk('imul', (a, b), I, lo, hi)


def ineg(a):
    return imul(a, ic(-1))


def isub(a, b):
    if a is b:
        return I0
    if a.op == 'iadd' and a.args[0] is b:
        return a.args[1]
    if a.op == 'iadd' and a.args[1] is b:
        return a.args[0]
    return iadd(a, ineg(b))


def iediv(a, b):
    """Euclidean/floor division by a positive constant."""
    assert b.op == 'ic' and b.args[0] > 0
    if b.args[0] == 1:
        return a
    if a.op == 'ic':
        return ic(a.args[0] // b.args[0])
    if a.op == 'imul' and a.args[1].op == 'ic' and a.args[1].args[0] % b.args[0] == 0:
        return imul(a.args[0], ic(a.args[1].args[0] // b.args[0]))
    lo = a.lo // b.args[0] if a.lo is not None else None
    hi = a.hi // b.args[0] if a.hi is not None else None
    return mk('idiv', (a, b), I, lo, hi)


def imod(a, b):
    assert b.op == 'ic' and b.args[0] > 0
    m = b.args[0]
    if a.op == 'ic':
        return ic(a.args[0] % m)
    if a.lo is not None and a.hi is not None and 0 <= a.lo and a.hi < m:
        return a
    if a.op == 'imul' and a.args[1].op == 'ic' and a.args[1].args[0] % m == 0:
        return I0
    if a.op == 'imod' and a.args[1].args[0] % m == 0:
        return imod(a.args[0], b)
    return mk('imod', (a, b), I, 0, m - 1)


def ilt(a, b):
    if a.op == 'ic' and b.op == 'ic':
        return bc(a.args[0] < b.args[0])
    if a is b:
        return FALSE
    if a.hi is not None and b.lo is not None and a.hi < b.lo:
        return TRUE
    if a.lo is not None and b.hi is not None and a.lo >= b.hi:
        return FALSE
    if a.op == 'iadd' and a.args[1].op == 'ic':
        return ilt(a.args[0], iadd(b, ic(-a.args[1].args[0])))
    return mk('ilt', (a, b), B)


def ile(a, b):
    if a.op == 'ic' and b.op == 'ic':
        return bc(a.args[0] <= b.args[0])
    if a is b:
        return TRUE
    if a.hi is not None and b.lo is not None and a.hi <= b.lo:
        return TRUE
    if a.lo is not None and b.hi is not None and a.lo > b.hi:
        return FALSE
    if a.op == 'iadd' and a.args[1].op == 'ic':
        return ile(a.args[0], iadd(b, ic(-a.args[1].args[0])))
    return mk('ile', (a, b), B)


def ieq(a, b):
    if a.op == 'ic' and b.op == 'ic':
        return bc(a.args[0] == b.args[0])
    if a is b:
        return TRUE
    if a.hi is not None and b.lo is not None and a.hi < b.lo:
        return FALSE
    if a.lo is not None and b.hi is not None and a.lo > b.hi:
        return FALSE
    if a.op == 'ic':
        a, b = b, a
    if b.op == 'ic' and a.op == 'ite':
        return bor(band(a.args[0], ieq(a.args[1], b)), band(bnot(a.args[0]), ieq(a.args[2], b)))
    if b.op == 'ic' and a.op == 'iadd' and a.args[1].op == 'ic':
        return ieq(a.args[0], ic(b.args[0] - a.args[1].args[0]))
    if b.op == 'ic' and a.op == 'imul' and a.args[1].op == 'ic':
        q, r = divmod(b.args[0], a.args[1].args[0])
        return FALSE if r else ieq(a.args[0], ic(q))
    if b.op != 'ic' and a.id > b.id:
        a, b = b, a
    return mk('ieq', (a, b), B)


def i2r(a):
    if a.op == 'ic':
        return rc(a.args[0])
    return mk('i2r', (a,), R)


def rfloor_i(a):
    """floor of a real as an Int term"""
    if a.op == 'rc':
        return ic(a.args[0].numerator // a.args[0].denominator)
    if a.op == 'i2r':
        return a.args[0]
    return mk('floor', (a,), I)


def iite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    lo = min(a.lo, b.lo) if a.lo is not None and b.lo is not None else None
    hi = max(a.hi, b.hi) if a.hi is not None and b.hi is not None else None
    return mk('ite', (c, a, b), I, lo, hi)


# ------------------------------------------------------------------ bit vectors (sort = width)
def vc(x, w):
    return mk('vc', (x & ((1 << w) - 1),), w)


def vv(name, w):
    return mk('v', (name,), w)


def vop(op, a, b):
    w = a.sort
    m = (1 << w) - 1
    if a.op == 'vc' and b.op == 'vc':
        x, y = a.args[0], b.args[0]
        if op == 'and':
            return vc(x & y, w)
        if op == 'or':
            return vc(x | y, w)
        if op == 'xor':
            return vc(x ^ y, w)
        if op == 'add':
            return vc(x + y, w)
        if op == 'sub':
            return vc(x - y, w)
        if op == 'mul':
            return vc(x * y, w)
        if op == 'shl':
            return vc(x << y, w) if y < w else vc(0, w)
        if op == 'lshr':
            return vc(x >> y, w)
    if op in ('and', 'or', 'xor', 'add', 'mul') and a.op == 'vc':
        a, b = b, a
    if b.op == 'vc':
        y = b.args[0]
        if op == 'and':
            if y == 0:
                return b
            if y == m:
                return a
        elif op in ('or', 'xor', 'add', 'sub', 'shl', 'lshr', 'ashr'):
            if y == 0:
                return a
    if a is b:
        if op in ('and', 'or'):
            return a
        if op in ('xor', 'sub'):
            return vc(0, w)
    if op in ('and', 'or', 'xor', 'add', 'mul') and b.op != 'vc' and a.id > b.id:
        a, b = b, a
    return mk('v' + op, (a, b), w)


def vcmp(op, a, b):
    """op in eq ult ule slt sle"""
    if a.op == 'vc' and b.op == 'vc':
        x, y = a.args[0], b.args[0]
        w = a.sort
        if op[0] == 's':
            h = 1 << (w - 1)
            x = x - 2 * h if x >= h else x
            y = y - 2 * h if y >= h else y
        return bc({'eq': x == y, 'ult': x < y, 'ule': x <= y, 'slt': x < y, 'sle': x <= y}[op])
    if a is b:
        return bc(op in ('eq', 'ule', 'sle'))
    if op == 'eq' and a.id > b.id:
        a, b = b, a
    return mk('vc' + op, (a, b), B)


def vext(a, w, signed):
    if a.op == 'vc':
        x = a.args[0]
        if signed and x >> (a.sort - 1):
            x |= ((1 << w) - 1) ^ ((1 << a.sort) - 1)
        return vc(x, w)
    return mk('vsext' if signed else 'vzext', (a, w), w)


def vtrunc(a, w):
    if a.op == 'vc':
        return vc(a.args[0], w)
    if a.op in ('vzext', 'vsext') and a.args[0].sort == w:
        return a.args[0]
    return mk('vtrunc', (a, w), w)


def v_of_bool(c, w):
    return mk('vofb', (c, w), w)


def subterms(ts):
    seen = set()
    st = list(ts)
    while st:
        t = st.pop()
        if not isinstance(t, Term) or t.id in seen:
            continue
        seen.add(t.id)
        yield t
        for a in t.args:
            if isinstance(a, Term):
                st.append(a)
