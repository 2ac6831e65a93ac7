"""SMT-LIB emission and solver driving (z3-new, cvc5) for terms.py terms."""
import subprocess, os, time, re, shutil
from fractions import Fraction as F
from .terms import *
from .nf import NF, TooBig, ONE

Z3 = shutil.which('z3-new') or 'z3'
CVC5 = shutil.which('cvc5')
STATS = {'queries': 0, 'time': 0.0, 'by': {}}


def q_frac(c):
    if c < 0:
        return '(- %s)' % q_frac(-c)
    if c.denominator == 1:
        return '%d.0' % c.numerator
    return '(/ %d.0 %d.0)' % (c.numerator, c.denominator)


def q_int(c):
    return '(- %d)' % -c if c < 0 else '%d' % c


def sortname(s):
    return {'R': 'Real', 'I': 'Int', 'B': 'Bool'}.get(s) or '(_ BitVec %d)' % s


class Emit(object):
    def __init__(self):
        self.decl = []
        self.defs = []
        self.ax = []
        self.name = {}
        self.vars = []
        self.ufs = {}
        self.has_uf = False

    def var(self, t, nm):
        self.decl.append('(declare-const %s %s)' % (nm, sortname(t.sort)))
        self.vars.append((nm, t))
        return nm

    def e(self, t0):
        st = [t0]
        name = self.name
        while st:
            t = st[-1]
            if t.id in name:
                st.pop()
                continue
            todo = [a for a in t.args if isinstance(a, Term) and a.id not in name]
            if todo:
                st.extend(todo)
                continue
            name[t.id] = self.node(t)
            st.pop()
        return name[t0.id]

    def node(self, t):
        op = t.op
        n = self.name
        A = [n[a.id] if isinstance(a, Term) else a for a in t.args]
        if op == 'rc':
            return q_frac(t.args[0])
        if op == 'ic':
            return q_int(t.args[0])
        if op == 'vc':
            return '(_ bv%d %d)' % (t.args[0], t.sort)
        if op == 'true':
            return 'true'
        if op == 'false':
            return 'false'
        if op in ('rv', 'iv', 'bv', 'v'):
            nm = 'x%d' % t.id
            self.var(t, nm)
            if op == 'iv':
                if t.lo is not None:
                    self.ax.append('(>= %s %s)' % (nm, q_int(t.lo)))
                if t.hi is not None:
                    self.ax.append('(<= %s %s)' % (nm, q_int(t.hi)))
            return nm
        if op == 'sqrt':
            nm = 's%d' % t.id
            self.var(t, nm)
            self.ax.append('(>= %s 0.0)' % nm)
            self.ax.append('(=> (>= %s 0.0) (= (* %s %s) %s))' % (A[0], nm, nm, A[0]))
            return nm
        if op in ('nan', 'inf'):
            raise Special('special value in formula')
        if op == 'uf':
            self.has_uf = True
            f = t.args[0]
            k = len(t.args) - 1
            if (f, k) not in self.ufs:
                self.ufs[(f, k)] = 'uf_%s_%d' % (re.sub(r'\W', '_', f), k)
                sorts = ' '.join(sortname(a.sort) for a in t.args[1:])
                self.decl.append('(declare-fun %s (%s) %s)' % (self.ufs[(f, k)], sorts, sortname(t.sort)))
            s = '(%s %s)' % (self.ufs[(f, k)], ' '.join(A[1:]))
            nm = 't%d' % t.id
            self.defs.append((nm, t.sort, s))
            if f in ('sin', 'cos'):
                self.ax.append('(and (<= (- 1.0) %s) (<= %s 1.0))' % (nm, nm))
            if f in ('exp',):
                self.ax.append('(> %s 0.0)' % nm)
                self.ax.append('(=> (>= %s 0.0) (>= %s 1.0))' % (A[1], nm))
                self.ax.append('(=> (<= %s 0.0) (<= %s 1.0))' % (A[1], nm))
            if f == 'pow':
                self.ax.append('(=> (> %s 0.0) (> %s 0.0))' % (A[1], nm))
            if f == 'acos':
                self.ax.append('(>= %s 0.0)' % nm)
            return nm
        if op == 'add':
            s = '(+ %s %s)' % tuple(A)
        elif op == 'mul':
            s = '(* %s %s)' % tuple(A)
        elif op == 'neg':
            s = '(- %s)' % A[0]
        elif op == 'div':
            s = '(/ %s %s)' % tuple(A)
        elif op == 'abs':
            s = '(ite (>= %s 0.0) %s (- %s))' % (A[0], A[0], A[0])
        elif op == 'ite':
            s = '(ite %s %s %s)' % tuple(A)
        elif op == 'rlt' or op == 'ilt':
            s = '(< %s %s)' % tuple(A)
        elif op == 'rle' or op == 'ile':
            s = '(<= %s %s)' % tuple(A)
        elif op in ('req', 'ieq', 'vceq'):
            s = '(= %s %s)' % tuple(A)
        elif op == 'not':
            s = '(not %s)' % A[0]
        elif op in ('and', 'or', 'xor'):
            s = '(%s %s %s)' % (op, A[0], A[1])
        elif op == 'iadd':
            s = '(+ %s %s)' % tuple(A)
        elif op == 'imul':
            s = '(* %s %s)' % tuple(A)
        elif op == 'idiv':
            s = '(div %s %s)' % tuple(A)
        elif op == 'imod':
            s = '(mod %s %s)' % tuple(A)
        elif op == 'i2r':
            s = '(to_real %s)' % A[0]
        elif op == 'floor':
            s = '(to_int %s)' % A[0]
        elif op == 'vzext':
            s = '((_ zero_extend %d) %s)' % (t.sort - t.args[0].sort, A[0])
        elif op == 'vsext':
            s = '((_ sign_extend %d) %s)' % (t.sort - t.args[0].sort, A[0])
        elif op == 'vtrunc':
            s = '((_ extract %d 0) %s)' % (t.sort - 1, A[0])
        elif op == 'vofb':
            s = '(ite %s (_ bv1 %d) (_ bv0 %d))' % (A[0], t.sort, t.sort)
        elif op[:2] == 'vc':
            s = '(bv%s %s %s)' % (op[2:], A[0], A[1])
        elif op[0] == 'v':
            s = '(bv%s %s %s)' % (op[1:], A[0], A[1])
        elif op == 'select':     # array read: uninterpreted function application
            f = t.args[0]
            key = ('arr', f)
            if key not in self.ufs:
                self.ufs[key] = 'arr_%s' % re.sub(r'\W', '_', f)
                self.decl.append('(declare-fun %s (%s) %s)' % (
                    self.ufs[key], ' '.join(sortname(a.sort) for a in t.args[1:]), sortname(t.sort)))
            s = '(%s %s)' % (self.ufs[key], ' '.join(A[1:]))
        else:
            raise NotImplementedError('smt op ' + op)
        nm = 't%d' % t.id
        self.defs.append((nm, t.sort, s))
        return nm

    def script(self, asserts, getvals=True, logic=None, raw=()):
        roots = [self.e(a) for a in asserts]
        out = []
        if logic:
            out.append('(set-logic %s)' % logic)
        out += self.decl
        for nm, s, d in self.defs:
            out.append('(define-fun %s () %s %s)' % (nm, sortname(s), d))
        for a in self.ax:
            out.append('(assert %s)' % a)
        for r in roots:
            out.append('(assert %s)' % r)
        for r in raw:
            out.append('(assert %s)' % r)
        out.append('(check-sat)')
        return '\n'.join(out)


def run_solver(script, vars_, which='z3', timeout=10.0, model=True):
    """returns (status, {name: Fraction/bool/int/float})"""
    STATS['queries'] += 1
    t0 = time.time()
    s = script
    if which == 'z3':
        pre = '(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 30)\n'
        if model and vars_:
            s += '\n(get-value (%s))' % ' '.join(v for v, _ in vars_)
        cmd = [Z3, '-in', '-T:%d' % max(1, int(timeout + 0.999)), '-memory:3000']
        s = pre + s
    else:
        pre = '(set-option :produce-models true)\n(set-logic ALL)\n'
        if model and vars_:
            s += '\n(get-value (%s))' % ' '.join(v for v, _ in vars_)
        cmd = [CVC5, '--tlimit=%d' % int(timeout * 1000), '-q', '--nl-cov']
        s = pre + s
    try:
        p = subprocess.run(cmd, input=s.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout + 5)
        out = p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        out = 'timeout'
    dt = time.time() - t0
    STATS['time'] += dt
    STATS['by'][which] = STATS['by'].get(which, 0) + dt
    first = out.split('\n', 1)[0].strip()
    if first == 'unsat':
        return 'unsat', None
    if first == 'sat':
        m = {}
        if model and vars_ and '\n' in out:
            m = parse_values(out.split('\n', 1)[1])
        return 'sat', m
    return 'unknown', None


def _tok(s):
    return re.findall(r'\(|\)|[^\s()]+', s)


def _parse(toks, i):
    if toks[i] == '(':
        l = []
        i += 1
        while toks[i] != ')':
            x, i = _parse(toks, i)
            l.append(x)
        return l, i + 1
    return toks[i], i + 1


def _val(x):
    if isinstance(x, str):
        if x == 'true':
            return True
        if x == 'false':
            return False
        if x.startswith('#x'):
            return int(x[2:], 16)
        if x.startswith('#b'):
            return int(x[2:], 2)
        return F(x.rstrip('?'))
    if x[0] == '-':
        if len(x) == 2:
            return -_val(x[1])
        return _val(x[1]) - _val(x[2])
    if x[0] == '/':
        return _val(x[1]) / _val(x[2])
    if x[0] == '_' and x[1].startswith('bv'):
        return int(x[1][2:])
    raise ValueError(x)


def parse_values(txt):
    try:
        toks = _tok(txt)
        l, _ = _parse(toks, 0)
    except Exception:
        return {}
    m = {}
    for it in l:
        try:
            m[it[0]] = _val(it[1])
        except Exception:
            pass
    return m
