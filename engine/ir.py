"""Lazy parser for textual LLVM IR (clang 18, opaque pointers)."""
import re, struct, os
from .terms import from_double


class Unsupported(Exception):
    pass


# types: ('i',w) ('f',w) ('p',) ('s',(types),packed) ('a',n,t) ('v',n,t) ('n',name) ('void',) ('fn',) ('label',) ('meta',)
T_PTR = ('p',)
T_VOID = ('void',)

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glo>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<com>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#\d+)
 | (?P<dots>\.\.\.)
 | (?P<num>-?\d+\.\d+(?:e[-+]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<word>[a-zA-Z_][-a-zA-Z0-9_.$]*)
 | (?P<pun>[][(){}<>,=*:|^])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        c = s[pos]
        if c in ' \t':
            pos += 1
            continue
        if c == ';':
            break
        m = TOK.match(s, pos)
        if not m:
            raise Unsupported('tokenize: %r' % s[pos:pos + 40])
        out.append((m.lastgroup, m.group()))
        pos = m.end()
    return out


ATTRWORDS = set('''noundef nonnull signext zeroext inreg byval noalias nocapture readonly writeonly readnone returned
 dereferenceable dereferenceable_or_null align sret nest immarg swiftself swifterror allocalign allocptr noext nofree captures
 range initializes writable dead_on_unwind nofpclass inalloca preallocated elementtype'''.split())


class P(object):
    """token stream parser"""

    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, s):
        if self.i < len(self.t) and self.t[self.i][1] == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        x = self.next()
        if x[1] != s:
            raise Unsupported('expected %s got %s in %s' % (s, x[1], ' '.join(y[1] for y in self.t)))

    # ---- types
    def type(self):
        k, v = self.next()
        if k == 'word':
            if v == 'ptr':
                t = T_PTR
                if self.accept('addrspace'):
                    self.expect('(')
                    self.next()
                    self.expect(')')
            elif v == 'void':
                t = T_VOID
            elif v[0] == 'i' and v[1:].isdigit():
                t = ('i', int(v[1:]))
            elif v == 'double':
                t = ('f', 64)
            elif v == 'float':
                t = ('f', 32)
            elif v == 'x86_fp80':
                t = ('f', 80)
            elif v == 'half':
                t = ('f', 16)
            elif v == 'fp128':
                t = ('f', 128)
            elif v == 'label':
                t = ('label',)
            elif v == 'metadata':
                t = ('meta',)
            elif v == 'opaque':
                t = ('s', (), False)
            elif v == 'token':
                t = ('token',)
            else:
                raise Unsupported('type ' + v)
        elif k == 'loc':
            t = ('n', v[1:].strip('"'))
        elif v == '{':
            ts = []
            if not self.accept('}'):
                while True:
                    ts.append(self.type())
                    if self.accept('}'):
                        break
                    self.expect(',')
            t = ('s', tuple(ts), False)
        elif v == '<':
            if self.accept('{'):
                ts = []
                if not self.accept('}'):
                    while True:
                        ts.append(self.type())
                        if self.accept('}'):
                            break
                        self.expect(',')
                self.expect('>')
                t = ('s', tuple(ts), True)
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('v', n, e)
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('a', n, e)
        else:
            raise Unsupported('type tok ' + v)
        # function type
        if self.peek()[1] == '(':
            # only when a function type: ret (args)
            j = self.i
            depth = 0
            while True:
                x = self.t[j][1]
                if x == '(':
                    depth += 1
                elif x == ')':
                    depth -= 1
                    if depth == 0:
                        break
                j += 1
            self.i = j + 1
            t = ('fn', t)
        return t

    def attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in ATTRWORDS:
                self.i += 1
                if v == 'align':
                    if self.peek()[1] == '(':
                        self.skip_paren()
                    else:
                        self.next()
                elif self.peek()[1] == '(':
                    self.skip_paren()
            elif k == 'attr':
                self.i += 1
            elif k == 'str':
                self.i += 1
                if self.accept('='):
                    self.next()
            else:
                return

    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()[1]
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    # ---- operands
    def operand(self, ty):
        """parse value of type ty: ('r',name) | ('c',pyvalue) | ('g',name,off) | ('agg',[ops]) | ('ce',op,...)"""
        k, v = self.peek()
        if k == 'loc':
            self.i += 1
            return ('r', v[1:])
        if k == 'glo':
            self.i += 1
            return ('g', v[1:].strip('"'), 0)
        if k == 'num':
            self.i += 1
            if ty[0] == 'i':
                return ('c', int(v) & ((1 << ty[1]) - 1))
            if ty[0] == 'f':
                return ('c', parse_fp(v, ty))
            raise Unsupported('num for type %r' % (ty,))
        if k == 'word':
            if v == 'true':
                self.i += 1
                return ('c', 1)
            if v == 'false':
                self.i += 1
                return ('c', 0)
            if v == 'null':
                self.i += 1
                return ('null',)
            if v in ('undef', 'poison'):
                self.i += 1
                return ('undef', ty)
            if v == 'zeroinitializer':
                self.i += 1
                return ('zero', ty)
            if v == 'none':
                self.i += 1
                return ('undef', ty)
            if v == 'getelementptr':
                self.i += 1
                while self.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    self.i += 1
                    if self.peek()[1] == '(' and self.t[self.i - 1][1] == 'inrange':
                        self.skip_paren()
                self.expect('(')
                sty = self.type()
                self.expect(',')
                pt = self.type()
                base = self.operand(pt)
                idx = []
                while self.accept(','):
                    if self.accept('inrange'):
                        pass
                    it = self.type()
                    idx.append((it, self.operand(it)))
                self.expect(')')
                return ('ce', 'gep', sty, base, idx)
            if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.i += 1
                self.expect('(')
                ft = self.type()
                o = self.operand(ft)
                self.expect('to')
                tt = self.type()
                self.expect(')')
                return ('ce', 'cast', v, ft, o, tt)
            if v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                self.i += 1
                while self.peek()[1] in ('nuw', 'nsw', 'exact'):
                    self.i += 1
                self.expect('(')
                ft = self.type()
                a = self.operand(ft)
                self.expect(',')
                ft2 = self.type()
                b = self.operand(ft2)
                self.expect(')')
                return ('ce', 'bin', v, ft, a, b)
            if v == 'dso_local_equivalent' or v == 'no_cfi':
                self.i += 1
                return self.operand(ty)
            raise Unsupported('operand word ' + v)
        if k == 'str':
            self.i += 1
            return ('bytes', cstr(v))
        if v == '{' or v == '[' or v == '<':
            self.i += 1
            close = {'{': '}', '[': ']', '<': '>'}[v]
            packed = False
            if v == '<' and self.accept('{'):
                close = '}'
                packed = True
            ops = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    ops.append((t, self.operand(t)))
                    if self.accept(close):
                        break
                    self.expect(',')
            if packed:
                self.expect('>')
            return ('agg', ops)
        raise Unsupported('operand %r' % v)

    def tyop(self):
        t = self.type()
        self.attrs()
        return t, self.operand(t)


def cstr(v):
    s = v[2:-1] if v[0] == 'c' else v[1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(0x5c)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('utf-8')
            i += 1
    return bytes(out)


def parse_fp(v, ty):
    if v.startswith('0xK'):
        h = int(v[3:], 16)
        sign = h >> 79
        ex = (h >> 64) & 0x7fff
        man = h & ((1 << 64) - 1)
        if ex == 0x7fff:
            d = float('inf') if man << 1 & ((1 << 64) - 1) == 0 else float('nan')
            return from_double(-d if sign else d)
        from fractions import Fraction
        from .terms import rc
        x = Fraction(man) * Fraction(2) ** (ex - 16383 - 63)
        return rc(-x if sign else x)
    if v.startswith('0x'):
        return from_double(struct.unpack('>d', int(v[2:], 16).to_bytes(8, 'big'))[0])
    return from_double(float(v))


class Func(object):
    __slots__ = ('name', 'params', 'blocks', 'rty', 'entry', 'vararg', 'ninstr')


class Module(object):
    def __init__(self, path):
        self.path = path
        self.types = {}
        self.funcs = {}      # name -> (start line idx, end)
        self.decls = set()
        self.globals = {}    # name -> line
        self.aliases = {}
        self.parsed = {}
        self.gparsed = {}
        self.layout = {}
        with open(path) as f:
            self.lines = f.read().split('\n')
        L = self.lines
        n = len(L)
        i = 0
        rx = re.compile(r'@("[^"]*"|[-a-zA-Z$._0-9]+)')
        self.ctors = []
        while i < n:
            l = L[i]
            if l.startswith('define '):
                nm = rx.search(l).group(1).strip('"')
                j = i + 1
                while L[j] != '}':
                    j += 1
                self.funcs[nm] = (i, j)
                i = j
            elif l.startswith('@'):
                m = rx.match(l)
                nm = m.group(1).strip('"')
                if re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (?:[a-z_]+ )*alias ', l):
                    a = re.findall(r'@("[^"]*"|[-a-zA-Z$._0-9]+)', l)
                    self.aliases[nm] = a[1].strip('"')
                else:
                    self.globals[nm] = l
            elif l.startswith('%') and ' = type ' in l:
                nm, d = l.split(' = type ', 1)
                self.types[nm[1:].strip('"')] = d
            elif l.startswith('declare '):
                m = rx.search(l)
                self.decls.add(m.group(1).strip('"'))
            i += 1
        # constants with a dynamic initializer that clang folded: the store is followed by llvm.invariant.start of the same global
        sx = re.compile(r'\s+store (double|i1|i8|i16|i32|i64) (\S+), ptr @([-a-zA-Z$._0-9]+),')
        for nm, (a, b) in self.funcs.items():
            if not (nm.startswith('_GLOBAL__sub_I') or nm.startswith('__cxx_global_var_init')):
                continue
            for k in range(a, b):
                m = sx.match(L[k])
                if m and not m.group(2).startswith('%') and 'llvm.invariant.start' in L[k + 1] and '@' + m.group(3) + ')' in L[k + 1]:
                    l = self.globals.get(m.group(3), '')
                    z = re.sub(r'((?:global|constant) %s) (0\.0+e\+00|0|false|zeroinitializer)\b' % m.group(1), r'\1 ' + m.group(2), l, count=1)
                    if z != l:
                        self.globals[m.group(3)] = z

    # ---- types
    def ty(self, t):
        while t[0] == 'n':
            d = self.types[t[1]]
            if isinstance(d, str):
                d = P(self, tokenize(d)).type()
                self.types[t[1]] = d
            t = d
        return t

    def size_align(self, t):
        r = self.layout.get(t)
        if r:
            return r[0], r[1]
        k = t[0]
        if k == 'n':
            r = self.size_align(self.ty(t))
            self.layout[t] = r
            return r
        if k == 'i':
            b = (t[1] + 7) // 8
            s = 1
            while s < b:
                s *= 2
            r = (s, min(s, 16))
        elif k == 'f':
            r = {32: (4, 4), 64: (8, 8), 80: (16, 16), 16: (2, 2), 128: (16, 16)}[t[1]]
        elif k == 'p':
            r = (8, 8)
        elif k == 'a':
            s, a = self.size_align(t[2])
            r = (s * t[1], a)
        elif k == 'v':
            s, a = self.size_align(t[2])
            b = s * t[1]
            q = 1
            while q < b:
                q *= 2
            r = (q, q)
        elif k == 's':
            self.fields(t)
            r = self.layout[t][:2]
        else:
            raise Unsupported('size of %r' % (t,))
        if t not in self.layout:
            self.layout[t] = r
        return r

    def fields(self, t):
        t = self.ty(t)
        r = self.layout.get(t)
        if r:
            return r[2]
        off = 0
        al = 1
        offs = []
        for e in t[1]:
            s, a = self.size_align(e)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            offs.append(off)
            off += s
            al = max(al, a)
        off = (off + al - 1) // al * al
        self.layout[t] = (off, al, offs)
        return offs

    def sizeof(self, t):
        return self.size_align(t)[0]

    # ---- globals
    def global_init(self, name):
        """-> (type, operand or None if external)"""
        r = self.gparsed.get(name)
        if r:
            return r
        l = self.globals[name]
        toks = tokenize(l)
        p = P(self, toks)
        p.i = 2
        ext = False
        while True:
            k, v = p.peek()
            if v in ('global', 'constant'):
                p.i += 1
                break
            if v in ('external', 'extern_weak'):
                ext = True
            if v == 'thread_local' or v == 'addrspace':
                p.i += 1
                if p.peek()[1] == '(':
                    p.skip_paren()
                continue
            p.i += 1
        ty = p.type()
        op = None
        if not ext:
            op = p.operand(ty)
        r = (ty, op)
        self.gparsed[name] = r
        return r

    # ---- functions
    def func(self, name):
        f = self.parsed.get(name)
        if f:
            return f
        a = self.aliases.get(name)
        if a:
            return self.func(a)
        if name not in self.funcs:
            return None
        s, e = self.funcs[name]
        f = self.parse_func(name, s, e)
        self.parsed[name] = f
        return f

    def parse_func(self, name, s, e):
        L = self.lines
        f = Func()
        f.name = name
        h = L[s]
        toks = tokenize(h)
        # find the glo token
        gi = next(i for i, t in enumerate(toks) if t[0] == 'glo')
        # return type: parse back is hard; parse forward skipping linkage words
        p = P(self, toks)
        p.i = 1
        while True:
            k, v = p.peek()
            if k == 'word' and v in ('ptr', 'void', 'double', 'float', 'x86_fp80') or k == 'word' and re.match(r'i\d+$', v) or k == 'loc' or v in '{<[':
                break
            if k == 'word' and v in ATTRWORDS:
                p.attrs()
                continue
            p.i += 1
            if p.peek()[1] == '(' and v not in ():
                p.skip_paren()
        f.rty = p.type()
        p.i = gi + 1
        p.expect('(')
        f.params = []
        f.vararg = False
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    f.vararg = True
                    p.expect(')')
                    break
                t = p.type()
                # attributes
                byval = None
                while True:
                    k, v = p.peek()
                    if k == 'word' and v == 'byval':
                        p.i += 1
                        p.expect('(')
                        byval = p.type()
                        p.expect(')')
                    elif k == 'word' or k == 'str' or k == 'attr':
                        if k == 'word' and v in ATTRWORDS:
                            p.attrs_one() if False else P.attrs(p) if v != 'byval' else None
                        else:
                            p.i += 1
                    else:
                        break
                k, v = p.peek()
                nm = None
                if k == 'loc':
                    nm = v[1:]
                    p.i += 1
                else:
                    nm = str(len(f.params))
                f.params.append((nm, t, byval))
                if p.accept(')'):
                    break
                p.expect(',')
        blocks = {}
        cur = None
        lab = str(len(f.params)) if all(x[0].isdigit() for x in f.params) else 'entry'
        first = True
        i = s + 1
        pend = None
        while i < e:
            l = L[i]
            i += 1
            if not l:
                continue
            if l[0] != ' ':
                if l[0] == ';':
                    continue
                m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', l)
                lab = m.group(1)
                cur = []
                blocks[lab] = cur
                if first:
                    f.entry = lab
                    first = False
                continue
            if cur is None:
                cur = []
                blocks[lab] = cur
                f.entry = lab
                first = False
            ls = l.strip()
            if ls[0] == ';':
                continue
            if ls.startswith('switch'):
                while ']' not in L[i - 1].split(';')[0] or not L[i - 1].strip().startswith((']', 'switch')):
                    if ls.rstrip().endswith(']'):
                        break
                    ls += ' ' + L[i].strip()
                    i += 1
                    if L[i - 1].strip().startswith(']'):
                        break
            elif re.match(r'(%\S+ = )?invoke', ls) or ' invoke ' in ls:
                if not re.search(r'unwind label', ls):
                    ls += ' ' + L[i].strip()
                    i += 1
            elif 'landingpad' in ls:
                while re.match(r'\s+(cleanup|catch|filter)', L[i]):
                    ls += ' ' + L[i].strip()
                    i += 1
            cur.append(ls)
        f.blocks = {k: [self.parse_instr(x) if False else x for x in v] for k, v in blocks.items()}
        return f

    def block(self, f, lab):
        b = f.blocks[lab]
        if b and isinstance(b[0], str):
            b = [self.parse_instr(x) for x in b]
            f.blocks[lab] = b
        return b

    def parse_instr(self, s):
        try:
            return self._parse_instr(s)
        except (Unsupported, IndexError) as ex:
            return ('unsupported', None, '%s: %s' % (ex, s))

    def _parse_instr(self, s):
        toks = tokenize(s)
        p = P(self, toks)
        dst = None
        if len(toks) > 1 and toks[1][1] == '=' and toks[0][0] == 'loc':
            dst = toks[0][1][1:]
            p.i = 2
        k, op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            k, op = p.next()
        if op == 'load':
            p.accept('atomic')
            p.accept('volatile')
            t = p.type()
            p.expect(',')
            _, a = p.tyop()
            return ('load', dst, t, a)
        if op == 'store':
            p.accept('atomic')
            p.accept('volatile')
            t, v = p.tyop()
            p.expect(',')
            _, a = p.tyop()
            return ('store', None, t, v, a)
        if op == 'getelementptr':
            while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                p.i += 1
            sty = p.type()
            p.expect(',')
            bt, base = p.tyop()
            idx = []
            while p.accept(','):
                if p.peek()[0] == 'meta':
                    break
                idx.append(p.tyop())
            return self.comp_gep(dst, sty, base, idx)
        if op == 'br':
            t = p.type()
            if t[0] == 'label':
                return ('br', None, p.next()[1][1:])
            c = p.operand(t)
            p.expect(',')
            p.type()
            a = p.next()[1][1:]
            p.expect(',')
            p.type()
            b = p.next()[1][1:]
            return ('cbr', None, c, a, b)
        if op in ('call', 'invoke'):
            return self.parse_call(p, dst, op)
        if op == 'ret':
            t = p.type()
            if t[0] == 'void':
                return ('ret', None, None, t)
            return ('ret', None, p.operand(t), t)
        if op == 'phi':
            while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                p.i += 1
            t = p.type()
            inc = {}
            while True:
                p.expect('[')
                v = p.operand(t)
                p.expect(',')
                l = p.next()[1][1:]
                p.expect(']')
                inc[l] = v
                if not p.accept(','):
                    break
                if p.peek()[0] == 'meta':
                    break
            return ('phi', dst, t, inc)
        if op == 'icmp':
            pred = p.next()[1]
            if pred == 'samesign':
                pred = p.next()[1]
            t, a = p.tyop()
            p.expect(',')
            b = p.operand(t)
            return ('icmp', dst, pred, t, a, b)
        if op == 'fcmp':
            k, v = p.next()
            while v in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                k, v = p.next()
            t, a = p.tyop()
            p.expect(',')
            b = p.operand(t)
            return ('fcmp', dst, v, t, a, b)
        if op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'sdiv', 'urem', 'srem'):
            fl = set()
            while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint'):
                fl.add(p.next()[1])
            t, a = p.tyop()
            p.expect(',')
            b = p.operand(t)
            return ('bin', dst, op, t, a, b, fl)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                p.i += 1
            t, a = p.tyop()
            p.expect(',')
            b = p.operand(t)
            return ('fbin', dst, op, t, a, b)
        if op == 'fneg':
            while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                p.i += 1
            t, a = p.tyop()
            return ('fneg', dst, t, a)
        if op == 'select':
            while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                p.i += 1
            ct, c = p.tyop()
            p.expect(',')
            t, a = p.tyop()
            p.expect(',')
            t2, b = p.tyop()
            return ('select', dst, ct, c, t, a, b)
        if op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            fl = set()
            while p.peek()[1] in ('nneg', 'nuw', 'nsw'):
                fl.add(p.next()[1])
            t, a = p.tyop()
            p.expect('to')
            tt = p.type()
            return ('cast', dst, op, t, a, tt, fl)
        if op == 'alloca':
            p.accept('inalloca')
            t = p.type()
            cnt = None
            while p.accept(','):
                if p.peek()[1] == 'align':
                    break
                if p.peek()[0] == 'meta':
                    break
                ct, cnt = p.tyop()
            return ('alloca', dst, t, cnt)
        if op == 'extractvalue':
            t, a = p.tyop()
            idx = []
            while p.accept(','):
                if p.peek()[0] == 'meta':
                    break
                idx.append(int(p.next()[1]))
            return ('extractvalue', dst, a, idx)
        if op == 'insertvalue':
            t, a = p.tyop()
            p.expect(',')
            t2, b = p.tyop()
            idx = []
            while p.accept(','):
                if p.peek()[0] == 'meta':
                    break
                idx.append(int(p.next()[1]))
            return ('insertvalue', dst, t, a, b, idx)
        if op == 'extractelement':
            t, a = p.tyop()
            p.expect(',')
            t2, b = p.tyop()
            return ('extractelement', dst, a, b)
        if op == 'insertelement':
            t, a = p.tyop()
            p.expect(',')
            t2, b = p.tyop()
            p.expect(',')
            t3, c = p.tyop()
            return ('insertelement', dst, t, a, b, c)
        if op == 'shufflevector':
            t, a = p.tyop()
            p.expect(',')
            t2, b = p.tyop()
            p.expect(',')
            t3, c = p.tyop()
            return ('shufflevector', dst, t, a, b, t3, c)
        if op == 'switch':
            t, v = p.tyop()
            p.expect(',')
            p.type()
            d = p.next()[1][1:]
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct, cv = p.tyop()
                p.expect(',')
                p.type()
                cases.append((cv[1], p.next()[1][1:]))
            return ('switch', None, t, v, d, cases)
        if op == 'unreachable':
            return ('unreachable', None)
        if op == 'landingpad':
            t = p.type()
            cl = []
            while p.i < len(p.t):
                k, v = p.next()
                if v == 'cleanup':
                    cl.append(('cleanup',))
                elif v == 'catch':
                    ct, cv = p.tyop()
                    cl.append(('catch', cv))
                elif v == 'filter':
                    ct, cv = p.tyop()
                    cl.append(('filter', cv))
            return ('landingpad', dst, cl)
        if op == 'resume':
            t, v = p.tyop()
            return ('resume', None, v)
        if op == 'atomicrmw':
            p.accept('volatile')
            o = p.next()[1]
            _, a = p.tyop()
            p.expect(',')
            t, v = p.tyop()
            return ('atomicrmw', dst, o, t, a, v)
        if op == 'cmpxchg':
            p.accept('weak')
            p.accept('volatile')
            _, a = p.tyop()
            p.expect(',')
            t, c = p.tyop()
            p.expect(',')
            t2, n = p.tyop()
            return ('cmpxchg', dst, t, a, c, n)
        if op == 'fence':
            return ('nop', None)
        if op == 'freeze':
            t, a = p.tyop()
            return ('freeze', dst, t, a)
        raise Unsupported('instr ' + op)

    def comp_gep(self, dst, sty, base, idx):
        """precompute constant offset part and the variable parts"""
        off = 0
        var = []
        t = sty
        for k, (it, o) in enumerate(idx):
            if k == 0:
                sz = self.sizeof(t) if not (o[0] == 'c' and o[1] == 0) else 0
                if o[0] == 'c':
                    off += sgn(o[1], it[1]) * sz
                else:
                    var.append((it, o, sz))
                continue
            t = self.ty(t)
            if t[0] == 's':
                f = self.fields(t)
                off += f[o[1]]
                t = t[1][o[1]]
            else:
                t = t[2]
                sz = self.sizeof(t)
                if o[0] == 'c':
                    off += sgn(o[1], it[1]) * sz
                else:
                    var.append((it, o, sz))
        return ('gep', dst, base, off, var)

    def parse_call(self, p, dst, op):
        # skip cconv / ret attrs / fast flags
        while True:
            k, v = p.peek()
            if k == 'word' and v in ('fastcc', 'ccc', 'coldcc', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'cc'):
                p.i += 1
                continue
            if k == 'word' and v in ATTRWORDS:
                p.attrs()
                continue
            break
        rty = p.type()
        if rty[0] == 'fn':
            rty = rty[1]
        k, v = p.peek()
        if v == 'asm':
            raise Unsupported('inline asm')
        callee = p.operand(T_PTR)
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                t = p.type()
                if t[0] == 'meta':
                    # skip metadata arg
                    d = 0
                    while not (d == 0 and p.peek()[1] in (',', ')')):
                        x = p.next()[1]
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                    args.append((t, ('undef', t), None))
                else:
                    byval = None
                    while True:
                        kk, vv = p.peek()
                        if kk == 'word' and vv == 'byval':
                            p.i += 1
                            p.expect('(')
                            byval = p.type()
                            p.expect(')')
                        elif (kk == 'word' and vv in ATTRWORDS) or kk == 'attr':
                            j = p.i
                            p.i += 1
                            if vv == 'align':
                                if p.peek()[1] == '(':
                                    p.skip_paren()
                                else:
                                    p.next()
                            elif p.peek()[1] == '(':
                                p.skip_paren()
                        else:
                            break
                    args.append((t, p.operand(t), byval))
                if p.accept(')'):
                    break
                p.expect(',')
        norm = unw = None
        if op == 'invoke':
            while p.peek()[1] != 'to':
                p.i += 1
            p.expect('to')
            p.type()
            norm = p.next()[1][1:]
            while p.peek()[1] != 'unwind':
                p.i += 1
            p.expect('unwind')
            p.type()
            unw = p.next()[1][1:]
        return ('call', dst, rty, callee, args, norm, unw)


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x
