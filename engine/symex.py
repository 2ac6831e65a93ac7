"""Path-forking symbolic executor over LLVM IR; generates proof obligations.

doubles are mathematical reals, symbolic machine integers are mathematical integers
with their range (overflow is an obligation-free assumption listed in DESIGN.md),
memory is a set of disjoint objects with byte-offset cells.
"""
import struct, sys, time, re, hashlib
from fractions import Fraction as F
from .terms import *
from .ir import Module, Unsupported, sgn, T_PTR
from .prove import Prover

sys.setrecursionlimit(20000)


class Ptr(object):
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.obj, self.off))

    def __repr__(self):
        return '&%s+%s' % (self.obj, self.off)


NULL = Ptr(None, 0)


class Undef(object):
    __slots__ = ()

    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class PBits(object):
    """integer with some undefined bits (bit-fields in fresh memory): kn = mask of defined bits, v = their value"""
    __slots__ = ('kn', 'v')

    def __init__(self, kn, v):
        self.kn = kn
        self.v = v & kn

    def __repr__(self):
        return 'pbits(%x,%x)' % (self.kn, self.v)


def pbits(kn, v, m):
    if kn & m == m:
        return v & m
    if not kn & m:
        return UNDEF
    return PBits(kn & m, v)


class PathEnd(Exception):
    pass


class Violation(Exception):
    """unconditional failure on this path (e.g. memory error)"""

    def __init__(self, label):
        Exception.__init__(self, label)
        self.label = label


class Obj(object):
    __slots__ = ('id', 'size', 'cells', 'fill', 'own', 'freed', 'name', 'arr', 'ro')

    def __init__(self, id_, size, name, own):
        self.id = id_
        self.size = size
        self.cells = {}
        self.fill = []       # list of (lo, hi, byte) later wins
        self.own = own
        self.freed = False
        self.name = name
        self.arr = None      # unbounded array descriptor
        self.ro = False

    def copy(self, own):
        o = Obj(self.id, self.size, self.name, own)
        o.cells = dict(self.cells)
        o.fill = list(self.fill)
        o.freed = self.freed
        o.arr = self.arr
        o.ro = self.ro
        return o


class Frame(object):
    __slots__ = ('f', 'blk', 'pc', 'regs', 'prev', 'dst', 'norm', 'unw', 'allocas', 'forks', 'code')

    def copy(self):
        n = Frame()
        n.f = self.f
        n.blk = self.blk
        n.pc = self.pc
        n.regs = dict(self.regs)
        n.prev = self.prev
        n.dst = self.dst
        n.norm = self.norm
        n.unw = self.unw
        n.allocas = list(self.allocas)
        n.forks = dict(self.forks)
        n.code = self.code
        return n


_own = [0]


class State(object):
    __slots__ = ('frames', 'mem', 'pc', 'pckeys', 'own', 'nobj', 'samples', 'inputs', 'fresh', 'ghost', 'exc',
                 'rules', 'obls', 'covers', 'steps', 'guards', 'log', 'subst', 'lemmas')

    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.pckeys = set(self.pckeys)
        _own[0] += 1
        s.own = _own[0]
        _own[0] += 1
        self.own = _own[0]
        s.nobj = self.nobj
        s.samples = list(self.samples)
        s.inputs = list(self.inputs)
        s.fresh = self.fresh
        s.ghost = dict(self.ghost)
        s.exc = self.exc
        s.rules = dict(self.rules)
        s.obls = self.obls
        s.covers = self.covers
        s.steps = self.steps
        s.guards = set(self.guards)
        s.log = list(self.log)
        s.subst = dict(self.subst)
        s.lemmas = list(self.lemmas)
        return s


def dbits(t):
    """bits of a constant real term as python int"""
    if t.op == 'nan':
        return 0x7ff8000000000000
    if t.op == 'inf':
        return 0x7ff0000000000000 if t.args[0] > 0 else 0xfff0000000000000
    x = t.args[0]
    d = float(x)
    if F(d) != x:
        raise Unsupported('bit pattern of non-double real')
    return struct.unpack('>Q', struct.pack('>d', d))[0]


def bits_double(x):
    return from_double(struct.unpack('>d', (x & (1 << 64) - 1).to_bytes(8, 'big'))[0])


def bits_float(x):
    return from_double(struct.unpack('>f', (x & (1 << 32) - 1).to_bytes(4, 'big'))[0])


FN = {}


def stub(*names):
    def d(f):
        for n in names:
            FN[n] = f
        return f
    return d


class Exec(object):
    def __init__(self, mod, entry, opts=None):
        self.m = mod
        self.entry = entry
        self.o = {'maxpaths': 40000, 'maxsteps': 3000000, 'maxforks': 64, 'time': 600, 'ite': False,
                  'allow_throw': False, 'max_total': 60000000}
        self.o.update(opts or {})
        self.pr = Prover(seed=self.o.get('seed', 1))
        self.paths = 0
        self.failed = []        # list of failures
        self.undecided = []
        self.results = {}       # label -> {'n','backends':{},'status'}
        self.covers = {}
        self.funcs_run = {}
        self.externs = {}
        self.stubs_used = {}
        self.infeasible = 0
        self.feas_unk = {}
        self.throws = 0
        self.work = []
        self.t0 = time.time()
        self.assumed = {}
        self.total = 0

    # ------------------------------------------------------------ memory
    def new_obj(self, st, size, name):
        st.nobj += 1
        o = Obj(st.nobj, size, name, st.own)
        st.mem[o.id] = o
        return Ptr(o.id, 0)

    def wobj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            o = self.obj(st, oid)
        if o.own != st.own:
            o = o.copy(st.own)
            st.mem[oid] = o
        return o

    def obj(self, st, oid):
        o = st.mem.get(oid)
        if o is not None:
            return o
        if isinstance(oid, tuple) and oid[0] == 'g':
            return self.make_global(st, oid)
        if oid is None:
            raise Violation('null pointer dereference')
        raise Unsupported('bad object %r' % (oid,))

    def make_global(self, st, oid):
        name = oid[1]
        if name not in self.m.globals:
            if name in self.m.funcs or name in self.m.decls or name in self.m.aliases:
                raise Unsupported('data access to function ' + name)
            raise Unsupported('unknown global ' + name)
        ty, init = self.m.global_init(name)
        o = Obj(oid, None, '@' + name, st.own)
        try:
            o.size = self.m.sizeof(ty)
        except Exception:
            o.size = None
        st.mem[oid] = o
        if init is None:
            o.name = 'extern@' + name
            if name in ('_ZSt4cerr', '_ZSt4cout', '_ZSt4clog'):
                # layout read by inlined std::endl: vptr with vbase offset 0, ctype facet with widen table
                self.stubs_used['iostream'] = 1
                fake = ('fakeios',)
                if fake not in st.mem:
                    fo = Obj(fake, 4096, 'fakeios', st.own)
                    fo.fill.append((0, 1024, 0))
                    fo.fill.append((1024, 4096, 1))
                    st.mem[fake] = fo
                o.size = 2048
                o.fill.append((0, 2048, 0))
                o.cells[0] = (8, Ptr(fake, 64))
                o.cells[240] = (8, Ptr(fake, 1024))
        else:
            self.init_mem(st, o, 0, ty, init)
        return o

    def init_mem(self, st, o, off, ty, op):
        k = op[0]
        t = self.m.ty(ty)
        if k == 'zero':
            o.fill.append((off, off + self.m.sizeof(t), 0))
        elif k == 'undef':
            pass
        elif k == 'bytes':
            for i, b in enumerate(op[1]):
                o.cells[off + i] = (1, b)
        elif k == 'agg':
            if t[0] == 's':
                offs = self.m.fields(t)
                for fo, (et, eo) in zip(offs, op[1]):
                    self.init_mem(st, o, off + fo, et, eo)
            else:
                es = self.m.sizeof(t[2])
                for i, (et, eo) in enumerate(op[1]):
                    self.init_mem(st, o, off + i * es, et, eo)
        else:
            v = self.cval(st, op, t)
            o.cells[off] = (self.m.sizeof(t), v)

    def check_access(self, st, p, size, what):
        if p.obj is None:
            raise Violation('memory-safety: %s through null/invalid pointer' % what)
        o = self.obj(st, p.obj)
        if o.freed:
            raise Violation('memory-safety: %s after free' % what)
        if isinstance(p.off, int) and isinstance(o.size, int):
            if p.off < 0 or p.off + size > o.size:
                raise Violation('memory-safety: out-of-bounds %s' % what)
        return o

    def load(self, st, p, ty):
        t = self.m.ty(ty)
        k = t[0]
        if k == 's':
            offs = self.m.fields(t)
            return tuple(self.load(st, Ptr(p.obj, padd(p.off, o)), e) for o, e in zip(offs, t[1]))
        if k == 'a' or k == 'v':
            es = self.m.sizeof(t[2])
            return tuple(self.load(st, Ptr(p.obj, padd(p.off, i * es)), t[2]) for i in range(t[1]))
        size = self.m.sizeof(t)
        o = self.check_access(st, p, size, 'read')
        off = p.off
        if o.arr is not None:
            return self.arr_load(st, o, off, size, t)
        if not isinstance(off, int):
            off = self.concretize(st, off)
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return self.retype(st, c[1], t)
        v = self.load_slow(st, o, off, size, t)
        return v

    def load_slow(self, st, o, off, size, t):
        # collect overlapping cells
        ov = []
        for q in range(off - 15, off + size):
            c = o.cells.get(q)
            if c is not None and q + c[0] > off:
                ov.append((q, c[0], c[1]))
        if not ov:
            b = self.fill_bytes(o, off, size)
            if b is None:
                if isinstance(o.name, str) and o.name.startswith('extern@'):
                    raise Unsupported('read of external global ' + o.name)
                return UNDEF
            return self.retype(st, int.from_bytes(b, 'little'), t)
        if len(ov) == 1 and ov[0][0] <= off and ov[0][0] + ov[0][1] >= off + size:
            q, s, v = ov[0]
            sh = (off - q) * 8
            if isinstance(v, int):
                return self.retype(st, (v >> sh) & ((1 << 8 * size) - 1), t)
            if isinstance(v, Term) and v.sort == R and v.op in ('rc', 'nan', 'inf'):
                return self.retype(st, (dbits(v) >> sh) & ((1 << 8 * size) - 1), t)
            if isinstance(v, Term) and v.sort == I and sh == 0 and v.lo is not None and v.hi is not None \
                    and v.lo >= -(1 << (8 * size - 1)) and v.hi < (1 << (8 * size - 1)):
                return v
            if v is UNDEF:
                return UNDEF
        # byte-wise composition of concrete values
        out = bytearray()
        for i in range(off, off + size):
            hit = None
            for q, s, v in ov:
                if q <= i < q + s:
                    hit = (q, s, v)
                    break
            if hit is None:
                b = self.fill_bytes(o, i, 1)
                if b is None:
                    b = b'\0'      # padding
                out += b
            else:
                q, s, v = hit
                if isinstance(v, Term) and v.sort == R and v.op in ('rc', 'nan', 'inf'):
                    v = dbits(v)
                if v is UNDEF:
                    out.append(0)
                    continue
                if not isinstance(v, int):
                    # mixed copy of symbolic parts: represent as a byte-bag
                    return self.mixed_load(o, off, size, ov)
                out.append((v >> 8 * (i - q)) & 255)
        return self.retype(st, int.from_bytes(bytes(out), 'little'), t)

    def mixed_load(self, o, off, size, ov):
        # only whole cells: keep as a packed record that a store of equal size can unpack
        parts = []
        for q, s, v in ov:
            if q < off or q + s > off + size:
                raise Unsupported('partial symbolic load')
            parts.append((q - off, s, v))
        return Packed(size, tuple(parts))

    def fill_bytes(self, o, off, size):
        if not o.fill:
            return None
        out = bytearray()
        for i in range(off, off + size):
            b = None
            for lo, hi, v in reversed(o.fill):
                if lo <= i < hi:
                    b = v
                    break
            if b is None:
                return None
            out.append(b)
        return bytes(out)

    def retype(self, st, v, t):
        k = t[0]
        if k == 'f':
            if isinstance(v, int):
                if t[1] == 64:
                    return bits_double(v)
                if t[1] == 32:
                    return bits_float(v)
                if v == 0:
                    return R0
                raise Unsupported('int to fp%d' % t[1])
            if isinstance(v, Term) and v.sort == R:
                return v
            if v is UNDEF:
                return v
            raise Unsupported('load as double of %r' % (v,))
        if k == 'p':
            if isinstance(v, Ptr):
                return v
            if isinstance(v, int):
                return Ptr(None, v)
            if v is UNDEF:
                return v
            raise Unsupported('load as ptr of %r' % (v,))
        if k == 'i':
            if isinstance(v, Term) and v.sort == R and v.op in ('rc', 'nan', 'inf'):
                return dbits(v)
            if isinstance(v, Ptr) and v.obj is None and isinstance(v.off, int):
                return v.off & ((1 << t[1]) - 1)
            if isinstance(v, int):
                return v & ((1 << t[1]) - 1)
            return v
        raise Unsupported('retype')

    def store(self, st, p, v, ty):
        t = self.m.ty(ty)
        k = t[0]
        if k == 's':
            offs = self.m.fields(t)
            if v is UNDEF:
                return
            for o, e, x in zip(offs, t[1], v):
                self.store(st, Ptr(p.obj, padd(p.off, o)), x, e)
            return
        if k == 'a' or k == 'v':
            es = self.m.sizeof(t[2])
            if v is UNDEF:
                return
            for i in range(t[1]):
                self.store(st, Ptr(p.obj, padd(p.off, i * es)), v[i], t[2])
            return
        size = self.m.sizeof(t)
        if isinstance(v, Term) and v.sort == B:
            v = self.bool_int(v)
        self.check_access(st, p, size, 'write')
        o = self.wobj(st, p.obj)
        off = p.off
        if o.arr is not None:
            return self.arr_store(st, o, off, size, v, t)
        if not isinstance(off, int):
            off = self.concretize(st, off)
        if isinstance(v, Packed):
            self.erase_cells(o, off, size)
            for q, s, x in v.parts:
                o.cells[off + q] = (s, x)
            return
        self.put(o, off, size, v)

    def put(self, o, off, size, v):
        c = o.cells.get(off)
        if c is None or c[0] != size:
            self.erase_cells(o, off, size)
        o.cells[off] = (size, v)

    def erase_cells(self, o, off, size):
        cells = o.cells
        if not cells:
            return
        if size > 64 and len(cells) < size:
            ks = [q for q in cells if q + cells[q][0] > off and q < off + size]
        else:
            ks = [q for q in range(off - 15, off + size) if q in cells and q + cells[q][0] > off]
        for q in ks:
            s, v = cells.pop(q)
            if q < off or q + s > off + size:
                # split remaining bytes if concrete
                if isinstance(v, Term) and v.sort == R and v.op in ('rc', 'nan', 'inf') and s == 8:
                    v = dbits(v)
                if isinstance(v, int):
                    for i in range(s):
                        if not (off <= q + i < off + size):
                            cells[q + i] = (1, (v >> 8 * i) & 255)
                elif v is UNDEF:
                    pass
                else:
                    raise Unsupported('partial overwrite of symbolic cell')

    def memcpy(self, st, d, s, n):
        if not isinstance(n, int):
            n = self.concretize(st, n)
        if n == 0:
            return
        so = self.check_access(st, s, n, 'read')
        self.check_access(st, d, n, 'write')
        if so.arr is not None or self.obj(st, d.obj).arr is not None:
            raise Unsupported('memcpy on unbounded array')
        soff = s.off if isinstance(s.off, int) else self.concretize(st, s.off)
        doff = d.off if isinstance(d.off, int) else self.concretize(st, d.off)
        do = self.wobj(st, d.obj)
        so = st.mem[s.obj]
        if isinstance(so.name, str) and so.name.startswith('extern@'):
            raise Unsupported('memcpy from external ' + so.name)
        cells = so.cells
        items = []
        if len(cells) < 2 * n:
            it = [(q, cells[q]) for q in cells if q < soff + n and q + cells[q][0] > soff]
        else:
            it = [(q, cells[q]) for q in range(soff - 15, soff + n) if q in cells and q + cells[q][0] > soff]
        for q, (z, v) in it:
            if q < soff or q + z > soff + n:
                if isinstance(v, Term) and v.sort == R and v.op in ('rc', 'nan', 'inf'):
                    v = dbits(v)
                if isinstance(v, int):
                    for i in range(z):
                        if soff <= q + i < soff + n:
                            items.append((q + i - soff, 1, (v >> 8 * i) & 255))
                    continue
                if v is UNDEF:
                    continue
                raise Unsupported('memcpy splits symbolic cell')
            items.append((q - soff, z, v))
        fills = [(max(lo, soff) - soff, min(hi, soff + n) - soff, b) for lo, hi, b in so.fill if lo < soff + n and hi > soff]
        self.erase_cells(do, doff, n)
        if do.fill:
            self.cut_fill(do, doff, n)
        for lo, hi, b in fills:
            do.fill.append((doff + lo, doff + hi, b))
        for q, z, v in items:
            do.cells[doff + q] = (z, v)

    def cut_fill(self, o, off, n):
        nf = []
        for lo, hi, b in o.fill:
            if hi <= off or lo >= off + n:
                nf.append((lo, hi, b))
            else:
                if lo < off:
                    nf.append((lo, off, b))
                if hi > off + n:
                    nf.append((off + n, hi, b))
        o.fill = nf

    def memset(self, st, d, b, n):
        if not isinstance(n, int):
            n = self.concretize(st, n)
        if n == 0:
            return
        self.check_access(st, d, n, 'write')
        o = self.wobj(st, d.obj)
        off = d.off if isinstance(d.off, int) else self.concretize(st, d.off)
        self.erase_cells(o, off, n)
        self.cut_fill(o, off, n)
        if b is UNDEF:
            return
        if not isinstance(b, int):
            raise Unsupported('memset symbolic')
        o.fill.append((off, off + n, b & 255))

    # ------------------------------------------------------------ unbounded arrays (theory-of-arrays style, read-over-write)
    def arr_load(self, st, o, off, size, t):
        return o.arr.load(self, st, o, off, size, t)

    def arr_store(self, st, o, off, size, v, t):
        return o.arr.store(self, st, o, off, size, v, t)

    # ------------------------------------------------------------ forking helpers
    def concretize(self, st, t):
        """turn a symbolic Int term into a concrete python int by case split"""
        if isinstance(t, int):
            return t
        if isinstance(t, Term) and t.op == 'ic':
            return t.args[0]
        if not (isinstance(t, Term) and t.sort == I):
            raise Unsupported('concretize %r' % (t,))
        t2 = self.simp_ite(st, t)
        if t2.op == 'ic':
            return t2.args[0]
        if t2.id in st.subst:
            return st.subst[t2.id]
        t = t2
        for x in subterms([t]):
            if x.op == 'ite' and x.sort == I and not any(y.op == 'ite' for y in subterms([x.args[0]])):
                raise Split([x.args[0], bnot(x.args[0])])
        vals = self.pr.int_values(st, t, 80)
        if vals is None:
            raise Unsupported('unbounded symbolic address/size')
        if len(vals) == 1:
            return vals[0]
        if not vals:
            raise PathEnd()
        self.split_pending = None
        # raise fork: re-execute current instruction with added equality
        raise Split([ieq(t, ic(v)) for v in vals])

    def simp_ite(self, st, t):
        """resolve conditionals decided by the path condition"""
        if t.op == 'ite':
            d = self.pr.decide(st, t.args[0])
            if d is True:
                return self.simp_ite(st, t.args[1])
            if d is False:
                return self.simp_ite(st, t.args[2])
            return t
        if t.op == 'iv' and t.id in st.subst:
            return ic(st.subst[t.id])
        if t.op in ('iadd', 'imul'):
            a, b = self.simp_ite(st, t.args[0]), self.simp_ite(st, t.args[1])
            if a is not t.args[0] or b is not t.args[1]:
                return (iadd if t.op == 'iadd' else imul)(a, b)
        if t.op in ('idiv', 'imod'):
            a = self.simp_ite(st, t.args[0])
            if a is not t.args[0]:
                return (iediv if t.op == 'idiv' else imod)(a, t.args[1])
        return t

    def known_int(self, st, t):
        """value of t if the path fixes it"""
        return st.subst.get(t.id)

    def bool_int(self, c):
        if c is TRUE:
            return 1
        if c is FALSE:
            return 0
        return iite(c, ic(1), I0)

    # ------------------------------------------------------------ operand evaluation
    def cval(self, st, op, ty):
        k = op[0]
        if k == 'c':
            return op[1]
        if k == 'g':
            return self.gptr(op[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero(op[1])
        if k == 'agg':
            return tuple(self.cval(st, o, t) for t, o in op[1])
        if k == 'bytes':
            return tuple(op[1])
        if k == 'ce':
            if op[1] == 'gep':
                ins = self.m.comp_gep(None, op[2], op[3], op[4])
                b = self.cval(st, op[3], T_PTR)
                off = ins[3]
                for it, o, sz in ins[4]:
                    off += sgn(self.cval(st, o, it), it[1]) * sz
                return Ptr(b.obj, b.off + off)
            if op[1] == 'cast':
                v = self.cval(st, op[4], op[3])
                return self.cast(st, op[2], op[3], v, op[5], ())
            if op[1] == 'bin':
                a = self.cval(st, op[4], op[3])
                b = self.cval(st, op[5], op[3])
                return self.ibin(st, op[2], op[3][1], a, b, ())
        raise Unsupported('const %r' % (op,))

    def zero(self, ty):
        t = self.m.ty(ty)
        if t[0] == 'i':
            return 0
        if t[0] == 'f':
            return R0
        if t[0] == 'p':
            return NULL
        if t[0] == 's':
            return tuple(self.zero(x) for x in t[1])
        if t[0] in 'av':
            return tuple(self.zero(t[2]) for _ in range(t[1]))
        raise Unsupported('zero')

    def gptr(self, name):
        a = self.m.aliases.get(name)
        while a:
            name = a
            a = self.m.aliases.get(name)
        return Ptr(('g', name), 0)

    # ------------------------------------------------------------ casts & integer ops
    def cast(self, st, op, ft, v, tt, fl):
        if v is UNDEF:
            return UNDEF
        ft = self.m.ty(ft)
        tt = self.m.ty(tt)
        if isinstance(v, PBits):
            if op == 'trunc':
                return pbits(v.kn, v.v, (1 << tt[1]) - 1)
            if op == 'zext':
                return pbits(v.kn | (((1 << tt[1]) - 1) & ~((1 << ft[1]) - 1)), v.v, (1 << tt[1]) - 1)
            return UNDEF
        if ft[0] == 'v':
            return tuple(self.cast(st, op, ft[2], x, tt[2], fl) for x in v)
        if op == 'bitcast':
            if ft == tt:
                return v
            if isinstance(v, tuple) or tt[0] == 'v':
                raise Unsupported('vector bitcast')
            return self.retype(st, v, tt)
        if op == 'ptrtoint':
            if isinstance(v, Ptr) and v.obj is None:
                return v.off if not isinstance(v.off, int) else v.off & ((1 << tt[1]) - 1)
            return v
        if op == 'inttoptr':
            if isinstance(v, int):
                return Ptr(None, v)
            if isinstance(v, Ptr):
                return v
            raise Unsupported('inttoptr symbolic')
        if op == 'addrspacecast':
            return v
        if op == 'zext':
            if isinstance(v, int):
                return v
            if v.sort == B:
                return iite(v, ic(1), I0)
            if v.sort == I:
                if v.lo is not None and v.lo >= 0 or 'nneg' in fl:
                    return v
                if self.pr.entails_quick(st, ile(I0, v)):
                    return v
                return iite(ilt(v, I0), iadd(v, ic(1 << ft[1])), v)
            return vext(v, tt[1], False)
        if op == 'sext':
            if isinstance(v, int):
                return sgn(v, ft[1]) & ((1 << tt[1]) - 1)
            if v.sort == B:
                return iite(v, ic(-1), I0)
            if v.sort == I:
                return v
            return vext(v, tt[1], True)
        if op == 'trunc':
            if isinstance(v, int):
                return v & ((1 << tt[1]) - 1)
            if isinstance(v, Ptr):
                raise Unsupported('trunc of pointer')
            if v.sort == I:
                w = tt[1]
                if w == 1:
                    if v.op == 'ite' and v.args[1].op == 'ic' and v.args[2].op == 'ic':
                        x, y = v.args[1].args[0] & 1, v.args[2].args[0] & 1
                        if x and not y:
                            return v.args[0]
                        if y and not x:
                            return bnot(v.args[0])
                    return bnot(ieq(imod(v, ic(2)), I0))
                if v.lo is not None and v.hi is not None and v.lo >= -(1 << (w - 1)) and v.hi < (1 << (w - 1)):
                    return v
                if 'nsw' in fl:
                    return v
                # wrap to signed w bits
                return self.wrap(st, v, w)
            if v.sort == R:
                raise Unsupported('trunc of double bits')
            if tt[1] == 1:
                return bnot(vcmp('eq', vop('and', v, vc(1, v.sort)), vc(0, v.sort)))
            return vtrunc(v, tt[1])
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, int):
                return rc(sgn(v, ft[1]) if op[0] == 's' else v)
            if v.sort == B:
                s = rc(-1 if op[0] == 's' else 1)
                return self.fork_ite(st, v, s, R0)
            if v.sort == I:
                if op[0] == 'u' and not (v.lo is not None and v.lo >= 0):
                    if not ('nneg' in fl or self.pr.entails_quick(st, ile(I0, v))):
                        v = iite(ilt(v, I0), iadd(v, ic(1 << ft[1])), v)
                return i2r(v)
            raise Unsupported('bv to fp')
        if op in ('fptosi', 'fptoui'):
            if v.op == 'rc':
                x = v.args[0]
                return int(x) & ((1 << tt[1]) - 1)      # trunc toward zero
            if v.op in ('nan', 'inf'):
                return UNDEF
            if v.op == 'i2r':
                return v.args[0]
            f = rfloor_i(v)
            # toward zero
            if v.op in ('sqrt', 'abs'):
                return f
            return iite(rle(R0, v), f, ineg(rfloor_i(rneg(v))))
        if op in ('fpext', 'fptrunc'):
            if op == 'fptrunc' and v.op == 'rc' and tt[1] == 32:
                return bits_float(struct.unpack('>I', struct.pack('>f', float(v.args[0])))[0])
            return v
        raise Unsupported('cast ' + op)

    def wrap(self, st, v, w):
        h = 1 << (w - 1)
        if self.pr.entails_quick(st, band(ile(ic(-h), v), ilt(v, ic(h)))):
            return v
        return iadd(imod(iadd(v, ic(h)), ic(2 * h)), ic(-h))

    def slim(self, st, t):
        """polynomial normal form of t when that is smaller"""
        if t.op in ('rc', 'var', 'ite'):
            return t
        nf = self.pr.nf(st)
        n, d = nf.norm(t)
        if d or len(n) > 12:
            return t
        return nf.to_term(n)

    def toI(self, v, w):
        if isinstance(v, int):
            return ic(sgn(v, w))
        if isinstance(v, Term):
            if v.sort == B:
                return iite(v, ic(1 if w > 1 else -1), I0)
            if v.sort == I:
                return v
        raise Unsupported('toI %r' % (v,))

    def toV(self, v, w):
        if isinstance(v, int):
            return vc(v, w)
        if isinstance(v, Term) and not isinstance(v.sort, str):
            return v
        if isinstance(v, Term) and v.sort == B:
            return v_of_bool(v, w)
        if isinstance(v, Term) and v.sort == I and v.op == 'ite':
            a, b = v.args[1], v.args[2]
            if a.op == 'ic' and b.op == 'ic' and a.args[0] in (0, 1) and b.args[0] in (0, 1):
                if (a.args[0], b.args[0]) == (1, 0):
                    return v_of_bool(v.args[0], w)
                return v_of_bool(bnot(v.args[0]), w)
        raise Unsupported('toV %r' % (v,))

    def fix(self, v, w):
        """normalise constant Int terms to python ints"""
        if isinstance(v, Term):
            if v.op == 'ic':
                return v.args[0] & ((1 << w) - 1)
            if v.op == 'vc':
                return v.args[0]
        return v

    def as_bool(self, v):
        if isinstance(v, int):
            return bc(v & 1)
        if isinstance(v, Term):
            if v.sort == B:
                return v
            if v.sort == I:
                if v.op == 'ite' and v.args[1].op == 'ic' and v.args[2].op == 'ic':
                    x, y = v.args[1].args[0] & 1, v.args[2].args[0] & 1
                    if x and not y:
                        return v.args[0]
                    if y and not x:
                        return bnot(v.args[0])
                return bnot(ieq(v, I0))
        raise Unsupported('as_bool %r' % (v,))

    def ibin(self, st, op, w, a, b, fl):
        m = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & m if b < w else 0
            if op == 'lshr':
                return a >> b if b < w else 0
            if op == 'ashr':
                return (sgn(a, w) >> min(b, w - 1)) & m
            if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0:
                raise Violation('division by zero')
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            if op == 'sdiv':
                return q & m
            return (x - q * y) & m
        if isinstance(a, (Undef, PBits)) or isinstance(b, (Undef, PBits)):
            def pk(x):
                return (m, x) if isinstance(x, int) else (0, 0) if x is UNDEF else (x.kn, x.v) if isinstance(x, PBits) else None
            pa, pb = pk(a), pk(b)
            if pa is None or pb is None:
                return UNDEF
            (ka, va), (kb, vb) = pa, pb
            if op == 'and':
                return pbits((ka & kb) | (ka & ~va) | (kb & ~vb), va & vb, m)
            if op == 'or':
                return pbits((ka & kb) | (ka & va) | (kb & vb), va | vb, m)
            if op == 'xor':
                return pbits(ka & kb, va ^ vb, m)
            if op == 'shl' and isinstance(b, int) and b < w:
                return pbits((ka << b) | ((1 << b) - 1), va << b, m)
            if op == 'lshr' and isinstance(b, int) and b < w:
                return pbits((ka >> b) | (m & ~(m >> b)), va >> b, m)
            return UNDEF
        # pointer-valued integers
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.pbin(st, op, w, a, b)
        # booleans
        sa = a.sort if isinstance(a, Term) else None
        sb = b.sort if isinstance(b, Term) else None
        if w == 1:
            x, y = self.as_bool(a), self.as_bool(b)
            r = {'and': band, 'or': bor, 'xor': bxor, 'add': bxor, 'sub': bxor, 'mul': band}.get(op)
            if r is None:
                raise Unsupported('i1 op ' + op)
            r = r(x, y)
            return 1 if r is TRUE else 0 if r is FALSE else r
        if sa == R or sb == R:
            # sign-bit manipulation of a double
            if op == 'xor' and b == 1 << 63:
                return rneg(a)
            if op == 'and' and b == (1 << 63) - 1:
                return rabs(a)
            if op == 'and' and a == (1 << 63) - 1:
                return rabs(b)
            raise Unsupported('bit op on double')
        if (sa is not None and not isinstance(sa, str)) or (sb is not None and not isinstance(sb, str)):
            return self.fix(vop(op, self.toV(a, w), self.toV(b, w)), w)
        x, y = self.toI(a, w), self.toI(b, w)
        if op in ('add', 'sub', 'mul'):
            r = {'add': iadd, 'sub': isub, 'mul': imul}[op](x, y)
            if 'nsw' in fl:
                return self.fix(r, w)
            if r.lo is not None and r.hi is not None and r.lo >= -(1 << (w - 1)) and r.hi < (1 << (w - 1)):
                return self.fix(r, w)
            return self.fix(self.wrap(st, r, w), w)
        if op == 'and':
            if x.op == 'ic':
                x, y = y, x
            if y.op == 'ic':
                c = y.args[0]
                if x.op == 'ite' and x.args[1].op == 'ic' and x.args[2].op == 'ic':
                    return self.fix(iite(x.args[0], ic(x.args[1].args[0] & c), ic(x.args[2].args[0] & c)), w)
                if c >= 0 and (c & (c + 1)) == 0:
                    return self.fix(imod(x, ic(c + 1)), w)
                if c < 0 and ((-c) & (-c - 1)) == 0:     # mask low bits
                    return self.fix(imul(iediv(x, ic(-c)), ic(-c)), w)
            if self._is01(x) and self._is01(y):
                return self.bool_int(band(self.as_bool(x), self.as_bool(y)))
        if op == 'or':
            if self._is01(x) and self._is01(y):
                return self.bool_int(bor(self.as_bool(x), self.as_bool(y)))
            if 'disjoint' in fl:
                return self.fix(iadd(x, y), w)
        if op == 'xor':
            if y.op == 'ic' and y.args[0] == -1:
                return self.fix(isub(ic(-1), x), w)
            if y.op == 'ic' and y.args[0] == 1 and self._is01(x):
                return self.bool_int(bnot(self.as_bool(x)))
            if self._is01(x) and self._is01(y):
                return self.bool_int(bxor(self.as_bool(x), self.as_bool(y)))
        if op == 'shl' and y.op == 'ic':
            r = imul(x, ic(1 << y.args[0]))
            if 'nsw' in fl:
                return self.fix(r, w)
            return self.fix(self.wrap(st, r, w), w)
        if op == 'ashr' and y.op == 'ic':
            return self.fix(iediv(x, ic(1 << y.args[0])), w)
        if op == 'lshr' and y.op == 'ic':
            if (x.lo is not None and x.lo >= 0) or self.pr.entails_quick(st, ile(I0, x)):
                return self.fix(iediv(x, ic(1 << y.args[0])), w)
            if y.args[0] == w - 1:
                return iite(ilt(x, I0), ic(1), I0)
        if op in ('udiv', 'urem') and y.op == 'ic' and y.args[0] > 0:
            if (x.lo is not None and x.lo >= 0) or self.pr.entails_quick(st, ile(I0, x)):
                return self.fix((iediv if op == 'udiv' else imod)(x, y), w)
        if op in ('sdiv', 'srem') and y.op == 'ic' and y.args[0] > 0:
            if (x.lo is not None and x.lo >= 0) or self.pr.entails_quick(st, ile(I0, x)) or 'exact' in fl:
                return self.fix((iediv if op == 'sdiv' else imod)(x, y), w)
            q = iite(ile(I0, x), iediv(x, y), ineg(iediv(ineg(x), y)))
            if op == 'sdiv':
                return q
            return isub(x, imul(q, y))
        if op in ('sdiv', 'srem', 'udiv', 'urem') and y.op != 'ic':
            v = self.concretize(st, y)
        if op in ('and', 'or', 'xor', 'shl', 'lshr'):
            # bitwise operation on a finite-valued integer: case split on its value
            vx = x.args[0] if x.op == 'ic' else self.concretize(st, x)
            vy = y.args[0] if y.op == 'ic' else self.concretize(st, y)
            if isinstance(vx, int) and isinstance(vy, int):
                return self.ibin(st, op, w, vx & m, vy & m, fl)
        raise Unsupported('int op %s on symbolic %r %r' % (op, x, y))

    def _is01(self, x):
        return x.lo is not None and x.hi is not None and x.lo >= 0 and x.hi <= 1

    def pbin(self, st, op, w, a, b):
        if op == 'add':
            if isinstance(b, Ptr):
                a, b = b, a
            if isinstance(b, int):
                return Ptr(a.obj, padd(a.off, sgn(b, w)))
            if isinstance(b, Term) and b.sort == I:
                return Ptr(a.obj, padd(a.off, b))
        if op == 'sub':
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj:
                    if isinstance(a.off, int) and isinstance(b.off, int):
                        return (a.off - b.off) & ((1 << w) - 1)
                    return self.fix(isub(tI(a.off), tI(b.off)), w)
                raise Unsupported('pointer difference of distinct objects')
            if isinstance(a, Ptr) and isinstance(b, int):
                return Ptr(a.obj, padd(a.off, -sgn(b, w)))
            if isinstance(a, Ptr) and isinstance(b, Term):
                return Ptr(a.obj, padd(a.off, ineg(b)))
        if op == 'and' and isinstance(a, Ptr) and isinstance(b, int):
            if a.obj is None:
                return a.off & b
            if b < 16 and isinstance(a.off, int):
                if isinstance(a.obj, tuple):
                    return 0 if b == 1 else a.off & b
                return a.off & b       # objects are 16-byte aligned
            if (b & 15) == 0 or b in ((1 << 64) - 16, (1 << 64) - 8, (1 << 64) - 2):
                if isinstance(a.off, int):
                    return Ptr(a.obj, a.off & b) if a.off >= 0 else a
        if op == 'or' and isinstance(a, Ptr) and isinstance(b, int) and isinstance(a.off, int) and b < 16:
            return Ptr(a.obj, a.off | b)
        if op == 'xor' and isinstance(a, Ptr) and isinstance(b, Ptr) and a == b:
            return 0
        raise Unsupported('pointer arithmetic %s %r %r' % (op, a, b))

    def icmp(self, st, pred, ty, a, b):
        ty = self.m.ty(ty)
        if isinstance(a, tuple):
            return tuple(self.icmp(st, pred, ty[2], x, y) for x, y in zip(a, b))
        if isinstance(a, (Undef, PBits)) or isinstance(b, (Undef, PBits)):
            return self.undef_branch(st)
        if ty[0] == 'p' or isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.pcmp(st, pred, a, b)
        w = ty[1]
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            p = pred[-2:] if pred not in ('eq', 'ne') else pred
            return int({'eq': a == b, 'ne': a != b, 'gt': a > b, 'lt': a < b, 'ge': a >= b, 'le': a <= b}[p])
        sa = a.sort if isinstance(a, Term) else None
        sb = b.sort if isinstance(b, Term) else None
        if sa == R or sb == R:
            # comparison of double bit patterns (sign test / zero test)
            raise Unsupported('icmp on double bits')
        if w == 1:
            x, y = self.as_bool(a), self.as_bool(b)
            if pred == 'eq':
                r = bnot(bxor(x, y))
            elif pred == 'ne':
                r = bxor(x, y)
            elif pred == 'ult':
                r = band(bnot(x), y)
            elif pred == 'ugt':
                r = band(x, bnot(y))
            else:
                raise Unsupported('i1 icmp')
            return r
        if (sa is not None and not isinstance(sa, str)) or (sb is not None and not isinstance(sb, str)):
            x, y = self.toV(a, w), self.toV(b, w)
            if pred == 'eq':
                return vcmp('eq', x, y)
            if pred == 'ne':
                return bnot(vcmp('eq', x, y))
            k = pred[0]
            if pred[1:] == 'lt':
                return vcmp(k + 'lt', x, y)
            if pred[1:] == 'le':
                return vcmp(k + 'le', x, y)
            if pred[1:] == 'gt':
                return vcmp(k + 'lt', y, x)
            return vcmp(k + 'le', y, x)
        x, y = self.toI(a, w), self.toI(b, w)
        if pred == 'eq':
            return ieq(x, y)
        if pred == 'ne':
            return bnot(ieq(x, y))
        if pred[0] == 'u':
            nx = (x.lo is not None and x.lo >= 0)
            ny = (y.lo is not None and y.lo >= 0)
            if not nx and ny and y.op == 'ic':
                pass
            if not (nx and ny):
                if not nx and self.pr.entails_quick(st, ile(I0, x)):
                    nx = True
                if not ny and self.pr.entails_quick(st, ile(I0, y)):
                    ny = True
                if not nx:
                    x = iite(ilt(x, I0), iadd(x, ic(1 << w)), x)
                if not ny:
                    y = iite(ilt(y, I0), iadd(y, ic(1 << w)), y) if y.op != 'ic' else ic(y.args[0] + (1 << w))
        p = pred[1:]
        if p == 'lt':
            return ilt(x, y)
        if p == 'le':
            return ile(x, y)
        if p == 'gt':
            return ilt(y, x)
        return ile(y, x)

    def pcmp(self, st, pred, a, b):
        if isinstance(a, int):
            a = Ptr(None, a)
        if isinstance(b, int):
            b = Ptr(None, b)
        if not isinstance(a, Ptr) or not isinstance(b, Ptr):
            raise Unsupported('pcmp %r %r' % (a, b))
        if a.obj == b.obj:
            if isinstance(a.off, int) and isinstance(b.off, int):
                x, y = a.off, b.off
                p = pred[-2:] if pred not in ('eq', 'ne') else pred
                return int({'eq': x == y, 'ne': x != y, 'gt': x > y, 'lt': x < y, 'ge': x >= y, 'le': x <= y}[p])
            x, y = tI(a.off), tI(b.off)
            if pred == 'eq':
                return ieq(x, y)
            if pred == 'ne':
                return bnot(ieq(x, y))
            p = pred[1:]
            return {'lt': ilt(x, y), 'le': ile(x, y), 'gt': ilt(y, x), 'ge': ile(y, x)}[p]
        if pred == 'eq':
            return 0
        if pred == 'ne':
            return 1
        # ordering of unrelated objects (e.g. std::less on pointers): objects ordered by creation, null first
        ka, kb = okey(a), okey(b)
        x, y = ka, kb
        return int({'gt': x > y, 'lt': x < y, 'ge': x >= y, 'le': x <= y}[pred[1:]])

    def undef_branch(self, st):
        raise Violation('use of uninitialised value in a comparison')

    def fcmp(self, st, pred, a, b):
        if isinstance(a, tuple):
            return tuple(self.fcmp(st, pred, x, y) for x, y in zip(a, b))
        if a is UNDEF or b is UNDEF:
            return self.undef_branch(st)
        if pred == 'true':
            return 1
        if pred == 'false':
            return 0
        nan = a.op == 'nan' or b.op == 'nan'
        if pred == 'ord':
            return 0 if nan else 1
        if pred == 'uno':
            return 1 if nan else 0
        if nan:
            return 1 if pred[0] == 'u' else 0
        p = pred[1:]
        if p == 'eq':
            r = req(a, b)
        elif p == 'ne':
            r = bnot(req(a, b))
        elif p == 'lt':
            r = rlt(a, b)
        elif p == 'le':
            r = rle(a, b)
        elif p == 'gt':
            r = rlt(b, a)
        else:
            r = rle(b, a)
        return r

    def fbin(self, op, a, b):
        if isinstance(a, tuple):
            return tuple(self.fbin(op, x, y) for x, y in zip(a, b))
        if a is UNDEF or b is UNDEF:
            return UNDEF
        try:
            if op == 'fadd':
                return radd(a, b)
            if op == 'fsub':
                return rsub(a, b)
            if op == 'fmul':
                return rmul(a, b)
            if op == 'fdiv':
                return rdiv(a, b)
        except Special as e:
            return ruf('special_%s' % op, a if not is_special(a) else rv('inf?'), b if not is_special(b) else rv('inf?'))
        if op == 'frem':
            if a.op == 'rc' and b.op == 'rc':
                import math
                return from_double(math.fmod(float(a.args[0]), float(b.args[0])))
            q = rdiv(a, b)
            # trunc(q)
            raise Unsupported('frem')
        raise Unsupported(op)

    def fork_ite(self, st, c, a, b):
        """value = c ? a : b, by path split"""
        d = self.pr.decide(st, c)
        if d is not None:
            return a if d else b
        raise Split([c, bnot(c)])

    # ------------------------------------------------------------ running
    def initial(self):
        st = State()
        st.frames = []
        st.mem = {}
        st.pc = []
        st.pckeys = set()
        _own[0] += 1
        st.own = _own[0]
        st.nobj = 0
        st.samples = list(range(self.pr.NS))
        st.inputs = []
        st.fresh = 0
        st.ghost = {}
        st.exc = None
        st.rules = {}
        st.obls = None
        st.covers = None
        st.steps = 0
        st.guards = set()
        st.log = []
        st.subst = {}
        st.lemmas = []
        return st

    def push(self, st, f, args, dst, norm, unw):
        fr = Frame()
        fr.f = f
        fr.blk = f.entry
        fr.prev = None
        fr.pc = 0
        fr.regs = {}
        fr.dst = dst
        fr.norm = norm
        fr.unw = unw
        fr.allocas = []
        fr.forks = {}
        fr.code = self.m.block(f, f.entry)
        for (nm, t, byval), a in zip(f.params, args):
            fr.regs[nm] = a
        st.frames.append(fr)
        self.funcs_run[f.name] = self.funcs_run.get(f.name, 0) + 1
        if len(st.frames) > 400:
            raise Unsupported('recursion depth')

    def run(self):
        st = self.initial()
        f = self.m.func(self.entry)
        if f is None:
            raise Unsupported('no entry ' + self.entry)
        self.push(st, f, [], None, None, None)
        self.work = [st]
        while self.work:
            st = self.work.pop()
            if self.paths > self.o['maxpaths']:
                self.undecided.append(('engine', 'path limit', None))
                break
            if time.time() - self.t0 > self.o['time']:
                self.undecided.append(('engine', 'time limit', None))
                break
            self.run_path(st)

    def run_path(self, st):
        try:
            self.loop(st)
        except PathEnd:
            self.paths += 1
        except Violation as v:
            self.paths += 1
            self.unconditional(st, v.label)
        except (Unsupported, Special, NotImplementedError) as e:
            self.paths += 1
            # is the path feasible at all?
            if self.pr.feasible(st, TRUE, 4.0) is False:
                self.infeasible += 1
                return
            self.undecided.append(('engine', str(e)[:300], self.where(st)))

    def where(self, st):
        return [(f.f.name, f.blk, f.pc) for f in st.frames[-3:]]

    def unconditional(self, st, label):
        """path condition feasible => failure"""
        if label == 'throw' and self.o['allow_throw']:
            return
        wh = self.where(st)
        self.obligation(st, FALSE, label + ' @' + short(wh[-1][0]) if wh else label, mem=True)

    def loop(self, st):
        m = self.m
        maxsteps = self.o['maxsteps']
        while st.frames:
            fr = st.frames[-1]
            ins = fr.code[fr.pc]
            st.steps += 1
            self.total += 1
            if st.steps > maxsteps:
                raise Unsupported('step limit')
            if not (self.total & 4095):
                if time.time() - self.t0 > self.o['time']:
                    raise Unsupported('time limit')
            try:
                self.step(st, fr, ins)
            except Split as sp:
                self.do_split(st, fr, sp)
        self.paths += 1

    def do_split(self, st, fr, sp):
        """fork on the alternatives, re-executing the current instruction in each"""
        key = (fr.blk, fr.pc)
        n = fr.forks.get(key, 0) + 1
        fr.forks[key] = n
        if n > self.o['maxforks']:
            raise Unsupported('loop/fork limit (needs an invariant) in %s' % fr.f.name)
        alts = []
        site = (fr.f.name, fr.blk, fr.pc)
        for c in sp.alts:
            self.pr.last_unknown = False
            if self.feas_unk.get(site, 0) >= 4:
                # the solver repeatedly gave no answer here: keep both alternatives (sound)
                fe = False if c is FALSE else self.pr.decide(st, c)
            else:
                fe = self.pr.feasible(st, c)
            if self.pr.last_unknown:
                self.feas_unk[site] = self.feas_unk.get(site, 0) + 1
            if fe is not False:
                alts.append(c)
            else:
                self.infeasible += 1
        if not alts:
            raise PathEnd()
        for c in alts[1:]:
            s2 = st.fork()
            self.pr.assume(s2, c)
            self.work.append(s2)
        self.pr.assume(st, alts[0])
        if len(self.work) > 20000:
            raise Unsupported('worklist explosion')

    def val(self, st, fr, op, raw=False):
        k = op[0]
        if k == 'r':
            try:
                v = fr.regs[op[1]]
                if type(v) is PSel and not raw:
                    while type(v) is PSel:
                        v = v.a if self.branch(st, v.c) else v.b
                return v
            except KeyError:
                raise Unsupported('unset register %s in %s' % (op[1], fr.f.name))
        if k == 'c':
            return op[1]
        return self.cval(st, op, None)

    def jump(self, st, fr, lab):
        m = self.m
        prev = fr.blk
        fr.prev = prev
        fr.blk = lab
        code = m.block(fr.f, lab)
        fr.code = code
        i = 0
        if code[0][0] == 'phi':
            vals = []
            while code[i][0] == 'phi':
                ins = code[i]
                vals.append((ins[1], self.val(st, fr, ins[3][prev], True)))
                i += 1
            for d, v in vals:
                fr.regs[d] = v
        fr.pc = i

    def load_sel(self, st, p, ty):
        if type(p) is not PSel:
            return self.load(st, p, ty)
        a, b = self.load_sel(st, p.a, ty), self.load_sel(st, p.b, ty)
        if a is UNDEF or b is UNDEF or is_special(a) or is_special(b):
            return a if self.branch(st, p.c) else b
        c = p.c
        if c.op in ('rle', 'rlt'):
            c = (rle if c.op == 'rle' else rlt)(self.slim(st, c.args[0]), self.slim(st, c.args[1]))
        return rite(c, self.slim(st, a), self.slim(st, b))

    def branch(self, st, c):
        """decide a boolean value: returns python bool or raises Split"""
        if isinstance(c, int):
            return bool(c & 1)
        if c is UNDEF:
            raise Violation('branch on uninitialised value')
        c = self.as_bool(c)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        d = self.pr.decide(st, c)
        if d is not None:
            return d
        raise Split([c, bnot(c)])

    def step(self, st, fr, ins):
        k = ins[0]
        regs = fr.regs
        if k == 'load':
            p = self.val(st, fr, ins[3], ins[2][0] == 'f')
            if p is UNDEF:
                raise Violation('memory-safety: load through uninitialised pointer')
            regs[ins[1]] = self.load(st, p, ins[2]) if type(p) is not PSel else self.load_sel(st, p, ins[2])
            fr.pc += 1
        elif k == 'store':
            v = self.val(st, fr, ins[3])
            p = self.val(st, fr, ins[4])
            if p is UNDEF:
                raise Violation('memory-safety: store through uninitialised pointer')
            self.store(st, p, v, ins[2])
            fr.pc += 1
        elif k == 'gep':
            b = self.val(st, fr, ins[2])
            if b is UNDEF:
                regs[ins[1]] = UNDEF
                fr.pc += 1
                return
            off = padd(b.off, ins[3])
            for it, o, sz in ins[4]:
                x = self.val(st, fr, o)
                if isinstance(x, int):
                    off = padd(off, sgn(x, it[1]) * sz)
                elif x is UNDEF:
                    raise Violation('uninitialised index')
                else:
                    off = padd(off, imul(self.toI(x, it[1]), ic(sz)))
            regs[ins[1]] = Ptr(b.obj, off)
            fr.pc += 1
        elif k == 'cbr':
            c = self.val(st, fr, ins[2])
            self.jump(st, fr, ins[3] if self.branch(st, c) else ins[4])
        elif k == 'br':
            self.jump(st, fr, ins[2])
        elif k == 'call':
            self.call(st, fr, ins)
        elif k == 'fbin':
            regs[ins[1]] = self.fbin(ins[2], self.val(st, fr, ins[4]), self.val(st, fr, ins[5]))
            fr.pc += 1
        elif k == 'bin':
            a = self.val(st, fr, ins[4])
            b = self.val(st, fr, ins[5])
            t = ins[3]
            if t[0] == 'v':
                regs[ins[1]] = tuple(self.ibin(st, ins[2], t[2][1], x, y, ins[6]) for x, y in zip(a, b))
            else:
                regs[ins[1]] = self.ibin(st, ins[2], t[1], a, b, ins[6])
            fr.pc += 1
        elif k == 'icmp':
            r = self.icmp(st, ins[2], ins[3], self.val(st, fr, ins[4]), self.val(st, fr, ins[5]))
            regs[ins[1]] = 1 if r is TRUE else 0 if r is FALSE else r
            fr.pc += 1
        elif k == 'fcmp':
            r = self.fcmp(st, ins[2], self.val(st, fr, ins[4]), self.val(st, fr, ins[5]))
            regs[ins[1]] = 1 if r is TRUE else 0 if r is FALSE else r
            fr.pc += 1
        elif k == 'ret':
            v = self.val(st, fr, ins[2]) if ins[2] is not None else None
            self.ret(st, v)
        elif k == 'select':
            c = self.val(st, fr, ins[3])
            a = self.val(st, fr, ins[5], True)
            b = self.val(st, fr, ins[6], True)
            if isinstance(c, tuple):
                regs[ins[1]] = tuple(x if self.branch(st, ci) else y for ci, x, y in zip(c, a, b))
            elif not isinstance(c, int) and c is not UNDEF and isinstance(a, Term) and isinstance(b, Term) and a is b:
                regs[ins[1]] = a
            elif not isinstance(c, int) and c is not UNDEF and ins[4] == ('i', 1):
                cb = self.as_bool(c)
                r = bor(band(cb, self.as_bool(a)), band(bnot(cb), self.as_bool(b)))
                regs[ins[1]] = 1 if r is TRUE else 0 if r is FALSE else r
            elif not isinstance(c, int) and c is not UNDEF and ins[4][0] == 'i' and self._intlike(a) and self._intlike(b):
                cb = self.as_bool(c)
                d = self.pr.decide(st, cb)
                w = ins[4][1]
                if d is not None:
                    regs[ins[1]] = a if d else b
                else:
                    regs[ins[1]] = self.fix(iite(cb, self.toI(a, w), self.toI(b, w)), w)
            elif self.o['ite'] and not isinstance(c, int) and c is not UNDEF and ins[4][0] == 'f' and not is_special(a) and not is_special(b):
                cb = self.as_bool(c)
                d = self.pr.decide(st, cb)
                if d is None and cb.op in ('rle', 'rlt'):
                    cb = (rle if cb.op == 'rle' else rlt)(self.slim(st, cb.args[0]), self.slim(st, cb.args[1]))
                regs[ins[1]] = rite(cb, self.slim(st, a), self.slim(st, b)) if d is None else (a if d else b)
            elif self.o['ite'] and not isinstance(c, int) and c is not UNDEF and ins[4] == T_PTR and a is not UNDEF and b is not UNDEF:
                cb = self.as_bool(c)
                d = True if cb is TRUE else False if cb is FALSE else self.pr.decide(st, cb)
                regs[ins[1]] = PSel(cb, a, b) if d is None else (a if d else b)
            else:
                regs[ins[1]] = a if self.branch(st, c) else b
            fr.pc += 1
        elif k == 'cast':
            regs[ins[1]] = self.cast(st, ins[2], ins[3], self.val(st, fr, ins[4]), ins[5], ins[6])
            fr.pc += 1
        elif k == 'alloca':
            n = 1
            if ins[3] is not None:
                n = self.val(st, fr, ins[3])
                if not isinstance(n, int):
                    n = self.concretize(st, n)
            p = self.new_obj(st, self.m.sizeof(ins[2]) * n, 'stack')
            fr.allocas.append(p.obj)
            regs[ins[1]] = p
            fr.pc += 1
        elif k == 'fneg':
            v = self.val(st, fr, ins[3])
            regs[ins[1]] = tuple(rneg(x) for x in v) if isinstance(v, tuple) else (UNDEF if v is UNDEF else rneg(v))
            fr.pc += 1
        elif k == 'extractvalue':
            v = self.val(st, fr, ins[2])
            for i in ins[3]:
                v = v[i] if v is not UNDEF else UNDEF
            regs[ins[1]] = v
            fr.pc += 1
        elif k == 'insertvalue':
            v = self.val(st, fr, ins[3])
            x = self.val(st, fr, ins[4])
            regs[ins[1]] = self.insertval(ins[2], v, x, ins[5])
            fr.pc += 1
        elif k == 'switch':
            v = self.val(st, fr, ins[3])
            if v is UNDEF:
                raise Violation('switch on uninitialised value')
            w = ins[2][1]
            if isinstance(v, int):
                for c, l in ins[5]:
                    if c == v:
                        self.jump(st, fr, l)
                        return
                self.jump(st, fr, ins[4])
                return
            x = self.icmp
            for c, l in ins[5]:
                e = self.icmp(st, 'eq', ins[2], v, c)
                if self.branch(st, e):
                    self.jump(st, fr, l)
                    return
            self.jump(st, fr, ins[4])
        elif k == 'unreachable':
            raise PathEnd()
        elif k == 'landingpad':
            regs[ins[1]] = self.landing(st, fr, ins[2])
            fr.pc += 1
        elif k == 'resume':
            self.unwind(st)
        elif k == 'atomicrmw':
            p = self.val(st, fr, ins[4])
            v = self.val(st, fr, ins[5])
            old = self.load(st, p, ins[3])
            w = ins[3][1] if ins[3][0] == 'i' else 64
            o = ins[2]
            if o == 'xchg':
                n = v
            else:
                if old is UNDEF:
                    raise Violation('atomic on uninitialised memory')
                n = self.ibin(st, {'add': 'add', 'sub': 'sub', 'and': 'and', 'or': 'or', 'xor': 'xor'}[o], w, old, v, ())
            self.store(st, p, n, ins[3])
            regs[ins[1]] = old
            fr.pc += 1
        elif k == 'cmpxchg':
            p = self.val(st, fr, ins[3])
            c = self.val(st, fr, ins[4])
            n = self.val(st, fr, ins[5])
            old = self.load(st, p, ins[2])
            e = self.branch(st, self.icmp(st, 'eq', ins[2], old, c))
            if e:
                self.store(st, p, n, ins[2])
            regs[ins[1]] = (old, int(e))
            fr.pc += 1
        elif k == 'freeze':
            regs[ins[1]] = self.val(st, fr, ins[3])
            fr.pc += 1
        elif k == 'nop':
            fr.pc += 1
        elif k == 'extractelement':
            v = self.val(st, fr, ins[2])
            i = self.val(st, fr, ins[3])
            if not isinstance(i, int):
                i = self.concretize(st, self.toI(i, 64))
            regs[ins[1]] = v[i] if v is not UNDEF else UNDEF
            fr.pc += 1
        elif k == 'insertelement':
            v = self.val(st, fr, ins[3])
            t = self.m.ty(ins[2])
            if v is UNDEF:
                v = (UNDEF,) * t[1]
            x = self.val(st, fr, ins[4])
            i = self.val(st, fr, ins[5])
            if not isinstance(i, int):
                i = self.concretize(st, self.toI(i, 64))
            regs[ins[1]] = v[:i] + (x,) + v[i + 1:]
            fr.pc += 1
        elif k == 'shufflevector':
            t = self.m.ty(ins[2])
            a = self.val(st, fr, ins[3])
            b = self.val(st, fr, ins[4])
            msk = self.val(st, fr, ins[6])
            n = t[1]
            if a is UNDEF:
                a = (UNDEF,) * n
            if b is UNDEF:
                b = (UNDEF,) * n
            ab = tuple(a) + tuple(b)
            if msk is UNDEF:
                msk = (UNDEF,) * n
            regs[ins[1]] = tuple(UNDEF if i is UNDEF else ab[i] for i in msk)
            fr.pc += 1
        else:
            raise Unsupported(str(ins[2] if k == 'unsupported' else k))

    def _intlike(self, v):
        return isinstance(v, int) or (isinstance(v, Term) and v.sort in (I, B))

    def insertval(self, ty, v, x, idx):
        t = self.m.ty(ty)
        n = len(t[1]) if t[0] == 's' else t[1]
        if v is UNDEF:
            v = (UNDEF,) * n
        i = idx[0]
        if len(idx) > 1:
            et = t[1][i] if t[0] == 's' else t[2]
            x = self.insertval(et, v[i], x, idx[1:])
        return v[:i] + (x,) + v[i + 1:]

    def ret(self, st, v):
        fr = st.frames.pop()
        for a in fr.allocas:
            if a in st.mem:
                del st.mem[a]
        if not st.frames:
            return
        c = st.frames[-1]
        if fr.dst is not None:
            c.regs[fr.dst] = v
        if fr.norm is not None:
            self.jump(st, c, fr.norm)
        # else: pc already advanced

    # ---------------------------------------------------------- exceptions
    def throw(self, st, p, ti):
        st.exc = (p, ti)
        self.unwind(st)

    def unwind(self, st):
        """pop the current frame; continue at the innermost invoke's landing pad"""
        while st.frames:
            fr = st.frames.pop()
            if not st.frames:
                break
            c = st.frames[-1]
            if fr.unw is not None:
                self.jump(st, c, fr.unw)
                return
        self.throws += 1
        raise Violation('throw')

    def landing(self, st, fr, clauses):
        p, ti = st.exc
        sel = 0
        for c in clauses:
            if c[0] == 'catch':
                if c[1][0] == 'null':
                    sel = 1
                    break
                cti = c[1][1]
                if self.derives(ti, cti) is not None:
                    sel = tid(cti)
                    break
        # no matching clause in this pad: cleanup with selector 0
        return (p, sel)

    def derives(self, ti, base):
        """offset of base subobject in ti, or None"""
        if ti == base:
            return 0
        for b, off in self.bases(ti):
            r = self.derives(b, base)
            if r is not None:
                return off + r
        return None

    def bases(self, ti):
        if ti not in self.m.globals:
            return []
        ty, init = self.m.global_init(ti)
        if init is None or init[0] != 'agg':
            return []
        els = init[1]
        vt = els[0][1]
        vtn = str(vt)
        if '__si_class_type_info' in vtn:
            return [(els[2][1][1], 0)]
        if '__vmi_class_type_info' in vtn:
            out = []
            n = els[3][1][1]
            rest = els[4:]
            flat = []
            for t, o in rest:
                if o[0] == 'agg' and not (o[1] and o[1][0][0][0] == 'p'):
                    flat += o[1]
                else:
                    flat.append((t, o))
            for i in range(n):
                b = flat[2 * i][1][1]
                fl = flat[2 * i + 1][1][1]
                fl = fl - (1 << 64) if fl >> 63 else fl
                out.append((b, fl >> 8))
            return out
        return []

    # ---------------------------------------------------------- calls
    def call(self, st, fr, ins):
        _, dst, rty, callee, args, norm, unw = ins
        cv = self.val(st, fr, callee)
        if not (isinstance(cv, Ptr) and isinstance(cv.obj, tuple)):
            if isinstance(cv, Ptr) and cv.obj is None:
                raise Violation('call through null pointer')
            raise Unsupported('indirect call to %r' % (cv,))
        name = cv.obj[1]
        avals = []
        for (t, o, byval) in args:
            if t[0] == 'meta':
                avals.append(None)
                continue
            v = self.val(st, fr, o)
            if byval is not None:
                n = self.m.sizeof(byval)
                q = self.new_obj(st, n, 'byval')
                self.memcpy(st, q, v, n)
                v = q
            avals.append(v)
        h = find_stub(name)
        if h is not None:
            r = h(self, st, avals, ins)
            if r is CALLED:
                return
            self.finish_call(st, fr, dst, norm, r)
            return
        f = self.m.func(name)
        if f is None:
            self.externs[name] = self.externs.get(name, 0) + 1
            raise Unsupported('call to external function ' + name)
        # advance pc before pushing so that return resumes after
        if norm is None:
            fr.pc += 1
        self.push(st, f, avals, dst, norm, unw)

    def finish_call(self, st, fr, dst, norm, r):
        if dst is not None:
            fr.regs[dst] = r
        if norm is not None:
            self.jump(st, fr, norm)
        else:
            fr.pc += 1

    def call_fn(self, st, fr, name, avals, dst, norm, unw):
        f = self.m.func(name)
        if norm is None:
            fr.pc += 1
        self.push(st, f, avals, dst, norm, unw)

    # ---------------------------------------------------------- obligations
    def obligation(self, st, goal, label, mem=False, tol=None):
        r = self.results.get(label)
        if r is None:
            r = self.results[label] = {'n': 0, 'proved': 0, 'backends': {}, 'failed': 0, 'unknown': 0, 'time': 0.0}
        r['n'] += 1
        t = time.time()
        res = self.pr.prove(st, goal, self.o.get('ptime', 20))
        r['time'] += time.time() - t
        if res.status == 'proved':
            r['proved'] += 1
            r['backends'][res.backend] = r['backends'].get(res.backend, 0) + 1
            return True
        rec = {'label': label, 'goal': str(goal)[:400], 'backend': res.backend,
               'model': res.model, 'where': self.where(st), 'inputs': list(st.inputs)}
        if res.status == 'refuted':
            r['failed'] += 1
            if len(self.failed) < 40:
                self.failed.append(rec)
        else:
            r['unknown'] += 1
            if len(self.undecided) < 200:
                self.undecided.append(('obligation', label, rec))
        return False


class Packed(object):
    __slots__ = ('size', 'parts')

    def __init__(self, size, parts):
        self.size = size
        self.parts = parts


class PSel(object):
    """a pointer that is one of two, depending on an undecided condition (only with the ite option)"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Split(Exception):
    def __init__(self, alts):
        Exception.__init__(self, 'split')
        self.alts = alts


CALLED = object()


def okey(p):
    if p.obj is None:
        return (0, 0, '', p.off if isinstance(p.off, int) else 0)
    if isinstance(p.obj, tuple):
        return (1, 0, p.obj[1], p.off if isinstance(p.off, int) else 0)
    return (2, p.obj, '', p.off if isinstance(p.off, int) else 0)


def padd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    r = iadd(tI(a), tI(b))
    if r.op == 'ic':
        return r.args[0]
    return r


def tI(x):
    return ic(x) if isinstance(x, int) else x


def tid(name):
    return (int(hashlib.md5(name.encode()).hexdigest()[:7], 16) | 2) & 0x7fffffff


def short(n):
    return n if len(n) < 90 else n[:90]


_stubcache = {}


def find_stub(name):
    if name in _stubcache:
        return _stubcache[name]
    from . import runtime
    r = runtime.lookup(name)
    _stubcache[name] = r
    return r
