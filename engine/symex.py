"""Strongest-postcondition execution of LLVM IR over symbolic values.

Every control-flow join merges with ite, every loop of the verified code has a
trip count fixed by a template argument (or a concrete limit) and is executed
to completion; anything that is not raises Unsupported (an error of the check,
never a verdict).
"""
import re
import struct as _struct
import math
from fractions import Fraction
import terms as tm
from terms import T, TRUE, FALSE
import llir
from llir import sizeof, field_offset


def leaves(t, n=16):
    """the constants a conditional constant selects from; None for other terms"""
    if t.op == 'ic':
        return {t.args[0]}
    if t.op == 'ite' and t.sort == tm.INT and n > 0:
        a = leaves(t.args[1], n - 1)
        b = a and leaves(t.args[2], n - 1)
        if b and len(a | b) <= 16:
            return a | b
    return None


def overleaves(t, f):
    if t.op == 'ic':
        return tm.ic(f(t.args[0]))
    return tm.ite(t.args[0], overleaves(t.args[1], f), overleaves(t.args[2], f))


def selects(t, k):
    """the condition under which a conditional constant is k"""
    if t.op == 'ic':
        return TRUE if t.args[0] == k else FALSE
    c, a, b = t.args
    return tm.bor(tm.band(c, selects(a, k)), tm.band(tm.bnot(c), selects(b, k)))


def bitparts(t):
    """t as a sum of conditional constants without common bits: [(term, mask)]"""
    if t.op == 'iadd':
        a = bitparts(t.args[0])
        b = a and bitparts(t.args[1])
        if not b or mask_of(a) & mask_of(b):
            return None
        return a + b
    l = leaves(t)
    if not l or min(l) < 0:
        return None
    m = 0
    for v in l:
        m |= v
    return [(t, m)]


def mask_of(parts):
    m = 0
    for _, k in parts:
        m |= k
    return m


def bitwise(op, x, y):
    """and, or, xor of conditional constants; None for other operands"""
    p, q = bitparts(x), bitparts(y)
    if not p or not q:
        return None
    if not mask_of(p) & mask_of(q):
        return tm.I0 if op == 'and' else tm.iadd(x, y)
    if len(q) > 1 or op == 'and' and q[0][0].op != 'ic' and p[0][0].op == 'ic':
        p, q, x, y = q, p, y, x
    if len(q) == 1 and q[0][0].op == 'ic' and op == 'and':
        m = q[0][1]
        r = tm.I0
        for t, _ in p:
            r = tm.iadd(r, overleaves(t, lambda v: v & m))
        return r
    if len(p) > 1 or len(q) > 1:
        # bit by bit
        r = tm.I0
        m = mask_of(p) | mask_of(q)
        if bin(m).count('1') > 16:
            return None
        i = 1
        while i <= m:
            if m & i:
                f, g = [tm.bor(*[selects(overleaves(t, lambda v: 1 if v & i else 0), 1) for t, k in ps if k & i] or [FALSE]) for ps in (p, q)]
                c = tm.band(f, g) if op == 'and' else tm.bor(f, g) if op == 'or' else tm.bor(tm.band(f, tm.bnot(g)), tm.band(g, tm.bnot(f)))
                r = tm.iadd(r, tm.ite(c, tm.ic(i), tm.I0))
            i <<= 1
        return r
    a, b = leaves(x), leaves(y)
    if a <= {0, 1} and b <= {0, 1}:
        f, g = selects(x, 1), selects(y, 1)
        c = tm.band(f, g) if op == 'and' else tm.bor(f, g) if op == 'or' else tm.bor(tm.band(f, tm.bnot(g)), tm.band(g, tm.bnot(f)))
        return tm.ite(c, tm.I1, tm.I0)
    f = {'and': lambda u, v: u & v, 'or': lambda u, v: u | v, 'xor': lambda u, v: u ^ v}[op]
    r = tm.I0
    for v in sorted(b):
        r = tm.ite(selects(y, v), overleaves(x, lambda u: f(u, v)), r)
    return r


class Unsupported(Exception):
    pass


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off is o.off

    def __hash__(self):
        return hash((self.obj, self.off.id))

    def __repr__(self):
        return 'Ptr(%s+%s)' % (self.obj, self.off)


NULL = Ptr(0, tm.I0)


class PtrIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return isinstance(o, PtrIte) and self.c is o.c and self.a == o.a and self.b == o.b

    def __hash__(self):
        return hash((self.c, self.a, self.b))


class PtrInt:
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __eq__(self, o):
        return isinstance(o, PtrInt) and self.p == o.p

    def __hash__(self):
        return hash(('pi', self.p))


class Packed:
    """an integer register holding several memory cells: parts = ((off,size,val),...)"""
    __slots__ = ('size', 'parts')

    def __init__(self, size, parts):
        self.size = size
        self.parts = tuple(parts)

    def __eq__(self, o):
        return isinstance(o, Packed) and self.size == o.size and self.parts == o.parts

    def __hash__(self):
        return hash((self.size, self.parts))


class Agg(tuple):
    pass


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Obj:
    __slots__ = ('size', 'cells', 'kind', 'name', 'owner', 'live', 'const', 'lazy')

    def __init__(self, size, kind, name, owner):
        self.size = size
        self.kind = kind
        self.name = name
        self.owner = owner
        self.cells = {}
        self.live = True
        self.const = False
        self.lazy = None

    def clone(self, owner):
        o = Obj(self.size, self.kind, self.name, owner)
        o.cells = dict(self.cells)
        o.live = self.live
        o.const = self.const
        return o


class State:
    __slots__ = ('pc', 'objs', 'tok', 'pcset', 'stops')

    def __init__(self):
        self.pc = ()
        self.objs = {}
        self.tok = object()
        self.pcset = None
        self.stops = False

    def fork(self):
        s = State()
        s.pc = self.pc
        s.objs = dict(self.objs)
        s.stops = self.stops
        self.tok = object()
        return s

    def wobj(self, oid):
        o = self.objs[oid]
        if o.owner is not self.tok:
            o = o.clone(self.tok)
            self.objs[oid] = o
        return o

    def add(self, c):
        """conjoin c to the path condition; False if it becomes syntactically false"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c.op == 'and':
            for x in c.args:
                if not self.add(x):
                    return False
            return True
        s = self.lits()
        if c.id in s:
            return True
        n = tm.bnot(c)
        if n.id in s:
            return False
        self.pc = self.pc + (c,)
        self.pcset = None
        return True

    def lits(self):
        if self.pcset is None:
            self.pcset = {c.id for c in self.pc}
        return self.pcset

    def simp(self, c):
        """decide a branch condition from the literals of the path condition"""
        if c is TRUE or c is FALSE:
            return c
        s = self.lits()
        if c.id in s:
            return TRUE
        n = tm.bnot(c)
        if n.id in s:
            return FALSE
        if c.op == 'and':
            return tm.band(*[self.simp(x) for x in c.args])
        if c.op == 'or':
            return tm.bor(*[self.simp(x) for x in c.args])
        return c


class Oblig:
    __slots__ = ('kind', 'pc', 'goal', 'msg', 'where', 'nvars')

    def __init__(self, kind, pc, goal, msg, where):
        self.kind = kind
        self.pc = pc
        self.goal = goal
        self.msg = msg
        self.where = where


OPAQUE = re.compile(
    r'^(_ZNK?S[sod][A-Z]|_ZNK?Sa[A-Z]|_ZNSaI|_ZNKSaI|_ZNK?St7__cxx11|_ZNSt8ios_base|_ZNKSt8ios_base|_ZNK?St9basic_ios|_ZNK?St11char_traits'
    r'|_ZSt(ls|rs)I|_ZNSo|_ZNKSo|_ZNSi|_ZNKSi|_ZSt4endl|_ZSt5flush|_ZSt4setw|_ZSt12setprecision|_ZStlsI|_ZStrsI|_ZStls|_ZStrs|_ZStplI[cw]'
    r'|_ZNSt9exceptionC|_ZNSt9exceptionD|_ZNKSt9exception|_ZNSt11logic_error|_ZNSt13runtime_error|_ZNSt12out_of_range'
    r'|_ZNSt14basic_|_ZNKSt14basic_|_ZNSt15__new_allocatorIc|_ZN9__gnu_cxx13new_allocatorIc|_ZNSt15basic_'
    r'|_ZStanSt|_ZStorSt|_ZStaNRSt|_ZStoRRSt|_ZStcoSt|_ZNSt16allocator_traitsISaIcEE|__cxa_atexit$|_ZSteqI[cS])')

MATH1 = {'sqrt': 'sqrt', 'sqrtf': 'sqrt', 'sin': 'sin', 'sinf': 'sin', 'cos': 'cos', 'cosf': 'cos', 'tan': 'tan',
         'tanf': 'tan', 'asin': 'asin', 'asinf': 'asin', 'acos': 'acos', 'acosf': 'acos', 'atan': 'atan',
         'atanf': 'atan', 'exp': 'exp', 'expf': 'exp', 'log': 'log', 'logf': 'log', 'floor': 'floor',
         'floorf': 'floor', 'ceil': 'ceil', 'ceilf': 'ceil', 'trunc': 'trunc', 'truncf': 'trunc', 'round': 'round',
         'roundf': 'round', 'rint': 'round', 'rintf': 'round', 'nearbyint': 'round'}

_k64 = {}


def reciprocal(t):
    """is the real term a quotient of integer values whose divisor is not constant?"""
    return t.op == 'rdiv' and all(x.op not in ('rv', 'rfn') for x in tm.subterms([t]))


def integral(t):
    return all(x.op not in ('rv', 'rfn') for x in tm.subterms([t]))


def plain(v):
    """a product whose rounding matters to a following truncation, as the real product"""
    if isinstance(v, T):
        if v.op == 'rfn' and v.args[0] in ('mul64', 'mul32'):
            return tm.rmul(v.args[1], v.args[2])
        if v.op == 'ite' and v.sort == tm.REAL and any(x.op == 'rfn' and x.args[0] in ('mul64', 'mul32') for x in v.args):
            return tm.ite(v.args[0], plain(v.args[1]), plain(v.args[2]))
    return v


def has64(t):
    """does the real term depend on a double-precision input?"""
    r = _k64.get(t.id)
    if r is None:
        if t.op == 'rv':
            r = t.args[1] == 'f64'
        else:
            r = False
            for x in tm.subterms([t]):
                if x.op == 'rv' and x.args[1] == 'f64':
                    r = True
                    break
        _k64[t.id] = r
    return r


class Executor:
    MAXVISIT = 70000

    def __init__(self, mod, summaries=None):
        self.mod = mod
        self.nobj = 1
        self.nfresh = 0
        self.inputs = []          # (term, kind) in creation order
        self.obligs = []
        self.covers = []
        self.globs = {}
        self.called = {}
        self.external = set()
        self.stack = []
        self.steps = 0
        self.summaries = summaries or {}
        self.used_summaries = set()
        self.nosum = False
        self.unchecked = False
        self.obl_seen = set()
        self.maxsteps = 3000000
        self.streams = {}
        self.reallib = getattr(mod, 'reallib', False)

    # ------------------------------------------------------------ helpers
    def fresh(self, kind, tag='u'):
        self.nfresh += 1
        nm = '%s%d' % (tag, self.nfresh)
        if kind in ('f32', 'f64'):
            return tm.rvar(nm, kind)
        if kind == 'bool':
            return tm.bvar(nm)
        lo, hi = {'i8': (-128, 127), 'u8': (0, 255), 'i16': (-32768, 32767), 'u16': (0, 65535),
                  'i32': (-2 ** 31, 2 ** 31 - 1), 'u32': (0, 2 ** 32 - 1),
                  'i64': (-2 ** 63, 2 ** 63 - 1), 'u64': (0, 2 ** 64 - 1)}[kind]
        return tm.ivar(nm, lo, hi)

    def fresh_of(self, ty, tag='undef'):
        k = ty[0]
        if k == 'float':
            return self.fresh('f32', tag)
        if k == 'double' or k == 'x86_fp80':
            return self.fresh('f64', tag)
        if k == 'int':
            if ty[1] == 1:
                return self.fresh('bool', tag)
            if ty[1] in (8, 16, 32, 64):
                return self.fresh('u%d' % ty[1], tag)
        if k == 'ptr':
            return NULL
        if k == 'vec' or k == 'array':
            return Agg(self.fresh_of(ty[2], tag) for _ in range(ty[1]))
        if k == 'struct':
            return Agg(self.fresh_of(e, tag) for e in ty[1])
        raise Unsupported('fresh value of type %r' % (ty,))

    def where(self):
        return self.stack[-1] if self.stack else '?'

    cast_st = None

    def oblige(self, kind, st, goal, msg):
        if goal is TRUE:
            self.obligs_trivial = getattr(self, 'obligs_trivial', 0) + 1
            if kind in ('check',):
                self.obligs.append(Oblig(kind, st.pc, goal, msg, self.where()))
            return
        goal = st.simp(goal)
        key = (kind, st.pc, goal.id, msg if kind == 'check' else '')
        if key in self.obl_seen:
            return
        self.obl_seen.add(key)
        self.obligs.append(Oblig(kind, st.pc, goal, msg, '/'.join(self.stack[1:4])))

    def new_obj(self, st, size, kind, name):
        oid = self.nobj
        self.nobj += 1
        st.objs[oid] = Obj(size, kind, name, st.tok)
        return oid

    # ------------------------------------------------------------ constants
    def glob_ptr(self, st, name):
        g = self.mod.glob(name)
        if g is not None and g[0] == 'alias':
            return self.glob_ptr(st, g[1])
        if g is None:
            return Ptr('fn:' + name, tm.I0)
        oid = 'g:' + name
        if oid not in st.objs:
            o = Obj(sizeof(g[0]) if g[1] is not None or g[0][0] != 'struct' or g[0][1] else 0, 'global', name, st.tok)
            o.const = g[2]
            st.objs[oid] = o
            if g[1] is not None:
                self.init_mem(st, o, 0, g[0], g[1])
        return Ptr(oid, tm.I0)

    def init_mem(self, st, o, off, ty, v):
        k = v[0]
        if k == 'zero' or k == 'undef':
            self.zero_mem(o, off, ty)
        elif k == 'agg':
            if ty[0] == 'struct':
                for i, (t, x) in enumerate(v[2]):
                    self.init_mem(st, o, off + field_offset(ty, i), t, x)
            else:
                s = sizeof(ty[2])
                for i, (t, x) in enumerate(v[2]):
                    self.init_mem(st, o, off + i * s, t, x)
        elif k == 'bytes':
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, tm.ic(b))
        else:
            o.cells[off] = (sizeof(ty), self.const(st, v, ty))

    def zero_mem(self, o, off, ty):
        k = ty[0]
        if k == 'struct':
            for i, t in enumerate(ty[1]):
                self.zero_mem(o, off + field_offset(ty, i), t)
        elif k in ('array', 'vec'):
            s = sizeof(ty[2])
            for i in range(ty[1]):
                self.zero_mem(o, off + i * s, ty[2])
        else:
            o.cells[off] = (sizeof(ty), self.zero_of(ty))

    def zero_of(self, ty):
        k = ty[0]
        if k in ('float', 'double', 'x86_fp80'):
            return tm.R0
        if k == 'int':
            return FALSE if ty[1] == 1 else tm.I0
        if k == 'ptr':
            return NULL
        if k in ('array', 'vec'):
            return Agg(self.zero_of(ty[2]) for _ in range(ty[1]))
        if k == 'struct':
            return Agg(self.zero_of(t) for t in ty[1])
        raise Unsupported('zero of %r' % (ty,))

    def const(self, st, v, ty=None):
        k = v[0]
        if k == 'int':
            if v[1] == 1:
                return tm.boolc(v[2] & 1)
            return tm.ic(v[2])
        if k == 'fp':
            x = v[2]
            if isinstance(x, str):
                if x == '-0':
                    return tm.R0
                return tm.rfn('const_' + x.replace('-', 'minus_'))
            return tm.rc(x)
        if k == 'null':
            return NULL
        if k == 'glob':
            return self.glob_ptr(st, v[1])
        if k == 'zero':
            return self.zero_of(v[1])
        if k == 'undef':
            if v[1][0] in ('struct', 'array', 'vec'):
                n = len(v[1][1]) if v[1][0] == 'struct' else v[1][1]
                ts = v[1][1] if v[1][0] == 'struct' else [v[1][2]] * n
                return Agg(self.const(st, ('undef', t)) for t in ts)
            return UNDEF
        if k == 'agg':
            return Agg(self.const(st, x, t) for t, x in v[2])
        if k == 'gepc':
            base = self.const(st, v[2][1])
            return self.gep(base, v[1], [(t, self.const(st, x, t)) for t, x in v[3]])
        if k == 'castc':
            x = self.const(st, v[2][1], v[2][0])
            return self.cast(v[1], v[2][0], x, v[3])
        if k == 'binc':
            a = self.const(st, v[2][1])
            b = self.const(st, v[3][1])
            return self.binop(st, v[1], v[2][0], a, b, ())
        raise Unsupported('constant %r' % (v,))

    def val(self, fr, v, ty=None):
        if v[0] == 'reg':
            try:
                return fr.regs[v[1]]
            except KeyError:
                raise Unsupported('register %%%s undefined in %s' % (v[1], fr.fn.name))
        if v[0] == 'int' and v[1] != 1:
            return tm.ic(v[2])
        return self.const(fr.st, v, ty)

    # ------------------------------------------------------------ pointers
    def gep(self, base, bt, idx):
        if isinstance(base, PtrIte):
            return self.ptr_ite(base.c, self.gep(base.a, bt, idx), self.gep(base.b, bt, idx))
        if not isinstance(base, Ptr):
            raise Unsupported('gep base %r' % (base,))
        off = base.off
        t = bt
        first = True
        for it, iv in idx:
            if first:
                off = tm.iadd(off, tm.imul(self.sgn(iv, it[1]), tm.ic(sizeof(t))))
                first = False
                continue
            if t[0] == 'struct':
                n = iv.args[0]
                off = tm.iadd(off, tm.ic(field_offset(t, n)))
                t = t[1][n]
            elif t[0] in ('array', 'vec'):
                t = t[2]
                off = tm.iadd(off, tm.imul(self.sgn(iv, it[1]), tm.ic(sizeof(t))))
            else:
                raise Unsupported('gep into %r' % (t,))
        return Ptr(base.obj, off)

    def ptr_ite(self, c, a, b):
        if a == b or c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            return Ptr(a.obj, tm.ite(c, a.off, b.off))
        return PtrIte(c, a, b)

    def alts(self, p, c=TRUE):
        """[(cond, obj, offset-term)] with concrete offsets whenever the offset is an ite of constants"""
        if isinstance(p, PtrIte):
            return self.alts(p.a, tm.band(c, p.c)) + self.alts(p.b, tm.band(c, tm.bnot(p.c)))
        if not isinstance(p, Ptr):
            raise Unsupported('dereference of %r' % (p,))
        out = []

        def rec(off, cc):
            if cc is FALSE:
                return
            if off.op == 'ite':
                rec(off.args[1], tm.band(cc, off.args[0]))
                rec(off.args[2], tm.band(cc, tm.bnot(off.args[0])))
            else:
                out.append((cc, p.obj, off))

        rec(p.off, c)
        # group equal offsets
        g = {}
        order = []
        for cc, o, off in out:
            k = (o, off.id)
            if k in g:
                g[k] = (tm.bor(g[k][0], cc), o, off)
            else:
                g[k] = (cc, o, off)
                order.append(k)
        return [g[k] for k in order]

    # ------------------------------------------------------------ memory
    def check_access(self, st, cond, obj, off, size, what):
        """records the memory-safety obligation; returns True when the access can be performed"""
        if isinstance(obj, str) and obj.startswith('fn:'):
            raise Unsupported('data access to function ' + obj)
        o = st.objs.get(obj)
        if obj == 0 or o is None or not o.live:
            self.oblige('memory', st, tm.bnot(cond),
                        '%s through %s pointer' % (what, 'null' if obj == 0 else 'dangling'))
            return False
        if what == 'write' and o.const:
            self.oblige('memory', st, tm.bnot(cond), 'write to constant ' + o.name)
            return False
        if off.op == 'ic':
            k = off.args[0]
            if k < 0 or k + size > o.size:
                self.oblige('memory', st, tm.bnot(cond),
                            '%s out of bounds of %s (offset %d size %d of %d)' % (what, o.name, k, size, o.size))
                return False
            return True
        if self.unchecked:
            return True
        g = tm.band(tm.le(tm.I0, off), tm.le(off, tm.ic(o.size - size)))
        self.oblige('memory', st, tm.bor(tm.bnot(cond), g), '%s in bounds of %s' % (what, o.name))
        return True

    def load(self, st, p, ty):
        k = ty[0]
        if k == 'struct':
            return Agg(self.load(st, self.padd(p, field_offset(ty, i)), t) for i, t in enumerate(ty[1]))
        if k in ('array', 'vec'):
            s = sizeof(ty[2])
            return Agg(self.load(st, self.padd(p, i * s), ty[2]) for i in range(ty[1]))
        size = (ty[1] + 7) // 8 if k == 'int' else sizeof(ty)
        res = None
        al = self.alts(p)
        for c, obj, off in reversed(al):
            c = st.simp(c)
            if c is FALSE:
                continue
            if not self.check_access(st, c, obj, off, size, 'read'):
                v = self.fresh_of(ty)
            elif off.op == 'ic':
                v = self.load1(st, obj, off.args[0], size, ty)
            else:
                v = None
                for ko in reversed(self.slots(st, c, obj, off, size, ty)):
                    cv = self.load1(st, obj, ko, size, ty)
                    v = cv if v is None else self.merge_val(tm.eq(off, tm.ic(ko)), cv, v)
                if v is None:
                    v = self.fresh_of(ty)
            res = v if res is None else self.merge_val(c, v, res)
        if res is None:
            res = self.fresh_of(ty)
        return res

    def slots(self, st, cond, obj, off, size, ty):
        """the cells an access at a symbolic offset may denote, brought to the size of the access"""
        o = st.wobj(obj)
        out = []
        complete = True
        for ko in range(0, o.size - size + 1, size):
            c = o.cells.get(ko)
            if c is None or c[0] != size:
                if any(x < ko + size and x + sz > ko and (x < ko or x + sz > ko + size)
                       for x, (sz, _) in o.cells.items()):
                    complete = False
                    continue
                try:
                    v = self.load1(st, obj, ko, size, ty)
                except Unsupported:
                    v = None
                if v is None or isinstance(v, Packed):
                    complete = False
                    continue
                self.put(st, o, ko, size, v, TRUE)
            out.append(ko)
        if not out:
            raise Unsupported('access at a symbolic offset to mixed cells of ' + o.name)
        if not (complete and multiple(off, size)):
            self.oblige('memory', st, tm.bor(tm.bnot(cond), *[tm.eq(off, tm.ic(ko)) for ko in out]),
                        'aligned access to ' + o.name)
        return out

    def padd(self, p, n):
        if n == 0:
            return p
        if isinstance(p, PtrIte):
            return self.ptr_ite(p.c, self.padd(p.a, n), self.padd(p.b, n))
        return Ptr(p.obj, tm.iadd(p.off, tm.ic(n)))

    def load1(self, st, obj, off, size, ty):
        o = st.objs[obj]
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
            if v is UNDEF:
                v = self.fresh_of(ty)
                st.wobj(obj).cells[off] = (size, v)
                return v
            return self.retype(v, ty, size)
        # collect covering cells
        parts = []
        for ko, (sz, v) in o.cells.items():
            if ko < off + size and ko + sz > off:
                parts.append((ko, sz, v))
        parts.sort(key=lambda x: x[0])
        if not parts:
            v = self.fresh_of(ty)
            st.wobj(obj).cells[off] = (size, v)
            return v
        by = self.bytes_of(parts, off, size)
        if by is not None:
            return self.from_bytes(by, ty)
        if ty[0] == 'int' and all(a >= off and a + b <= off + size for a, b, _ in parts):
            return Packed(size, [(a - off, b, v) for a, b, v in parts])
        raise Unsupported('load of %r at %s+%d over cells %r' % (ty, o.name, off, [(a, b) for a, b, _ in parts]))

    def align(self, oa, ob, tok):
        """constant bytes of oa joined to the larger cells that ob has in the same place"""
        m = None
        for k, (sz, v) in ob.cells.items():
            if sz == 1:
                continue
            cells = (m or oa).cells
            c = cells.get(k)
            if c is None or c[0] >= sz:
                continue
            over = [x for x in range(k, k + sz) if x in cells]
            if over[-1] + cells[over[-1]][0] > k + sz:
                continue
            by = self.bytes_of([(x,) + cells[x] for x in over], k, sz)
            if by is None:
                continue
            try:
                nv = self.from_bytes(by, self.kind_of(v, sz))
            except Unsupported:
                continue
            if m is None:
                m = oa.clone(tok)
            for x in over:
                del m.cells[x]
            m.cells[k] = (sz, nv)
        return m or oa

    def bytes_of(self, parts, off, size):
        out = bytearray()
        pos = off
        for ko, sz, v in parts:
            if ko > pos:
                return None
            if not isinstance(v, T):
                return None
            if v.op == 'ic':
                b = (v.args[0] % (1 << (8 * sz))).to_bytes(sz, 'little')
            elif v is TRUE or v is FALSE:
                b = bytes([1 if v is TRUE else 0])
            elif v.op == 'rc':
                try:
                    b = _struct.pack('<f' if sz == 4 else '<d', float(v.args[0]))
                except (OverflowError, _struct.error):
                    return None
            else:
                return None
            lo = pos - ko
            hi = min(sz, off + size - ko)
            out += b[lo:hi]
            pos = ko + hi
        if pos != off + size:
            return None
        return bytes(out)

    def from_bytes(self, b, ty):
        if ty[0] == 'int':
            v = int.from_bytes(b, 'little')
            return tm.boolc(v & 1) if ty[1] == 1 else tm.ic(v)
        if ty[0] == 'float':
            return tm.rc(Fraction(_struct.unpack('<f', b)[0]))
        if ty[0] == 'double':
            return tm.rc(Fraction(_struct.unpack('<d', b)[0]))
        if ty[0] == 'ptr' and not any(b):
            return NULL
        raise Unsupported('constant bytes as %r' % (ty,))

    def retype(self, v, ty, size):
        if isinstance(v, T):
            if ty[0] in ('float', 'double', 'x86_fp80'):
                if v.sort == tm.REAL:
                    return v
                if v.op == 'ic':
                    return self.from_bytes((v.args[0] % (1 << (8 * size))).to_bytes(size, 'little'), ty)
                raise Unsupported('integer bits read as floating point')
            if ty[0] == 'int':
                if v.sort == tm.INT:
                    return v
                if v.sort == tm.BOOL:
                    return v if ty[1] == 1 else tm.ite(v, tm.I1, tm.I0)
                if v.op == 'rc':
                    try:
                        return tm.ic(int.from_bytes(_struct.pack('<f' if size == 4 else '<d', float(v.args[0])),
                                                    'little'))
                    except OverflowError:
                        pass
                return Packed(size, [(0, size, v)])
            if ty[0] == 'ptr':
                if v is tm.I0:
                    return NULL
                raise Unsupported('scalar read as pointer')
        if isinstance(v, (Ptr, PtrIte)):
            if ty[0] == 'ptr':
                return v
            if ty[0] == 'int':
                return PtrInt(v)
        if isinstance(v, PtrInt):
            return v.p if ty[0] == 'ptr' else v
        if isinstance(v, Packed):
            return v
        raise Unsupported('retype %r as %r' % (v, ty))

    def store(self, st, p, ty, v):
        k = ty[0]
        if k == 'struct':
            for i, t in enumerate(ty[1]):
                self.store(st, self.padd(p, field_offset(ty, i)), t, v[i])
            return
        if k in ('array', 'vec'):
            s = sizeof(ty[2])
            for i in range(ty[1]):
                self.store(st, self.padd(p, i * s), ty[2], v[i])
            return
        if isinstance(v, Packed):
            n = (ty[1] + 7) // 8
            for o, s, x in v.parts:
                if o < n:
                    self.store_cell(st, self.padd(p, o), s, x)
            return
        size = (ty[1] + 7) // 8 if k == 'int' else sizeof(ty)
        self.store_cell(st, p, size, v)

    def store_cell(self, st, p, size, v):
        al = self.alts(p)
        for c, obj, off in al:
            c = st.simp(c)
            if c is FALSE:
                continue
            if not self.check_access(st, c, obj, off, size, 'write'):
                continue
            o = st.wobj(obj)
            if off.op == 'ic':
                self.put(st, o, off.args[0], size, v, c)
            else:
                for ko in self.slots(st, c, obj, off, size, self.kind_of(v, size)):
                    self.put(st, o, ko, size, v, tm.band(c, tm.eq(off, tm.ic(ko))))

    def put(self, st, o, off, size, v, c):
        old = o.cells.get(off)
        if old is not None and old[0] == size:
            if c is not TRUE:
                v = self.merge_val(c, v, old[1])
            o.cells[off] = (size, v)
            return
        # split or drop overlapping cells
        for ko in [x for x, (sz, _) in o.cells.items() if x < off + size and x + sz > off]:
            sz, ov = o.cells.pop(ko)
            by = self.bytes_of([(ko, sz, ov)], ko, sz)
            if by is not None:
                for i, b in enumerate(by):
                    if not (off <= ko + i < off + size):
                        o.cells[ko + i] = (1, tm.ic(b))
                if c is not TRUE and ko <= off and ko + sz >= off + size:
                    v = self.merge_val(c, v, self.from_bytes(by[off - ko:off - ko + size], self.kind_of(v, size)))
                    c = TRUE
            elif ko < off or ko + sz > off + size:
                raise Unsupported('partial overwrite of a symbolic cell')
        if c is not TRUE:
            v = self.merge_val(c, v, UNDEF)
        o.cells[off] = (size, v)

    def kind_of(self, v, size):
        if isinstance(v, T) and v.sort == tm.REAL:
            return llir.FLOAT if size == 4 else llir.DOUBLE
        if isinstance(v, (Ptr, PtrIte)):
            return llir.PTR
        if isinstance(v, T) and v.sort == tm.BOOL:
            return llir.I1
        return ('int', 8 * size)

    def memcpy(self, st, d, s, n):
        if n.op != 'ic':
            raise Unsupported('memcpy of symbolic size ' + tm.show(n, 12)[:300])
        n = n.args[0]
        if n == 0:
            return
        sal = self.alts(s)
        dal = self.alts(d)
        if len(sal) != 1 or len(dal) != 1:
            # guarded copy, cell by cell on the layout of the destination/source
            c0, so, soff = sal[0]
            o = st.objs.get(so)
            if o is None or any(x[2].op != 'ic' for x in sal):
                raise Unsupported('memcpy through guarded pointers')
            base = soff.args[0]
            cells = sorted((ko - base, sz, v) for ko, (sz, v) in o.cells.items() if base <= ko and ko + sz <= base + n)
            for ko, sz, v in cells:
                ty = self.kind_of(v, sz)
                x = self.load(st, self.padd(s, ko), ty)
                self.store_cell(st, self.padd(d, ko), sz, x)
            return
        _, so, soff = sal[0]
        _, do, doff = dal[0]
        ok1 = self.check_access(st, TRUE, so, soff, n, 'read')
        ok2 = self.check_access(st, TRUE, do, doff, n, 'write')
        if not ok2:
            return
        if soff.op != 'ic' or doff.op != 'ic':
            if not ok1:
                raise Unsupported('memcpy at symbolic offset')
            cells = [(sz, v) for ob in (so, do) for sz, v in st.objs[ob].cells.values() if sz > 1] or \
                [(1, v) for _, v in st.objs[so].cells.values()]
            sizes = {sz for sz, _ in cells}
            if len(sizes) != 1 or n % min(sizes):
                raise Unsupported('memcpy at symbolic offset over mixed cells')
            sz = sizes.pop()
            ty = next((self.kind_of(v, z) for z, v in cells if v is not UNDEF), None)
            if ty is None:
                raise Unsupported('memcpy at symbolic offset of undefined cells')
            self.unchecked = True       # the whole range has been checked above
            try:
                vals = [self.load(st, self.padd(s, k), ty) for k in range(0, n, sz)]
                for k, v in enumerate(vals):
                    self.store_cell(st, self.padd(d, k * sz), sz, v)
            finally:
                self.unchecked = False
            return
        soff, doff = soff.args[0], doff.args[0]
        if not ok1:
            o = st.objs.get(so)
            avail = 0 if (so == 0 or o is None or not o.live) else max(0, min(n, o.size - soff))
            if avail == 0 or soff < 0:
                w = st.wobj(do)
                for ko in list(w.cells):
                    if doff <= ko < doff + n:
                        w.cells[ko] = (w.cells[ko][0], UNDEF)
                return
            n0, n = n, avail
        o = st.objs[so]
        cells = []
        for ko, (sz, v) in o.cells.items():
            if ko < soff + n and ko + sz > soff:
                if ko < soff or ko + sz > soff + n:
                    by = self.bytes_of([(ko, sz, v)], ko, sz)
                    if by is None:
                        raise Unsupported('memcpy splits a cell')
                    for i, b in enumerate(by):
                        if soff <= ko + i < soff + n:
                            cells.append((ko + i, 1, tm.ic(b)))
                else:
                    cells.append((ko, sz, v))
        w = st.wobj(do)
        for ko in [x for x, (sz, _) in w.cells.items() if x < doff + n and x + sz > doff]:
            sz, ov = w.cells[ko]
            if ko < doff or ko + sz > doff + n:
                by = self.bytes_of([(ko, sz, ov)], ko, sz)
                if by is None:
                    raise Unsupported('memcpy overwrites part of a cell')
                for i, b in enumerate(by):
                    w.cells[ko + i] = (1, tm.ic(b))
        for ko in [x for x, (sz, _) in w.cells.items() if doff <= x and x + sz <= doff + n]:
            del w.cells[ko]
        for ko, sz, v in cells:
            w.cells[ko - soff + doff] = (sz, v)

    def memset(self, st, d, byte, n):
        if n.op != 'ic':
            raise Unsupported('symbolic memset')
        n = n.args[0]
        b = tm.ic(byte.args[0] & 255) if byte.op == 'ic' else tm.wrapu(8, byte)
        if n == 0:
            return
        al = self.alts(d)
        if len(al) != 1:
            raise Unsupported('memset through guarded pointer')
        _, ob, off = al[0]
        if not self.check_access(st, TRUE, ob, off, n, 'write'):
            return
        off = off.args[0]
        w = st.wobj(ob)
        for ko in [x for x, (sz, _) in w.cells.items() if x < off + n and x + sz > off]:
            sz, ov = w.cells[ko]
            if ko < off or ko + sz > off + n:
                raise Unsupported('memset over part of a cell')
            del w.cells[ko]
        # aligned 4-byte zero groups stay readable as any type through bytes_of
        for i in range(n):
            w.cells[off + i] = (1, b)

    def memchr(self, st, a, c, n):
        """memchr (n given) or strlen over concrete bytes"""
        (_, o, f), = self.alts(a)
        if f.op != 'ic' or c.op != 'ic' or (n is not None and n.op != 'ic'):
            raise Unsupported('memchr of symbolic extent')
        k = 0
        while n is None or k < n.args[0]:
            v = self.load(st, Ptr(o, tm.ic(f.args[0] + k)), llir.I8)
            if not isinstance(v, T) or v.op != 'ic':
                raise Unsupported('memchr over symbolic bytes')
            if (v.args[0] - c.args[0]) % 256 == 0:
                return tm.ic(k) if n is None else Ptr(o, tm.ic(f.args[0] + k))
            k += 1
        return NULL

    def memcmp(self, st, a, b, n):
        if n.op != 'ic':
            raise Unsupported('memcmp of symbolic size')
        n = n.args[0]
        (c1, o1, f1), = self.alts(a)
        (c2, o2, f2), = self.alts(b)
        if not (self.check_access(st, TRUE, o1, f1, n, 'read') and self.check_access(st, TRUE, o2, f2, n, 'read')):
            return self.fresh('i32')
        x, y = st.objs[o1], st.objs[o2]
        f1, f2 = f1.args[0], f2.args[0]
        conds = []
        # materialise uninitialised 4/8-byte cells lazily: use the union of both layouts
        offs = sorted({(k - f1, s) for k, (s, _) in x.cells.items() if f1 <= k < f1 + n} |
                      {(k - f2, s) for k, (s, _) in y.cells.items() if f2 <= k < f2 + n})
        covered = sum(s for _, s in offs)
        if covered != n:
            raise Unsupported('memcmp over uninitialised or mixed cells')
        for k, s in offs:
            va, vb = x.cells[f1 + k][1], y.cells[f2 + k][1]
            if not isinstance(va, T) or not isinstance(vb, T) or va.sort != vb.sort:
                raise Unsupported('memcmp of non-scalars')
            if va.sort == tm.INT:
                va, vb = tm.wrapu(8 * s, va), tm.wrapu(8 * s, vb)
            conds.append(tm.eq(va, vb))
        same = tm.band(*conds)
        if same is TRUE:
            return tm.I0
        if all(s == 1 for _, s in offs) and all(x.cells[f1 + k][1].sort == tm.INT for k, _ in offs):
            # bytes: the first difference decides (the magnitude of the result is unspecified, the sign is not)
            r = None
            for k, s in reversed(offs):
                va, vb = tm.wrapu(8, x.cells[f1 + k][1]), tm.wrapu(8, y.cells[f2 + k][1])
                q = tm.ite(tm.lt(va, vb), tm.ic(-1), tm.I1)
                r = q if r is None else tm.ite(tm.eq(va, vb), r, q)
            return tm.ite(same, tm.I0, r)
        # the sign of an inequality is left open
        return tm.ite(same, tm.I0, tm.ite(self.fresh('bool', 'cmp'), tm.I1, tm.ic(-1)))

    # ------------------------------------------------------------ merging
    def merge_val(self, c, a, b):
        if a is b or c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is UNDEF or b is UNDEF:
            v = b if a is UNDEF else a
            if not isinstance(v, T):
                return v
            k = {tm.REAL: 'f64', tm.INT: 'i64', tm.BOOL: 'bool'}[v.sort]
            u = self.fresh(k, 'undef')
            return tm.ite(c, u, v) if a is UNDEF else tm.ite(c, v, u)
        if isinstance(a, T) and isinstance(b, T):
            if a.sort == b.sort:
                return tm.ite(c, a, b)
            if a.sort == tm.BOOL and b.sort == tm.INT:
                return tm.ite(c, tm.ite(a, tm.I1, tm.I0), b)
            if a.sort == tm.INT and b.sort == tm.BOOL:
                return tm.ite(c, a, tm.ite(b, tm.I1, tm.I0))
            # the same bytes written as integer and as floating point
            if a.op == 'ic' and a.args[0] == 0 and b.sort == tm.REAL:
                return tm.ite(c, tm.R0, b)
            if b.op == 'ic' and b.args[0] == 0 and a.sort == tm.REAL:
                return tm.ite(c, a, tm.R0)
        if isinstance(a, (Ptr, PtrIte)) and isinstance(b, (Ptr, PtrIte)):
            return self.ptr_ite(c, a, b)
        if isinstance(a, PtrInt) and isinstance(b, PtrInt):
            return PtrInt(self.ptr_ite(c, a.p, b.p))
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a) == len(b):
            return Agg(self.merge_val(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Packed) and isinstance(b, Packed):
            if a == b:
                return a
            if [(o, s) for o, s, _ in a.parts] == [(o, s) for o, s, _ in b.parts]:
                return Packed(a.size, [(o, s, self.merge_val(c, x, y)) for (o, s, x), (_, _, y) in
                                       zip(a.parts, b.parts)])
        raise Unsupported('merge of %r and %r' % (a, b))

    def merge_states(self, items):
        """items: list of (State, regs, extra) -> one merged"""
        items = list(items)
        while len(items) > 1:
            # the item with the longest path condition, and its closest relative
            items.sort(key=lambda x: len(x[0].pc))
            a = items.pop()
            best, bl = 0, -1
            for i, b in enumerate(items):
                n = 0
                for x, y in zip(a[0].pc, b[0].pc):
                    if x is not y:
                        break
                    n += 1
                if n >= bl:
                    best, bl = i, n
            b = items.pop(best)
            items.append(self.merge2(a, b, bl))
        return items[0]

    def merge2(self, A, B, n):
        sa, ra, ea = A
        sb, rb, eb = B
        remA, remB = sa.pc[n:], sb.pc[n:]
        if not remA:
            # A's condition is implied by B's: ambiguous only if the states overlap
            cond = tm.bnot(tm.band(*remB)) if remB else TRUE
        elif not remB:
            cond = tm.band(*remA)
        elif tm.bnot(remA[0]) is remB[0]:
            cond = remA[0]
        else:
            neg = {tm.bnot(x).id for x in remB}
            cond = None
            for x in remA:
                if x.id in neg:
                    cond = x
                    break
            if cond is None:
                cond = tm.band(*remA)
        st = State()
        st.pc = sa.pc[:n]
        st.stops = sa.stops and sb.stops
        extra = tm.bor(tm.band(*remA), tm.band(*remB))
        # factor (c & x) | (!c & x)
        if extra is not TRUE:
            ida = {x.id for x in remA}
            common = [x for x in remB if x.id in ida]
            if common:
                cs = {x.id for x in common}
                for x in common:
                    st.add(x)
                extra = tm.bor(tm.band(*[x for x in remA if x.id not in cs]),
                               tm.band(*[x for x in remB if x.id not in cs]))
            st.add(extra)
        # memory
        objs = st.objs
        for oid, oa in sa.objs.items():
            ob = sb.objs.get(oid)
            if ob is None or ob is oa:
                objs[oid] = oa
                continue
            if not oa.live or not ob.live:
                if oa.kind == 'heap' and oa.live != ob.live:
                    raise Unsupported('a block is released on one of two merged paths')
                objs[oid] = oa if not oa.live else ob
                continue
            if oa.cells is ob.cells:
                objs[oid] = oa
                continue
            oa, ob = self.align(oa, ob, st.tok), self.align(ob, oa, st.tok)
            m = None
            ca, cb = oa.cells, ob.cells
            for k, (sz, v) in ca.items():
                w = cb.get(k)
                if w is None:
                    # not written (or laid out differently) on the other side
                    over = [x for x, (s2, _) in cb.items() if x < k + sz and x + s2 > k]
                    if over:
                        by = self.bytes_of(sorted((x,) + cb[x] for x in over), k, sz)
                        if by is None:
                            raise Unsupported('merge of different cell layouts')
                        nv = self.merge_val(cond, v, self.from_bytes(by, self.kind_of(v, sz)))
                        if m is None:
                            m = oa.clone(st.tok)
                        m.cells[k] = (sz, nv)
                        continue
                    nv = self.merge_val(cond, v, UNDEF)
                    if nv is not v:
                        if m is None:
                            m = oa.clone(st.tok)
                        m.cells[k] = (sz, nv)
                    continue
                if w[1] is v and w[0] == sz:
                    continue
                if w[0] != sz:
                    if w[0] < sz:
                        over = [x for x, (s2, _) in cb.items() if x < k + sz and x + s2 > k]
                        by = self.bytes_of(sorted((x,) + cb[x] for x in over), k, sz)
                        if by is not None:
                            if m is None:
                                m = oa.clone(st.tok)
                            m.cells[k] = (sz, self.merge_val(cond, v, self.from_bytes(by, self.kind_of(v, sz))))
                            continue
                    else:
                        over = [x for x, (s2, _) in ca.items() if x < k + w[0] and x + s2 > k]
                        by = self.bytes_of(sorted((x,) + ca[x] for x in over), k, w[0])
                        if by is not None:
                            if m is None:
                                m = oa.clone(st.tok)
                            for x in over:
                                m.cells.pop(x, None)
                            m.cells[k] = (w[0], self.merge_val(cond, self.from_bytes(by, self.kind_of(w[1], w[0])),
                                                               w[1]))
                            continue
                    raise Unsupported('merge of different cell sizes')
                if m is None:
                    m = oa.clone(st.tok)
                m.cells[k] = (sz, self.merge_val(cond, v, w[1]))
            for k, (sz, v) in cb.items():
                if k in ca:
                    continue
                if any(x < k + sz and x + s2 > k for x, (s2, _) in ca.items()):
                    continue
                if m is None:
                    m = oa.clone(st.tok)
                m.cells[k] = (sz, self.merge_val(cond, UNDEF, v))
            objs[oid] = m if m is not None else oa
        for oid, ob in sb.objs.items():
            if oid not in objs:
                objs[oid] = ob
        # registers
        if ra is None:
            regs = None
        else:
            regs = {}
            for k, v in ra.items():
                w = rb.get(k, self)
                if w is self:
                    continue
                if v is w:
                    regs[k] = v
                    continue
                try:
                    regs[k] = self.merge_val(cond, v, w)
                except Unsupported:
                    pass
        ex = None
        if ea is not None:
            ex = self.merge_val(cond, ea, eb)
        return (st, regs, ex)

    # ------------------------------------------------------------ integer views
    def sgn(self, v, w):
        if isinstance(v, T):
            return tm.wraps(w, v)
        if v is UNDEF:
            return self.fresh('i%d' % w, 'undef')
        raise Unsupported('integer view of %r' % (v,))

    def uns(self, v, w):
        if isinstance(v, T):
            return tm.wrapu(w, v)
        if v is UNDEF:
            return self.fresh('u%d' % w, 'undef')
        raise Unsupported('integer view of %r' % (v,))

    def num(self, v, ty):
        if v is UNDEF:
            return self.fresh_of(ty)
        return plain(v)

    # ------------------------------------------------------------ instructions
    def binop(self, st, op, ty, a, b, flags):
        if ty[0] == 'vec':
            return Agg(self.binop(st, op, ty[2], x, y, flags) for x, y in zip(a, b))
        a = self.num(a, ty)
        b = self.num(b, ty)
        if op[0] == 'f':
            if op == 'fadd':
                return tm.radd(a, b)
            if op == 'fsub':
                return tm.rsub(a, b)
            if op == 'fmul':
                # integers times a rounded quotient of integers: truncation of the product sees the rounding
                if (reciprocal(a) and integral(b)) or (reciprocal(b) and integral(a)):
                    return tm.rfn('mul64' if ty == llir.DOUBLE else 'mul32', a, b)
                return tm.rmul(a, b)
            if op == 'fdiv':
                self.oblige('defined', st, tm.bnot(tm.eq(b, tm.R0)), 'divisor is not zero')
                return tm.rdiv(a, b)
            if op == 'frem':
                return tm.rfn('fmod', a, b)
            raise Unsupported(op)
        w = ty[1]
        if w == 1:
            if op == 'and':
                return tm.band(a, b)
            if op == 'or':
                return tm.bor(a, b)
            if op in ('xor', 'add', 'sub'):
                return tm.bnot(tm.eq(a, b))
            raise Unsupported('i1 ' + op)
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if isinstance(a, PtrInt) and isinstance(b, PtrInt) and op == 'sub':
                return self.pdiff(a.p, b.p)
            if isinstance(a, PtrInt) and op in ('add', 'sub') and isinstance(b, T):
                d = self.sgn(b, w)
                if op == 'sub':
                    d = tm.ineg(d)
                return PtrInt(self.padd_t(a.p, d))
            raise Unsupported('pointer arithmetic ' + op)
        if isinstance(a, Packed) or isinstance(b, Packed):
            if isinstance(a, Packed) and op == 'lshr' and b.op == 'ic' and b.args[0] % 8 == 0:
                k = b.args[0] // 8
                ps = [(o - k, s, v) for o, s, v in a.parts if o - k >= 0]
                if len(ps) == 1 and ps[0][0] == 0 and isinstance(ps[0][2], T) and ps[0][2].sort == tm.INT:
                    return tm.wrapu(8 * ps[0][1], ps[0][2])
                return Packed(a.size, ps)
            raise Unsupported('arithmetic on packed bytes: ' + op)
        if op in ('add', 'sub', 'mul'):
            f = {'add': tm.iadd, 'sub': tm.isub, 'mul': tm.imul}[op]
            if 'nsw' in flags and 'nuw' not in flags:
                return tm.wraps(w, f(self.sgn(a, w), self.sgn(b, w)))
            return tm.wrapu(w, f(self.uns(a, w), self.uns(b, w)))
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            v = self.sgn if op[0] == 's' else self.uns
            x, y = v(a, w), v(b, w)
            self.oblige('defined', st, tm.bnot(tm.eq(y, tm.I0)), 'integer divisor is not zero')
            if op.endswith('div'):
                r = tm.idiv(x, y)
                return tm.wraps(w, r) if op[0] == 's' else r
            return tm.irem(x, y)
        x, y = self.uns(a, w), self.uns(b, w)
        if x.op == 'ic' and y.op == 'ic':
            p, q = x.args[0], y.args[0]
            if op == 'and':
                return tm.ic(p & q)
            if op == 'or':
                return tm.ic(p | q)
            if op == 'xor':
                return tm.ic(p ^ q)
            if op == 'shl':
                return tm.ic((p << q) % (1 << w))
            if op == 'lshr':
                return tm.ic(p >> q)
            if op == 'ashr':
                s = self.sgn(a, w).args[0]
                return tm.ic(s >> q)
        if op in ('and', 'or', 'xor'):
            r = bitwise(op, x, y)
            if r is not None:
                return r
        if op == 'shl' and x.op == 'ite' and y.op == 'ic' and leaves(x):
            return overleaves(x, lambda v: (v << y.args[0]) % (1 << w))
        if op == 'shl' and y.op == 'ic':
            return tm.wrapu(w, tm.imul(x, tm.ic(1 << y.args[0])))
        if op == 'lshr' and y.op == 'ic':
            return tm.idiv(x, tm.ic(1 << y.args[0]))
        if op == 'and':
            for p, q in ((x, y), (y, x)):
                if q.op == 'ic':
                    m = q.args[0]
                    if m & (m + 1) == 0:
                        return tm.wrapu(m.bit_length(), p)
        if op == 'xor' and y.op == 'ic' and y.args[0] == (1 << w) - 1:
            return tm.isub(y, x)
        if op == 'or' and y is tm.I0:
            return x
        m = (1 << w) - 1
        if x.id > y.id and op in ('and', 'or', 'xor'):
            x, y = y, x
        return tm.ifn(op, 0, m, x, y)

    def padd_t(self, p, d):
        if isinstance(p, PtrIte):
            return self.ptr_ite(p.c, self.padd_t(p.a, d), self.padd_t(p.b, d))
        return Ptr(p.obj, tm.iadd(p.off, d))

    def pdiff(self, a, b):
        if isinstance(a, PtrIte):
            return tm.ite(a.c, self.pdiff(a.a, b), self.pdiff(a.b, b))
        if isinstance(b, PtrIte):
            return tm.ite(b.c, self.pdiff(a, b.a), self.pdiff(a, b.b))
        if a.obj != b.obj:
            raise Unsupported('difference of pointers into different objects')
        return tm.isub(a.off, b.off)

    def cast(self, op, fty, v, tty):
        if fty[0] == 'vec' and op != 'bitcast':
            return Agg(self.cast(op, fty[2], x, tty[2]) for x in v)
        if v is UNDEF:
            return UNDEF
        if op in ('fpext', 'fptrunc'):
            v = plain(v)
        if op == 'fpext':
            if v.op == 'i2r' and fty == llir.FLOAT:
                # an integer that went through single precision
                x = v.args[0]
                if x.lo is None or x.hi is None or max(-x.lo, x.hi) > 1 << 24:
                    return tm.rfn('rnd32', v)
            return v
        if op == 'fptrunc':
            if v.op == 'rfn' and v.args[0] == 'rnd32':
                return v
            if v.op == 'rc':
                try:
                    return tm.rc(Fraction(_struct.unpack('<f', _struct.pack('<f', float(v.args[0])))[0]))
                except OverflowError:
                    return tm.rfn('const_inf')
            if has64(v):
                return tm.rfn('rnd32', v)
            return v
        if op in ('zext', 'sext'):
            if isinstance(v, T) and v.sort == tm.BOOL:
                return tm.ite(v, tm.I1 if op == 'zext' else tm.ic(-1), tm.I0)
            if isinstance(v, Packed):
                return v
            return self.uns(v, fty[1]) if op == 'zext' else self.sgn(v, fty[1])
        if op == 'trunc':
            if isinstance(v, Packed):
                n = (tty[1] + 7) // 8
                ps = [(o, s, x) for o, s, x in v.parts if o < n]
                if len(ps) == 1 and ps[0][1] == n and isinstance(ps[0][2], T) and ps[0][2].sort == tm.INT:
                    return ps[0][2]
                return Packed(n, ps)
            if isinstance(v, T) and v.sort == tm.BOOL:
                return v if tty[1] == 1 else tm.ite(v, tm.I1, tm.I0)
            if tty[1] == 1:
                if v.lo is not None and v.lo >= 0 and v.hi is not None and v.hi <= 1:
                    return tm.bnot(tm.eq(v, tm.I0))
                return tm.bnot(tm.eq(tm.irem(self.uns(v, fty[1]), tm.ic(2)), tm.I0))
            return tm.wrapu(tty[1], v) if isinstance(v, T) else self.uns(v, tty[1])
        if op == 'sitofp':
            if fty[1] == 1:
                return tm.ite(v, tm.RM1, tm.R0)
            return tm.i2r(self.sgn(v, fty[1]))
        if op == 'uitofp':
            if fty[1] == 1:
                return tm.ite(v, tm.R1, tm.R0)
            return tm.i2r(self.uns(v, fty[1]))
        if op in ('fptosi', 'fptoui'):
            w = tty[1]
            rounded, v = v, plain(v)
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if op == 'fptosi' else (0, (1 << w) - 1)
            n = tm.int_value(v)
            if n is not None:
                if n.lo is not None and n.hi is not None and n.lo >= lo and n.hi <= hi:
                    return n
                v = tm.i2r(n)
            if self.cast_st is not None:
                self.oblige('defined', self.cast_st, tm.band(tm.lt(tm.rc(lo - 1), v), tm.lt(v, tm.rc(hi + 1))),
                            'value converted to an integer type is in its range')
            return tm.r2i(rounded if rounded is not v and n is None else v, lo, hi)
        if op == 'ptrtoint':
            if tty[1] != 64:
                raise Unsupported('ptrtoint')
            if v == NULL:
                return tm.I0
            return PtrInt(v)
        if op == 'inttoptr':
            if isinstance(v, PtrInt):
                return v.p
            if v is tm.I0:
                return NULL
            raise Unsupported('inttoptr')
        if op == 'bitcast':
            if fty == tty:
                return v
            if tty[0] in ('float', 'double') and isinstance(v, Packed) and len(v.parts) == 1:
                return v.parts[0][2]
            if tty[0] == 'int' and isinstance(v, T) and v.sort == tm.REAL:
                return self.retype(v, tty, sizeof(tty))
            if fty[0] == 'vec' and tty[0] == 'int':
                s = sizeof(fty[2])
                return Packed(sizeof(tty), [(i * s, s, x) for i, x in enumerate(v)])
            raise Unsupported('bitcast %r to %r' % (fty, tty))
        raise Unsupported(op)

    def icmp(self, pred, ty, a, b):
        if a is UNDEF:
            a = self.fresh_of(ty)
        if b is UNDEF:
            b = self.fresh_of(ty)
        if isinstance(a, (Ptr, PtrIte, PtrInt)) or isinstance(b, (Ptr, PtrIte, PtrInt)):
            return self.pcmp(pred, a, b)
        w = ty[1]
        if w == 1:
            if pred == 'eq':
                return tm.eq(a, b)
            if pred == 'ne':
                return tm.bnot(tm.eq(a, b))
            raise Unsupported('i1 icmp')
        if pred in ('eq', 'ne'):
            if isinstance(a, Packed) or isinstance(b, Packed):
                raise Unsupported('comparison of packed bytes')
            sr = (-(1 << (w - 1)), (1 << (w - 1)) - 1)

            def within(x, lo, hi):
                return x.lo is not None and x.hi is not None and x.lo >= lo and x.hi <= hi
            if within(a, *sr) and within(b, *sr):
                r = tm.eq(a, b)
            else:
                r = tm.eq(self.uns(a, w), self.uns(b, w))
            return r if pred == 'eq' else tm.bnot(r)
        v = self.sgn if pred[0] == 's' else self.uns
        x, y = v(a, w), v(b, w)
        p = pred[1:]
        return {'lt': lambda: tm.lt(x, y), 'le': lambda: tm.le(x, y), 'gt': lambda: tm.lt(y, x),
                'ge': lambda: tm.le(y, x)}[p]()

    def pcmp(self, pred, a, b):
        if isinstance(a, PtrInt):
            a = a.p
        if isinstance(b, PtrInt):
            b = b.p
        if isinstance(a, T) and a is tm.I0:
            a = NULL
        if isinstance(b, T) and b is tm.I0:
            b = NULL
        if isinstance(a, PtrIte):
            return tm.ite(a.c, self.pcmp(pred, a.a, b), self.pcmp(pred, a.b, b))
        if isinstance(b, PtrIte):
            return tm.ite(b.c, self.pcmp(pred, a, b.a), self.pcmp(pred, a, b.b))
        if isinstance(a, T) or isinstance(b, T):
            raise Unsupported('pointer/integer comparison')
        if a.obj != b.obj:
            if pred == 'eq':
                return FALSE
            if pred == 'ne':
                return TRUE
            # unrelated objects: order is unspecified but consistent
            x, y = tm.ivar('addr_%s' % a.obj, 1, 2 ** 63), tm.ivar('addr_%s' % b.obj, 1, 2 ** 63)
            return self.icmp(pred, llir.I64, x, y)
        r = tm.eq(a.off, b.off)
        if pred == 'eq':
            return r
        if pred == 'ne':
            return tm.bnot(r)
        p = pred[1:]
        x, y = a.off, b.off
        return {'lt': lambda: tm.lt(x, y), 'le': lambda: tm.le(x, y), 'gt': lambda: tm.lt(y, x),
                'ge': lambda: tm.le(y, x)}[p]()

    def fcmp(self, pred, ty, a, b):
        a = self.num(a, ty)
        b = self.num(b, ty)
        if pred in ('true', 'ord'):
            return TRUE
        if pred in ('false', 'uno'):
            return FALSE
        for x, y, sw in ((a, b, False), (b, a, True)):
            if y.op == 'rfn' and y.args[0] in ('const_inf', 'const_minus_inf', 'const_nan'):
                # the model has finite values only
                p = pred[1:]
                if sw:
                    p = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(p, p)
                if y.args[0] == 'const_inf':
                    return tm.boolc(p in ('lt', 'le', 'ne'))
                if y.args[0] == 'const_minus_inf':
                    return tm.boolc(p in ('gt', 'ge', 'ne'))
                return tm.boolc(pred == 'une')
        p = pred[1:]
        if p == 'eq':
            return tm.eq(a, b)
        if p == 'ne':
            return tm.bnot(tm.eq(a, b))
        if p == 'lt':
            return tm.lt(a, b)
        if p == 'le':
            return tm.le(a, b)
        if p == 'gt':
            return tm.lt(b, a)
        if p == 'ge':
            return tm.le(b, a)
        raise Unsupported('fcmp ' + pred)

    # ------------------------------------------------------------ functions
    def call(self, name, args, st):
        """-> ((State, value) or None, State or None): normal and exceptional outcome"""
        s = self.intrinsic(name, args, st)
        if s is not None:
            return s
        spec = self.summaries.get(name)
        if spec is not None and not self.nosum and spec not in self.stack and len(self.stack) > 1:
            r = self.apply_summary(name, spec, args, st)
            if r is not None:
                return r
        f = self.mod.func(name)
        if f is None:
            raise Unsupported('call of external function %s without contract' % name)
        return self.run(f.parse(), args, st)

    def apply_summary(self, name, spec, args, st):
        return None

    def run(self, fn, args, st):
        self.called[fn.name] = self.called.get(fn.name, 0) + 1
        if len(self.stack) > 200:
            raise Unsupported('recursion too deep in ' + fn.name)
        self.stack.append(fn.name)
        fr = Frame(self, fn)
        regs = {}
        for (t, nm, at), v in zip(fn.params, args):
            regs[nm] = v
        pending = {fn.entry: [(st, regs, None)]}
        order = fn.blocks
        heap = [order[fn.entry].idx]
        import heapq
        names = {b.idx: n for n, b in order.items()}
        rets = []
        excs = []
        visits = {}
        live_allocas = []
        while heap:
            idx = heapq.heappop(heap)
            bn = names[idx]
            items = pending.pop(bn, None)
            if items is None:
                continue
            visits[bn] = visits.get(bn, 0) + 1
            if visits[bn] > self.MAXVISIT:
                raise Unsupported('loop in %s has no fixed trip count' % fn.name)
            if len(items) > 1:
                st, regs, _ = self.merge_states(items)
            else:
                st, regs, _ = items[0]
            fr.st, fr.regs = st, regs
            out = self.block(fr, order[bn], live_allocas)
            for kind, x in out:
                if kind == 'ret':
                    rets.append(x)
                elif kind == 'exc':
                    excs.append(x)
                else:
                    tgt, s2, r2 = x
                    # phi
                    ins = order[tgt].ins
                    if ins and ins[0].op == 'phi':
                        r2 = dict(r2)
                        vals = []
                        fr.st, fr.regs = s2, x[2]
                        for i in ins:
                            if i.op != 'phi':
                                break
                            for v, p in i.a:
                                if p == bn:
                                    vals.append((i.res, self.val(fr, v, i.ty)))
                                    break
                        for k, v in vals:
                            r2[k] = v
                    if tgt in pending:
                        pending[tgt].append((s2, r2, None))
                    else:
                        pending[tgt] = [(s2, r2, None)]
                        heapq.heappush(heap, order[tgt].idx)
        self.stack.pop()
        normal = None
        if rets:
            s, _, v = self.merge_states(rets) if len(rets) > 1 else rets[0]
            for o in live_allocas:
                s.objs.pop(o, None)
            normal = (s, v)
        exc = None
        if excs:
            es = [(s, None, None) for s in excs]
            exc = self.merge_states(es)[0] if len(es) > 1 else es[0][0]
            for o in live_allocas:
                exc.objs.pop(o, None)
        return normal, exc

    def block(self, fr, blk, allocas):
        st = fr.st
        regs = fr.regs
        out = []
        for ins in blk.ins:
            op = ins.op
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Unsupported('step limit')
            if op == 'load':
                regs[ins.res] = self.load(st, self.val(fr, ins.a), ins.ty)
            elif op == 'store':
                v = self.val(fr, ins.a[0], ins.ty)
                self.store(st, self.val(fr, ins.a[1]), ins.ty, v)
            elif op == 'getelementptr':
                base, idx = ins.a
                regs[ins.res] = self.gep(self.val(fr, base[1]), ins.ty, [(t, self.val(fr, v, t)) for t, v in idx])
            elif op in llir.BINOPS:
                regs[ins.res] = self.binop(st, op, ins.ty, self.val(fr, ins.a[0], ins.ty),
                                           self.val(fr, ins.a[1], ins.ty), ins.flags)
            elif op == 'fneg':
                v = self.val(fr, ins.a[0], ins.ty)
                if ins.ty[0] == 'vec':
                    regs[ins.res] = Agg(tm.rneg(x) for x in v)
                else:
                    regs[ins.res] = tm.rneg(self.num(v, ins.ty))
            elif op in llir.CASTS:
                self.cast_st = st
                regs[ins.res] = self.cast(op, ins.a[0], self.val(fr, ins.a[1], ins.a[0]), ins.ty)
                self.cast_st = None
            elif op == 'icmp':
                regs[ins.res] = self.icmp(ins.a[0], ins.ty, self.val(fr, ins.a[1], ins.ty),
                                          self.val(fr, ins.a[2], ins.ty))
            elif op == 'fcmp':
                regs[ins.res] = self.fcmp(ins.a[0], ins.ty, self.val(fr, ins.a[1], ins.ty),
                                          self.val(fr, ins.a[2], ins.ty))
            elif op == 'alloca':
                n = 1
                if ins.a is not None:
                    c = self.val(fr, ins.a[1], ins.a[0])
                    if c.op != 'ic':
                        raise Unsupported('variable-size alloca')
                    n = c.args[0]
                oid = self.new_obj(st, sizeof(ins.ty) * n, 'stack', ins.res)
                allocas.append(oid)
                regs[ins.res] = Ptr(oid, tm.I0)
            elif op in ('call', 'invoke'):
                callee, args = ins.a
                if callee[0] == 'glob':
                    name = callee[1]
                    g = self.mod.globals.get(name)
                    if g is not None and name not in self.mod.funcs:
                        gg = self.mod.glob(name)
                        if gg[0] == 'alias':
                            name = gg[1]
                else:
                    p = self.val(fr, callee)
                    if not isinstance(p, Ptr) or not isinstance(p.obj, str) or not p.obj.startswith('fn:'):
                        raise Unsupported('indirect call in ' + fr.fn.name)
                    name = p.obj[3:]
                av = []
                for t, a in args:
                    av.append(None if t[0] == 'metadata' else self.val(fr, a, t))
                normal, exc = self.call(name, av, st)
                if exc is not None:
                    if op == 'invoke':
                        out.append(('go', (ins.unwind, exc, dict(regs))))
                    else:
                        out.append(('exc', exc))
                if normal is None:
                    return out
                st, v = normal
                fr.st = st
                if ins.res is not None:
                    regs[ins.res] = v
                if op == 'invoke':
                    out.append(('go', (ins.dest, st, regs)))
                    return out
            elif op == 'br':
                if ins.a is None:
                    out.append(('go', (ins.dest[0], st, regs)))
                    return out
                c = self.val(fr, ins.a)
                if c is UNDEF:
                    c = self.fresh('bool', 'undef')
                c = st.simp(c)
                if c is TRUE or ins.dest[0] == ins.dest[1]:
                    out.append(('go', (ins.dest[0], st, regs)))
                elif c is FALSE:
                    out.append(('go', (ins.dest[1], st, regs)))
                else:
                    s2 = st.fork()
                    r2 = dict(regs)
                    if st.add(c):
                        out.append(('go', (ins.dest[0], st, regs)))
                    if s2.add(tm.bnot(c)):
                        out.append(('go', (ins.dest[1], s2, r2)))
                return out
            elif op == 'switch':
                v = self.val(fr, ins.a[0], ins.ty)
                w = ins.ty[1]
                rest = st
                for (cv, d) in ins.a[1]:
                    c = rest.simp(self.icmp('eq', ins.ty, v, tm.ic(cv[2]))) if w != 1 else rest.simp(
                        tm.eq(v, tm.boolc(cv[2])))
                    if c is FALSE:
                        continue
                    if c is TRUE:
                        out.append(('go', (d, rest, dict(regs))))
                        rest = None
                        break
                    s2 = rest.fork()
                    if s2.add(c):
                        out.append(('go', (d, s2, dict(regs))))
                    if not rest.add(tm.bnot(c)):
                        rest = None
                        break
                if rest is not None:
                    out.append(('go', (ins.dest[0], rest, regs)))
                return out
            elif op == 'ret':
                v = None if ins.a is None else self.val(fr, ins.a, ins.ty)
                out.append(('ret', (st, None, v)))
                return out
            elif op == 'unreachable':
                if not (blk.ins[-2:-1] and blk.ins[-2].op == 'call'):
                    self.oblige('reach', st, FALSE, 'unreachable code is not reached')
                return out
            elif op == 'resume':
                out.append(('exc', st))
                return out
            elif op == 'phi':
                pass
            elif op == 'select':
                (ct, cv), (at, a), (bt, b) = ins.a
                c = self.val(fr, cv, ct)
                regs[ins.res] = self.merge_val(st.simp(c), self.val(fr, a, at), self.val(fr, b, bt))
            elif op == 'extractvalue':
                v = self.val(fr, ins.a[0], ins.ty)
                for i in ins.a[1]:
                    v = v[i]
                regs[ins.res] = v
            elif op == 'insertvalue':
                v = self.val(fr, ins.a[0], ins.ty)
                x = self.val(fr, ins.a[1][1], ins.a[1][0])
                regs[ins.res] = self.ins_agg(v, ins.a[2], x)
            elif op == 'extractelement':
                v = self.val(fr, ins.a[0], ins.ty)
                i = self.val(fr, ins.a[1][1], ins.a[1][0])
                if i.op != 'ic':
                    raise Unsupported('symbolic vector lane')
                regs[ins.res] = v[i.args[0]]
            elif op == 'insertelement':
                v = self.val(fr, ins.a[0], ins.ty)
                x = self.val(fr, ins.a[1][1], ins.a[1][0])
                i = self.val(fr, ins.a[2][1], ins.a[2][0])
                if v is UNDEF:
                    v = Agg([UNDEF] * ins.ty[1])
                l = list(v)
                l[i.args[0]] = x
                regs[ins.res] = Agg(l)
            elif op == 'landingpad':
                for c in ins.a:
                    if c[0] == 'catch' and c[1][1][0] != 'null':
                        raise Unsupported('typed catch clause')
                    if c[0] == 'filter':
                        raise Unsupported('exception filter')
                regs[ins.res] = Agg((NULL, tm.I1))
            elif op == 'freeze':
                v = self.val(fr, ins.a, ins.ty)
                regs[ins.res] = self.fresh_of(ins.ty) if v is UNDEF else v
            else:
                raise Unsupported('instruction ' + ins.text)
        raise Unsupported('block without terminator')

    def ins_agg(self, v, idx, x):
        l = list(v)
        if len(idx) == 1:
            l[idx[0]] = x
        else:
            l[idx[0]] = self.ins_agg(l[idx[0]], idx[1:], x)
        return Agg(l)

    # ------------------------------------------------------------ intrinsics
    def cstring(self, st, p):
        o = st.objs.get(p.obj)
        if o is None:
            return '?'
        out = []
        i = p.off.args[0]
        while i in o.cells:
            c = o.cells[i][1].args[0]
            if c == 0:
                break
            out.append(chr(c))
            i += 1
        return ''.join(out)

    def inp(self, kind):
        t = self.fresh(kind, 'x')
        self.inputs.append((t, kind))
        return t

    def intrinsic(self, name, a, st):
        a = [plain(x) for x in a]
        """verification intrinsics, compiler intrinsics and trusted external functions"""
        if name.startswith('vc_'):
            return self.vc(name, a, st)
        if name.startswith('llvm.'):
            r = self.llvm(name, a, st)
            if r is not None:
                return r
            raise Unsupported('intrinsic ' + name)
        if name in MATH1:
            return (st, self.math(st, MATH1[name], a[0])), None
        if name in ('fabs', 'fabsf'):
            return (st, self.fabs(a[0])), None
        if name in ('abs', 'labs', 'llabs'):
            w = 32 if name == 'abs' else 64
            x = self.sgn(a[0], w)
            return (st, tm.wraps(w, tm.ite(tm.lt(x, tm.I0), tm.ineg(x), x))), None
        if name in ('pow', 'powf'):
            return (st, self.pow(st, a[0], a[1])), None
        if name in ('atan2', 'atan2f', 'fmod', 'fmodf', 'hypot', 'hypotf'):
            return (st, tm.rfn(name.rstrip('f') if name != 'fmodf' else 'fmod', a[0], a[1])), None
        if name in ('fmin', 'fminf'):
            return (st, tm.ite(tm.lt(a[1], a[0]), a[1], a[0])), None
        if name in ('fmax', 'fmaxf'):
            return (st, tm.ite(tm.lt(a[0], a[1]), a[1], a[0])), None
        if name in ('_Znwm', '_Znam'):
            if a[0].op != 'ic':
                raise Unsupported('allocation of symbolic size')
            return (st, Ptr(self.new_obj(st, a[0].args[0], 'heap', 'heap[]' if name == '_Znam' else 'heap'), tm.I0)), None
        if name in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm'):
            p = a[0]
            if isinstance(p, Ptr) and p.obj in st.objs:
                o = st.wobj(p.obj)
                if not o.live or o.kind != 'heap' or p.off is not tm.I0 or (o.name == 'heap[]') != name.startswith('_ZdaPv'):
                    self.oblige('memory', st, FALSE, 'invalid delete')
                o.live = False
            elif isinstance(p, PtrIte):
                raise Unsupported('delete of guarded pointer')
            return (st, None), None
        if name in ('memcpy', 'memmove'):
            self.memcpy(st, a[0], a[1], a[2])
            return (st, a[0]), None
        if name == 'memset':
            self.memset(st, a[0], a[1], a[2])
            return (st, a[0]), None
        if name in ('memcmp', 'bcmp'):
            return (st, self.memcmp(st, a[0], a[1], a[2])), None
        if name in ('memchr', 'strlen') and self.reallib:
            r = self.memchr(st, a[0], a[1] if name == 'memchr' else tm.I0, a[2] if name == 'memchr' else None)
            return (st, r), None
        if name == 'rand':
            self.external.add('rand')
            v = self.fresh('i32', 'rand')
            v = tm.ivar(v.args[0] + 'r', 0, 2147483647)
            return (st, v), None
        if name == 'srand':
            return (st, None), None
        if name == '__cxa_allocate_exception':
            return (st, Ptr(self.new_obj(st, a[0].args[0], 'heap', 'exception'), tm.I0)), None
        if name in ('__cxa_throw', '__cxa_rethrow', '_ZSt20__throw_out_of_rangePKc', '_ZSt17__throw_bad_allocv',
                    '_ZSt20__throw_length_errorPKc', '_ZSt28__throw_bad_array_new_lengthv',
                    '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt19__throw_logic_errorPKc'):
            return None, st
        if name in ('__cxa_free_exception', '__cxa_end_catch', '__cxa_guard_release', '__cxa_guard_abort'):
            return (st, None), None
        if name == '__cxa_begin_catch':
            return (st, NULL), None
        if name == '__cxa_guard_acquire':
            # first entry initialises
            v = self.load(st, a[0], llir.I8)
            if isinstance(v, T) and v is tm.I0:
                self.store(st, a[0], llir.I8, tm.I1)
                return (st, tm.I1), None
            return (st, tm.I0), None
        if name in ('__assert_fail', 'abort', '_ZSt9terminatev', '__clang_call_terminate', 'exit', '_ZSt21__glibcxx_assert_failPKciS0_S0_'):
            if not (st.stops and name in ('__assert_fail', 'abort')):
                self.oblige('reach', st, FALSE, 'no call of ' + name)
            return None, None
        if OPAQUE.match(name) and not (self.reallib and name in self.mod.funcs):
            self.external.add(name)
            f = self.mod.funcs.get(name)
            hdr = f[0] if f else self.mod.decls.get(name, '')
            fn = llir.Function(name, hdr, [], self.mod) if hdr else None
            rt = fn.ret if fn else llir.VOID
            if rt[0] == 'void':
                return (st, None), None
            if rt[0] == 'ptr':
                return (st, a[0] if a else NULL), None
            return (st, self.fresh_of(rt, 'ext')), None
        return None

    def llvm(self, name, a, st):
        a = [plain(x) for x in a]
        n = name.split('.')
        k = n[1]
        if k in ('lifetime', 'dbg', 'assume', 'donothing', 'experimental', 'prefetch', 'va_start', 'va_end'):
            return (st, None), None
        if k in ('memcpy', 'memmove'):
            self.memcpy(st, a[0], a[1], a[2])
            return (st, None), None
        if k == 'memset':
            self.memset(st, a[0], a[1], a[2])
            return (st, None), None
        if k == 'fabs':
            return (st, self.fabs(a[0])), None
        if k in ('sqrt', 'sin', 'cos', 'exp', 'log', 'floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint'):
            return (st, self.math(st, {'rint': 'round', 'nearbyint': 'round'}.get(k, k), a[0])), None
        if k == 'pow':
            return (st, self.pow(st, a[0], a[1])), None
        if k == 'fmuladd' or k == 'fma':
            return (st, tm.radd(tm.rmul(a[0], a[1]), a[2])), None
        if k in ('minnum', 'minimum'):
            return (st, tm.ite(tm.lt(a[1], a[0]), a[1], a[0])), None
        if k in ('maxnum', 'maximum'):
            return (st, tm.ite(tm.lt(a[0], a[1]), a[1], a[0])), None
        if k in ('smin', 'smax', 'umin', 'umax'):
            w = int(n[2][1:])
            v = self.sgn if k[0] == 's' else self.uns
            x, y = v(a[0], w), v(a[1], w)
            c = tm.lt(y, x)
            return (st, tm.ite(c, y, x) if k.endswith('min') else tm.ite(c, x, y)), None
        if k == 'abs':
            w = int(n[2][1:])
            x = self.sgn(a[0], w)
            return (st, tm.wraps(w, tm.ite(tm.lt(x, tm.I0), tm.ineg(x), x))), None
        if k == 'copysign':
            x = self.fabs(a[0])
            return (st, tm.ite(tm.lt(a[1], tm.R0), tm.rneg(x), x)), None
        if k == 'expect':
            return (st, a[0]), None
        if k == 'is' and n[2] == 'fpclass':
            # finite values only
            m = a[1].args[0]
            x = a[0]
            if m == 0x1f8:      # isfinite
                return (st, TRUE), None
            if m & 0x1f8 == 0:  # isnan / isinf
                return (st, FALSE), None
            raise Unsupported(name)
        if k in ('umul', 'uadd', 'usub', 'smul', 'sadd', 'ssub') and n[2] == 'with':
            w = int(n[4][1:])
            v = self.sgn if k[0] == 's' else self.uns
            x, y = v(a[0], w), v(a[1], w)
            f = {'mul': tm.imul, 'add': tm.iadd, 'sub': tm.isub}[k[1:]]
            e = f(x, y)
            r = tm.wraps(w, e) if k[0] == 's' else tm.wrapu(w, e)
            return (st, Agg((r, tm.bnot(tm.eq(e, r))))), None
        if k == 'trap':
            self.oblige('reach', st, FALSE, 'trap is not reached')
            return None, None
        if k == 'eh' and n[2] == 'typeid':
            return (st, tm.I1), None
        if k == 'stacksave':
            return (st, NULL), None
        if k == 'stackrestore':
            return (st, None), None
        return None

    def fabs(self, x):
        if x.op == 'rc':
            return tm.rc(abs(x.args[0]))
        if x.op == 'rneg':
            x = x.args[0]
        return tm.ite(tm.lt(x, tm.R0), tm.rneg(x), x)

    def math(self, st, f, x):
        if f == 'sqrt':
            self.oblige('defined', st, tm.le(tm.R0, x), 'sqrt argument is not negative')
        elif f in ('acos', 'asin'):
            self.oblige('defined', st, tm.band(tm.le(tm.RM1, x), tm.le(x, tm.R1)), f + ' argument is in [-1,1]')
        elif f == 'log':
            self.oblige('defined', st, tm.lt(tm.R0, x), 'log argument is positive')
        return tm.rfn(f, x)

    def pow(self, st, x, y):
        if y.op == 'rc':
            v = y.args[0]
            if v.denominator == 1 and 0 <= v <= 16:
                r = tm.R1
                for _ in range(int(v)):
                    r = tm.rmul(r, x)
                return r
            if v == Fraction(1, 2):
                return self.math(st, 'sqrt', x)
            if v == -1:
                self.oblige('defined', st, tm.bnot(tm.eq(x, tm.R0)), 'divisor is not zero')
                return tm.rdiv(tm.R1, x)
        return tm.rfn('pow', x, y)

    def vc(self, name, a, st):
        k = name[3:]
        if k in ('f64', 'f32', 'i32', 'u32', 'u8', 'u64', 'i64', 'bool', 'i8', 'u16', 'i16'):
            return (st, self.inp(k)), None
        if k == 'size':
            lo, hi = self.uns(a[0], 64), self.uns(a[1], 64)
            self.nfresh += 1
            t = tm.ivar('x%d' % self.nfresh, lo.args[0], hi.args[0])
            self.inputs.append((t, 'u64'))
            return (st, t), None
        if k == 'int':
            lo, hi = self.sgn(a[0], 64), self.sgn(a[1], 64)
            self.nfresh += 1
            t = tm.ivar('x%d' % self.nfresh, lo.args[0], hi.args[0])
            self.inputs.append((t, 'i64'))
            return (st, t), None
        if k == 'assume':
            if not st.add(a[0]):
                return None, None
            return (st, None), None
        if k == 'check':
            self.oblige('check', st, a[0], self.cstring(st, a[1]))
            return (st, None), None
        if k in ('check_eqd', 'check_eqf'):
            x, y = a[0], a[1]
            self.oblige('check', st, tm.eq(self.num(x, llir.DOUBLE), self.num(y, llir.DOUBLE)),
                        self.cstring(st, a[2]))
            return (st, None), None
        if k in ('eqd', 'eqf'):
            return (st, tm.eq(self.num(a[0], llir.DOUBLE), self.num(a[1], llir.DOUBLE))), None
        if k == 'cover':
            self.covers.append((st.pc, self.cstring(st, a[0])))
            return (st, None), None
        if k == 'stops':
            st.stops = a[0] is TRUE
            return (st, None), None
        if k == 'symbolic':
            return (st, TRUE), None
        if k == 'random':
            return (st, FALSE), None
        if k == 'heap':
            n = sum(1 for o in st.objs.values() if o.kind == 'heap' and o.live and o.name != 'exception')
            return (st, tm.ic(n)), None
        if k == 'rnd32':
            v = a[0]
            return (st, self.cast('fptrunc', llir.DOUBLE, v, llir.FLOAT)), None
        if k == 'debug':
            print('DEBUG', [repr(x) for x in a], 'pc', st.pc)
            return (st, None), None
        raise Unsupported('intrinsic ' + name)


def multiple(t, n):
    """t is evidently a multiple of n"""
    if n == 1:
        return True
    if t.op == 'ic':
        return t.args[0] % n == 0
    if t.op == 'iadd':
        return multiple(t.args[0], n) and multiple(t.args[1], n)
    if t.op == 'imul':
        return multiple(t.args[0], n) or multiple(t.args[1], n)
    if t.op == 'ite':
        return multiple(t.args[1], n) and multiple(t.args[2], n)
    return False


class Frame:
    __slots__ = ('ex', 'fn', 'st', 'regs')

    def __init__(self, ex, fn):
        self.ex = ex
        self.fn = fn
        self.st = None
        self.regs = None
