"""Hash-consed terms over mathematical reals, integers and booleans."""
from fractions import Fraction

REAL, INT, BOOL = 'R', 'I', 'B'
_tab = {}
_next = [0]


class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'lo', 'hi', 'x')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o


def mk(op, args, sort, lo=None, hi=None):
    key = (op, sort) + tuple((a.id, ) if isinstance(a, T) else a for a in args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.sort = sort
        t.id = _next[0]
        _next[0] += 1
        t.lo = lo
        t.hi = hi
        t.x = None
        _tab[key] = t
    return t


TRUE = mk('true', (), BOOL)
FALSE = mk('false', (), BOOL)


def boolc(b):
    return TRUE if b else FALSE


# ------------------------------------------------------------------ constants
def rc(v):
    v = Fraction(v)
    return mk('rc', (v,), REAL)


def ic(v):
    return mk('ic', (int(v),), INT, int(v), int(v))


R0 = rc(0)
R1 = rc(1)
RM1 = rc(-1)
I0 = ic(0)
I1 = ic(1)


def rvar(name, kind):
    return mk('rv', (name, kind), REAL)


def ivar(name, lo, hi):
    return mk('iv', (name,), INT, lo, hi)


def bvar(name):
    return mk('bv', (name,), BOOL)


# ------------------------------------------------------------------ real
def lift(f, *args):
    """apply f under ite when it makes all-constant leaves (small lifting)"""
    return None


def radd(a, b):
    if a.op == 'rc':
        if b.op == 'rc':
            return rc(a.args[0] + b.args[0])
        if a.args[0] == 0:
            return b
    elif b.op == 'rc' and b.args[0] == 0:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk('radd', (a, b), REAL)


def rneg(a):
    if a.op == 'rc':
        return rc(-a.args[0])
    if a.op == 'rneg':
        return a.args[0]
    if a.op == 'i2r':
        return i2r(ineg(a.args[0]))
    return mk('rneg', (a,), REAL)


def rsub(a, b):
    if a is b:
        return R0
    return radd(a, rneg(b))


def rmul(a, b):
    if a.op == 'rc':
        if b.op == 'rc':
            return rc(a.args[0] * b.args[0])
        v = a.args[0]
        if v == 0:
            return R0
        if v == 1:
            return b
        if v == -1:
            return rneg(b)
    elif b.op == 'rc':
        return rmul(b, a)
    if a is b and a.op == 'ite' and (a.args[1] is rneg(a.args[2]) or a.args[2] is rneg(a.args[1])):
        a = b = a.args[1]      # |t| * |t|
    if a.id > b.id:
        a, b = b, a
    return mk('rmul', (a, b), REAL)


def rdiv(a, b):
    if b.op == 'rc' and b.args[0] != 0:
        return rmul(a, rc(1 / b.args[0]))
    if a.op == 'rc' and a.args[0] == 0 and not (b.op == 'rc'):
        return R0
    return mk('rdiv', (a, b), REAL)


def rfn(name, *args):
    if name == 'sqrt':
        a = args[0]
        if a.op == 'rc' and a.args[0] >= 0:
            n, d = a.args[0].numerator, a.args[0].denominator
            import math
            rn, rd = math.isqrt(n), math.isqrt(d)
            if rn * rn == n and rd * rd == d:
                return rc(Fraction(rn, rd))
    elif name in ('sin', 'tan', 'asin', 'atan'):
        if args[0] is R0:
            return R0
    elif name in ('cos', 'exp'):
        if args[0] is R0:
            return R1
    elif name in ('floor', 'ceil', 'trunc', 'round', 'rnd32'):
        if args[0].op == 'rc':
            v = args[0].args[0]
            import math
            if name == 'floor':
                return rc(math.floor(v))
            if name == 'ceil':
                return rc(math.ceil(v))
            if name == 'trunc':
                return rc(math.trunc(v))
    return mk('rfn', (name,) + args, REAL)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == BOOL:
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return bnot(c)
        return bor(band(c, a), band(bnot(c), b))
    if c.op == 'not' or c.op == 'le':
        # canonical orientation: prefer positive / strict conditions
        c, a, b = bnot(c), b, a
    # nested same condition
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    lo = hi = None
    if a.sort == INT:
        lo = None if a.lo is None or b.lo is None else min(a.lo, b.lo)
        hi = None if a.hi is None or b.hi is None else max(a.hi, b.hi)
    return mk('ite', (c, a, b), a.sort, lo, hi)


# ------------------------------------------------------------------ int
def iadd(a, b):
    if a.op == 'ic':
        if b.op == 'ic':
            return ic(a.args[0] + b.args[0])
        if a.args[0] == 0:
            return b
        if b.op == 'iadd' and b.args[0].op == 'ic':
            return iadd(ic(a.args[0] + b.args[0].args[0]), b.args[1])
        if b.op == 'ite' and b.args[1].op == 'ic' and b.args[2].op == 'ic':
            return ite(b.args[0], iadd(a, b.args[1]), iadd(a, b.args[2]))
    elif b.op == 'ic':
        return iadd(b, a)
    elif a.id > b.id:
        a, b = b, a
    lo = None if a.lo is None or b.lo is None else a.lo + b.lo
    hi = None if a.hi is None or b.hi is None else a.hi + b.hi
    return mk('iadd', (a, b), INT, lo, hi)


def ineg(a):
    return imul(ic(-1), a)


def _lin(t, k, out):
    """adds k * t to the linear form out (atom id -> [atom, coefficient]; id 0: constant); False when it grows too large"""
    if t.op == 'ic':
        out[0] = [None, out.get(0, [None, 0])[1] + k * t.args[0]]
    elif t.op == 'iadd':
        return _lin(t.args[0], k, out) and _lin(t.args[1], k, out)
    elif t.op == 'imul' and t.args[0].op == 'ic':
        return _lin(t.args[1], k * t.args[0].args[0], out)
    else:
        out[t.id] = [t, out.get(t.id, [t, 0])[1] + k]
    return len(out) <= 12


def _unlin(out, d=1):
    r = ic(out.get(0, [None, 0])[1] // d)
    for i in sorted(i for i in out if i != 0 and out[i][1]):
        r = iadd(r, imul(ic(out[i][1] // d), out[i][0]))
    return r


def isub(a, b):
    if a is b:
        return I0
    if a.op in ('iadd', 'imul') and b.op != 'ic' or b.op in ('iadd', 'imul') and a.op != 'ic':
        out = {}
        if _lin(a, 1, out) and _lin(b, -1, out) and any(c == 0 for i, (_, c) in out.items() if i != 0):
            return _unlin(out)
    return iadd(a, ineg(b))


def imul(a, b):
    if a.op == 'ic':
        v = a.args[0]
        if b.op == 'ic':
            return ic(v * b.args[0])
        if v == 0:
            return I0
        if v == 1:
            return b
        if b.op == 'imul' and b.args[0].op == 'ic':
            return imul(ic(v * b.args[0].args[0]), b.args[1])
        if b.op == 'ite' and b.args[1].op == 'ic' and b.args[2].op == 'ic':
            return ite(b.args[0], imul(a, b.args[1]), imul(a, b.args[2]))
    elif b.op == 'ic':
        return imul(b, a)
    elif a.id > b.id:
        a, b = b, a
    lo = hi = None
    if None not in (a.lo, a.hi, b.lo, b.hi):
        c = (a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi)
        lo, hi = min(c), max(c)
    return mk('imul', (a, b), INT, lo, hi)


def tdiv(x, y):
    q = abs(x) // abs(y)
    return q if (x >= 0) == (y >= 0) else -q


def idiv(a, b):
    """C division (toward zero)"""
    if a.op == 'ic' and b.op == 'ic' and b.args[0] != 0:
        return ic(tdiv(a.args[0], b.args[0]))
    if b.op == 'ic':
        v = b.args[0]
        if v == 1:
            return a
        if a.op == 'imul' and a.args[0].op == 'ic' and v != 0 and a.args[0].args[0] % v == 0:
            return imul(ic(a.args[0].args[0] // v), a.args[1])
        if a.op == 'ite' and a.args[1].op == 'ic' and a.args[2].op == 'ic' and v != 0:
            return ite(a.args[0], idiv(a.args[1], b), idiv(a.args[2], b))
        if a.op == 'ite' and v != 0:
            return ite(a.args[0], idiv(a.args[1], b), idiv(a.args[2], b))
        if a.op == 'iadd' and v != 0:
            out = {}
            if _lin(a, 1, out) and all(c % v == 0 for _, c in out.values()):
                return _unlin(out, v)
    lo = hi = None
    if a.lo is not None and a.hi is not None:
        m = max(abs(a.lo), abs(a.hi))
        lo, hi = (0 if a.lo >= 0 and b.lo is not None and b.lo >= 0 else -m), m
        if b.op == 'ic' and b.args[0] > 0:
            lo, hi = tdiv(a.lo, b.args[0]), tdiv(a.hi, b.args[0])
    return mk('idiv', (a, b), INT, lo, hi)


def irem(a, b):
    if a.op == 'ic' and b.op == 'ic' and b.args[0] != 0:
        return ic(a.args[0] - b.args[0] * tdiv(a.args[0], b.args[0]))
    lo = hi = None
    if b.op == 'ic' and b.args[0] > 0:
        lo, hi = -(b.args[0] - 1), b.args[0] - 1
        if a.lo is not None and a.lo >= 0:
            lo = 0
            if a.hi is not None and a.hi < b.args[0]:
                return a
    elif b.hi is not None and a.lo is not None and a.lo >= 0 and b.lo is not None and b.lo >= 0:
        lo, hi = 0, b.hi
    return mk('irem', (a, b), INT, lo, hi)


def _strip(w, a):
    """a ring expression congruent to a modulo 2^w without inner wraps of width >= w"""
    if a.op in ('wrapu', 'wraps') and a.args[0] >= w:
        return _strip(w, a.args[1])
    if a.op in ('iadd', 'imul'):
        x, y = _strip(w, a.args[0]), _strip(w, a.args[1])
        if x is not a.args[0] or y is not a.args[1]:
            return iadd(x, y) if a.op == 'iadd' else imul(x, y)
    return a


def wrapu(w, a):
    """a modulo 2^w, in [0, 2^w)"""
    if a.lo is not None and a.hi is not None and a.lo >= 0 and a.hi < (1 << w):
        return a
    if a.op == 'ic':
        return ic(a.args[0] % (1 << w))
    if a.op == 'ite':
        return ite(a.args[0], wrapu(w, a.args[1]), wrapu(w, a.args[2]))
    b = _strip(w, a)
    if b is not a:
        return wrapu(w, b)
    return mk('wrapu', (w, a), INT, 0, (1 << w) - 1)


def wraps(w, a):
    h = 1 << (w - 1)
    if a.lo is not None and a.hi is not None and a.lo >= -h and a.hi < h:
        return a
    if a.op == 'ic':
        v = a.args[0] % (1 << w)
        return ic(v - (1 << w) if v >= h else v)
    if a.op == 'ite':
        return ite(a.args[0], wraps(w, a.args[1]), wraps(w, a.args[2]))
    b = _strip(w, a)
    if b is not a:
        return wraps(w, b)
    return mk('wraps', (w, a), INT, -h, h - 1)


def ifn(name, lo, hi, *args):
    return mk('ifn', (name,) + args, INT, lo, hi)


def i2r(a):
    if a.op == 'ic':
        return rc(a.args[0])
    if a.op == 'ite' :
        return ite(a.args[0], i2r(a.args[1]), i2r(a.args[2]))
    return mk('i2r', (a,), REAL)


def r2i(a, lo=None, hi=None):
    """truncation toward zero; [lo,hi] is the range of the target type (conversion outside it is undefined)"""
    if a.op == 'rc':
        v = a.args[0]
        return ic(tdiv(v.numerator, v.denominator))
    if a.op == 'i2r':
        x = a.args[0]
        if lo is None or (x.lo is not None and x.hi is not None and x.lo >= lo and x.hi <= hi):
            return x
    if a.op == 'ite':
        return ite(a.args[0], r2i(a.args[1], lo, hi), r2i(a.args[2], lo, hi))
    return mk('r2i', (a, lo, hi), INT, lo, hi)


# ------------------------------------------------------------------ bool
def bnot(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    o = c.op
    if o == 'not':
        return c.args[0]
    if o == 'lt':
        return mk('le', (c.args[1], c.args[0]), BOOL)
    if o == 'le':
        return mk('lt', (c.args[1], c.args[0]), BOOL)
    if o == 'and':
        return bor(*[bnot(x) for x in c.args])
    if o == 'or':
        return band(*[bnot(x) for x in c.args])
    return mk('not', (c,), BOOL)


def _flat(op, cs):
    out = []
    seen = set()
    for c in cs:
        for x in (c.args if c.op == op else (c,)):
            if x.id not in seen:
                seen.add(x.id)
                out.append(x)
    return out, seen


def band(*cs):
    out, seen = _flat('and', cs)
    out = [x for x in out if x is not TRUE]
    for x in out:
        if x is FALSE or bnot_lit(x) in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda x: x.id)
    return mk('and', tuple(out), BOOL)


def bor(*cs):
    out, seen = _flat('or', cs)
    out = [x for x in out if x is not FALSE]
    for x in out:
        if x is TRUE or bnot_lit(x) in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda x: x.id)
    return mk('or', tuple(out), BOOL)


def bnot_lit(x):
    if x.op in ('and', 'or'):
        return -1
    return bnot(x).id


def _constleaf(t):
    return t.op in ('ic', 'rc')


def _liftcmp(f, a, b):
    if a.op == 'ite' and _constleaf(b) and (_constleaf(a.args[1]) or a.args[1].op == 'ite') and (
            _constleaf(a.args[2]) or a.args[2].op == 'ite'):
        return ite(a.args[0], f(a.args[1], b), f(a.args[2], b))
    if b.op == 'ite' and _constleaf(a) and (_constleaf(b.args[1]) or b.args[1].op == 'ite') and (
            _constleaf(b.args[2]) or b.args[2].op == 'ite'):
        return ite(b.args[0], f(a, b.args[1]), f(a, b.args[2]))
    return None


def as_int(t):
    """the integer term equal to a real term built from converted integers, or None"""
    if t.op == 'rc':
        return ic(t.args[0]) if t.args[0].denominator == 1 else None
    if t.op == 'i2r':
        return t.args[0]
    if t.op != 'ite':
        return None
    if t.x is None:
        a, b = as_int(t.args[1]), as_int(t.args[2])
        t.x = (None if a is None or b is None else ite(t.args[0], a, b),)
    return t.x[0]


_iv = {}


def int_value(t):
    """the integer term equal to a real term made of converted integers by +, -, * and case distinctions; or None"""
    r = _iv.get(t.id, 0)
    if r == 0:
        o = t.op
        if o in ('radd', 'rmul', 'rneg', 'ite'):
            a = [int_value(x) for x in (t.args if o != 'ite' else t.args[1:])]
            if any(x is None for x in a):
                r = None
            else:
                r = {'radd': iadd, 'rmul': imul, 'rneg': ineg}[o](*a) if o != 'ite' else ite(t.args[0], *a)
        else:
            r = as_int(t)
        _iv[t.id] = r
    return r


_sg = {}


def _signed(t, w):
    """the signed number with the same w-bit pattern as t in [0,2^w), when that removes the wraps; or None"""
    k = (t.id, w)
    if k in _sg:
        return _sg[k]
    h = 1 << (w - 1)
    r = None
    if t.op == 'ic':
        r = t if t.args[0] < h else ic(t.args[0] - 2 * h)
    elif t.op == 'ite':
        a = _signed(t.args[1], w)
        b = _signed(t.args[2], w) if a is not None else None
        r = ite(t.args[0], a, b) if b is not None else None
    elif t.op == 'wrapu' and t.args[0] == w:
        x = t.args[1]
        if x.lo is not None and x.hi is not None and x.lo >= -h and x.hi < h:
            r = x
    elif t.lo is not None and t.hi is not None and t.lo >= 0 and t.hi < h:
        r = t
    _sg[k] = r
    return r


def _leafwrap(t):
    while t.op == 'ite':
        if t.args[1].op == 'wrapu':
            return t.args[1].args[0]
        t = t.args[2]
    return t.args[0] if t.op == 'wrapu' else None


def _ints(a, b):
    if a.sort == REAL and not (_constleaf(a) and _constleaf(b)) and a.op in ('i2r', 'ite', 'rc') and b.op in ('i2r', 'ite', 'rc'):
        x = as_int(a)
        if x is not None:
            y = as_int(b)
            if y is not None:
                return x, y
    return None


def lt(a, b):
    if a is b:
        return FALSE
    i = _ints(a, b)
    if i:
        return lt(*i)
    if _constleaf(a) and _constleaf(b):
        return boolc(a.args[0] < b.args[0])
    if a.sort == INT:
        if a.hi is not None and b.lo is not None and a.hi < b.lo:
            return TRUE
        if a.lo is not None and b.hi is not None and a.lo >= b.hi:
            return FALSE
    r = _liftcmp(lt, a, b)
    if r is not None:
        return r
    # sign of a square root (its argument is not negative: a separate obligation)
    if _zero(a) and _root(b):
        return lt(a, b.args[1])
    if _root(a) and _zero(b):
        return FALSE
    return mk('lt', (a, b), BOOL)


def _zero(t):
    return t.op == 'rc' and t.args[0] == 0


def _root(t):
    return t.op == 'rfn' and t.args[0] == 'sqrt'


def le(a, b):
    return bnot(lt(b, a))


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == BOOL:
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return bnot(b)
        if b is FALSE:
            return bnot(a)
        return bor(band(a, b), band(bnot(a), bnot(b)))
    i = _ints(a, b)
    if i:
        return eq(*i)
    if _constleaf(a) and _constleaf(b):
        return boolc(a.args[0] == b.args[0])
    if a.sort == INT:
        if a.hi is not None and b.lo is not None and a.hi < b.lo:
            return FALSE
        if a.lo is not None and b.hi is not None and a.lo > b.hi:
            return FALSE
        w = _leafwrap(a) or _leafwrap(b)
        if w:
            x = _signed(a, w)
            y = _signed(b, w) if x is not None else None
            if y is not None:
                return eq(x, y)
    r = _liftcmp(eq, a, b)
    if r is not None:
        return r
    if _zero(a) and _root(b):
        return eq(a, b.args[1])
    if _zero(b) and _root(a):
        return eq(b, a.args[1])
    if a.id > b.id:
        a, b = b, a
    return mk('eq', (a, b), BOOL)


# ------------------------------------------------------------------ utilities
def show(t, depth=8):
    if depth == 0:
        return '...'
    o = t.op
    if o == 'rc':
        v = t.args[0]
        return str(v) if v.denominator < 1000 else repr(float(v))
    if o in ('ic', 'rv', 'iv', 'bv'):
        return str(t.args[0])
    if o in ('true', 'false'):
        return o
    sym = {'radd': '+', 'rmul': '*', 'rdiv': '/', 'iadd': '+', 'imul': '*', 'lt': '<', 'le': '<=', 'eq': '==',
           'and': '&&', 'or': '||', 'idiv': '/', 'irem': '%'}
    if o in sym:
        return '(' + (' %s ' % sym[o]).join(show(a, depth - 1) for a in t.args) + ')'
    if o == 'rneg':
        return '-' + show(t.args[0], depth - 1)
    if o in ('rfn', 'ifn'):
        return t.args[0] + '(' + ', '.join(show(a, depth - 1) for a in t.args[1:]) + ')'
    return o + '(' + ', '.join(show(a, depth - 1) if isinstance(a, T) else str(a) for a in t.args) + ')'


def subterms(ts):
    """all subterms in dependency order (children first)"""
    seen = set()
    out = []
    stack = [(t, False) for t in reversed(ts)]
    while stack:
        t, done = stack.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        stack.append((t, True))
        for a in t.args:
            if isinstance(a, T) and a.id not in seen:
                stack.append((a, False))
    return out


REBUILD = {'radd': radd, 'rneg': rneg, 'rmul': rmul, 'rdiv': rdiv, 'ite': ite, 'iadd': iadd, 'imul': imul,
           'idiv': idiv, 'irem': irem, 'i2r': i2r, 'r2i': r2i, 'lt': lt, 'le': le, 'eq': eq,
           'not': bnot, 'wrapu': wrapu, 'wraps': wraps, 'and': band, 'or': bor, 'rfn': rfn}


def rebuild(t, args):
    f = REBUILD.get(t.op)
    if f is None:
        if t.op == 'ifn':
            return mk('ifn', tuple(args), INT, t.lo, t.hi)
        raise KeyError(t.op)
    return f(*args)


def subst(ts, m):
    """simultaneous replacement of subterms; m: dict term->term. Returns list."""
    memo = dict(m)
    for t in subterms(ts):
        if t in memo:
            continue
        ch = False
        na = []
        for a in t.args:
            if isinstance(a, T):
                b = memo[a]
                if b is not a:
                    ch = True
                na.append(b)
            else:
                na.append(a)
        memo[t] = rebuild(t, na) if ch else t
    return [memo[t] for t in ts]


def reset():
    keep = [TRUE, FALSE, R0, R1, RM1, I0, I1]
    _tab.clear()
    _sg.clear()
    _iv.clear()
    for t in keep:
        key = (t.op, t.sort) + tuple((a.id, ) if isinstance(a, T) else a for a in t.args)
        _tab[key] = t
