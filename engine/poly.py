"""Normal forms of real terms: rational functions over atoms, with the rules
   sqrt(p)^2 = p,  sin^2 + cos^2 = 1,  angle addition on rational multiples of a base angle,
   sin/cos of acos/asin/atan2, and square rules x^2 = p taken from assumed equalities.
A zero numerator proves an equality of the two terms (denominators are proved non-zero separately).
"""
from fractions import Fraction
import terms as tm
from terms import T

W = 12           # bits per exponent
MASK = (1 << W) - 1


class TooBig(Exception):
    pass


def padd(a, b):
    if not a:
        return b
    if not b:
        return a
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def pneg(a):
    return {m: -c for m, c in a.items()}


def pscale(a, k):
    if not k:
        return {}
    if k == 1:
        return a
    return {m: c * k for m, c in a.items()}


LIMIT = 400000


def pmul_raw(a, b):
    if len(a) > len(b):
        a, b = b, a
    if len(a) * len(b) > LIMIT * 4:
        raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m1 + m2
            v = r.get(m)
            r[m] = c1 * c2 if v is None else v + c1 * c2
    return {m: c for m, c in r.items() if c}


ONE = {0: 1}


def num(f):
    f = Fraction(f)
    return f.numerator if f.denominator == 1 else f


class RF:
    """num / (x^dm * prod factor_i^e_i)"""
    __slots__ = ('n', 'dm', 'df')

    def __init__(self, n, dm=0, df=()):
        self.n = n
        self.dm = dm
        self.df = df


class Ring:
    def __init__(self):
        self.atoms = []            # key of each atom
        self.index = {}
        self.sq = {}               # atom index -> (poly n, RF or None)   s^2 = n   (or RF)
        self.sqmask = 0
        self.pr = []               # product rules (i, k, poly): atom i * atom k = poly
        self.memo = {}
        self.polys = []
        self.pindex = {}
        self.trigbase = {}         # monomial -> list of base coefficients
        self.trig = {}             # (mono, base) -> (sin index, cos index)
        self.varterm = {}
        self.hint = {}
        self.nonneg = set()
        self.strict = set()        # atoms assumed positive
        self.minmax = False        # express min, max and |.| through magnitudes

    # ---------------------------------------------------------------- atoms
    def atom(self, key, term=None):
        i = self.index.get(key)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(key)
            self.index[key] = i
            if term is not None:
                self.varterm[i] = term
        return i

    def mono(self, i):
        return 1 << (W * i)

    def add_square(self, i, poly):
        self.sq[i] = poly
        self.sqmask |= (MASK - 1) << (W * i)
        self.memo = {}

    def add_product(self, i, k, poly):
        self.pr.append((i, k, poly))
        self.memo = {}

    def pmul(self, a, b):
        return self.reduce(pmul_raw(a, b))

    def reduce(self, p):
        """apply the square rules and the product rules"""
        p = self.reduce_sq(p)
        if not self.pr:
            return p
        for _ in range(200):
            for i, k, q in self.pr:
                si, sk = W * i, W * k
                hit = [m for m in p if (m >> si) & MASK and (m >> sk) & MASK]
                if hit:
                    lead = (1 << si) + (1 << sk)
                    r = {m: c for m, c in p.items() if not ((m >> si) & MASK and (m >> sk) & MASK)}
                    p = padd(r, pmul_raw({m - lead: p[m] for m in hit}, q))
                    if len(p) > LIMIT:
                        raise TooBig()
                    p = self.reduce_sq(p)
                    break
            else:
                return p
        raise TooBig()

    def reduce_sq(self, p):
        """apply the square rules"""
        mask = self.sqmask
        if not mask:
            return p
        for _ in range(60):
            bad = None
            for m in p:
                if m & mask:
                    bad = m
                    break
            if bad is None:
                return p
            # an atom with exponent >= 2: rewrite all monomials holding it (latest atom first: rules are acyclic)
            tgt = None
            for i in sorted(self.sq, reverse=True):
                if any((m >> (W * i)) & (MASK - 1) for m in p):
                    tgt = i
                    break
            sq = self.sq[tgt]
            sh = W * tgt
            groups = {}
            for m, c in p.items():
                e = (m >> sh) & MASK
                if e >= 2:
                    k = e // 2
                    groups.setdefault(k, {})[m - (2 * k << sh)] = c
                else:
                    groups.setdefault(0, {})[m] = c
            r = groups.pop(0, {})
            pw = ONE
            last = 0
            for k in sorted(groups):
                for _ in range(k - last):
                    pw = pmul_raw(pw, sq)
                last = k
                r = padd(r, pmul_raw(groups[k], pw))
            p = r
            if len(p) > LIMIT:
                raise TooBig()
        raise TooBig()

    def ppow(self, p, k):
        r = ONE
        for _ in range(k):
            r = self.pmul(r, p)
        return r

    def intern(self, p):
        """p -> (coef, mono, pid or None): p = coef * mono * polys[pid]"""
        if len(p) == 1:
            (m, c), = p.items()
            return c, m, None
        it = iter(p)
        g = next(it)
        # common monomial
        common = None
        for m in p:
            common = m if common is None else self.mgcd(common, m)
            if common == 0:
                break
        if common:
            p = {m - common: c for m, c in p.items()}
        lead = max(p)
        c = p[lead]
        if c != 1:
            inv = Fraction(1) / c
            p = {m: num(v * inv) for m, v in p.items()}
        key = frozenset(p.items())
        pid = self.pindex.get(key)
        if pid is None:
            pid = len(self.polys)
            self.polys.append(p)
            self.pindex[key] = pid
        return c, common, pid

    def mgcd(self, a, b):
        r = 0
        sh = 0
        while a and b:
            x, y = a & MASK, b & MASK
            r |= min(x, y) << sh
            a >>= W
            b >>= W
            sh += W
        return r

    def mlcm(self, a, b):
        r = 0
        sh = 0
        while a or b:
            x, y = a & MASK, b & MASK
            r |= max(x, y) << sh
            a >>= W
            b >>= W
            sh += W
        return r

    # ---------------------------------------------------------------- rational functions
    def norm(self, r):
        """cancel common monomials, reduce squares of rational sqrt atoms in the denominator monomial"""
        if not r.n:
            return RF({})
        if r.dm:
            g = r.dm
            for m in r.n:
                g = self.mgcd(g, m)
                if not g:
                    break
            if g:
                r = RF({m - g: c for m, c in r.n.items()}, r.dm - g, r.df)
        # s^2 in the denominator monomial
        if r.dm & self.sqmask:
            for i in sorted(self.sq, reverse=True):
                e = (r.dm >> (W * i)) & MASK
                if e >= 2:
                    k = e // 2
                    d = RF(r.n, r.dm - (2 * k << (W * i)), r.df)
                    inv = self.inv(RF(self.ppow(self.sq[i], k)))
                    return self.mul(d, inv)
        return r

    def add(self, a, b):
        if not a.n:
            return b
        if not b.n:
            return a
        if a.dm == b.dm and a.df == b.df:
            return self.norm(RF(padd(a.n, b.n), a.dm, a.df))
        lm = self.mlcm(a.dm, b.dm)
        fa, fb = dict(a.df), dict(b.df)
        lf = dict(fa)
        for k, e in fb.items():
            if lf.get(k, 0) < e:
                lf[k] = e
        na = self.lift(a, lm, lf, fa)
        nb = self.lift(b, lm, lf, fb)
        return self.norm(RF(padd(na, nb), lm, tuple(sorted(lf.items()))))

    def lift(self, a, lm, lf, fa):
        n = a.n
        m = lm - a.dm
        if m:
            n = self.pmul(n, {m: 1})
        for k, e in lf.items():
            d = e - fa.get(k, 0)
            for _ in range(d):
                n = self.pmul(n, self.polys[k])
        return n

    def neg(self, a):
        return RF(pneg(a.n), a.dm, a.df)

    def mul(self, a, b):
        if not a.n or not b.n:
            return RF({})
        fa = dict(a.df)
        fb = dict(b.df)
        an, bn = a.n, b.n
        # cancel a whole numerator against a denominator factor of the other side
        if fb and len(an) > 1:
            an, ex = self.cancel(an, fb)
        if fa and len(bn) > 1:
            bn, ex = self.cancel(bn, fa)
        for k, e in fb.items():
            fa[k] = fa.get(k, 0) + e
        fa = {k: e for k, e in fa.items() if e}
        return self.norm(RF(self.pmul(an, bn), a.dm + b.dm, tuple(sorted(fa.items()))))

    def cancel(self, n, f):
        c, m, pid = self.intern(n)
        if pid is not None and f.get(pid, 0) > 0:
            f[pid] -= 1
            return {m: c}, True
        return n, False

    def inv(self, a):
        """1/a"""
        c, m, pid = self.intern(a.n)
        n = {a.dm: num(Fraction(1) / c)}
        for k, e in a.df:
            for _ in range(e):
                n = self.pmul(n, self.polys[k])
        n = self.reduce(n)
        return self.norm(RF(n, m, ((pid, 1),) if pid is not None else ()))

    def const(self, v):
        v = num(v)
        return RF({0: v}) if v else RF({})

    def key(self, r):
        return (frozenset(r.n.items()), r.dm, r.df)

    def is_const(self, r):
        if not r.n:
            return Fraction(0)
        if r.dm == 0 and not r.df and len(r.n) == 1 and 0 in r.n:
            return Fraction(r.n[0])
        return None

    # ---------------------------------------------------------------- terms
    def rf(self, t):
        memo = self.memo
        r = memo.get(t.id)
        if r is not None:
            return r
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            need = [a for a in self.deps(x) if a.id not in memo]
            if need:
                stack.extend(need)
                continue
            v = self.rf1(x)
            self.memo[x.id] = v     # add_square may have replaced the memo table
            memo = self.memo
            if t.id in memo:
                break
            stack.pop()
        return memo[t.id]

    def deps(self, x):
        o = x.op
        if o in ('radd', 'rmul', 'rneg', 'rdiv'):
            return x.args
        if o in ('iadd', 'imul'):
            return x.args
        if o == 'i2r':
            return (x.args[0],)
        if o == 'rfn':
            return x.args[1:]
        return ()

    def atomrf(self, key, t=None):
        return RF({self.mono(self.atom(key, t)): 1})

    def rf1(self, x):
        o = x.op
        g = self.memo
        if o == 'rc' or o == 'ic':
            return self.const(x.args[0])
        if o == 'radd' or o == 'iadd':
            return self.add(self.rf(x.args[0]), self.rf(x.args[1]))
        if o == 'rmul' or o == 'imul':
            return self.mul(self.rf(x.args[0]), self.rf(x.args[1]))
        if o == 'rneg':
            return self.neg(self.rf(x.args[0]))
        if o == 'rdiv':
            d = self.rf(x.args[1])
            if not d.n:
                return self.atomrf(('div0', x.id), x)
            return self.mul(self.rf(x.args[0]), self.inv(d))
        if o == 'i2r':
            return self.rf(x.args[0])
        if o == 'rfn':
            return self.fn(x)
        if o in ('wrapu', 'wraps'):
            return self.atomrf((o, x.args[0], self.modkey(x.args[0], x.args[1])), x)
        if o == 'ite':
            r = self.magnitude(x)
            if r is not None:
                return r
        return self.atomrf(('t', x.id), x)

    def magnitude(self, x):
        """ite( a sign condition on t, t, -t ) is +|t| or -|t|, however it is written"""
        c, a, b = x.args
        neg = c.op == 'not'
        if neg:
            c = c.args[0]
        if c.op not in ('lt', 'le') or c.args[0].sort != x.sort:
            return None
        if not self.minmax and a.op != 'rneg' and b.op != 'rneg' and a.op != 'rmul' and b.op != 'rmul':
            return None
        mid = None
        try:
            ra = self.rf(a)
            rb = self.rf(b)
            if not self.minmax:
                if self.add(ra, rb).n or not ra.n or len(ra.n) > 12:
                    return None
            else:       # ite( a > b, a, b ) = (a+b)/2 + |(a-b)/2|
                half = self.const(Fraction(1, 2))
                mid = self.mul(half, self.add(ra, rb))
                ra = self.mul(half, self.add(ra, self.neg(rb)))
                if not ra.n or len(ra.n) > 60:
                    return None
            d = self.add(self.rf(c.args[1]), self.neg(self.rf(c.args[0])))      # condition: d > 0 or d >= 0
        except TooBig:
            return None

        def split(r):
            if r.df and not all(e % 2 == 0 or self.obviously_pos(self.polys[k]) for k, e in r.df):
                return None
            if r.dm and not self.obviously_pos({r.dm: 1}):
                return None
            n = r.n
            # common factors that are not negative
            g = None
            for m in n:
                g = m if g is None else self.mgcd(g, m)
            out, i, m = 0, 0, g
            while m:
                if m & MASK and i in self.nonneg:
                    out |= (m & MASK) << (W * i)
                m >>= W
                i += 1
            lead = Fraction(n[max(n)])
            return lead, {m - out: num(Fraction(v) / lead) for m, v in n.items()}, out
        p, q = split(ra), split(d) if d.n else None
        if p is None or q is None or p[1] != q[1]:
            return None
        i, m, o = 0, q[2], p[2]
        while m:        # a factor of the condition that may be zero must be a factor of the value, too
            if m & MASK and not o & MASK:
                return None
            m >>= W
            o >>= W
        # sign of t relative to the condition
        pos = (p[0] > 0) == (q[0] > 0)
        if neg:
            pos = not pos
        k = abs(p[0])
        if not self.minmax:
            out = {self.mag(p[1], x) + p[2]: num(k if pos else -k)}
            return RF(out, ra.dm, ra.df)
        # |x y| = |x| |y|
        q, g, out, i = p[1], None, p[2], 0
        for m in q:
            g = m if g is None else self.mgcd(g, m)
        q = {m - g: c for m, c in q.items()}
        while g:
            e = g & MASK
            if e:
                out += (self.mono(i) if i in self.nonneg else self.mag({self.mono(i): 1}, x)) * e
            g >>= W
            i += 1
        if len(q) > 1:
            out += self.mag(q, x)
        r = RF(self.reduce({out: num(k if pos else -k)}), ra.dm, ra.df)
        return self.add(mid, r)

    def mag(self, p, x):
        i = self.atom(('mag', frozenset(p.items())))
        if i not in self.hint:
            self.hint[i] = x                    # where to split
            t = self.term(p)
            if t is not None:
                self.varterm[i] = tm.ite(tm.lt(t, tm.R0), tm.rneg(t), t)
        self.nonneg.add(i)
        if i not in self.sq:
            self.sq[i] = self.pmul(p, p)
            self.sqmask |= (MASK - 1) << (W * i)
        return self.mono(i)

    def term(self, p):
        """the polynomial as a term; None when an atom has none"""
        s = tm.R0
        for m, c in p.items():
            v = tm.rc(Fraction(c))
            i = 0
            while m:
                e = m & MASK
                if e:
                    t = self.varterm.get(i)
                    if t is None:
                        return None
                    if t.sort == tm.INT:
                        t = tm.i2r(t)
                    for _ in range(e):
                        v = tm.rmul(v, t)
                m >>= W
                i += 1
            s = tm.radd(s, v)
        return s

    def mgcd(self, a, b):
        r, i = 0, 0
        while a and b:
            r |= min(a & MASK, b & MASK) << (W * i)
            a >>= W
            b >>= W
            i += 1
        return r

    def modkey(self, w, a):
        r = self.rf(a)
        n = {m: int(c) % (1 << w) for m, c in r.n.items() if Fraction(c).denominator == 1}
        if len(n) != len(r.n):
            return a.id
        return frozenset((m, c) for m, c in n.items() if c)

    def fn(self, x):
        f = x.args[0]
        args = [self.rf(a) for a in x.args[1:]]
        if f == 'sqrt':
            return self.sqrt(args[0], x)
        if f in ('sin', 'cos', 'tan'):
            return self.trigfn(f, args[0], x)
        if f == 'atan2' and not args[0].dm and not args[0].df and self.obviously_pos(args[0].n):
            # atan2(y, c) with y >= 0 and y^2 + c^2 = 1 is acos(c)
            y, c = args
            if not self.add(self.add(self.mul(y, y), self.mul(c, c)), self.const(-1)).n:
                x, args, f = tm.rfn('acos', x.args[2]), [c], 'acos'
        key = (f,) + tuple(self.key(a) for a in args)
        return self.atomrf(key, x)

    def sqrt(self, a, x=None):
        c = self.is_const(a)
        if c is not None and c == 0:
            return RF({})
        # a = n / (dm * df); pull the constant content
        if c is not None and c > 0:
            from math import isqrt
            p, q = c.numerator, c.denominator
            if isqrt(p) ** 2 == p and isqrt(q) ** 2 == q:
                return self.const(Fraction(isqrt(p), isqrt(q)))
        scale = Fraction(1)
        lead = abs(Fraction(a.n[max(a.n)]))
        from math import isqrt
        p, q = lead.numerator, lead.denominator
        if isqrt(p) ** 2 == p and isqrt(q) ** 2 == q and lead != 1:
            scale = Fraction(isqrt(p), isqrt(q))
            a = RF(pscale(a.n, num(1 / lead)), a.dm, a.df)
            a = RF({m: num(v) for m, v in a.n.items()}, a.dm, a.df)
            if x is not None:       # the term of the atom, without the constant
                x = tm.rfn('sqrt', tm.rmul(tm.rc(1 / scale ** 2), x.args[1]))
        # even powers in the denominator come out when they are squares of known non-negative atoms
        if a.dm or a.df:
            # sqrt(n/d): try even exponents with non-negative base
            dm_out = 0
            dm_in = 0
            i = 0
            m = a.dm
            ok = True
            while m:
                e = m & MASK
                if e:
                    if e % 2 == 0 and (i in self.nonneg):
                        dm_out |= (e // 2) << (W * i)
                    else:
                        ok = False
                m >>= W
                i += 1
            if ok and not a.df:
                s = self.sqrt(RF(a.n))
                return self.mul(s, RF({0: num(scale)}, dm_out))
            # general: sqrt(n/d) = sqrt(n*d)/|d| with an atom for |d| when the sign is unknown; use s with s^2*d = n
            key = ('sqrtq', self.key(a))
            i = self.atom(key, x)
            self.nonneg.add(i)
            if i not in self.sq:
                d = RF({a.dm: 1})
                dpoly = d.n
                for k, e in a.df:
                    for _ in range(e):
                        dpoly = self.pmul(dpoly, self.polys[k])
                # s = u/d'  with  u^2 = n*d, and s = u/|d|: keep s opaque but record s^2 = n/d through u
                ukey = ('sqrt', self.key(RF(self.pmul(a.n, dpoly))))
                u = self.atom(ukey)
                self.nonneg.add(u)
                if u not in self.sq:
                    self.sq[u] = self.pmul(a.n, dpoly)
                    self.sqmask |= (MASK - 1) << (W * u)
                # |d| as an atom: (|d|)^2 = d^2
                if self.obviously_pos(dpoly):
                    r = self.mul(RF({self.mono(u): num(scale)}), self.inv(RF(dpoly)))
                    return r
                ad = self.atom(('abs', frozenset(dpoly.items())))
                self.nonneg.add(ad)
                if ad not in self.sq:
                    self.sq[ad] = self.pmul(dpoly, dpoly)
                    self.sqmask |= (MASK - 1) << (W * ad)
                return self.mul(RF({self.mono(u): num(scale)}), self.inv(RF({self.mono(ad): 1})))
            return RF({self.mono(i): num(scale)})
        # sqrt of an even monomial of non-negative atoms
        if len(a.n) == 1:
            (m, c2), = a.n.items()
            if c2 == 1:
                i = 0
                mm = m
                out = 0
                ok = True
                while mm:
                    e = mm & MASK
                    if e:
                        if e % 2 == 0 and i in self.nonneg:
                            out |= (e // 2) << (W * i)
                        else:
                            ok = False
                    mm >>= W
                    i += 1
                if ok:
                    return RF({out: num(scale)})
        key = ('sqrt', self.key(a))
        i = self.atom(key, x)
        self.nonneg.add(i)
        if i not in self.sq:
            self.sq[i] = a.n
            self.sqmask |= (MASK - 1) << (W * i)
        return RF({self.mono(i): num(scale)})

    def sign(self, p):
        """1 or -1 if p is a sum of products of non-negative atoms, one of them of positive atoms only"""
        if len(p) == 1:
            (m, _), = p.items()
            if m & (m - 1) == 0 and (m.bit_length() - 1) % W == 0:
                return None              # the hypothesis itself
        k = 1 if next(iter(p.values())) > 0 else -1
        if any((c > 0) != (k > 0) for c in p.values()) or not self.obviously_pos({m: abs(c) for m, c in p.items()}):
            return None
        for m in p:
            i = 0
            while m:
                if m & MASK and i not in self.strict:
                    break
                m >>= W
                i += 1
            else:
                return k
        return None

    def obviously_pos(self, p):
        """sum of even monomials with positive coefficients (zero is excluded by a separate obligation)"""
        for m, c in p.items():
            if c < 0:
                return False
            i = 0
            while m:
                e = m & MASK
                if e % 2 and i not in self.nonneg:
                    return False
                m >>= W
                i += 1
        return True

    def trigfn(self, f, a, x):
        if not a.n:
            return self.const(1) if f == 'cos' else RF({})
        if f == 'tan':
            s, c = self.sincos(a)
            return self.mul(s, self.inv(c))
        s, c = self.sincos(a)
        return s if f == 'sin' else c

    def sincos(self, a):
        if not a.n:
            return RF({}), self.const(1)
        s, c = RF({}), self.const(1)
        for m in sorted(a.n):
            s1, c1 = self.sincos1(m, Fraction(a.n[m]), a.dm, a.df)
            s, c = (self.add(self.mul(s, c1), self.mul(c, s1)),
                    self.add(self.mul(c, c1), self.neg(self.mul(s, s1))))
        return s, c

    def sincos1(self, m, q, dm, df):
        # inverse functions
        if not dm and not df and m and m & (m - 1) == 0:
            i = (m.bit_length() - 1) // W
            if m == self.mono(i):
                k = self.atoms[i]
                if k[0] in ('acos', 'asin') and q.denominator == 1 and abs(q) <= 4:
                    t = self.varterm[i]
                    y = self.rf(t.args[1])
                    root = self.sqrt(self.add(self.const(1), self.neg(self.mul(y, y))))
                    s, c = (root, y) if k[0] == 'acos' else (y, root)
                    return self.multiple(s, c, int(q))
                if k[0] == 'atan2' and q.denominator == 1 and abs(q) <= 4:
                    # y = r sin, x = r cos with r = sqrt(x^2+y^2) > 0 (callers prove that x, y are not both zero)
                    t = self.varterm[i]
                    y, z = self.rf(t.args[1]), self.rf(t.args[2])
                    r = self.inv(self.sqrt(self.add(self.mul(z, z), self.mul(y, y))))
                    return self.multiple(self.mul(y, r), self.mul(z, r), int(q))
        key = (m, dm, df)
        bases = self.trigbase.setdefault(key, [])
        for b in bases:
            r = q / b
            n = round(r)
            if n and abs(r - n) <= abs(n) * Fraction(1, 10 ** 12) and abs(n) <= 16:
                s, c = self.trigatoms(key, b)
                return self.multiple(s, c, n)
        b = abs(q) / 2
        bases.append(b)
        s, c = self.trigatoms(key, b)
        return self.multiple(s, c, 2 if q > 0 else -2)

    def multiple(self, s, c, n):
        if n < 0:
            s, c = self.multiple(s, c, -n)
            return self.neg(s), c
        S, C = RF({}), self.const(1)
        for _ in range(n):
            S, C = (self.add(self.mul(S, c), self.mul(C, s)),
                    self.add(self.mul(C, c), self.neg(self.mul(S, s))))
        return S, C

    def trigatoms(self, key, b):
        k = (key, b)
        r = self.trig.get(k)
        if r is None:
            si = self.atom(('sinb',) + k)
            ci = self.atom(('cosb',) + k)
            # sin^2 = 1 - cos^2
            self.sq[si] = {0: 1, 2 * self.mono(ci): -1}
            self.sqmask |= (MASK - 1) << (W * si)
            r = (si, ci)
            self.trig[k] = r
        return RF({self.mono(r[0]): 1}), RF({self.mono(r[1]): 1})

    # ---------------------------------------------------------------- tests
    def diff(self, a, b):
        return self.add(self.rf(a), self.neg(self.rf(b)))

    def close(self, a, b, tol):
        """equality up to relative coefficient error tol (inexact literals)"""
        ra, rb = self.rf(a), self.rf(b)
        d = self.add(ra, self.neg(rb))
        if not d.n:
            return True
        sc = max([abs(c) for c in d.n.values()])
        # lift a to the common denominator for a reference magnitude
        fa = dict(ra.df)
        lf = dict(d.df)
        try:
            n = self.lift(ra, d.dm, lf, fa) if all(lf.get(k, 0) >= e for k, e in fa.items()) and self.mlcm(
                d.dm, ra.dm) == d.dm else ra.n
        except TooBig:
            return False
        ref = max([abs(c) for c in n.values()] or [0])
        return sc <= ref * tol

    def atoms_in(self, p):
        s = set()
        for m in p:
            i = 0
            while m:
                if m & MASK:
                    s.add(i)
                m >>= W
                i += 1
        return s
