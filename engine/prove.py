"""Discharging obligations: normal forms, case splits on sign conditions, z3, cvc5; numeric refutation."""
import math
import random
import signal
import subprocess
import tempfile
import os
import time
from fractions import Fraction
import numpy as np
import z3
import terms as tm
from terms import T, TRUE, FALSE
from poly import Ring, RF, TooBig, W, MASK, pmul_raw, num

NEG, ZERO, POS = 1, 2, 4
ALL = 7
FLIP = {0: 0, 1: 4, 2: 2, 3: 6, 4: 1, 5: 5, 6: 3, 7: 7}


class Deadline(Exception):
    pass


class Alarm(Exception):
    pass


def _alarm(*a):
    raise Alarm()


def atomic_conds(ts):
    """atomic boolean subterms in dependency order"""
    return [t for t in tm.subterms(ts) if t.sort == tm.BOOL and t.op in ('lt', 'le', 'eq', 'bv')]


class Prover:
    def __init__(self, tol=Fraction(1, 10 ** 11), budget=60.0, z3_ms=8000, use_cvc5=True, both=False):
        self.tol = tol
        self.rings = {}
        self.stats = {'normal_form': 0, 'case_split': 0, 'z3_linear': 0, 'z3': 0, 'cvc5': 0, 'trivial': 0}
        self.solver_s = 0.0
        self.budget = budget
        self.z3_ms = z3_ms
        self.use_cvc5 = use_cvc5
        self.ring = Ring()
        self.gbs = {}
        self.keycache = {}
        self.dl = None
        self.both = both
        self.alt = False
        self.nocut = False

    # ------------------------------------------------------------------ entry
    def prove(self, pc, goal):
        """-> (verdict, method/model). verdict in proved / refuted / unknown"""
        r = self.prove1(pc, goal)
        if r[0] == 'unknown' and not self.alt and any(x.op == 'ite' and x.sort == tm.REAL for x in tm.subterms(list(pc) + [goal])):
            # second view of the formula: minima, maxima and magnitudes as |.|
            alt = Prover(self.tol, self.budget, self.z3_ms, False)
            alt.ring.minmax = alt.alt = True
            alt.dl = time.time() + self.budget
            alt.method = 'z3_linear'
            try:
                al = alt.assume_lits(pc, {})
                lits = [c for c in pc if self.is_lit(c)]
                ts = alt.simplify([c for c in pc if not self.is_lit(c)] + [goal], al) if al is not None else [TRUE]
            except TooBig:
                lits, ts = pc, [goal]
            s = ('proved', 'z3_linear') if alt.linear(lits + ts[:-1], ts[-1], {}, 5000) else alt.prove1(pc, goal)
            self.solver_s += alt.solver_s
            if s[0] == 'proved':
                self.stats['minmax'] = self.stats.get('minmax', 0) + 1
                return 'proved', 'minmax/' + s[1]
        return r

    def prove1(self, pc, goal):
        if goal is TRUE:
            self.stats['trivial'] += 1
            return 'proved', 'trivial'
        if self.ground(goal):
            self.stats['ground'] = self.stats.get('ground', 0) + 1
            return 'proved', 'ground'
        self.dl = time.time() + self.budget
        self.leaves = 0
        self.method = 'normal_form'
        try:
            pc, goal = self.solve_eqs(list(pc), goal)
            if pc is None:
                return 'proved', 'infeasible'
            if goal is TRUE:
                self.stats['normal_form'] += 1
                return 'proved', 'normal_form'
            if self.counts(pc, goal):
                self.method = 'z3_linear'
                self.stats['z3_linear'] += 1
                return 'proved', 'counts'
            if self.skeleton(pc, goal):
                self.method = 'z3_linear'
                self.stats['z3_linear'] += 1
                return 'proved', 'skeleton'
            if self.cut(pc, goal):
                self.stats['cut'] = self.stats.get('cut', 0) + 1
                return 'proved', 'cut'
            r = self.go(pc, goal, {}, 0)
        except Deadline:
            return 'unknown', 'time budget %.0fs exhausted' % self.budget
        except TooBig:
            try:
                r = self.solve(pc, goal)
            except Deadline:
                return 'unknown', 'time budget exhausted'
        if r[0] == 'proved':
            self.stats[self.method] = self.stats.get(self.method, 0) + 1
            return 'proved', self.method
        return r

    # ------------------------------------------------------------------ how many of these conditions hold
    def counts(self, pc, goal):
        """equal sums of [condition ? k : 0]: the conditions are paired, each pair shown equivalent"""
        if goal.op != 'eq' or goal.args[0].sort != tm.INT:
            return False
        memo = {}

        def form(t):
            if t.id in memo:
                return memo[t.id]
            if t.op == 'ic':
                r = {None: t.args[0]} if t.args[0] else {}
            elif t.op == 'iadd':
                r = merge(form(t.args[0]), form(t.args[1]), 1)
            elif t.op == 'imul' and t.args[0].op == 'ic':
                r = {k: v * t.args[0].args[0] for k, v in form(t.args[1]).items()}
            elif t.op == 'ite':
                a, b = form(t.args[1]), form(t.args[2])
                d = merge(a, b, -1)
                if set(d) <= {None}:
                    r = merge(b, {('c', t.args[0]): d.get(None, 0)}, 1)
                else:
                    r = {t: 1}
            else:
                r = {t: 1}
            memo[t.id] = r
            return r

        def merge(a, b, k):
            r = dict(a)
            for x, v in b.items():
                r[x] = r.get(x, 0) + k * v
                if not r[x]:
                    del r[x]
            return r

        d = merge(form(goal.args[0]), form(goal.args[1]), -1)
        if not d:
            return True
        if any(not isinstance(x, tuple) for x in d) or len(d) > 200:
            return False
        pos = [(x[1], v) for x, v in d.items() if v > 0]
        neg = [(x[1], -v) for x, v in d.items() if v < 0]
        if len(pos) != len(neg):
            return False
        for c, v in pos:
            vs = variables(c)
            for i, (c2, v2) in enumerate(neg):
                if v2 == v and variables(c2) == vs:
                    few = [p for p in pc if variables(p) <= vs]
                    if self.linear(few, tm.bor(tm.band(c, c2), tm.band(tm.bnot(c), tm.bnot(c2))), {}, 2000):
                        del neg[i]
                        break
            else:
                return False
        return True

    # ------------------------------------------------------------------ selection and comparison only
    def skeleton(self, pc, goal):
        """conditional values compared with each other: every value below the conditions is named by its normal form,
        the conditions stay as they are"""
        if goal is FALSE or sum(x.op == 'ite' and x.sort == tm.REAL for x in tm.subterms([goal])) < 2:
            return False
        t0 = time.time()
        try:
            e = SkelEnc(self)
            s = z3.Solver()
            s.set('timeout', 1500)
            for c in pc:
                try:
                    s.add(e.b(c))
                except Unenc:
                    pass
            s.push()
            s.add(z3.Not(e.b(goal)))
            if s.check() == z3.unsat:
                return True
            # selections whose condition follows from the hypotheses
            s.pop()
            s.set('timeout', 200)
            known = {}
            for c in {x.args[0] for x in tm.subterms([goal]) if x.op == 'ite' and x.sort == tm.REAL}:
                if len(known) > 40 or time.time() - t0 > 3:
                    break
                if c.op in ('lt', 'le', 'eq', 'not') and not e.has_ite(c):
                    for k, v in ((e.b(c), FALSE), (z3.Not(e.b(c)), TRUE)):
                        if s.check(k) == z3.unsat:
                            known[c] = v
                            break
            if not known:
                return False
            g = tm.subst([goal], known)[0]
            s.set('timeout', 1500)
            s.add(z3.Not(e.b(g)))
            return s.check() == z3.unsat
        except (TooBig, z3.Z3Exception, Unenc):
            return False
        finally:
            self.solver_s += time.time() - t0

    # ------------------------------------------------------------------ cut: conditional subterms as names
    def cut(self, pc, goal):
        """inequalities in which a conditional value (a minimum, a maximum, ...) is divided by or multiplied: the order
        relations of that value to the other values of the goal are proved first, then the goal from those relations
        alone with the value replaced by a name"""
        if goal.op not in ('le', 'lt', 'and', 'not') or self.nocut:
            return False
        names, vs, seen, stack = [], [], set(), [goal]
        nl = False
        while stack:
            t = stack.pop()
            if t in seen:
                continue
            seen.add(t)
            if t.op == 'ite' and t.sort == tm.REAL:
                names.append(t)
                continue
            if t.op in ('rfn', 'ifn', 'iv', 'r2i', 'i2r', 'bv', 'eq') or len(seen) > 60:
                return False
            if t.op == 'rdiv' or t.op == 'rmul' and not any(a.op == 'rc' for a in t.args):
                nl = True
            if t.op == 'rv':
                vs.append(t)
            stack += [a for a in t.args if isinstance(a, T)]
        if not nl or not 1 <= len(names) <= 3 or len(vs) > 3 or sum(x.op == 'ite' for x in tm.subterms(names)) < 4:
            return False
        names.sort(key=lambda t: t.id)
        fresh = {t: tm.rvar('cut%d' % t.id, 'f64') for t in names}
        every = [c for c in pc if variables(c) <= frozenset(v.id for v in vs)]
        facts = []
        for i, a in enumerate(names):
            for b in names[i + 1:] + vs:
                for op, x, y in ((tm.lt, a, b), (tm.lt, b, a), (tm.le, a, b), (tm.le, b, a)):
                    f = op(x, y)
                    if f.op in ('true', 'false'):
                        continue
                    k = (tuple(pc), f)
                    r = _cuts.get(k)
                    if r is None:
                        if len(_cuts) > 5000:
                            _cuts.clear()
                        r = _cuts[k] = bool(self.linear(pc, f, {}, 2000))
                    if r:
                        facts.append(op(fresh.get(x, x), fresh.get(y, y)))
                        break
        if not facts:
            return False
        g, = tm.subst([goal], fresh)
        pr = Prover(self.tol, min(10, max(1, self.dl - time.time())), 3000, False)
        pr.nocut = pr.alt = True
        r = pr.prove1(every + facts, g)
        self.solver_s += pr.solver_s
        return r[0] == 'proved'

    # ------------------------------------------------------------------ formulas without variables
    def ground(self, goal):
        """evaluated with 50 digits; comparisons within 1e-40 are not decided"""
        sub = tm.subterms([goal])
        if any(x.op in ('rv', 'iv', 'bv', 'ifn') for x in sub) or not any(x.op == 'rfn' for x in sub):
            return False
        try:
            return Exact(GroundSample, 0).truth(goal) is True
        except (ZeroDivisionError, ValueError, OverflowError, KeyError, ArithmeticError):
            return False

    # ------------------------------------------------------------------ equalities from assumptions
    def solve_eqs(self, pc, goal):
        """use top-level assumed equalities: linear ones are substituted, x^2 = p become ring rules"""
        self.ring = Ring()
        self.gbs = {}
        self.keycache = {}
        self.sqrules = []
        for _ in range(12):
            done = True
            for i, c in enumerate(pc):
                if c.op == 'eq' and c.args[0].sort == tm.REAL:
                    s = self.linear_solve(c)
                    if s is not None:
                        v, e = s
                        ts = tm.subst(pc[:i] + pc[i + 1:] + [goal], {v: e})
                        pc, goal = [x for x in ts[:-1] if x is not TRUE], ts[-1]
                        if any(x is FALSE for x in pc):
                            return None, None
                        done = False
                        break
            if done:
                break
        for c in pc:
            if c.op in ('lt', 'le') and c.args[1].op == 'rv' and c.args[0].op == 'rc' and c.args[0].args[0] >= 0:
                a = self.ring.atoms_in(self.ring.rf(c.args[1]).n)
                self.ring.nonneg |= a
                if c.op == 'lt':
                    self.ring.strict |= a
        for c in pc:
            if c.op == 'eq' and c.args[0].sort == tm.REAL:
                self.square_rule(c)
        return pc, goal

    def linear_solve(self, c):
        ring = Ring()
        d = ring.diff(c.args[0], c.args[1])
        n = d.n
        if len(n) > 40:
            return None
        cand = {}
        for m, k in n.items():
            if m and m & (m - 1) == 0 and (m.bit_length() - 1) % W == 0:
                cand[(m.bit_length() - 1) // W] = k
        for i, k in cand.items():
            key = ring.atoms[i]
            t = ring.varterm.get(i)
            if t is None or t.op != 'rv':
                continue
            if any(((m >> (W * i)) & MASK) and m != ring.mono(i) for m in n):
                continue
            if any((x >> (W * i)) & MASK for x in [d.dm]):
                continue
            # other atoms must be convertible back to terms
            e = tm.R0
            ok = True
            for m, q in n.items():
                if m == ring.mono(i):
                    continue
                t2 = self.mono_term(ring, m)
                if t2 is None or t in tm.subterms([t2]):
                    ok = False
                    break
                e = tm.radd(e, tm.rmul(tm.rc(-Fraction(q) / k), t2))
            if ok:
                return t, e
        return None

    def mono_term(self, ring, m):
        r = tm.R1
        i = 0
        while m:
            e = m & MASK
            if e:
                t = ring.varterm.get(i)
                if t is None:
                    return None
                if t.sort == tm.INT:
                    t = tm.i2r(t)
                for _ in range(e):
                    r = tm.rmul(r, t)
            m >>= W
            i += 1
        return r

    def square_rule(self, c):
        ring = self.ring
        d = ring.diff(c.args[0], c.args[1])
        if d.dm or d.df or not d.n:
            return
        n = d.n
        for m, k in sorted(n.items(), reverse=True):
            if not m:
                continue
            i = (m.bit_length() - 1) // W
            if m != 2 * ring.mono(i) or i in ring.sq:
                continue
            if any(((x >> (W * i)) & MASK) and x != m for x in n):
                continue
            t = ring.varterm.get(i)
            if t is None or t.op != 'rv':
                continue
            rest = {x: num(-Fraction(q) / k) for x, q in n.items() if x != m}
            ring.add_square(i, rest)
            self.sqrules.append((t, c))
            return
        # x*y = rest with the largest monomial in front (orthogonality relations); the order makes rewriting terminate
        m = max(n)
        k = (m.bit_length() - 1) // W
        r = m - ring.mono(k)
        if len(n) > 24 or len(ring.pr) >= 100 or r <= 0 or r & (r - 1) or (r.bit_length() - 1) % W:
            return
        i = (r.bit_length() - 1) // W
        if i == k or any(self.degree(x) != 2 for x in n):
            return
        if any(ring.varterm.get(j) is None or ring.varterm[j].op != 'rv' for x in n for j in ring.atoms_in({x: 1})):
            return
        ring.add_product(i, k, {x: num(-Fraction(q) / n[m]) for x, q in n.items() if x != m})

    # ------------------------------------------------------------------ sign conditions
    def condkey(self, c):
        """(key, signset) of an atomic condition; key None if constant"""
        r = self.keycache.get(c.id)
        if r is not None:
            return r
        if c.op == 'bv':
            r = (('b', c.id), POS)
        else:
            ring = self.ring
            d = ring.add(ring.rf(c.args[1]), ring.neg(ring.rf(c.args[0])))   # b - a
            base = {'lt': POS, 'le': POS | ZERO, 'eq': ZERO}[c.op]
            n = d.n
            if not n:
                r = (None, bool(base & ZERO))
            else:
                if d.dm or d.df:
                    den = {d.dm: 1}
                    pos = ring.obviously_pos(den)
                    extra = {} if pos else den
                    for k, e in d.df:
                        if e % 2 == 0 or ring.obviously_pos(ring.polys[k]):
                            continue
                        extra = ring.pmul(extra or {0: 1}, ring.polys[k])
                    if extra and c.op != 'eq':
                        n = ring.pmul(n, extra)
                k = ring.is_const(RF(n))
                if k is None and ring.strict:
                    k = ring.sign(n)
                if k is not None:
                    s = POS if k > 0 else NEG if k < 0 else ZERO
                    r = (None, bool(s & base))
                else:
                    lead = Fraction(n[max(n)])
                    inv = 1 / lead
                    key = frozenset((m, num(v * inv)) for m, v in n.items())
                    r = (key, base if lead > 0 else FLIP[base])
        self.keycache[c.id] = r
        return r

    def truth(self, c, allowed):
        k, s = self.condkey(c)
        if k is None:
            return s
        al = allowed.get(k, ALL if not (isinstance(k, tuple) and k and k[0] == 'b') else POS | ZERO)
        if al & ~s == 0:
            return True
        if al & s == 0:
            return False
        return None

    def narrow(self, c, val, allowed):
        """-> new allowed dict or None when contradictory"""
        k, s = self.condkey(c)
        if k is None:
            return allowed if s == val else None
        al = allowed.get(k, ALL)
        if not val:
            s = ALL & ~s
        n = al & s
        if n == 0:
            return None
        if n == al:
            return allowed
        d = dict(allowed)
        d[k] = n
        return d

    def assume_lits(self, pc, allowed):
        rest = []
        for c in pc:
            if not self.is_lit(c):
                continue
            if c.op in ('lt', 'le', 'eq', 'bv'):
                allowed = self.narrow(c, True, allowed)
            elif c.op == 'not':
                allowed = self.narrow(c.args[0], False, allowed)
            if allowed is None:
                return None
        return allowed

    def simplify(self, ts, allowed):
        """replace decided conditions; innermost first until stable"""
        for _ in range(50):
            m = {}
            for c in atomic_conds(ts):
                if any(x.op == 'ite' for x in tm.subterms(list(a for a in c.args if isinstance(a, T)))):
                    continue
                v = self.truth(c, allowed)
                if v is not None:
                    m[c] = TRUE if v else FALSE
            if not m:
                return ts
            n = tm.subst(ts, m)
            if all(x is y for x, y in zip(n, ts)):
                return ts
            ts = n
        return ts

    # ------------------------------------------------------------------ recursion
    def go(self, pc, goal, allowed, depth):
        if time.time() > self.dl:
            raise Deadline()
        pc = [x for c in pc for x in (c.args if c.op == 'and' else (c,))]
        al = self.assume_lits(pc, allowed)
        if al is None:
            return 'proved', None
        allowed = al
        goal, = self.simplify([goal], allowed)
        if goal is TRUE:
            return 'proved', None
        if goal.op == 'and':
            for g in goal.args:
                r = self.go(pc, g, allowed, depth)
                if r[0] != 'proved':
                    return r
            return 'proved', None
        if goal.op == 'eq' and goal.args[0].sort in (tm.REAL, tm.INT):
            if self.ring.close(goal.args[0], goal.args[1], self.tol):
                return 'proved', None
        c = self.pick(goal)
        if c is None:
            # conditions of the path may hide the case distinction
            if goal is FALSE or depth > 0 or True:
                return self.leaf(pc, goal, allowed, depth)
        # linear attempt before splitting (strong on min/max chains)
        if depth == 0 or depth % 6 == 0:
            v = self.linear(pc, goal, allowed, 3000 if depth == 0 else 1500)
            if v:
                self.upgrade('z3_linear')
                return 'proved', None
        self.leaves += 1
        if self.leaves > 600:
            return self.solve(pc, goal)
        self.upgrade('case_split')
        for val in (True, False):
            a2 = self.narrow(c, val, allowed)
            if a2 is None:
                continue
            lit = c if val else tm.bnot(c)
            # literals stay as they are (they define `allowed`); composite conditions are simplified
            lits = [x for x in pc if self.is_lit(x)]
            ts = self.simplify([x for x in pc if not self.is_lit(x)] + [goal], a2)
            p2, g2 = lits + [x for x in ts[:-1] if x is not TRUE], ts[-1]
            if any(x is FALSE for x in p2):
                continue
            if lit not in p2:
                p2 = p2 + [lit]
            if lit.op == 'eq' and lit.args[0].sort == tm.REAL:
                s = self.linear_solve(lit)
                if s is not None:
                    t2 = tm.subst(p2 + [g2], {s[0]: s[1]})
                    p2, g2 = [x for x in t2[:-1] if x is not TRUE], t2[-1]
                    if any(x is FALSE for x in p2):
                        continue
                    r = self.go(p2 + [lit], g2, {}, depth + 1)
                    if r[0] != 'proved':
                        return r
                    continue
            r = self.go(p2, g2, a2, depth + 1)
            if r[0] != 'proved':
                return r
        return 'proved', None

    def is_lit(self, x):
        if x.op == 'not':
            x = x.args[0]
        if x.op == 'bv':
            return True
        return x.op in ('lt', 'le', 'eq') and not any(y.op == 'ite' for y in tm.subterms(list(x.args)))

    def upgrade(self, m):
        order = ['normal_form', 'case_split', 'z3_linear', 'groebner', 'generalised', 'z3', 'cvc5']
        if order.index(m) > order.index(self.method):
            self.method = m

    def pick(self, goal):
        """a condition whose arguments are free of ite, inside the goal"""
        if goal.op == 'eq' and goal.args[0].sort == tm.REAL:
            try:
                d = self.ring.diff(goal.args[0], goal.args[1])
                ats = self.ring.atoms_in(d.n)
                ts = [t for i in ats for t in (self.ring.hint.get(i) or self.ring.varterm.get(i),) if t is not None]
                ts = [t for t in ts if t.op not in ('rv', 'iv')]
                cs = self.cands(ts)
                if cs:
                    return cs
            except TooBig:
                pass
        return self.cands([goal], top=goal)

    def cands(self, ts, top=None):
        best = None
        for c in atomic_conds(ts):
            if c is top:
                continue
            if c.op != 'bv' and any(x.op == 'ite' for x in tm.subterms([a for a in c.args])):
                continue
            k, s = self.condkey(c)
            if k is None:
                continue
            return c
        return best

    def leaf(self, pc, goal, allowed, depth):
        if goal is not FALSE:
            if self.linear(pc, goal, allowed, 2000):
                self.upgrade('z3_linear')
                return 'proved', None
        if self.ideal(pc, goal):
            self.upgrade('groebner')
            return 'proved', None
        r = self.split_path(pc, goal, allowed, depth)
        if r is not None:
            return r
        if self.generalise(pc, goal):
            self.upgrade('generalised')
            return 'proved', None
        return self.solve(pc, goal)

    def split_path(self, pc, goal, allowed, depth):
        """case distinction over the conditions buried in composite path conditions; None when there is none"""
        lits = [x for x in pc if self.is_lit(x)]
        comp = self.simplify([x for x in pc if not self.is_lit(x)], allowed)
        comp = [x for x in comp if x is not TRUE]
        if any(x is FALSE for x in comp):
            return 'proved', None
        new = [x for x in comp if self.is_lit(x)]
        if new:
            return self.go(lits + comp, goal, allowed, depth + 1)
        cs = [c for c in atomic_conds(comp) if c.op == 'bv' or not any(x.op == 'ite' for x in tm.subterms(list(c.args)))]
        if not cs or len(cs) > 8 or depth > 12:
            return None
        ms, self.z3_ms, cv, self.use_cvc5 = self.z3_ms, min(self.z3_ms, 800), self.use_cvc5, False
        try:
            r = self.solve(pc, goal)
        finally:
            self.z3_ms, self.use_cvc5 = ms, cv
        if r[0] != 'unknown':
            return r
        for c in cs:
            if self.condkey(c)[0] is None:
                continue
            self.leaves += 1
            if self.leaves > 600:
                return None
            for val in (True, False):
                a2 = self.narrow(c, val, allowed)
                if a2 is None:
                    continue
                p2 = lits + comp + [c if val else tm.bnot(c)]
                r = self.go(p2, goal, a2, depth + 1)
                if r[0] != 'proved':
                    return r
            self.upgrade('case_split')
            return 'proved', None
        return None

    # ------------------------------------------------------------------ polynomial ideal of the assumed equalities
    def ideal(self, pc, goal):
        """goal's numerator reduces to zero modulo a Groebner basis of the assumed polynomial equalities"""
        if goal.op != 'eq' or goal.args[0].sort != tm.REAL:
            return False
        ring = self.ring
        try:
            p = ring.diff(goal.args[0], goal.args[1]).n
            hyp = []
            for c in pc:
                if c.op == 'eq' and c.args[0].sort == tm.REAL and not any(x.op == 'ite' for x in tm.subterms(list(c.args))):
                    n = ring.diff(c.args[0], c.args[1]).n
                    if n and len(n) < 60:
                        hyp.append(n)
        except TooBig:
            return False
        if not hyp or len(p) > 3000:
            return False
        ats = set(ring.atoms_in(p))
        for h in hyp:
            ats |= ring.atoms_in(h)
        ats, sq = self.closure(ats)
        if len(ats) > 20 or len(hyp) + len(sq) > 40:
            return False
        r = self.with_basis(ats, hyp, sq, 20, lambda conv, back, G: not conv(p).rem(G))
        return bool(r)

    def closure(self, ats):
        """(atoms, indices of atoms with a square rule), closed under the rules"""
        ring = self.ring
        ats = set(ats)
        sq = []
        todo = list(ats)
        while todo:
            i = todo.pop()
            if i in ring.sq and i not in sq:
                sq.append(i)
                new = ring.atoms_in(ring.sq[i]) - ats
                ats |= new
                todo.extend(new)
        return ats, sq

    def with_basis(self, ats, gens, sq, secs, fn):
        """fn(conv, back, basis) with a Groebner basis of gens and the square rules; None on timeout"""
        ring = self.ring
        t0 = time.time()
        left = min(self.dl - t0, secs)
        if left < 1:
            return None
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(int(left))
        try:
            import sympy as sp
            # auxiliary atoms (roots) first, so that they are eliminated before plain variables
            order = sorted(ats, reverse=True)
            R = sp.polys.rings.PolyRing([sp.Symbol('a%d' % i) for i in order], sp.QQ, sp.polys.orderings.grevlex)
            pos = {i: k for k, i in enumerate(order)}

            def conv(q):
                d = {}
                for m, c in q.items():
                    e = [0] * len(order)
                    i = 0
                    while m:
                        if m & MASK:
                            e[pos[i]] = m & MASK
                        m >>= W
                        i += 1
                    c = Fraction(c)
                    d[tuple(e)] = sp.QQ(c.numerator, c.denominator)
                return R.from_dict(d)

            def back(q):
                r = {}
                for e, c in q.terms():
                    m = 0
                    for k, x in enumerate(e):
                        m |= int(x) << (W * order[k])
                    r[m] = num(Fraction(int(c.numerator), int(c.denominator)))
                return r
            key = (frozenset(ats), tuple(frozenset(h.items()) for h in gens), tuple(sorted(sq)))
            G = self.gbs.get(key)
            if G is None:
                gs = [conv(h) for h in gens]
                for i in sq:
                    g = {m: -c for m, c in ring.sq[i].items()}
                    g[2 * ring.mono(i)] = 1
                    gs.append(conv(g))
                for i, k, q in ring.pr:
                    g = {m: -c for m, c in q.items()}
                    g[ring.mono(i) + ring.mono(k)] = 1
                    if ring.atoms_in(g) <= set(ats):
                        gs.append(conv(g))
                gs = [g for g in gs if g]
                G = sp.polys.groebnertools.groebner(gs, R) if gs else []
                self.gbs[key] = G
            return fn(conv, back, G)
        except (Alarm, MemoryError):
            return None
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
            self.solver_s += time.time() - t0

    def generalise(self, pc, goal):
        r = self.generalise1(pc, goal, False)
        if not r and goal is not FALSE and goal.op in ('le', 'lt', 'not') and time.time() < self.dl:
            r = self.generalise1(pc, goal, True)
        return r

    def generalise1(self, pc, goal, goaltoo):
        """name the compound polynomials that occur in inequalities, rewrite everything in terms of the names
        (normal forms modulo the assumed equalities), and ask z3 about the smaller problem"""
        ring = self.ring
        try:
            lits = [c for c in pc if c.sort == tm.BOOL and not any(x.op == 'ite' for x in tm.subterms([c]))]
            conds = [c for c in atomic_conds(lits + [goal]) if c.op != 'bv']
            polys = []
            names = []
            for c in conds:
                k, s = self.condkey(c)
                if k is None:
                    continue
                d = dict(k)
                polys.append(d)
                if c.op == 'eq' and c in pc:
                    continue
                comp = {m: v for m, v in d.items() if self.degree(m) >= 2}
                if 2 <= len(comp) <= 30:
                    if not (c.op != 'eq' and (goaltoo or any(c is x or (x.op == 'not' and x.args[0] is c) for x in lits))):
                        continue
                    lead = Fraction(comp[max(comp)])
                    comp = {m: num(Fraction(v) / lead) for m, v in comp.items()}
                    if comp not in names:
                        names.append(comp)
            if not names or len(names) > 6:
                return False
            hyp = []
            for c in lits:
                if c.op == 'eq' and c.args[0].sort == tm.REAL:
                    n = ring.diff(c.args[0], c.args[1]).n
                    if n and len(n) < 60:
                        hyp.append(n)
        except TooBig:
            return False
        ats = set()
        for q in polys + hyp:
            if len(q) > 2000:
                return False
            ats |= ring.atoms_in(q)
        ats, sq = self.closure(ats)
        if len(ats) > 20:
            return False
        fresh = []
        gens = list(hyp)
        for q in names:
            i = ring.atom(('name', frozenset(q.items())))
            fresh.append(i)
            g = dict(q)
            g[ring.mono(i)] = -1
            gens.append(g)
        ats |= set(fresh)

        def run(conv, back, G):
            def vs_of(n):
                r = set()
                for m in n:
                    i = 0
                    while m:
                        if m & MASK:
                            r.add(i)
                        m >>= W
                        i += 1
                return r
            e = NamedEnc(self, lambda q: back(conv(q).rem(G)) if G else q)
            try:
                main = [(e.b(z), None) for z in (goal,)]
                gv = set(e.vs)
                e.vs.clear()
                hs = []
                for c in lits:
                    e.done.clear()
                    b = e.b(c)
                    hs.append((b, set(e.vs)))
                    e.vs.clear()
            except Unenc:
                return False
            for g in G:
                n = back(g)
                if len(n) <= 12:
                    hs.append((e.raw(n) == 0, vs_of(n)))
            every = set(gv)
            near = gv | set(fresh)
            for k, (_, v) in enumerate(hs):
                every |= v
                if k < len(lits) and len(v) <= 3:
                    near |= v
            for scope, ms in ((gv | set(fresh), 1200), (near, 2000), (every, 3000)):
                s = z3.Solver()
                s.set('timeout', int(min(ms, max(1, (self.dl - time.time()) * 1000))))
                s.add(z3.Not(main[0][0]))
                for b, v in hs:
                    if v <= scope:
                        s.add(b)
                for v in scope:
                    if v in ring.nonneg:
                        s.add(z3.Real('a%d' % v) >= 0)
                if s.check() == z3.unsat:
                    return True
            return False
        return bool(self.with_basis(ats, gens, sq, 12, run))

    def degree(self, m):
        n = 0
        while m:
            n += m & MASK
            m >>= W
        return n

    # ------------------------------------------------------------------ linearised encoding
    def linear(self, pc, goal, allowed, ms):
        t0 = time.time()
        try:
            e = LinEnc(self)
            s = z3.Solver()
            s.set('timeout', ms)
            for c in pc:
                s.add(e.b(c))
            s.add(z3.Not(e.b(goal)))
            for d in e.defs():
                s.add(d)
            r = s.check()
            return r == z3.unsat
        except (TooBig, z3.Z3Exception, Unenc):
            return False
        finally:
            self.solver_s += time.time() - t0

    # ------------------------------------------------------------------ full solvers
    def relevant(self, pc, goal):
        """the hypotheses that speak only about variables of the goal (dropping hypotheses is sound)"""
        vs = variables(goal)
        return [c for c in pc if variables(c) <= vs]

    def solve(self, pc, goal):
        if goal is not FALSE:
            few = self.relevant(pc, goal)
            if len(few) < len(pc):
                t0 = time.time()
                if t0 >= self.dl:
                    raise Deadline()
                try:
                    enc = Enc()
                    s = z3.Solver()
                    s.set('timeout', int(min(self.z3_ms / 2, (self.dl - t0) * 1000)))
                    for c in few:
                        s.add(enc.t(c))
                    s.add(z3.Not(enc.t(goal)))
                    for d in enc.side:
                        s.add(d)
                    r = s.check()
                except Unenc as e:
                    return 'unknown', 'not encodable: %s' % e
                finally:
                    self.solver_s += time.time() - t0
                if r == z3.unsat:
                    self.upgrade('z3')
                    return 'proved', None
        t0 = time.time()
        left = self.dl - t0
        if left <= 0:
            raise Deadline()
        enc = Enc()
        s = z3.Solver()
        s.set('timeout', int(min(self.z3_ms, left * 1000)))
        try:
            for c in pc:
                s.add(enc.t(c))
            s.add(z3.Not(enc.t(goal)))
        except Unenc as e:
            return 'unknown', 'not encodable: %s' % e
        for d in enc.side:
            s.add(d)
        r = s.check()
        self.solver_s += time.time() - t0
        if r == z3.unsat:
            self.upgrade('z3')
            return 'proved', None
        if r == z3.sat:
            return 'refuted', model_values(s.model(), enc)
        reason = 'z3: ' + s.reason_unknown()
        if self.use_cvc5:
            t1 = time.time()
            left = min(self.dl - t1, self.z3_ms / 1000.0 * 1.5)
            if left > 1:
                txt = '(set-logic ALL)\n' + s.to_smt2()
                v = run_cvc5(txt, left)
                self.solver_s += time.time() - t1
                if v == 'unsat':
                    self.upgrade('cvc5')
                    return 'proved', None
                reason += '; cvc5: ' + v
        return 'unknown', reason


_vars = {}
_cuts = {}


def variables(t):
    r = _vars.get(t)
    if r is None:
        if len(_vars) > 20000:
            _vars.clear()
        r = _vars[t] = frozenset(x.id for x in tm.subterms([t]) if x.op in ('rv', 'iv', 'bv') or (x.op == 'rfn' and not any(isinstance(a, T) for a in x.args)))
    return r


def run_cvc5(txt, secs):
    fd, p = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write(txt)
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(secs * 1000), '--nl-cov', p], capture_output=True, text=True,
                           timeout=secs + 5)
        for w in r.stdout.split():
            if w in ('sat', 'unsat', 'unknown'):
                return w
        return 'timeout'
    except (subprocess.TimeoutExpired, OSError):
        return 'timeout'
    finally:
        os.unlink(p)


class Unenc(Exception):
    pass


class LinEnc:
    """monomials become variables; ite atoms get definitions. Sound for unsat answers."""

    def __init__(self, pr):
        self.pr = pr
        self.ring = pr.ring
        self.vars = {}
        self.done = {}
        self.out = []
        self.atomdone = set()

    def mono(self, m):
        v = self.vars.get(m)
        if v is None:
            v = z3.Real('m%x' % m)
            self.vars[m] = v
            self.facts(m, v)
        return v

    def facts(self, m, v):
        ring = self.ring
        # even powers are non-negative
        x = m
        i = 0
        nonneg = True
        strict_even = True
        ats = []
        while x:
            e = x & MASK
            if e:
                ats.append((i, e))
                if e % 2 and i not in ring.nonneg:
                    nonneg = False
            x >>= W
            i += 1
        if nonneg:
            self.out.append(v >= 0)
        if len(ats) == 1 and ats[0][1] == 1:
            self.atomfacts(ats[0][0], v)

    def atomfacts(self, i, v):
        ring = self.ring
        t = ring.varterm.get(i)
        k = ring.atoms[i][0]
        if k == 'mag':
            p = self.poly(dict(ring.atoms[i][1]))
            self.out.append(z3.If(p < 0, v == -p, v == p))
            return
        if t is None:
            if k in ('sinb', 'cosb'):
                self.out.append(v <= 1)
                self.out.append(v >= -1)
            return
        if t.op == 'ite' and t.sort != tm.BOOL:
            c = self.b(t.args[0])
            a = self.lin(t.args[1])
            b = self.lin(t.args[2])
            if a is not None and b is not None:
                self.out.append(z3.If(c, v == a, v == b))
        elif t.op == 'iv':
            if t.lo is not None:
                self.out.append(v >= t.lo)
            if t.hi is not None:
                self.out.append(v <= t.hi)

    def lin(self, t):
        r = self.ring.rf(t)
        if r.dm or r.df:
            return None
        return self.poly(r.n)

    def poly(self, n):
        e = []
        for m, c in n.items():
            c = Fraction(c)
            q = z3.RealVal(str(c))
            e.append(q if m == 0 else q * self.mono(m))
        return z3.Sum(e) if e else z3.RealVal(0)

    def b(self, t):
        r = self.done.get(t.id)
        if r is not None:
            return r
        o = t.op
        if o == 'true':
            r = z3.BoolVal(True)
        elif o == 'false':
            r = z3.BoolVal(False)
        elif o == 'not':
            r = z3.Not(self.b(t.args[0]))
        elif o == 'and':
            r = z3.And([self.b(a) for a in t.args])
        elif o == 'or':
            r = z3.Or([self.b(a) for a in t.args])
        elif o == 'bv':
            r = z3.Bool('b%d' % t.id)
        elif o in ('lt', 'le', 'eq'):
            k, s = self.pr.condkey(t)
            if k is None:
                r = z3.BoolVal(bool(s))
            else:
                p = self.poly(dict(k))
                r = {POS: p > 0, NEG: p < 0, ZERO: p == 0, POS | ZERO: p >= 0, NEG | ZERO: p <= 0,
                     POS | NEG: p != 0}[s]
        else:
            raise Unenc(o)
        self.done[t.id] = r
        return r

    def defs(self):
        return self.out


class SkelEnc:
    """conditional values as If, values without conditions as linear combinations of named normal forms.
    Sound for unsat answers."""

    def __init__(self, pr):
        self.ring = pr.ring
        self.memo = {}
        self.names = {}
        self.cond = {}
        self.lifts = 0

    def has_ite(self, t):
        r = self.cond.get(t.id)
        if r is None:
            r = self.cond[t.id] = t.op == 'ite' or any(self.has_ite(a) for a in t.args if isinstance(a, T))
        return r

    def leaf(self, t):
        r = self.ring.rf(t)
        if not r.n:
            return z3.RealVal(0)
        lead = Fraction(r.n[max(r.n)])
        if len(r.n) <= 3 and not r.dm and not r.df:
            parts = [(frozenset({(m, 1)}), c) for m, c in r.n.items()]
        else:
            parts = [(frozenset((m, num(Fraction(c) / lead)) for m, c in r.n.items()), lead)]
        e = []
        for k, c in parts:
            q = z3.RealVal(str(Fraction(c)))
            if k == frozenset({(0, 1)}) and not r.dm and not r.df:
                e.append(q)
                continue
            k = (k, r.dm, r.df)
            v = self.names.get(k)
            if v is None:
                v = self.names[k] = z3.Real('s%d' % len(self.names))
            e.append(q * v)
        return z3.Sum(e)

    def r(self, t):
        x = self.memo.get(t.id)
        if x is None:
            o, a = t.op, t.args
            if not self.has_ite(t):
                x = self.leaf(t)
            elif o == 'ite':
                x = z3.If(self.b(a[0]), self.r(a[1]), self.r(a[2]))
            elif o == 'radd':
                x = self.r(a[0]) + self.r(a[1])
            elif o == 'rneg':
                x = -self.r(a[0])
            elif o == 'rmul' and (a[0].op == 'rc' or a[1].op == 'rc'):
                x = self.r(a[0]) * self.r(a[1])
            else:
                x = self.lift(t)
            self.memo[t.id] = x
        return x

    def lift(self, t):
        """the outermost selection below other arithmetic is moved out of it"""
        self.lifts += 1
        if self.lifts > 60:
            raise Unenc(t.op)
        seen, layer = {t.id}, [t]
        while layer:
            nxt = []
            for u in layer:
                for a in u.args:
                    if isinstance(a, T) and a.id not in seen and self.has_ite(a):
                        if a.op == 'ite':
                            c = a.args[0]
                            y, n = (tm.subst([t], {c: k})[0] for k in (TRUE, FALSE))
                            return z3.If(self.b(c), self.r(y), self.r(n))
                        seen.add(a.id)
                        nxt.append(a)
            layer = nxt
        raise Unenc(t.op)

    def b(self, t):
        x = self.memo.get(t.id)
        if x is None:
            o, a = t.op, t.args
            if o == 'true':
                x = z3.BoolVal(True)
            elif o == 'false':
                x = z3.BoolVal(False)
            elif o == 'not':
                x = z3.Not(self.b(a[0]))
            elif o == 'and':
                x = z3.And([self.b(y) for y in a])
            elif o == 'or':
                x = z3.Or([self.b(y) for y in a])
            elif o == 'bv':
                x = z3.Bool('b%d' % t.id)
            elif o in ('lt', 'le', 'eq') and a[0].sort in (tm.REAL, tm.INT):
                p, q = self.r(a[0]), self.r(a[1])
                x = p < q if o == 'lt' else p <= q if o == 'le' else p == q
            elif o == 'ite' and t.sort == tm.BOOL:
                x = z3.If(self.b(a[0]), self.b(a[1]), self.b(a[2]))
            else:
                raise Unenc(o)
            self.memo[t.id] = x
        return x


class NamedEnc(LinEnc):
    """polynomials are rewritten by nf and encoded as non-linear expressions over their atoms"""

    def __init__(self, pr, nf):
        LinEnc.__init__(self, pr)
        self.nf = nf
        self.vs = {}

    def poly(self, n):
        return self.raw(self.nf(n))

    def raw(self, n):
        e = []
        for m, c in n.items():
            t = z3.RealVal(str(Fraction(c)))
            i = 0
            while m:
                k = m & MASK
                if k:
                    v = self.vs.get(i)
                    if v is None:
                        v = self.vs[i] = z3.Real('a%d' % i)
                    for _ in range(k):
                        t = t * v
                m >>= W
                i += 1
            e.append(t)
        return z3.Sum(e) if e else z3.RealVal(0)


class Enc:
    """exact encoding to z3 (reals, ints)"""

    def __init__(self):
        self.memo = {}
        self.side = []
        self.trig = {}
        self.fns = {}
        self.vars = {}

    def t(self, root):
        for x in tm.subterms([root]):
            if x.id not in self.memo:
                self.memo[x.id] = self.t1(x)
        return self.memo[root.id]

    def t1(self, x):
        g = self.memo
        a = x.args
        o = x.op
        if o == 'rc':
            return z3.RealVal(str(a[0]))
        if o == 'ic':
            return z3.IntVal(a[0])
        if o == 'true':
            return z3.BoolVal(True)
        if o == 'false':
            return z3.BoolVal(False)
        if o == 'rv':
            v = z3.Real(a[0])
            self.vars[a[0]] = v
            return v
        if o == 'iv':
            v = z3.Int(a[0])
            self.vars[a[0]] = v
            if x.lo is not None:
                self.side.append(v >= x.lo)
            if x.hi is not None:
                self.side.append(v <= x.hi)
            return v
        if o == 'bv':
            v = z3.Bool(a[0])
            self.vars[a[0]] = v
            return v
        if o in ('radd', 'iadd'):
            return g[a[0].id] + g[a[1].id]
        if o in ('rmul', 'imul'):
            return g[a[0].id] * g[a[1].id]
        if o == 'rneg':
            return -g[a[0].id]
        if o == 'rdiv':
            d = g[a[1].id]
            q = z3.Real('q!%d' % x.id)
            self.side.append(z3.Implies(d != 0, q * d == g[a[0].id]))
            return q
        if o == 'ite':
            return z3.If(g[a[0].id], g[a[1].id], g[a[2].id])
        if o == 'lt':
            return g[a[0].id] < g[a[1].id]
        if o == 'le':
            return g[a[0].id] <= g[a[1].id]
        if o == 'eq':
            return g[a[0].id] == g[a[1].id]
        if o == 'not':
            return z3.Not(g[a[0].id])
        if o == 'and':
            return z3.And([g[y.id] for y in a])
        if o == 'or':
            return z3.Or([g[y.id] for y in a])
        if o == 'i2r':
            return z3.ToReal(g[a[0].id])
        if o == 'r2i':
            v = g[a[0].id]
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if o == 'wrapu':
            return g[a[1].id] % (1 << a[0])
        if o == 'wraps':
            w = a[0]
            h = 1 << (w - 1)
            return (g[a[1].id] + h) % (1 << w) - h
        if o == 'idiv':
            n, d = g[a[0].id], g[a[1].id]
            an = z3.If(n >= 0, n, -n)
            ad = z3.If(d >= 0, d, -d)
            q = an / ad
            return z3.If((n >= 0) == (d >= 0), q, -q)
        if o == 'irem':
            n, d = g[a[0].id], g[a[1].id]
            an = z3.If(n >= 0, n, -n)
            ad = z3.If(d >= 0, d, -d)
            r = an % ad
            return z3.If(n >= 0, r, -r)
        if o == 'ifn':
            ar = [g[y.id] for y in a[1:]]
            f = self.fns.get((a[0], len(ar)))
            if f is None:
                f = z3.Function(a[0], *([z3.IntSort()] * (len(ar) + 1)))
                self.fns[(a[0], len(ar))] = f
            r = f(*ar)
            if x.lo is not None:
                self.side.append(r >= x.lo)
                self.side.append(r <= x.hi)
            return r
        if o == 'rfn':
            return self.rfn(x, a[0], [g[y.id] for y in a[1:]])
        raise Unenc(o)

    def rfn(self, x, f, ar):
        if f == 'sqrt':
            s = z3.Real('sqrt!%d' % x.id)
            self.side.append(s >= 0)
            self.side.append(z3.Implies(ar[0] >= 0, s * s == ar[0]))
            return s
        if f in ('sin', 'cos', 'tan'):
            k = x.args[1].id
            if k not in self.trig:
                s, c = z3.Real('sin!%d' % k), z3.Real('cos!%d' % k)
                self.side.append(s * s + c * c == 1)
                self.trig[k] = (s, c)
            s, c = self.trig[k]
            if f == 'sin':
                return s
            if f == 'cos':
                return c
            q = z3.Real('tan!%d' % k)
            self.side.append(z3.Implies(c != 0, q * c == s))
            return q
        if f in ('floor', 'ceil', 'trunc'):
            v = ar[0]
            if f == 'floor':
                return z3.ToReal(z3.ToInt(v))
            if f == 'ceil':
                return -z3.ToReal(z3.ToInt(-v))
            return z3.If(v >= 0, z3.ToReal(z3.ToInt(v)), -z3.ToReal(z3.ToInt(-v)))
        if f == 'fn0' or not ar:
            return z3.Real('const!' + f)
        F = self.fns.get((f, len(ar)))
        if F is None:
            F = z3.Function(f, *([z3.RealSort()] * (len(ar) + 1)))
            self.fns[(f, len(ar))] = F
        return F(*ar)


def model_values(m, enc):
    out = {}
    for n, v in enc.vars.items():
        x = m.eval(v, model_completion=True)
        try:
            if z3.is_algebraic_value(x):
                x = x.approx(30)
            if z3.is_rational_value(x):
                out[n] = Fraction(x.numerator_as_long(), x.denominator_as_long())
            elif z3.is_int_value(x):
                out[n] = x.as_long()
            elif z3.is_true(x) or z3.is_false(x):
                out[n] = bool(z3.is_true(x))
        except (z3.Z3Exception, AttributeError):
            pass
    return out


# ---------------------------------------------------------------------- numeric evaluation
class Sampler:
    """evaluates obligations on pseudo-random inputs to find candidate counterexamples"""

    def __init__(self, n=400, seed=1, fine=None, edge=None):
        self.n = n
        # unusual inputs: small and large magnitudes, repeated values, angles (the variables in `edge`) at multiples of pi/4
        self.edge = edge
        # values that single precision cannot hold, for obligations about a loss of precision
        self.fine = fine
        self.rng = np.random.RandomState(seed)
        self.vals = {}
        self.memo = {}
        self.invalid = np.zeros(n, dtype=bool)
        self.fixed = {}
        self.proj = set()
        self.drawn = {}
        self.scale = 2.0 ** self.rng.choice([0, 0, -7, -10, -10, -13, 10], size=n)

    def draw(self, t):
        v = self.draw1(t)
        if self.edge is not None:
            r, n = self.rng, self.n
            if t in self.edge:
                v = np.where(r.rand(n) < 0.7, r.randint(-4, 5, size=n) * (math.pi / 4), v)
            elif t.op == 'rv':
                v = v * np.where(r.rand(n) < 0.9, self.scale, 1.0)
            key = (t.op, t.lo, t.hi) if t.op != 'rv' else 'rv'
            prev = self.drawn.setdefault(key, [])
            if prev and t not in self.edge:
                w = prev[r.randint(len(prev))]
                v = np.where(r.rand(n) < 0.2, w, v)
            prev.append(v)
        return v

    def draw1(self, t):
        n = self.n
        r = self.rng
        if t.op == 'rv':
            k = n // 4
            a = r.randint(-3, 4, size=k).astype(float)
            b = r.randint(-256, 257, size=k) / 64.0
            c = r.randint(-1000, 1001, size=k) / 16.0
            d = r.randint(0, 129, size=n - 3 * k) / 128.0
            v = np.concatenate([a, b, c, d])
            # mix the regimes per block so that variables of one sample mostly share a regime
            if r.rand() < 0.3:
                r.shuffle(v)
            else:
                for i in range(4):
                    lo, hi = i * k, (n if i == 3 else (i + 1) * k)
                    r.shuffle(v[lo:hi])
            if self.fine is not None and t in self.fine:
                v = v * (1 + (2 * r.randint(-8, 8, size=n) + 1) / 2.0 ** 28)
            return v
        if t.op == 'iv':
            lo, hi = t.lo, t.hi
            out = np.empty(n, dtype=object)
            for i in range(n):
                q = r.rand()
                if q < 0.5:
                    x = int(r.randint(-4, 12))
                elif q < 0.7:
                    x = lo + int(r.randint(0, 4))
                elif q < 0.9:
                    x = hi - int(r.randint(0, 4))
                else:
                    x = lo + int(r.rand() * (hi - lo))
                if self.fine is not None and r.rand() < 0.7:
                    x = (1 << 24) + 2 * int(r.randint(0, 64)) + 1
                out[i] = min(max(x, lo), hi)
            return out
        if t.op == 'bv':
            return r.rand(n) < 0.5
        raise KeyError

    def var(self, t):
        v = self.vals.get(t)
        if v is None:
            v = self.draw(t)
            self.vals[t] = v
        return v

    def solve_assumptions(self, pc, prover):
        """make assumed equalities true on the samples where that is easy"""
        for c in pc:
            if c.op != 'eq' or c.args[0].sort != tm.REAL:
                continue
            s = prover.linear_solve(c)
            if s is not None and s[0] not in self.fixed:
                self.fixed[s[0]] = ('lin', s[1])
                continue
            # x^2 = rest
            ring = Ring()
            d = ring.diff(c.args[0], c.args[1])
            if d.dm or d.df:
                continue
            if self.sphere(d.n, ring) or self.project(d.n, ring):
                continue
            for m, k in sorted(d.n.items(), reverse=True):
                if not m:
                    continue
                i = (m.bit_length() - 1) // W
                t = ring.varterm.get(i)
                if m == 2 * ring.mono(i) and t is not None and t.op == 'rv' and t not in self.fixed and not any(
                        ((x >> (W * i)) & MASK) and x != m for x in d.n):
                    self.fixed[t] = ('sq', d.n, m, k, ring)
                    break

    def sphere(self, n, ring):
        """a*x^2 + b*y^2 + ... = c with fresh variables: draw a point and scale it onto the surface"""
        k = n.get(0, 0)
        vs = []
        for m, v in n.items():
            if not m:
                continue
            i = (m.bit_length() - 1) // W
            t = ring.varterm.get(i)
            if m != 2 * ring.mono(i) or t is None or t.op != 'rv' or t in self.fixed or (
                    t in self.vals and t not in self.proj) or v * k >= 0:
                return False
            vs.append((t, float(v)))
        if not k or len(vs) < 2:
            return False
        tot = self.full(0.0)
        for t, v in vs:
            x = self.var(t)
            tot = tot + v * x * x
        with np.errstate(all='ignore'):
            f = np.sqrt(float(-k) / tot)
        f[~np.isfinite(f)] = 0.0
        for t, v in vs:
            self.vals[t] = self.vals[t] * f
            self.fixed[t] = ('done',)
        return True

    def project(self, n, ring):
        """sum of c*x*y = 0 with fixed x and free y: draw y and project it onto the hyperplane"""
        ps = []
        for m, v in n.items():
            k = (m.bit_length() - 1) // W
            r = m - ring.mono(k) if m else 0
            if r <= 0 or r & (r - 1) or (r.bit_length() - 1) % W:
                return False
            a, b = ring.varterm.get((r.bit_length() - 1) // W), ring.varterm.get(k)
            if a is None or b is None or a.op != 'rv' or b.op != 'rv' or a is b:
                return False
            if a not in self.fixed:
                a, b = b, a
            if a not in self.fixed or b in self.fixed or (b in self.vals and b not in self.proj):
                return False
            ps.append((a, b, float(v)))
        if len({b for _, b, _ in ps}) != len(ps):
            return False
        s = q = self.full(0.0)
        for a, b, v in ps:
            s = s + v * self.var(a) * self.var(b)
            q = q + v * v * self.var(a) ** 2
        with np.errstate(all='ignore'):
            f = s / q
        f[~np.isfinite(f)] = 0.0
        for a, b, v in ps:
            self.vals[b] = self.vals[b] - f * v * self.vals[a]
            self.proj.add(b)
        return True

    def ev(self, t):
        return self.evs([t])[0]

    def evs(self, ts):
        memo = self.memo
        with np.errstate(all='ignore'):
            for x in tm.subterms(ts):
                if x.id in memo:
                    continue
                memo[x.id] = self.ev1(x)
        return [memo[t.id] for t in ts]

    def full(self, v):
        return np.full(self.n, v)

    def ev1(self, x):
        m = self.memo
        a = x.args
        o = x.op
        if o == 'rc':
            try:
                return self.full(float(a[0]))
            except OverflowError:
                return self.full(1e308 if a[0] > 0 else -1e308)
        if o == 'ic':
            return np.full(self.n, a[0], dtype=object)
        if o == 'true':
            return self.full(True)
        if o == 'false':
            return self.full(False)
        if o == 'rv':
            fx = self.fixed.get(x) if self.fixed else None
            if fx is not None and x not in self.vals:
                if fx[0] == 'lin':
                    self.vals[x] = self.ev(fx[1])
                else:
                    _, n, mm, k, ring = fx
                    tot = self.full(0.0)
                    for mo, c in n.items():
                        if mo == mm:
                            continue
                        v = self.full(float(c))
                        i = 0
                        q = mo
                        while q:
                            e = q & MASK
                            if e:
                                b = self.ev(ring.varterm[i])
                                v = v * b.astype(float) ** e
                            q >>= W
                            i += 1
                        tot = tot + v
                    r = -tot / float(k)
                    sg = np.where(self.rng.rand(self.n) < 0.5, 1.0, -1.0)
                    self.vals[x] = sg * np.sqrt(r)
            return self.var(x)
        if o in ('iv', 'bv'):
            return self.var(x)
        if o in ('radd', 'iadd'):
            return m[a[0].id] + m[a[1].id]
        if o in ('rmul', 'imul'):
            return m[a[0].id] * m[a[1].id]
        if o == 'rneg':
            return -m[a[0].id]
        if o == 'rdiv':
            return m[a[0].id] / m[a[1].id]
        if o == 'ite':
            return np.where(m[a[0].id].astype(bool), m[a[1].id], m[a[2].id])
        if o in ('lt', 'le', 'eq') and a[0].sort == tm.REAL:
            self.invalid = self.invalid | np.isnan(m[a[0].id]) | np.isnan(m[a[1].id])
        if o == 'lt':
            return (m[a[0].id] < m[a[1].id]).astype(bool)
        if o == 'le':
            return (m[a[0].id] <= m[a[1].id]).astype(bool)
        if o == 'eq':
            if a[0].sort == tm.REAL:
                p, q = m[a[0].id], m[a[1].id]
                return np.abs(p - q) <= 1e-9 * (1 + np.abs(p) + np.abs(q))
            return (m[a[0].id] == m[a[1].id]).astype(bool)
        if o == 'not':
            return ~m[a[0].id].astype(bool)
        if o == 'and':
            r = self.full(True)
            for y in a:
                r = r & m[y.id].astype(bool)
            return r
        if o == 'or':
            r = self.full(False)
            for y in a:
                r = r | m[y.id].astype(bool)
            return r
        if o == 'i2r':
            return m[a[0].id].astype(float)
        if o == 'r2i':
            v = np.trunc(m[a[0].id])
            return np.array([int(y) if np.isfinite(y) else 0 for y in v], dtype=object)
        if o == 'wrapu':
            return m[a[1].id] % (1 << a[0])
        if o == 'wraps':
            h = 1 << (a[0] - 1)
            return (m[a[1].id] + h) % (1 << a[0]) - h
        if o == 'idiv':
            return np.array([tm.tdiv(int(p), int(q)) if q else 0 for p, q in zip(m[a[0].id], m[a[1].id])],
                            dtype=object)
        if o == 'irem':
            return np.array([int(p) - int(q) * tm.tdiv(int(p), int(q)) if q else 0
                             for p, q in zip(m[a[0].id], m[a[1].id])], dtype=object)
        if o == 'ifn':
            f = {'and': lambda p, q: p & q, 'or': lambda p, q: p | q, 'xor': lambda p, q: p ^ q,
                 'shl': lambda p, q: p << (q & 63), 'lshr': lambda p, q: p >> (q & 63)}.get(a[0])
            if f is None:
                return np.full(self.n, 0, dtype=object)
            return np.array([f(int(p), int(q)) for p, q in zip(m[a[1].id], m[a[2].id])], dtype=object)
        if o == 'rfn':
            f = a[0]
            ar = [m[y.id] for y in a[1:]]
            if f == 'sqrt':
                return np.sqrt(np.where((ar[0] < 0) & (ar[0] > -1e-9), 0, ar[0]))
            if f in ('sin', 'cos', 'tan', 'exp', 'log', 'floor', 'ceil', 'trunc'):
                return getattr(np, f)(ar[0])
            if f in ('asin', 'acos', 'atan'):
                v = ar[0]
                if f != 'atan':
                    v = np.where((np.abs(v) > 1) & (np.abs(v) < 1 + 1e-9), np.sign(v), v)
                return getattr(np, 'arc' + f[1:])(v)
            if f == 'atan2':
                return np.arctan2(ar[0], ar[1])
            if f == 'pow':
                return np.power(ar[0], ar[1])
            if f == 'fmod':
                return np.fmod(ar[0], ar[1])
            if f == 'hypot':
                return np.hypot(ar[0], ar[1])
            if f == 'round':
                return np.where(ar[0] < 0, -np.floor(0.5 - ar[0]), np.floor(ar[0] + 0.5))
            if f == 'rnd32':
                return ar[0].astype(np.float32).astype(float)
            if f == 'mul64':
                return ar[0].astype(float) * ar[1].astype(float)
            if f == 'mul32':
                return (ar[0].astype(np.float32) * ar[1].astype(np.float32)).astype(float)
            return self.full(np.nan)
        raise KeyError(o)

    def violated(self, goal):
        """samples on which the goal is clearly false"""
        if goal.op == 'eq' and goal.args[0].sort == tm.REAL:
            p, q = self.evs(list(goal.args))
            with np.errstate(all='ignore'):
                return np.abs(p - q) > (1e-5 if self.fine is None else 1e-9) * (1e-3 + np.abs(p) + np.abs(q))
        if goal.op == 'and':
            r = self.full(False)
            for g in goal.args:
                r = r | self.violated(g)
            return r
        return ~self.ev(goal).astype(bool)

    def candidates(self, pc, goal, inputs, limit=3):
        ok = self.full(True)
        for c in pc:
            ok = ok & self.ev(c).astype(bool)
        bad = ok & self.violated(goal) & ~self.invalid
        idx = np.nonzero(bad)[0]
        out = []
        for i in idx[:40]:
            if len(out) >= limit:
                break
            if self.confirm(pc, goal, int(i)):
                out.append({t.args[0]: self.var(t)[i] for t, _ in inputs})
        return out

    # -- exact re-evaluation of one sample: rationals, or 50 digits below a root or a transcendental function
    def confirm(self, pc, goal, i):
        ev = Exact(self, i)
        try:
            for c in pc:
                if ev.truth(c) is not True:
                    return False
            return ev.truth(goal) is False
        except (ZeroDivisionError, ValueError, OverflowError, KeyError, ArithmeticError):
            return False

    def satisfied(self, pc):
        ok = self.full(True)
        for c in pc:
            ok = ok & self.ev(c).astype(bool)
        return int((ok & ~self.invalid).sum())


class GroundSample:
    fixed = {}
    fine = None
    edge = None


def angles(ts):
    out = set()
    for x in tm.subterms(ts):
        if x.op == 'rfn' and x.args[0] in ('sin', 'cos', 'tan'):
            out.update(y for y in tm.subterms([x.args[1]]) if y.op == 'rv')
    return out


class Exact:
    """three-valued evaluation of one sample; comparisons too close to call are None"""
    EPS = Fraction(1, 10 ** 9)

    def __init__(self, smp, i):
        import mpmath
        self.mp = mpmath.mp.clone()
        self.mp.dps = 50
        self.s = smp
        self.i = i
        self.close = 10 ** 9
        self.memo = {}
        # an equality solved in floating point holds only approximately
        self.approx = bool(smp.fixed)

    def num(self, t):
        for x in tm.subterms([t]):
            if x.id not in self.memo:
                self.memo[x.id] = self.num1(x)
        return self.memo[t.id]

    def mpf(self, v):
        if isinstance(v, (Fraction, int)):
            v = Fraction(v)
            return self.mp.mpf(v.numerator) / v.denominator
        return v

    def cmp(self, a, b, op):
        exact = isinstance(a, (Fraction, int)) and isinstance(b, (Fraction, int))
        if exact and not self.approx:
            if op == 'eq':
                # constants such as 0.1 or epsilon carry their own rounding
                return True if a == b else None if abs(a - b) * self.close < abs(a) + abs(b) else False
            return a < b if op == 'lt' else a <= b
        a, b = self.mpf(a), self.mpf(b)
        sc = 1 + abs(a) + abs(b)
        if op == 'eq':
            if abs(a - b) <= sc * self.mp.mpf(10) ** -9:
                return True
            if abs(a - b) > self.mp.mpf(10) ** (-5 if self.s.fine is None else -8) * (abs(a) + abs(b) + self.mp.mpf(10) ** -3):
                return False
            return None
        if abs(a - b) <= sc * self.mp.mpf(10) ** (-9 if self.approx else -40):
            return None
        return a < b

    def num1(self, x):
        a = x.args
        o = x.op
        m = self.memo
        if o in ('rc', 'ic'):
            return a[0]
        if o == 'true':
            return True
        if o == 'false':
            return False
        if o == 'rv':
            return Fraction(float(self.s.ev(x)[self.i]))
        if o == 'iv':
            return int(self.s.var(x)[self.i])
        if o == 'bv':
            return bool(self.s.var(x)[self.i])
        if o == 'not':
            v = m[a[0].id]
            return None if v is None else not v
        if o == 'and':
            vs = [m[y.id] for y in a]
            return False if any(v is False for v in vs) else None if any(v is None for v in vs) else True
        if o == 'or':
            vs = [m[y.id] for y in a]
            return True if any(v is True for v in vs) else None if any(v is None for v in vs) else False
        if o == 'ite':
            c = m[a[0].id]
            return None if c is None else m[a[1].id] if c else m[a[2].id]
        ar = [m[y.id] if isinstance(y, tm.T) else y for y in a]
        if any(v is None for v in ar):
            return None
        if o in ('lt', 'le', 'eq'):
            return self.cmp(ar[0], ar[1], o)
        exact = all(isinstance(v, (Fraction, int)) for v in ar if not isinstance(v, str))
        if not exact:
            ar = [v if isinstance(v, str) else self.mpf(v) for v in ar]
        if o in ('radd', 'iadd'):
            return ar[0] + ar[1]
        if o in ('rmul', 'imul'):
            return ar[0] * ar[1]
        if o == 'rneg':
            return -ar[0]
        if o == 'rdiv':
            return None if ar[1] == 0 else (Fraction(ar[0]) / ar[1] if exact else ar[0] / ar[1])
        if o == 'i2r':
            return Fraction(ar[0])
        if o == 'r2i':
            v = ar[0]
            if not exact or self.approx:
                v = self.mpf(v)
                if abs(v - self.mp.nint(v)) < self.mp.mpf(10) ** (-9 if self.approx else -40):
                    return None
            return int(v)
        if o == 'wrapu':
            return ar[1] % (1 << ar[0])
        if o == 'wraps':
            h = 1 << (ar[0] - 1)
            return (ar[1] + h) % (1 << ar[0]) - h
        if o == 'idiv':
            return tm.tdiv(ar[0], ar[1]) if ar[1] else None
        if o == 'irem':
            return ar[0] - ar[1] * tm.tdiv(ar[0], ar[1]) if ar[1] else None
        if o == 'ifn':
            f = {'and': lambda p, q: p & q, 'or': lambda p, q: p | q, 'xor': lambda p, q: p ^ q,
                 'shl': lambda p, q: p << (q & 63), 'lshr': lambda p, q: p >> (q & 63)}.get(ar[0])
            return f(ar[1], ar[2]) if f else None
        if o == 'rfn':
            f, v = ar[0], [self.mpf(y) for y in ar[1:]]
            mp = self.mp
            if f == 'sqrt':
                if exact and not self.approx and ar[1] >= 0:
                    q = Fraction(ar[1])
                    n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
                    if n * n == q.numerator and d * d == q.denominator:
                        return Fraction(n, d)
                return mp.sqrt(v[0]) if v[0] >= 0 else (mp.mpf(0) if v[0] > -1e-9 else None)
            if f in ('floor', 'ceil', 'trunc', 'round'):
                q = ar[1]
                y = self.mpf(q)
                half = y * 2
                if (not exact or self.approx) and abs(half - mp.nint(half)) < mp.mpf(10) ** (-9 if self.approx else -40):
                    return None
                q = Fraction(q) if exact else Fraction(int(mp.floor(y * 2 ** 60)), 2 ** 60)
                if f == 'floor':
                    return Fraction(math.floor(q))
                if f == 'ceil':
                    return Fraction(math.ceil(q))
                if f == 'trunc':
                    return Fraction(math.trunc(q))
                return Fraction(math.floor(abs(q) + Fraction(1, 2))) * (-1 if q < 0 else 1)
            if f in ('asin', 'acos') and abs(v[0]) > 1:
                if abs(v[0]) > 1 + mp.mpf(10) ** -9:
                    return None
                v[0] = mp.sign(v[0])
            if f in ('sin', 'cos', 'tan', 'exp', 'log', 'asin', 'acos', 'atan', 'atan2', 'hypot'):
                if f == 'log' and v[0] <= 0:
                    return None
                return getattr(mp, f)(*v)
            if f == 'pow':
                return mp.power(v[0], v[1]) if v[0] > 0 else None
            if f == 'rnd32':
                return Fraction(float(np.float32(float(v[0]))))
            if f == 'mul64':
                return Fraction(float(v[0]) * float(v[1]))
            if f == 'mul32':
                return Fraction(float(np.float32(float(v[0])) * np.float32(float(v[1]))))
            return None
        raise KeyError(o)

    def truth(self, c):
        v = self.num(c)
        return v if v is None else bool(v)
