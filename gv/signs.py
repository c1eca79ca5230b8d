"""Refutation by sign abstraction.

Sums are replaced by variables named by their residues at random field points
(so algebraically equal sums share a variable, and a sum and its opposite are
opposite variables); products, quotients, roots, absolute values and
conditionals keep their structure.  The abstraction only forgets facts, so
'unsat' here is 'unsat' of the original conjunction."""
import z3
from fractions import Fraction as Fr
from term import *
import term as tm, algebra

class Skip(Exception): pass
class Abs:
    def __init__(self, conds):
        roots = []; bad = set()
        for x in walk(*conds):
            if x.op in ('ite', 'special') or any(isT(y) and y.id in bad for y in x.args): bad.add(x.id)
            elif x.sort == 'R': roots.append(x)
        self.bad = bad; self.seen = {r.id for r in roots}
        self.pts = [p for p, _ in algebra.points(roots, 2, seed0='sg')] if roots else []
        self.v = {}; self.ax = []; self.memo = {}
    def key(self, t): return tuple(p.ev(t) for p in self.pts)
    def var(self, t):
        k = self.key(t)
        if all(x == 0 for x in k): return z3.RealVal(0)
        if k in self.v: return self.v[k]
        n = tuple(-x % algebra.P for x in k)
        if n in self.v: return -self.v[n]
        r = z3.Real('v%d' % len(self.v)); self.v[k] = r
        return r
    def r(self, t):
        if not isT(t):
            if isinstance(t, float): raise Skip()
            return z3.RealVal(str(Fr(t)))
        if t.id in self.memo: return self.memo[t.id]
        o, a = t.op, t.args
        if o == 'mul': x = self.r(a[0]) * self.r(a[1])
        elif o == 'div': x = self.r(a[0]) / self.r(a[1])
        elif o == 'neg': x = -self.r(a[0])
        elif o == 'ite': x = z3.If(self.b(a[0]), self.r(a[1]), self.r(a[2]))
        elif o == 'fn' and a[0] == 'abs':
            y = self.r(a[1]); x = z3.If(y >= 0, y, -y)
        elif o == 'fn' and a[0] == 'sqrt':
            y = self.r(a[1]); x = self.var(t)
            self.ax += [x >= 0, z3.Implies(y > 0, x > 0), z3.Implies(y == 0, x == 0)]
        elif o == 'fn' and a[0] == 'exp':
            x = self.var(t); self.ax.append(x > 0)
        elif t.id in self.bad or (t.id not in self.seen and any(y.op in ('ite', 'special') for y in walk(t))): raise Skip()
        else: x = self.var(t)
        self.memo[t.id] = x
        return x
    def b(self, c):
        if isinstance(c, bool): return z3.BoolVal(c)
        o, a = c.op, c.args
        if o == 'not': return z3.Not(self.b(a[0]))
        if o == 'and': return z3.And(self.b(a[0]), self.b(a[1]))
        if o == 'or': return z3.Or(self.b(a[0]), self.b(a[1]))
        if o in ('lt', 'le', 'eq'):
            x, y = a
            if not isT(x) and x == 0: l, r = z3.RealVal(0), self.r(y)
            elif not isT(y) and y == 0: l, r = self.r(x), z3.RealVal(0)
            elif o == 'lt' or o == 'le' or o == 'eq':
                l, r = self.r(x), self.r(y)
                if isT(x) or isT(y):
                    try:
                        d = self.r(tm.sub(x, y)); z = z3.RealVal(0)
                        two = {'lt': d < z, 'le': d <= z, 'eq': d == z}[o]
                        one = {'lt': l < r, 'le': l <= r, 'eq': l == r}[o]
                        return z3.And(one, two) if False else two
                    except algebra.Unsupported: raise Skip()
            return {'lt': l < r, 'le': l <= r, 'eq': l == r}[o]
        if o == 'bsym': return z3.Bool(a[0])
        return z3.Bool('b%d' % c.id)
def refuted(conds, timeout=300):
    cs = [c for c in conds if isT(c)]
    if any(c is False for c in conds): return True
    try: A = Abs(cs)
    except (algebra.Unsupported, algebra.Retry, algebra.ZeroDen, RecursionError): return False
    s = z3.Solver(); s.set('timeout', timeout)
    try:
        for c in cs:
            try: s.add(A.b(c))
            except (Skip, algebra.Retry, algebra.ZeroDen, algebra.Unsupported): pass
        for a in A.ax: s.add(a)
        return s.check() == z3.unsat
    except z3.Z3Exception: return False
