"""z3 back end: feasibility of path conditions and non-identity obligations."""
import time
import z3
from fractions import Fraction as Fr
from term import *

stats = {'calls': 0, 'time': 0.0}

class Conv:
    def __init__(self, intmode=False):
        self.memo = {}; self.ax = []; self.fns = {}; self.trig = {}
    def rv(self, f): return z3.RealVal(str(f.numerator) + '/' + str(f.denominator))
    def c(self, a, sort=None, w=0):
        if isT(a): return self.memo[a.id]
        if isinstance(a, bool): return z3.BoolVal(a)
        if sort == 'I': return z3.BitVecVal(a, w)
        if isinstance(a, float): raise ValueError('special')
        return self.rv(Fr(a))
    def conv(self, r):
        if not isT(r): return self.c(r)
        for t in walk(r):
            if t.id not in self.memo: self.memo[t.id] = self.one(t)
        return self.memo[r.id]
    def one(self, t):
        op, a = t.op, t.args
        if op == 'sym': return z3.Real(a[0])
        if op == 'isym': return z3.BitVec(a[0], t.w)
        if op == 'bsym': return z3.Bool(a[0])
        if op == 'pi':
            v = z3.Real('!pi'); self.ax += [v > z3.Q(314159, 100000), v < z3.Q(314160, 100000)]; return v
        if op == 'special': return z3.Real('!special%d' % t.id)
        if t.sort == 'R':
            if op == 'ite': return z3.If(self.c(a[0]), self.c(a[1]), self.c(a[2]))
            if op == 'i2r':
                x = self.c(a[0]); return z3.ToReal(z3.BV2Int(x, bool(a[1])))
            if op == 'neg': return -self.c(a[0])
            if op == 'fn': return self.fn(t)
            x, y = self.c(a[0]), self.c(a[1])
            if op == 'add': return x + y
            if op == 'sub': return x - y
            if op == 'mul': return x * y
            if op == 'div': return x / y
        if t.sort == 'B':
            if op == 'not': return z3.Not(self.c(a[0]))
            if op == 'and': return z3.And(self.c(a[0]), self.c(a[1]))
            if op == 'or': return z3.Or(self.c(a[0]), self.c(a[1]))
            if op in ('lt', 'le', 'eq'):
                x, y = self.c(a[0]), self.c(a[1])
                return x < y if op == 'lt' else x <= y if op == 'le' else x == y
            x, y = self.c(a[0], 'I', t.w), self.c(a[1], 'I', t.w)
            if op == 'ieq': return x == y
            if op == 'iult': return z3.ULT(x, y)
            if op == 'islt': return x < y
        if t.sort == 'I':
            if op == 'ite': return z3.If(self.c(a[0]), self.c(a[1], 'I', t.w), self.c(a[2], 'I', t.w))
            if op == 'b2i': return z3.If(self.c(a[0]), z3.BitVecVal(1, t.w), z3.BitVecVal(0, t.w))
            if op == 'zext': return z3.ZeroExt(t.w - a[0].w, self.c(a[0]))
            if op == 'sext': return z3.SignExt(t.w - a[0].w, self.c(a[0]))
            if op == 'trunc': return z3.Extract(t.w - 1, 0, self.c(a[0]))
            if op == 'r2i':
                x = self.c(a[0]); fl = z3.ToInt(x)
                k = z3.Int('!r2i%d' % t.id)
                self.ax += [z3.If(x >= 0, k == fl, k == -z3.ToInt(-x))]
                return z3.Int2BV(k, t.w)
            x, y = self.c(a[0], 'I', t.w), self.c(a[1], 'I', t.w)
            return {'iadd': lambda: x + y, 'isub': lambda: x - y, 'imul': lambda: x * y, 'iand': lambda: x & y,
                    'ior': lambda: x | y, 'ixor': lambda: x ^ y, 'iudiv': lambda: z3.UDiv(x, y), 'iurem': lambda: z3.URem(x, y),
                    'isdiv': lambda: x / y, 'isrem': lambda: z3.SRem(x, y), 'ishl': lambda: x << y,
                    'ilshr': lambda: z3.LShR(x, y), 'iashr': lambda: x >> y}[op]()
        raise ValueError('smt: ' + op)
    def fn(self, t):
        name = t.args[0]
        if name in ('sin', 'cos') and isT(t.args[1]) and t.args[1].op != 'sym':
            from algebra import linear
            d = linear(t.args[1]); k = d.pop(PI, 0)
            if k and k.denominator == 1:   # shift by a multiple of pi
                r = d.pop(None, Fr(0))
                for a, q in d.items(): r = add(r, mul(q, a))
                v = self.conv(fn(name, r)); return v if k % 2 == 0 else -v
        xs = [self.c(a) for a in t.args[1:]]
        if name == 'abs': return z3.If(xs[0] >= 0, xs[0], -xs[0])
        if name == 'floor': return z3.ToReal(z3.ToInt(xs[0]))
        if name == 'ceil': return -z3.ToReal(z3.ToInt(-xs[0]))
        if name == 'trunc': return z3.If(xs[0] >= 0, z3.ToReal(z3.ToInt(xs[0])), -z3.ToReal(z3.ToInt(-xs[0])))
        f = self.fns.get((name, len(xs)))
        if f is None:
            f = z3.Function('f!' + name, *([z3.RealSort()] * (len(xs) + 1))); self.fns[(name, len(xs))] = f
        v = f(*xs)
        if name == 'sqrt': self.ax += [v >= 0, z3.Implies(xs[0] >= 0, v * v == xs[0]), z3.Implies(xs[0] > 0, v > 0)]
        elif name in ('sin', 'cos'):
            k = t.args[1].id if isT(t.args[1]) else t.args[1]
            self.trig.setdefault(k, {})[name] = v
            self.ax += [v <= 1, v >= -1]
            i = t.args[1]
            if isT(i) and i.op == 'fn' and (i.args[0], name) in (('acos', 'sin'), ('asin', 'cos'), ('atan', 'cos')): self.ax += [v >= 0]
            if isT(i) and i.op == 'fn' and (i.args[0], name) in (('acos', 'cos'), ('asin', 'sin')): u = self.c(i.args[1]); self.ax += [z3.Implies(z3.And(u >= -1, u <= 1), v == u)]
            if isT(i) and i.op == 'fn' and (i.args[0], name) in (('atan', 'sin'), ('atan2', 'sin')): self.ax += [v * self.c(i.args[1]) >= 0]
            if isT(i) and i.op == 'fn' and (i.args[0], name) == ('atan2', 'cos'): self.ax += [v * self.c(i.args[2]) >= 0]
            if len(self.trig[k]) == 2:
                s, c = self.trig[k]['sin'], self.trig[k]['cos']; self.ax += [s * s + c * c == 1]
        elif name == 'exp':
            self.ax += [v > 0, z3.Implies(xs[0] >= 0, v >= 1), z3.Implies(xs[0] <= 0, v <= 1), v >= 1 + xs[0]]
        elif name == 'pow': self.ax += [z3.Implies(xs[0] > 0, v > 0)]
        elif name == 'acos':
            pi = self.conv(PI); self.ax += [v >= 0, v <= pi]
        elif name == 'atan2':
            pi = self.conv(PI); self.ax += [v >= -pi, v <= pi]
        elif name == 'atan':
            pi = self.conv(PI); self.ax += [v > -pi / 2, v < pi / 2]
        elif name == 'tanh': self.ax += [v < 1, v > -1]
        return v

def hard(fn, secs, default):
    """run fn in a forked child that is killed after secs: z3 does not always honour its own time limit"""
    import os, pickle, select, signal
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_REAL, 0); os.close(r)
            with os.fdopen(w, 'wb') as f: f.write(pickle.dumps(fn()))
        except BaseException: pass
        finally: os._exit(0)
    os.close(w); buf = b''; end = time.time() + secs
    try:
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([r], [], [], left)[0]: break
            b = os.read(r, 65536)
            if not b: return pickle.loads(buf) if buf else default
            buf += b
        return default
    finally:
        os.close(r)
        try: os.kill(pid, 9)
        except OSError: pass
        os.waitpid(pid, 0)
BIG = 250
def check(conds, timeout=300, want_model=False, axioms=()):
    cs = [c for c in conds if not isinstance(c, bool)]; n = 0
    for _ in walk(*cs):
        n += 1
        if n > BIG: break
    if n > BIG:
        stats['calls'] += 1; t0 = time.time()
        r = hard(lambda: check_(conds, timeout, want_model), 1 + 1.5 * timeout / 1000., ('unknown', None) if want_model else 'unknown')
        stats['time'] += time.time() - t0
        return r
    return check_(conds, timeout, want_model)
def check_(conds, timeout=300, want_model=False):
    """'sat' / 'unsat' / 'unknown' for the conjunction"""
    cs = []
    for c in conds:
        if isinstance(c, bool):
            if not c: return ('unsat', None) if want_model else 'unsat'
        else: cs.append(c)
    t0 = time.time()
    try:
        cv = Conv()
        s = z3.Solver(); s.set('timeout', timeout)
        fs = [cv.conv(c) for c in cs]
        for f in fs: s.add(f)
        for a in cv.ax: s.add(a)
        r = str(s.check())
    except (ValueError, z3.Z3Exception) as e:
        r = 'unknown'; s = None
    stats['calls'] += 1; stats['time'] += time.time() - t0
    if want_model:
        m = None
        if r == 'sat':
            md = s.model(); m = {}
            for t in walk(*cs):
                if t.op in ('sym', 'isym', 'bsym'):
                    v = md.eval(cv.memo[t.id], model_completion=True)
                    try:
                        if t.op == 'sym':
                            if z3.is_algebraic_value(v): v = v.approx(20)
                            m[t.args[0]] = Fr(v.numerator_as_long(), v.denominator_as_long())
                        elif t.op == 'isym': m[t.args[0]] = v.as_long()
                        else: m[t.args[0]] = z3.is_true(v)
                    except Exception: pass
        return r, m
    return r
