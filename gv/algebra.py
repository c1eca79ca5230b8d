"""Decision back ends for real-arithmetic identities.

is_zero(t): polynomial identity testing of a rational/algebraic/trigonometric
expression DAG over GF(2^61-1) (Schwartz-Zippel).  sin/cos of an atom become a
generic point of the circle, square roots become principal roots in the field
(p = 3 mod 4, so principal roots are multiplicative, as positive real roots
are), every other function application is an opaque value of its arguments.
An identity that holds at TRIALS independent generic points is accepted; the
probability of accepting a false one is below (deg/2^61)^TRIALS.
Anything that cannot be normalised this way is *not* accepted.
"""
from fractions import Fraction as Fr
import hashlib, math
from term import *
import term as tm

P = (1 << 61) - 1
TRIALS = 4

class Retry(Exception): pass
class Unsupported(Exception): pass

def _h(*a):
    d = hashlib.blake2b(repr(a).encode(), digest_size=16).digest()
    return int.from_bytes(d, 'big') % P
def inv(a):
    a %= P
    if a == 0: raise Retry('div0')
    return pow(a, P - 2, P)
def frac(f): return f.numerator % P * inv(f.denominator) % P
HALF = (P + 1) // 2
def isqr(a): return a == 0 or pow(a, (P - 1) // 2, P) == 1

def linear(t):
    """t as {atom: coef}, const"""
    out = {}; 
    def go(t, k):
        if not isT(t):
            out[None] = out.get(None, Fr(0)) + k * t; return
        if t.op == 'add': go(t.args[0], k); go(t.args[1], k)
        elif t.op == 'sub': go(t.args[0], k); go(t.args[1], -k)
        elif t.op == 'neg': go(t.args[0], -k)
        elif t.op == 'mul' and not isT(t.args[0]): go(t.args[1], k * t.args[0])
        elif t.op == 'div' and not isT(t.args[1]) and t.args[1] != 0: go(t.args[0], k / t.args[1])
        else: out[t] = out.get(t, Fr(0)) + k
    go(t, Fr(1))
    return {a: c for a, c in out.items() if c != 0}

class Point:
    """one evaluation point; memoises residues"""
    def __init__(self, seed, positive=()):
        self.seed = seed; self.memo = {}; self.pos = positive; self.circ = {}
    def symval(self, name):
        v = _h(self.seed, 'sym', name)
        if name in self.pos: v = v * v % P
        return v
    def circle(self, atom):
        """(sin, cos) of atom/2"""
        k = self.ev(atom) if isT(atom) else frac(Fr(atom))
        if k in self.circ: return self.circ[k]
        t = _h(self.seed, 'circ', k)
        d = inv(1 + t * t)
        r = (2 * t * d % P, (1 - t * t) * d % P)
        self.circ[k] = r
        return r
    def trig(self, arg):
        s, c = 0, 1
        for atom, k in (linear(arg) if isT(arg) else {None: arg}).items():
            if atom is PI:
                kk = 2 * k
                if kk.denominator == 1:
                    s2, c2 = [(0, 1), (1, 0), (0, -1), (-1, 0)][int(kk) % 4]
                elif kk.denominator == 2:  # multiples of pi/4
                    q = frac(Fr(1, 2)); r = pow(q, (P + 1) // 4, P)
                    if not isqr(q): raise Unsupported('sqrt(1/2)')
                    s2, c2 = {1: (r, r), 3: (r, -r), 5: (-r, -r), 7: (-r, r)}[int(kk * 2) % 8]
                else: s2, c2 = self._opaque_circle(('pi', k))
            elif atom is None: s2, c2 = self._opaque_circle(('c', k))
            elif atom.op == 'fn' and atom.args[0] in ('acos', 'asin', 'atan', 'atan2') and k.denominator == 1:
                s1, c1 = self._inverse(atom)
                s2, c2 = self._mult(s1, c1, int(k))
            elif (2 * k).denominator == 1:
                s1, c1 = self.circle(atom)
                s2, c2 = self._mult(s1, c1, int(2 * k))
            else: s2, c2 = self._mult(*self._opaque_circle(('l', self.ev(atom), k.denominator)), k.numerator)
            s, c = (s * c2 + c * s2) % P, (c * c2 - s * s2) % P
        return s, c
    def _opaque_circle(self, key):
        t = _h(self.seed, 'ocirc', key); d = inv(1 + t * t)
        return 2 * t * d % P, (1 - t * t) * d % P
    def _mult(self, s, c, n):
        if n < 0: s, c = self._mult(s, c, -n); return -s % P, c
        rs, rc = 0, 1
        for _ in range(n): rs, rc = (rs * c + rc * s) % P, (rc * c - rs * s) % P
        return rs, rc
    def _inverse(self, a):
        f = a.args[0]
        if f == 'acos': x = self.ev(a.args[1]); return self.root((1 - x * x) % P), x
        if f == 'asin': x = self.ev(a.args[1]); return x, self.root((1 - x * x) % P)
        if f == 'atan':
            x = self.ev(a.args[1]); c = inv(self.root((1 + x * x) % P)); return x * c % P, c
        y, x = self.ev(a.args[1]), self.ev(a.args[2])
        h = inv(self.root((x * x + y * y) % P)); return y * h % P, x * h % P
    def root(self, v):
        if not isqr(v): raise Retry('nonresidue')
        return pow(v, (P + 1) // 4, P)
    def ev(self, r):
        if not isT(r):
            if isinstance(r, float): raise Unsupported('special value %r' % r)
            return frac(Fr(r))
        m = self.memo
        if r.id in m: return m[r.id]
        for t in walk(r, skip=m): m[t.id] = self.ev1(t)
        return m[r.id]
    def ev1(self, t):
        m = self.memo; op = t.op
        def g(a):
            if isT(a): return m[a.id]
            if isinstance(a, float): raise Unsupported('special value')
            return frac(Fr(a))
        if op == 'mul': return g(t.args[0]) * g(t.args[1]) % P
        if op == 'add': return (g(t.args[0]) + g(t.args[1])) % P
        if op == 'sub': return (g(t.args[0]) - g(t.args[1])) % P
        if op == 'neg': return -g(t.args[0]) % P
        if op == 'div':
            b = g(t.args[1])
            if b == 0: raise ZeroDen('division by identically zero term')
            return g(t.args[0]) * inv(b) % P
        if op == 'sym': return self.symval(t.args[0])
        if op == 'pi': return _h(self.seed, 'pi') ** 2 % P
        if op == 'fn':
            f = t.args[0]
            if f == 'sin': return self.trig(t.args[1])[0]
            if f == 'cos': return self.trig(t.args[1])[1]
            if f == 'sqrt': return self.root(g(t.args[1]))
            if f == 'abs':
                v = g(t.args[1]); return v if isqr(v) else -v % P
            if f in ('asin', 'acos') : return _h(self.seed, f, g(t.args[1]))
            if f == 'exp': return self.expo(t.args[1], None)
            if f == 'pow': return self.expo(t.args[2], t.args[1])
            if f in ('sinh', 'cosh', 'tanh'):
                e = self.expo(t.args[1], None); i = inv(e)
                if f == 'sinh': return (e - i) * HALF % P
                if f == 'cosh': return (e + i) * HALF % P
                if (e + i) % P == 0: raise Retry('tanh')
                return (e - i) * inv(e + i) % P
            return _h(self.seed, f, tuple(g(a) for a in t.args[1:]))
        if op == 'i2r':
            a = t.args[0]
            return _h(self.seed, 'i2r', self.iev(a)) if isT(a) else a
        if t.sort in ('I', 'B'): return None
        if op == 'ite': raise Unsupported('unsplit conditional')
        raise Unsupported(op)
    # exp is evaluated as a homomorphism: the exponent is expanded into monomials
    def expand(self, t):
        """t as a list of (rational coefficient, residue of the monomial, log argument or None); None when too large"""
        if not isT(t): return [(Fr(t), 1, None)]
        op = t.op; a = t.args
        if op in ('add', 'sub'):
            x, y = self.expand(a[0]), self.expand(a[1])
            if x is None or y is None or len(x) + len(y) > 120: return None
            return x + (y if op == 'add' else [(-c, r, l) for c, r, l in y])
        if op == 'neg':
            x = self.expand(a[0]); return None if x is None else [(-c, r, l) for c, r, l in x]
        if op == 'mul':
            x, y = self.expand(a[0]), self.expand(a[1])
            if x is None or y is None or len(x) * len(y) > 120: return None
            out = []
            for c, r, l in x:
                for d, q, m in y:
                    if l is not None and m is not None: return None
                    out.append((c * d, r * q % P, l if l is not None else m))
            return out
        if op == 'div':
            x, y = self.expand(a[0]), self.expand(a[1])
            if x is None or y is None: return None
            if len(y) == 1 and y[0][2] is None and y[0][0] != 0:
                i = inv(y[0][1]); return [(c / y[0][0], r * i % P, l) for c, r, l in x]
            v = self.ev(a[1])
            if v == 0: raise ZeroDen('exponent')
            i = inv(v); return [(c, r * i % P, l) for c, r, l in x]
        if op == 'fn' and a[0] == 'log': return [(Fr(1), 1, self.ev(a[1]))]
        if op == 'fn' and a[0] == 'log10': return [(Fr(1), 1, ('10', self.ev(a[1])))]
        return [(Fr(1), self.ev(t), None)]
    def expo(self, y, base):
        ms = self.expand(y)
        if ms is None: ms = [(Fr(1), self.ev(y), None)]
        if base is not None:
            if not isT(base) and base == 10 and all(l is None or isinstance(l, tuple) for _, _, l in ms): ms = [(c, r, 10 if l is None else l[1]) for c, r, l in ms]; base = None
            elif any(l is not None for _, _, l in ms): ms = [(Fr(1), self.ev(y), None)]
            if base is not None: b = self.ev(base); ms = [(c, r, b) for c, r, l in ms]
        elif any(isinstance(l, tuple) for _, _, l in ms): ms = [(c, r, l) if not isinstance(l, tuple) else (c, r * _h(self.seed, 'log10', (l[1],)) % P, None) for c, r, l in ms]
        acc = {}
        for c, r, l in ms:
            k = (r, l); acc[k] = acc.get(k, Fr(0)) + c
        v = 1
        for (r, l), c in acc.items():
            if c == 0 or r == 0: continue
            if l is not None and r == 1 and (2 * c).denominator == 1: # power of the argument of the logarithm
                if l == 0: raise Retry('log 0')
                n = int(2 * c); z = l if n % 2 == 0 else self.root(l)
                n = n // 2 if n % 2 == 0 else n
                v = v * (pow(z, n, P) if n >= 0 else pow(inv(z), -n, P)) % P; continue
            n, d, u = c.numerator, c.denominator, Fr(1)
            sg = -1 if n < 0 else 1; n = abs(n); e = Fr(1)
            for q in (2, 3, 5, 7):
                i = 0
                while n % q == 0: n //= q; i += 1
                while d % q == 0: d //= q; i -= 1
                lim = 3 if q == 2 else 2 if q == 3 else 1
                if abs(i) <= lim: e *= Fr(q) ** i
                else: e *= Fr(q) ** (i % 8); u *= Fr(q) ** (i - i % 8)
            u *= Fr(n, d)
            h = _h(self.seed, 'exp', (r * frac(u) % P, l)); m = int(e * 2520) * 2
            z = pow(h, m, P)
            v = v * (z if sg > 0 else inv(z)) % P
        return v
    def iev(self, a):
        # integer terms are atoms: identity = syntactic identity after hash-consing
        return ('id', a.id)

class ZeroDen(Exception): pass

def points(terms, n, positive=(), seed0='gv', squares=()):
    """yield n good points at which all terms evaluate"""
    got = 0; k = 0
    while got < n:
        k += 1
        if k > 20000: raise Unsupported('no good sample point')
        p = Point((seed0, k), positive)
        try:
            if not all(isqr(p.ev(t)) for t in squares): continue
            vals = [p.ev(t) for t in terms]
        except Retry: continue
        except ZeroDen:
            raise Unsupported('division by a term that is identically zero')
        got += 1
        yield p, vals

def is_zero(t, positive=(), trials=TRIALS, squares=()):
    if not isT(t): return (not isinstance(t, float)) and t == 0
    # a root or an absolute value has two branches per point: enough points to meet both
    if any(x.op == 'fn' and x.args[0] in ('sqrt', 'abs', 'acos', 'asin', 'atan', 'atan2', 'pow') for x in walk(t)): trials = 32
    for p, (v,) in points([t], trials, positive, squares=squares):
        if v != 0: return False
    return True

# ---------------------------------------------------------------- derivatives
def diff(roots, x):
    """d(root)/dx for symbol x"""
    memo = {}
    def d(a):
        return memo[a.id] if isT(a) else Fr(0)
    for t in walk(*roots):
        if t is x: memo[t.id] = Fr(1); continue
        op = t.op; a = t.args
        if t.sort != 'R': memo[t.id] = Fr(0); continue
        if op in ('sym', 'pi', 'i2r'): r = Fr(0)
        elif op == 'add': r = add(d(a[0]), d(a[1]))
        elif op == 'sub': r = sub(d(a[0]), d(a[1]))
        elif op == 'neg': r = neg(d(a[0]))
        elif op == 'mul': r = add(mul(d(a[0]), a[1]), mul(a[0], d(a[1])))
        elif op == 'div':
            r = div(d(a[0]), a[1])
            if isT(d(a[1])) or d(a[1]) != 0:
                r = sub(r, mul(div(a[0], mul(a[1], a[1])), d(a[1])))
        elif op == 'ite': r = ite(a[0], d(a[1]), d(a[2]))
        elif op == 'fn':
            f = a[0]; ds = [d(z) for z in a[1:]]
            if all(not isT(z) and z == 0 for z in ds): r = Fr(0)
            elif f == 'sin': r = mul(fn('cos', a[1]), ds[0])
            elif f == 'cos': r = neg(mul(fn('sin', a[1]), ds[0]))
            elif f == 'sqrt': r = div(ds[0], mul(Fr(2), t))
            elif f == 'exp': r = mul(t, ds[0])
            elif f == 'cosh': r = mul(fn('sinh', a[1]), ds[0])
            elif f == 'sinh': r = mul(fn('cosh', a[1]), ds[0])
            elif f == 'log': r = div(ds[0], a[1])
            elif f == 'abs': r = mul(div(t, a[1]), ds[0])
            elif f == 'atan': r = div(ds[0], add(Fr(1), mul(a[1], a[1])))
            elif f == 'acos': r = neg(div(ds[0], fn('sqrt', sub(Fr(1), mul(a[1], a[1])))))
            elif f == 'asin': r = div(ds[0], fn('sqrt', sub(Fr(1), mul(a[1], a[1]))))
            elif f == 'tanh': r = mul(sub(Fr(1), mul(t, t)), ds[0])
            elif f == 'pow' and (not isT(ds[1]) and ds[1] == 0):
                r = mul(mul(a[2], div(t, a[1])), ds[0])
            elif f == 'atan2':
                h = add(mul(a[1], a[1]), mul(a[2], a[2]))
                r = div(sub(mul(a[2], ds[0]), mul(a[1], ds[1])), h)
            elif f.startswith('uf:'):
                r = Fr(0)
                for i, dz in enumerate(ds):
                    if isT(dz) or dz != 0:
                        r = add(r, mul(mk('fn', (f + "'%d" % i,) + a[1:], 'R'), dz))
            else: raise Unsupported('derivative of ' + f)
        else: raise Unsupported('derivative of ' + op)
        memo[t.id] = r
    return [d(r) for r in roots]

# ---------------------------------------------------------------- numeric evaluation
def feval(roots, env, mp=None):
    """evaluate terms in mpmath (or float) with env: name -> number; unknown
    opaque functions get a deterministic pseudo-random smooth value"""
    import mpmath
    M = mp or mpmath.mp
    memo = {}
    def num(a):
        if isT(a): return memo[a.id]
        if isinstance(a, bool): return a
        if isinstance(a, float): return M.mpf(a)
        if isinstance(a, Fr): return M.mpf(a.numerator) / a.denominator
        return a
    for t in walk(*roots):
        op = t.op; a = t.args
        if op in ('sym', 'isym', 'bsym'):
            v = env[a[0]]
            if op == 'sym': v = M.mpf(v)
            elif op == 'isym': v = int(v) & ((1 << t.w) - 1)
            else: v = bool(v)
        elif op == 'pi': v = +M.pi
        elif op == 'add': v = num(a[0]) + num(a[1])
        elif op == 'sub': v = num(a[0]) - num(a[1])
        elif op == 'mul': v = num(a[0]) * num(a[1])
        elif op == 'div': v = num(a[0]) / num(a[1])
        elif op == 'neg': v = -num(a[0])
        elif op == 'lt': v = num(a[0]) < num(a[1])
        elif op == 'le': v = num(a[0]) <= num(a[1])
        elif op == 'eq': v = num(a[0]) == num(a[1])
        elif op == 'not': v = not num(a[0])
        elif op == 'and': v = num(a[0]) and num(a[1])
        elif op == 'or': v = num(a[0]) or num(a[1])
        elif op == 'ite': v = num(a[1]) if num(a[0]) else num(a[2])
        elif op == 'fn':
            f = a[0]; z = [num(y) for y in a[1:]]
            if f.startswith('uf:'):
                v = env['__uf__'](f, z) if '__uf__' in env else M.mpf(1)
            elif f == 'abs': v = abs(z[0])
            elif f == 'pow': v = M.power(*z)
            elif f == 'floor': v = M.floor(z[0])
            elif f == 'ceil': v = M.ceil(z[0])
            elif f == 'trunc': v = M.mpf(int(z[0]))
            elif f == 'round': v = M.floor(z[0] + M.mpf('0.5')) if z[0] >= 0 else -M.floor(-z[0] + M.mpf('0.5'))
            elif f == 'fmod': v = M.fmod(abs(z[0]), abs(z[1])) * (1 if z[0] >= 0 else -1)
            elif f == 'log10': v = M.log10(z[0])
            elif f == 'cbrt': v = M.cbrt(z[0])
            else:
                v = getattr(M, f)(*z)
            if isinstance(v, mpmath.mpc): raise ValueError('complex')
        elif op == 'special': raise ValueError('special')
        elif op in ('ieq', 'iult', 'islt'): v = icmp(op[1:], num(a[0]), num(a[1]), t.w)
        elif op == 'b2i': v = int(num(a[0]))
        elif op == 'zext': v = num(a[0])
        elif op == 'sext': v = sext(num(a[0]), a[0].w, t.w)
        elif op == 'trunc': v = num(a[0]) & ((1 << t.w) - 1)
        elif op == 'i2r': v = M.mpf(sgn(num(a[0]), a[0].w) if a[1] else num(a[0]))
        elif op == 'r2i': v = int(num(a[0])) & ((1 << t.w) - 1)
        elif t.sort == 'I' and op[0] == 'i': v = iop(op[1:], num(a[0]), num(a[1]), t.w)
        else: raise ValueError(op)
        memo[t.id] = v
    return [num(r) for r in roots]
