"""Hash-consed terms over mathematical reals, bit-vector integers and booleans.

Concrete values are plain Python objects: Fraction (reals), int (bit-vectors,
stored unsigned), bool.  Everything symbolic is a T.
"""
from fractions import Fraction as Fr
import math, struct

class T:
    __slots__ = ('op', 'args', 'sort', 'w', 'id', '_h')
    def __repr__(self): return pretty(self)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    def __bool__(self): raise TypeError('symbolic truth value')

_tab = {}
def _key(a):
    if isinstance(a, T): return ('t', a.id)
    return (type(a).__name__, a)
def mk(op, args, sort, w=0):
    k = (op, sort, w) + tuple(_key(a) for a in args)
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.args = tuple(args); t.sort = sort; t.w = w; t.id = len(_tab) + 1
        _tab[k] = t
    return t

def isT(x): return isinstance(x, T)
INF = float('inf'); NAN = float('nan')
def isspecial(x): return isinstance(x, float)

# ---------------------------------------------------------------- constants
def simplest_between(lo, hi):
    """simplest rational in the closed interval [lo,hi], 0<lo<=hi"""
    fl = lo.numerator // lo.denominator
    if fl == lo: return Fr(fl)
    if fl + 1 <= hi: return Fr(fl + 1)
    r = simplest_between(1 / (hi - fl), 1 / (lo - fl))
    return fl + 1 / r
_pi_cache = {}
def fp_const(bits):
    x = struct.unpack('<d', struct.pack('<Q', bits))[0]
    return from_float(x)
PI = mk('pi', (), 'R')
_fc = {}
def from_float(x):
    """Real denoted by a double literal: k*pi/n when it is the double nearest to
    that, else the simplest rational that rounds to it."""
    if x in _fc and x != 0: return _fc[x]
    r = _from_float(x); _fc[x] = r; return r
def _from_float(x):
    if math.isinf(x) or math.isnan(x): return x
    if x == 0: return Fr(0)
    if x == int(x): return Fr(int(x)) if abs(x) < 2**53 or abs(x) > 1e300 else Fr(repr(x))
    ax = abs(x)
    for n in (1, 2, 3, 4, 6, 8, 180):
        k = round(ax * n / math.pi)
        if 0 < k < 64 and (k * math.pi / n == ax or k * (math.pi / n) == ax):
            return mul(Fr(k if x > 0 else -k, n), PI)
    f = Fr(ax)
    ulp = Fr(math.ulp(ax)) / 2
    s = simplest_between(f - ulp * Fr(99, 100), f + ulp * Fr(99, 100))
    return s if x > 0 else -s

# ---------------------------------------------------------------- reals
def sym(name): return mk('sym', (name,), 'R')
def add(a, b):
    if not isT(a):
        if isspecial(a) or isspecial(b): return _spec(lambda x, y: x + y, a, b)
        if not isT(b): return a + b
        if a == 0: return b
    elif not isT(b):
        if isspecial(b): return b
        if b == 0: return a
    if isT(a) and a.op == 'neg': return sub(b, a.args[0])
    if isT(b) and b.op == 'neg': return sub(a, b.args[0])
    if isT(a) and a.op == 'sub' and isT(b) and a.args[1] is b: return a.args[0]
    if isT(b) and b.op == 'sub' and isT(a) and b.args[1] is a: return b.args[0]
    if isT(a) and isT(b):
        p = _pimult(a); q = _pimult(b)
        if p is not None and q is not None: return mul(p + q, PI)
    if isT(a) and (not isT(b) or a.id > b.id): a, b = b, a
    return mk('add', (a, b), 'R')
def sub(a, b):
    if isspecial(a) or isspecial(b): return _spec(lambda x, y: x - y, a, b)
    if not isT(a) and not isT(b): return a - b
    if a is b: return Fr(0)
    if not isT(b) and b == 0: return a
    if not isT(a) and a == 0: return neg(b)
    if isT(b) and b.op == 'neg': return add(a, b.args[0])
    if isT(a) and a.op == 'add' and isT(b):
        if a.args[0] is b: return a.args[1]
        if a.args[1] is b: return a.args[0]
    if isT(a) and isT(b):
        p = _pimult(a); q = _pimult(b)
        if p is not None and q is not None: return mul(p - q, PI)
    return mk('sub', (a, b), 'R')
def neg(a):
    if not isT(a): return -a
    if a.op == 'neg': return a.args[0]
    if a.op == 'sub': return mk('sub', (a.args[1], a.args[0]), 'R')
    return mk('neg', (a,), 'R')
def _spec(f, *a):
    if any(isT(x) for x in a):
        x = [v for v in a if isspecial(v)][0]
        if x != x: return x
        return mk('special', (x,) + tuple(a), 'R')
    try: return f(*[float(v) for v in a])
    except ZeroDivisionError: return NAN
def mul(a, b):
    if not isT(a):
        if isspecial(a) or isspecial(b): return _spec(lambda x, y: x * y, a, b)
        if not isT(b): return a * b
        if a == 0: return a
        if a == 1: return b
        if a == -1: return neg(b)
    elif not isT(b):
        if isspecial(b): return _spec(lambda x, y: x * y, a, b)
        if b == 0: return b
        if b == 1: return a
        if b == -1: return neg(a)
    if isT(a) and a.op == 'neg': return neg(mul(a.args[0], b))
    if isT(b) and b.op == 'neg': return neg(mul(a, b.args[0]))
    if isT(a) and (not isT(b) or a.id > b.id): a, b = b, a
    if not isT(a) and b.op == 'mul' and not isT(b.args[0]): return mul(a * b.args[0], b.args[1])
    return mk('mul', (a, b), 'R')
def div(a, b):
    if isspecial(a) or isspecial(b):
        if isspecial(b) and not isT(a) and math.isinf(b) and not isspecial(a): return Fr(0)
        return _spec(lambda x, y: x / y, a, b)
    if not isT(b):
        if b == 0:
            if not isT(a): return NAN if a == 0 else (INF if a > 0 else -INF)
            return mk('div', (a, b), 'R')
        if not isT(a): return a / b
        return mul(1 / b, a)
    if not isT(a) and a == 0: return a
    if a is b: return Fr(1)
    if isT(a) and a.op == 'neg': return neg(div(a.args[0], b))
    if b.op == 'neg': return neg(div(a, b.args[0]))
    return mk('div', (a, b), 'R')

def _isqrt(f):
    n = math.isqrt(f.numerator); d = math.isqrt(f.denominator)
    if n * n == f.numerator and d * d == f.denominator: return Fr(n, d)
def ipow(a, n):
    if n == 0: return Fr(1)
    if n < 0: return div(Fr(1), ipow(a, -n))
    if not isT(a): return a ** n
    h = ipow(a, n // 2)
    r = mul(h, h)
    return mul(r, a) if n & 1 else r
def _pimult(x):
    """x == q*pi for rational q -> q"""
    if not isT(x): return Fr(0) if x == 0 else None
    if x is PI: return Fr(1)
    if x.op == 'mul' and not isT(x.args[0]) and x.args[1] is PI: return x.args[0]
    if x.op == 'neg':
        q = _pimult(x.args[0]); return None if q is None else -q
    return None
def _split10(y):
    """y = log10(k) + z -> (k, z); (None, y) when there is no such part"""
    if not isT(y): return None, y
    if y.op == 'fn' and y.args[0] == 'log10': return y.args[1], Fr(0)
    if y.op == 'neg' or y.op in ('add', 'sub'):
        if y.op == 'neg':
            k, z = _split10(y.args[0]); return (None, y) if k is None else (div(Fr(1), k), neg(z))
        k, z = _split10(y.args[0]); l, w = _split10(y.args[1])
        if k is None and l is None: return None, y
        if l is not None and y.op == 'sub': l = div(Fr(1), l)
        k = l if k is None else k if l is None else mul(k, l)
        return k, (add if y.op == 'add' else sub)(z, w)
    return None, y
def _mono10(x):
    """x = c * pi**n * 10**e with c a positive rational -> (c, n, e), None otherwise; e is None when there is no power of ten"""
    if not isT(x): return (x, 0, None) if x > 0 else None
    if x is PI: return (Fr(1), 1, None)
    if x.op == 'fn' and x.args[0] == 'pow' and not isT(x.args[1]) and x.args[1] == 10: return Fr(1), 0, x.args[2]
    if x.op in ('mul', 'div'):
        p = _mono10(x.args[0]); q = _mono10(x.args[1])
        if p is None or q is None: return None
        (c, n, e), (d, m, f) = p, q
        if x.op == 'mul': return c * d, n + m, e if f is None else f if e is None else add(e, f)
        return c / d, n - m, neg(f) if e is None and f is not None else e if f is None else sub(e, f)
    return None
def fn(name, *a):
    """apply a real function, with exact special values"""
    if name in ('sin', 'cos', 'tan') and not isspecial(a[0]):
        q = _pimult(a[0])
        if q is not None and (2 * q).denominator == 1:
            k = int(2 * q) % 4
            s, c = [(0, 1), (1, 0), (0, -1), (-1, 0)][k]
            if name == 'sin': return Fr(s)
            if name == 'cos': return Fr(c)
            return Fr(s) if c else INF
        if isT(a[0]) and a[0].op == 'neg':
            r = fn(name, a[0].args[0])
            return r if name == 'cos' else neg(r)
        if isT(a[0]) and a[0].op == 'mul' and not isT(a[0].args[0]) and a[0].args[0] < 0:
            r = fn(name, mul(-a[0].args[0], a[0].args[1]))
            return r if name == 'cos' else neg(r)
        if name == 'tan': return div(fn('sin', a[0]), fn('cos', a[0]))
    if name == 'sqrt':
        x = a[0]
        if isspecial(x): return x
        if not isT(x):
            if x < 0: return NAN
            r = _isqrt(x)
            if r is not None: return r
        elif x.op == 'mul' and x.args[0] is x.args[1]: return fn('abs', x.args[0])
    if name == 'abs':
        x = a[0]
        if not isT(x): return abs(x)
        if x.op == 'neg': return fn('abs', x.args[0])
        if x.op == 'fn' and x.args[0] in ('abs', 'sqrt', 'exp'): return x
        if x.op == 'mul' and x.args[0] is x.args[1]: return x
        if x is PI: return x
    if name == 'pow':
        x, y = a
        if isspecial(x) or isspecial(y): return NAN
        if not isT(y):
            if y.denominator == 1 and abs(y) <= 64: return ipow(x, int(y))
            if y.denominator == 2 and abs(y) <= 32:
                s = ipow(fn('sqrt', x), abs(y.numerator))
                return s if y > 0 else div(Fr(1), s)
            if y < 0: return div(Fr(1), fn('pow', x, -y))
        elif y.op == 'neg': return div(Fr(1), fn('pow', x, y.args[0]))
        if not isT(x) and x == 1: return Fr(1)
        if not isT(x) and x == 10 and isT(y):                 # 10**(log10(c) + z) = c * 10**z
            k, z = _split10(y)
            if k is not None: return mul(k, fn('pow', x, z))
    if name == 'log10':
        x = a[0]
        if not isspecial(x):
            m = _mono10(x)
            if m is not None and (m[2] is not None or (m[1] and isT(x) and x.op != 'pi')):
                r = fn('log10', m[0]) if not m[1] else add(fn('log10', m[0]), mul(Fr(m[1]), fn('log10', PI)))
                return r if m[2] is None else add(r, m[2])
            if not isT(x) and x > 0:
                n = 0
                while x.denominator == 1 and x >= 10 and x % 10 == 0: x /= 10; n += 1
                if x == 1: return Fr(n)
                if x < 1: return neg(fn('log10', 1 / x))
                if n: return add(mk('fn', ('log10', x), 'R'), Fr(n))
    if name == 'exp':
        x = a[0]
        if isspecial(x): return Fr(0) if x < 0 else x
        if not isT(x):
            if x == 0: return Fr(1)
            if x < 0: return div(Fr(1), fn('exp', -x))
        elif x.op == 'neg': return div(Fr(1), fn('exp', x.args[0]))
        elif x.op == 'fn' and x.args[0] == 'log': return x.args[1]
        elif x.op == 'mul' and not isT(x.args[0]) and x.args[0] < 0: return div(Fr(1), fn('exp', mul(-x.args[0], x.args[1])))
    if name == 'log':
        x = a[0]
        if not isT(x) and x == 1: return Fr(0)
        if isT(x) and x.op == 'fn' and x.args[0] == 'exp': return x.args[1]
    if name in ('sin', 'cos') and isT(a[0]) and a[0].op == 'fn' and a[0].args[0] == 'atan2' and not isT(a[0].args[1]) and not isT(a[0].args[2]):
        y, x = a[0].args[1:]; q = x * x + y * y; n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
        if n * n == q.numerator and d * d == q.denominator: return (y if name == 'sin' else x) / Fr(n, d)
    if name in ('asin', 'atan', 'sinh', 'tanh', 'atanh') and not isT(a[0]) and a[0] == 0: return Fr(0)
    if name == 'cosh' and not isT(a[0]) and a[0] == 0: return Fr(1)
    if name == 'acos' and not isT(a[0]) and a[0] == 1: return Fr(0)
    if name == 'acos' and not isT(a[0]) and a[0] == 0: return mul(Fr(1, 2), PI)
    if name == 'acos' and not isT(a[0]) and a[0] == -1: return PI
    if name == 'atan2' and not isT(a[0]) and a[0] == 0 and not isT(a[1]):
        return Fr(0) if a[1] >= 0 else PI
    if name == 'atan2' and not isT(a[1]) and a[1] == 0 and not isT(a[0]): return mul(Fr(1, 2) if a[0] > 0 else Fr(-1, 2), PI)
    if name in ('floor', 'ceil', 'trunc', 'round') and not isT(a[0]) and not isspecial(a[0]):
        x = a[0]
        return Fr({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc,
                   'round': lambda v: math.floor(v + Fr(1, 2)) if v >= 0 else -math.floor(-v + Fr(1, 2))}[name](x))
    if name == 'fmod' and not any(isspecial(x) for x in a):
        p = _pimult(a[0]); q = _pimult(a[1])
        if p is not None and q: return mul(p - q * math.trunc(p / q), PI)
    if name == 'fmod' and not any(isT(x) or isspecial(x) for x in a) and a[1] != 0:
        return a[0] - a[1] * math.trunc(a[0] / a[1])
    return mk('fn', (name,) + a, 'R')
def uf(name, *a):
    return mk('fn', ('uf:' + name,) + a, 'R')

# ---------------------------------------------------------------- booleans
def not_(a):
    if isinstance(a, bool): return not a
    if a.op == 'not': return a.args[0]
    if a.op == 'lt': return mk('le', (a.args[1], a.args[0]), 'B')
    if a.op == 'le': return mk('lt', (a.args[1], a.args[0]), 'B')
    return mk('not', (a,), 'B')
def and_(a, b):
    if isinstance(a, bool): return b if a else False
    if isinstance(b, bool): return a if b else False
    if a is b: return a
    if a.id > b.id: a, b = b, a
    return mk('and', (a, b), 'B')
def or_(a, b):
    if isinstance(a, bool): return True if a else b
    if isinstance(b, bool): return True if b else a
    if a is b: return a
    if a.id > b.id: a, b = b, a
    return mk('or', (a, b), 'B')
def _nonneg(x):
    """syntactically >= 0"""
    if not isT(x): return (not isspecial(x) or x == x) and x >= 0
    if x.op == 'fn' and x.args[0] in ('abs', 'sqrt', 'exp', 'acos'): return True
    if x.op == 'fn' and x.args[0] == 'atan': return _nonneg(x.args[1])
    if x.op == 'mul': return x.args[0] is x.args[1] or (_nonneg(x.args[0]) and _nonneg(x.args[1]))
    if x.op in ('add', 'div'): return _nonneg(x.args[0]) and _nonneg(x.args[1])
    return x is PI
_cv = {}; _mp = None
def _constval(t):
    """50-digit value of a term without symbols, None if it has any (or is not evaluable)"""
    global _mp
    if _mp is None:
        import mpmath; _mp = mpmath.MPContext(); _mp.dps = 60
    if not isT(t): return _mp.mpf(t.numerator) / t.denominator
    if t.id in _cv: return _cv[t.id]
    st = [t]
    while st:
        x = st[-1]
        if x.id in _cv: st.pop(); continue
        if x.op not in ('pi', 'add', 'sub', 'mul', 'div', 'neg', 'fn'): _cv[x.id] = None; st.pop(); continue
        ks = [a for a in x.args if isT(a)]
        if any(_cv.get(a.id, 0) is None for a in ks): _cv[x.id] = None; st.pop(); continue
        todo = [a for a in ks if a.id not in _cv]
        if todo: st.extend(todo); continue
        v = None
        try:
            a = [_cv[y.id] if isT(y) else (y if isinstance(y, str) else _mp.mpf(y.numerator) / y.denominator) for y in x.args]
            if x.op == 'pi': v = +_mp.pi
            elif x.op == 'add': v = a[0] + a[1]
            elif x.op == 'sub': v = a[0] - a[1]
            elif x.op == 'mul': v = a[0] * a[1]
            elif x.op == 'div': v = a[0] / a[1]
            elif x.op == 'neg': v = -a[0]
            elif a[0] == 'sqrt': v = _mp.sqrt(a[1]) if a[1] > 0 else None
            elif a[0] == 'abs': v = abs(a[1])
            elif a[0] == 'log': v = _mp.log(a[1]) if a[1] > 0 else None
            elif a[0] in ('exp', 'sin', 'cos', 'tan', 'atan', 'sinh', 'cosh', 'tanh'): v = getattr(_mp, a[0])(a[1])
            elif a[0] == 'pow': v = _mp.power(a[1], a[2]) if a[1] > 0 else None
            elif a[0] == 'atan2': v = _mp.atan2(a[1], a[2])
        except Exception: v = None
        _cv[x.id] = v; st.pop()
    return _cv[t.id]
def _constdiff(a, b):
    """sign of a-b for closed terms whose values differ clearly, else 0"""
    x = _constval(a)
    if x is None: return 0
    y = _constval(b)
    if y is None: return 0
    d = x - y
    if abs(d) <= _mp.mpf(10) ** -35 * max(1, abs(x), abs(y)): return 0
    return 1 if d > 0 else -1
def lt(a, b):
    if isspecial(a) or isspecial(b): return _cmpspec('lt', a, b)
    if not isT(a) and not isT(b): return a < b
    if a is b: return False
    if not isT(b) and b <= 0 and isT(a) and _nonneg(a): return False
    d = _constdiff(a, b)
    if d: return d < 0
    return mk('lt', (a, b), 'B')
def le(a, b):
    if isspecial(a) or isspecial(b): return _cmpspec('le', a, b)
    if not isT(a) and not isT(b): return a <= b
    if a is b: return True
    if not isT(a) and a <= 0 and isT(b) and _nonneg(b): return True
    d = _constdiff(a, b)
    if d: return d < 0
    return mk('le', (a, b), 'B')
def _cmpspec(op, a, b):
    # finite reals are strictly between the infinities
    if (isspecial(a) and a != a) or (isspecial(b) and b != b): return False
    def f(x): return x if isspecial(x) else 0.0
    if isT(a) and a.op == 'special': a = a.args[0]
    if isT(b) and b.op == 'special': b = b.args[0]
    return f(a) < f(b) if op == 'lt' else f(a) <= f(b)
def eq(a, b):
    if isspecial(a) or isspecial(b):
        return isspecial(a) and isspecial(b) and a == b
    if not isT(a) and not isT(b): return a == b
    if a is b: return True
    if _constdiff(a, b): return False
    if isT(a) and (not isT(b) or a.id > b.id): a, b = b, a
    return mk('eq', (a, b), 'B')
def bsym(name): return mk('bsym', (name,), 'B')
def ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if a is b or (not isT(a) and not isT(b) and type(a) == type(b) and a == b): return a
    if isinstance(a, bool) or isinstance(b, bool) or (isT(a) and a.sort == 'B') or (isT(b) and b.sort == 'B'):
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == 'not': return ite(c.args[0], b, a)
    t = a if isT(a) else b
    if isT(t): return mk('ite', (c, a, b), t.sort, t.w)
    if isinstance(a, (Fr, float)): return mk('ite', (c, a, b), 'R')
    raise TypeError('ite needs width')
def iite(c, a, b, w):
    if isinstance(c, bool): return a if c else b
    if a is b or (not isT(a) and not isT(b) and a == b): return a
    if c.op == 'not': return iite(c.args[0], b, a, w)
    return mk('ite', (c, a, b), 'I', w)

# ---------------------------------------------------------------- bit-vectors
def isym(name, w): return mk('isym', (name,), 'I', w)
def sgn(v, w): return v - (1 << w) if v >> (w - 1) & 1 else v
def iop(op, a, b, w):
    m = (1 << w) - 1
    if not isT(a) and not isT(b):
        if op == 'add': return (a + b) & m
        if op == 'sub': return (a - b) & m
        if op == 'mul': return (a * b) & m
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op == 'shl': return (a << b) & m if b < w else 0
        if op == 'lshr': return a >> b
        if op == 'ashr': return (sgn(a, w) >> b) & m
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if b == 0: raise ZeroDivisionError('integer division by zero')
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            return q & m if op == 'sdiv' else (x - q * y) & m
        raise ValueError(op)
    ca, cb = (None if isT(a) else a), (None if isT(b) else b)
    if op == 'add':
        if ca == 0: return b
        if cb == 0: return a
        if ca is not None: a, b, ca, cb = b, a, cb, ca
        if cb is not None and a.op == 'iadd' and not isT(a.args[1]):
            return iop('add', a.args[0], (a.args[1] + cb) & m, w)
        if ca is None and cb is None and a.id > b.id: a, b = b, a
    elif op == 'sub':
        if a is b: return 0
        if cb == 0: return a
        if cb is not None: return iop('add', a, (-cb) & m, w)
    elif op == 'mul':
        if ca == 0 or cb == 0: return 0
        if ca == 1: return b
        if cb == 1: return a
        if ca is not None: a, b = b, a
        elif cb is None and a.id > b.id: a, b = b, a
    elif op == 'and':
        if ca == 0 or cb == 0: return 0
        if ca == m: return b
        if cb == m or a is b: return a
        if ca is not None: a, b, ca, cb = b, a, cb, ca
        if cb is not None and a.op == 'ior' and not isT(a.args[1]): return iop('or', iop('and', a.args[0], cb, w), a.args[1] & cb, w)
        if cb is not None and a.op == 'iand' and not isT(a.args[1]): return iop('and', a.args[0], a.args[1] & cb, w)
    elif op == 'or':
        if ca == 0: return b
        if cb == 0 or a is b: return a
        if ca is not None: a, b, ca, cb = b, a, cb, ca
        if cb is not None and a.op == 'ior' and not isT(a.args[1]): return iop('or', a.args[0], a.args[1] | cb, w)
    elif op == 'xor':
        if a is b: return 0
        if cb == 0: return a
        if ca == 0: return b
    elif op in ('shl', 'lshr', 'ashr'):
        if cb == 0: return a
        if op == 'shl' and cb is not None: return iop('mul', a, (1 << cb) & m, w)
    elif op in ('udiv', 'sdiv') and cb == 1: return a
    return mk('i' + op, (a, b), 'I', w)
def icmp(pred, a, b, w):
    if not isT(a) and not isT(b):
        if pred == 'eq': return a == b
        if pred == 'ne': return a != b
        if pred[0] == 's': a, b = sgn(a, w), sgn(b, w)
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred[1:]]
    if pred == 'ne': return not_(icmp('eq', a, b, w))
    if pred in ('ugt', 'sgt'): return icmp(pred[0] + 'lt', b, a, w)
    if pred in ('uge', 'sge'): return not_(icmp(pred[0] + 'lt', a, b, w))
    if pred in ('ule', 'sle'): return not_(icmp(pred[0] + 'lt', b, a, w))
    if a is b: return pred == 'eq'
    if pred == 'eq':
        if isT(a) and (not isT(b) or a.id > b.id): a, b = b, a
        # b2i(c) == const
        if not isT(a) and isT(b) and b.op == 'b2i':
            if a == 0: return not_(b.args[0])
            if a == 1: return b.args[0]
            return False
        if not isT(a) and isT(b) and b.op in ('zext',) :
            return icmp('eq', a, b.args[0], b.args[0].w) if a < (1 << b.args[0].w) else False
        if not isT(a) and isT(b) and b.op == 'ite' and not isT(b.args[1]) and not isT(b.args[2]):
            return ite(b.args[0], a == b.args[1], a == b.args[2])
    if pred == 'ult' and not isT(b) and b == 0: return False
    if pred == 'ult' and not isT(b) and b == 1: return icmp('eq', a, 0, w)
    return mk('i' + pred, (a, b), 'B', w)
def b2i(c, w):
    if isinstance(c, bool): return int(c)
    return mk('b2i', (c,), 'I', w)
def zext(a, w0, w):
    if not isT(a): return a
    if a.op == 'b2i': return b2i(a.args[0], w)
    if a.op == 'ite' and not isT(a.args[1]) and not isT(a.args[2]): return iite(a.args[0], a.args[1], a.args[2], w)
    return mk('zext', (a,), 'I', w)
def sext(a, w0, w):
    if not isT(a): return sgn(a, w0) & ((1 << w) - 1)
    return mk('sext', (a,), 'I', w)
def trunc(a, w0, w):
    if not isT(a): return a & ((1 << w) - 1)
    if a.op == 'b2i': return b2i(a.args[0], w)
    if a.op in ('zext', 'sext') and a.args[0].w == w: return a.args[0]
    if a.op in ('zext', 'sext') and a.args[0].w > w: return trunc(a.args[0], a.args[0].w, w)
    return mk('trunc', (a,), 'I', w)
def _iconds(t, out, lim=5):
    """conditions of an integer term whose leaves are constants; False if it has other leaves"""
    if not isT(t): return True
    if t.op == 'isym': return False
    if t.op == 'ite':
        if t.args[0] not in out: out.append(t.args[0])
        if len(out) > lim: return False
        return _iconds(t.args[1], out, lim) and _iconds(t.args[2], out, lim)
    if t.op == 'b2i':
        if t.args[0] not in out: out.append(t.args[0])
        return len(out) <= lim
    if t.sort != 'I': return False
    return all(_iconds(x, out, lim) for x in t.args if isT(x))
def i2r(a, w, signed):
    if isT(a):
        cs = []
        if _iconds(a, cs) and cs:
            c = cs[0]
            x, y = subst([a], {c: True})[0], subst([a], {c: False})[0]
            return ite(c, i2r(x, w, signed), i2r(y, w, signed))
    if not isT(a): return Fr(sgn(a, w) if signed else a)
    return mk('i2r', (a, signed), 'R')
def r2i(a, w, signed):
    if not isT(a):
        if isspecial(a): return 1 << (w - 1)
        return math.trunc(a) & ((1 << w) - 1)
    if a.op == 'i2r' and isT(a.args[0]):
        x = a.args[0]
        if x.w == w: return x
        if x.w < w: return sext(x, x.w, w) if a.args[1] else zext(x, x.w, w)
    return mk('r2i', (a, signed), 'I', w)

# ---------------------------------------------------------------- traversal
def walk(*roots, skip=()):
    """all subterms, children first (not below terms whose id is in skip)"""
    seen = set(); out = []
    st = [(r, False) for r in roots if isT(r)]
    while st:
        t, done = st.pop()
        if done: out.append(t); continue
        if t.id in seen or t.id in skip: continue
        seen.add(t.id)
        st.append((t, True))
        for a in t.args:
            if isT(a) and a.id not in seen: st.append((a, False))
    return out
def rebuild(t, args):
    op = t.op
    if op == 'add': return add(*args)
    if op == 'sub': return sub(*args)
    if op == 'mul': return mul(*args)
    if op == 'div': return div(*args)
    if op == 'neg': return neg(*args)
    if op == 'fn': return fn(*args) if not args[0].startswith('uf:') else mk('fn', args, 'R')
    if op == 'not': return not_(*args)
    if op == 'and': return and_(*args)
    if op == 'or': return or_(*args)
    if op == 'lt': return lt(*args)
    if op == 'le': return le(*args)
    if op == 'eq': return eq(*args)
    if op == 'ite': return iite(*args, t.w) if t.sort == 'I' else ite(*args)
    if op in ('ieq', 'iult', 'islt'): return icmp(op[1:], args[0], args[1], t.w)
    if op == 'b2i': return b2i(args[0], t.w)
    if op == 'zext': return zext(args[0], t.args[0].w, t.w)
    if op == 'sext': return sext(args[0], t.args[0].w, t.w)
    if op == 'trunc': return trunc(args[0], t.args[0].w, t.w)
    if op == 'i2r': return i2r(args[0], t.args[0].w, t.args[1])
    if op == 'r2i': return r2i(args[0], t.w, t.args[1])
    if op[0] == 'i' and t.sort == 'I' and op not in ('isym', 'ite'): return iop(op[1:], args[0], args[1], t.w)
    return mk(op, args, t.sort, t.w)
def subst(roots, mp):
    """substitute terms (mp: T -> value) simultaneously; returns list"""
    memo = {k.id: v for k, v in mp.items()}
    for t in walk(*roots):
        if t.id in memo: continue
        na = tuple(memo[a.id] if isT(a) else a for a in t.args)
        if all(x is y for x, y in zip(na, t.args)): memo[t.id] = t
        else: memo[t.id] = rebuild(t, na)
    return [memo[r.id] if isT(r) else r for r in roots]

def pretty(t, depth=6):
    if not isT(t): return str(t) if not isinstance(t, Fr) else (str(t) if len(str(t)) < 30 else repr(float(t)))
    if depth == 0: return '..'
    p = lambda x: pretty(x, depth - 1)
    o = t.op
    if o in ('sym', 'isym', 'bsym'): return t.args[0]
    if o == 'pi': return 'pi'
    if o == 'fn': return t.args[0] + '(' + ','.join(p(a) for a in t.args[1:]) + ')'
    b = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'lt': '<', 'le': '<=', 'eq': '==', 'and': '&&', 'or': '||'}
    if o in b: return '(' + p(t.args[0]) + b[o] + p(t.args[1]) + ')'
    return o + '(' + ','.join(p(a) for a in t.args) + ')'
