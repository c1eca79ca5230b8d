"""Contract of libudunits2 (assumed): the installed library itself is asked, on concrete unit
strings; a conversion is then the exact linear (or inverse) map with the library's factor."""
import ctypes
from fractions import Fraction as Fr
from term import *
import term as tm
from exe import Ptr, NULL, EngineError
from models import model, M
_L = None; _sys = None; _tab = {}; _reps = []
def lib():
    global _L
    if _L is None:
        _L = ctypes.CDLL('libudunits2.so.0')
        for n in ('ut_read_xml', 'ut_get_unit_by_name', 'ut_get_unit_by_symbol', 'ut_parse', 'ut_scale', 'ut_get_converter', 'ut_set_error_message_handler'): getattr(_L, n).restype = ctypes.c_void_p
        _L.cv_convert_double.restype = ctypes.c_double; _L.cv_convert_double.argtypes = [ctypes.c_void_p, ctypes.c_double]
        _L.ut_set_error_message_handler.argtypes = [ctypes.c_void_p]
        _L.ut_set_error_message_handler(ctypes.cast(_L.ut_ignore, ctypes.c_void_p))
    return _L
P = ctypes.c_void_p
def put(st, q):
    if not q: return NULL
    n = 'unit:%d' % q; _tab[n] = q
    return st.new(8, 'heap', n)
def get(st, p):
    if p == NULL: return None
    o = st.mem.get(p.obj); return _tab.get(o.name) if o is not None else None
def system():
    global _sys
    if _sys is None: _sys = lib().ut_read_xml(None)
    return P(_sys)
def cs(ex, st, p):
    s = ex.cstr(st, p)
    if s is None: raise EngineError('symbolic unit name')
    return s.encode('utf8') if isinstance(s, str) else s
def snap(x):
    """a factor whose quotient by a power of pi is a simple rational is that rational times the power"""
    import math
    for e in (0, 1, -1, 2, -2):
        y = x / math.pi**e; f = Fr(repr(y)) if e == 0 else Fr(y).limit_denominator(10**13)
        if e == 0:
            g = Fr(y).limit_denominator(100000)
            if g != 0 and abs(float(g) - y) <= 3e-16 * abs(y): return g
            continue
        g = Fr(y).limit_denominator(10**10)
        h = Fr(1) / Fr(1 / y).limit_denominator(10**4) if abs(1 / y) < 1e13 else None
        for c in (h, g):
            if c and abs(float(c) - y) <= 4e-16 * abs(y) and max(c.numerator, 1) * 1.0 < 1e7 and (c.denominator < 10**10 or c.numerator < 1000):
                r = c
                for _ in range(abs(e)): r = tm.mul(r, PI) if e > 0 else tm.div(r, PI)
                return r
    return Fr(repr(x))
def scale(u):
    L = lib()
    for r, d in _reps:
        if L.ut_are_convertible(P(u), P(r)):
            if u not in d:
                c = L.ut_get_converter(P(u), P(r)); a, b, z = (L.cv_convert_double(c, v) for v in (1., 2., 3.))
                if abs(b - 2 * a) <= 1e-12 * abs(a): d[u] = ('lin', snap(a))
                elif abs(2 * b - a) <= 1e-12 * abs(a): d[u] = ('inv', snap(a))
                else: raise EngineError('affine unit')
            return d[u]
    _reps.append((u, {u: ('lin', Fr(1))})); return ('lin', Fr(1))
@model('ut_read_xml')
def _(ex, st, a, i): return put(st, system().value)
@model('ut_set_error_message_handler')
def _(ex, st, a, i): return NULL
@model('ut_free', 'ut_free_system', 'cv_free')
def _(ex, st, a, i): return 0
@model('ut_get_unit_by_name')
def _(ex, st, a, i): return put(st, lib().ut_get_unit_by_name(system(), cs(ex, st, a[1])))
@model('ut_get_unit_by_symbol')
def _(ex, st, a, i): return put(st, lib().ut_get_unit_by_symbol(system(), cs(ex, st, a[1])))
@model('ut_scale')
def _(ex, st, a, i):
    if tm.isT(a[0]): raise EngineError('symbolic scale')
    f = lib().ut_scale; f.argtypes = [ctypes.c_double, P]
    return put(st, f(float(a[0]), P(get(st, a[1]))))
@model('ut_map_symbol_to_unit')
def _(ex, st, a, i): return lib().ut_map_symbol_to_unit(cs(ex, st, a[0]), 2, P(get(st, a[2])))
@model('ut_map_name_to_unit')
def _(ex, st, a, i): return lib().ut_map_name_to_unit(cs(ex, st, a[0]), 2, P(get(st, a[2])))
@model('ut_parse')
def _(ex, st, a, i): return put(st, lib().ut_parse(system(), cs(ex, st, a[1]), 2))
@model('ut_are_convertible')
def _(ex, st, a, i): return int(bool(lib().ut_are_convertible(P(get(st, a[0])), P(get(st, a[1])))))
@model('cv_get_trivial')
def _(ex, st, a, i):
    _tab['cv:1'] = ('lin', Fr(1)); return st.new(8, 'heap', 'cv:1')
@model('ut_get_converter')
def _(ex, st, a, i):
    u, v = get(st, a[0]), get(st, a[1])
    if not lib().ut_are_convertible(P(u), P(v)): return NULL
    (k, s), (l, t) = scale(u), scale(v)
    # rep value: x*s (lin) or s/x (inv)
    if k == l == 'lin': r = ('lin', tm.div(s, t))
    elif k == 'lin': r = ('inv', tm.div(t, s))          # x*s = t/y
    elif l == 'lin': r = ('inv', tm.div(s, t))          # s/x = y*t
    else: r = ('lin', tm.div(t, s))                     # s/x = t/y
    n = 'cv:%r' % (r,); _tab[n] = r
    return st.new(8, 'heap', n)
@model('cv_convert_double')
def _(ex, st, a, i):
    k, f = _tab[st.mem[a[0].obj].name]
    return tm.mul(a[1], f) if k == 'lin' else tm.div(f, a[1])
@model('feholdexcept', 'fesetenv', 'fegetenv', 'feupdateenv', 'feclearexcept', 'fegetround', 'fesetround', 'fetestexcept')
def _(ex, st, a, i): return 0
