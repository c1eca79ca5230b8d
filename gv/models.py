"""Assumed contracts of functions outside /repo (libm, libc, libstdc++,
pthread) and the gv_* specification primitives used by the harnesses."""
import ctypes, re
from fractions import Fraction as Fr
from term import *
import term as tm, algebra
from exe import Ptr, NULL, UNDEF, StrVal, Throw, PathEnd, MemError, EngineError, ForkOn

_cx = ctypes.CDLL('libstdc++.so.6')
_cx.__cxa_demangle.restype = ctypes.c_void_p
_libc = ctypes.CDLL(None)
_dm = {}
def demangle(n):
    r = _dm.get(n)
    if r is None:
        r = n
        if n.startswith('_Z'):
            st = ctypes.c_int()
            p = getattr(_cx, '__cxa_demangle')(n.encode(), None, None, ctypes.byref(st))
            if st.value == 0 and p: r = ctypes.string_at(p).decode(); _libc.free(ctypes.c_void_p(p))
        for w in ('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >',
                  'std::basic_string<char, std::char_traits<char>, std::allocator<char> >'):
            r = r.replace(w, 'std::string')
        _dm[n] = r
    return r

M = {}
REGEX = []
def model(*names):
    def d(f):
        for n in names: M[n] = f
        return f
    return d
def rx(pat):
    def d(f): REGEX.append((re.compile(pat), f)); return f
    return d
_found = {}
def find(name):
    if name in M: return M[name]
    if name in _found: return _found[name]
    r = None
    if name.startswith('llvm.'):
        r = llvm_intrinsic(name)
    else:
        d = demangle(name)
        for p, f in REGEX:
            if p.match(d): r = f; break
    _found[name] = r
    return r
def is_function(name): return find(name) is not None

# ---------------------------------------------------------------- math
def unary(f): return lambda ex, st, a, i: (UNDEF if a[0] is UNDEF else fn(f, a[0]))
for n, f in dict(sin='sin', cos='cos', tan='tan', sqrt='sqrt', exp='exp', log='log', fabs='abs', acos='acos', asin='asin',
                 atan='atan', sinh='sinh', cosh='cosh', tanh='tanh', log10='log10', floor='floor', ceil='ceil', trunc='trunc',
                 round='round', cbrt='cbrt', tgamma='gamma', lgamma='loggamma', erf='erf', log2='log2', expm1='expm1', log1p='log1p').items():
    M[n] = M[n + 'l'] = M[n + 'f'] = unary(f)
M['expm1'] = lambda ex, st, a, i: sub(fn('exp', a[0]), Fr(1))
M['log1p'] = lambda ex, st, a, i: fn('log', add(a[0], Fr(1)))
for n in ('pow', 'atan2', 'fmod'):
    M[n] = M[n + 'l'] = M[n + 'f'] = (lambda n: lambda ex, st, a, i: fn(n, a[0], a[1]))(n)
def enum_floor(ex, st, x):
    """floor of a real, by forking over its possible values (asked for with gv_enum_floor)"""
    if not isT(x): return fn('floor', x)
    for k in sorted(range(-40, 41), key=abs):
        c = and_(le(Fr(k), x), lt(x, Fr(k + 1)))
        if isinstance(c, bool):
            if c: return Fr(k)
            continue
        v = st.known(c)
        if v is None and c.op == 'and':
            vs = [st.known(y) for y in c.args]
            v = False if False in vs else True if vs == [True, True] else None
        if v: return Fr(k)
        if v is None and ex.feasible(st, c):
            for y in (le(Fr(k), x), lt(x, Fr(k + 1))):
                if isT(y) and st.known(y) is None: raise ForkOn(y)
    raise PathEnd('assume') if not ex.feasible(st) else EngineError('unbounded floor of %s' % pretty(x))
def floor_model(ex, st, a, i):
    if st.ghost.get('enumfloor') and isT(a[0]): return enum_floor(ex, st, a[0])
    return UNDEF if a[0] is UNDEF else fn('floor', a[0])
M['floor'] = M['floorl'] = M['floorf'] = floor_model
def fmod_model(ex, st, a, i):
    if st.ghost.get('enumfloor') and isT(a[0]) and not isT(a[1]) and isinstance(a[1], Fr) and a[1] != 0:
        if not ex.decide(st, le(Fr(0), a[0])): return neg(sub(neg(a[0]), mul(abs(a[1]), enum_floor(ex, st, div(neg(a[0]), abs(a[1]))))))
        return sub(a[0], mul(abs(a[1]), enum_floor(ex, st, div(a[0], abs(a[1])))))
    return fn('fmod', a[0], a[1])
M['fmod'] = M['fmodl'] = M['fmodf'] = fmod_model
M['exp10'] = lambda ex, st, a, i: fn('pow', Fr(10), a[0])
M['exp2'] = lambda ex, st, a, i: fn('pow', Fr(2), a[0])
M['hypot'] = lambda ex, st, a, i: fn('sqrt', add(mul(a[0], a[0]), mul(a[1], a[1])))
def sincos(ex, st, a, i):
    ex.store(st, a[1], fn('sin', a[0]), 8); ex.store(st, a[2], fn('cos', a[0]), 8)
M['sincos'] = sincos
def fmin(ex, st, a, i):
    return ite(lt(a[1], a[0]), a[1], a[0]) if not any(isinstance(x, float) for x in a) else (a[1] if ex.decide(st, lt(a[1], a[0])) else a[0])
def fmax(ex, st, a, i):
    return ite(lt(a[0], a[1]), a[1], a[0]) if not any(isinstance(x, float) for x in a) else (a[1] if ex.decide(st, lt(a[0], a[1])) else a[0])
M['fmin'] = fmin; M['fmax'] = fmax
def copysign(ex, st, a, i):
    return ite(le(Fr(0), a[1]), fn('abs', a[0]), neg(fn('abs', a[0]))) if isT(a[1]) else (fn('abs', a[0]) if a[1] >= 0 else neg(fn('abs', a[0])))
M['copysign'] = copysign
M['ldexp'] = lambda ex, st, a, i: mul(a[0], ipow(Fr(2), tm.sgn(a[1], 32)))
M['lround'] = lambda ex, st, a, i: r2i(fn('round', a[0]), 64, True)
for n in ('_ZSt5isnand', '__isnan', 'isnan'): M[n] = lambda ex, st, a, i: (isinstance(a[0], float) and a[0] != a[0]) if i[2] == 'i1' else int(isinstance(a[0], float) and a[0] != a[0])
for n in ('_ZSt5isinfd', '__isinf', 'isinf'): M[n] = lambda ex, st, a, i: (isinstance(a[0], float) and a[0] == a[0])
@rx(r'^std::(isnan|isinf|isfinite)\(')
def _isx(ex, st, a, i):
    x = a[0]; n = demangle(i[3][1])
    if 'isnan' in n: return isinstance(x, float) and x != x
    if 'isinf' in n: return isinstance(x, float) and x == x
    return not isinstance(x, float)
def iabs(ex, st, a, i):
    w = int(i[2][1:])
    if not isT(a[0]): return abs(tm.sgn(a[0], w)) & ((1 << w) - 1)
    return iite(icmp('slt', a[0], 0, w), iop('sub', 0, a[0], w), a[0], w)
M['abs'] = M['labs'] = iabs
def llvm_intrinsic(n):
    p = n.split('.')
    b = p[1]
    if b in ('memcpy', 'memmove'): return lambda ex, st, a, i: ex.memcpy(st, a[0], a[1], a[2])
    if b == 'memset': return lambda ex, st, a, i: ex.memset(st, a[0], a[1], a[2])
    if b == 'fabs': return M['fabs']
    if b == 'fmuladd' or b == 'fma': return lambda ex, st, a, i: UNDEF if UNDEF in a else add(mul(a[0], a[1]), a[2])
    if b == 'sqrt': return M['sqrt']
    if b in ('sin', 'cos', 'exp', 'log', 'pow', 'floor', 'ceil', 'trunc', 'round', 'log10', 'exp2', 'log2', 'copysign'): return M[b]
    if b in ('maxnum', 'maximum'): return fmax
    if b in ('minnum', 'minimum'): return fmin
    if b == 'is' and p[2] == 'fpclass':
        def f(ex, st, a, i):
            m = a[1]; x = a[0]
            if isinstance(x, float):
                if x != x: return bool(m & 3)
                return bool(m & (0x200 if x > 0 else 4))
            if m & ~0x207 == 0: return False       # nan/inf classes only: reals are finite
            if m & 0x1f8 == 0x1f8: return True
            raise EngineError('fpclass %x' % m)
        return f
    if b == 'eh' and p[2] == 'typeid':
        return lambda ex, st, a, i: ex.typeid(a[0].obj[1] if isinstance(a[0].obj, tuple) else st.mem[a[0].obj].name)
    if b == 'expect': return lambda ex, st, a, i: a[0]
    if b in ('stacksave',): return lambda ex, st, a, i: NULL
    if b in ('stackrestore', 'prefetch', 'donothing', 'dbg', 'va_start', 'va_end', 'invariant', 'launder', 'strip'):
        if b == 'launder' or b == 'strip': return lambda ex, st, a, i: a[0]
        return lambda ex, st, a, i: None
    if b == 'trap': return trap
    if b == 'objectsize': return lambda ex, st, a, i: 2**64 - 1
    if b == 'is' and p[2] == 'constant': return lambda ex, st, a, i: False
    if b in ('smax', 'smin', 'umax', 'umin'):
        def f(ex, st, a, i):
            w = int(i[2][1:]); c = icmp(('s' if b[0] == 's' else 'u') + 'lt', a[0], a[1], w)
            x, y = (a[1], a[0]) if 'max' in b else (a[0], a[1])
            return iite(c, x, y, w)
        return f
    if b == 'abs': return iabs
    if b in ('ctpop',):
        def f(ex, st, a, i):
            w = int(i[2][1:])
            if not isT(a[0]): return bin(a[0]).count('1')
            r = 0
            for k in range(w): r = iop('add', r, iop('and', iop('lshr', a[0], k, w), 1, w), w)
            return r
        return f
    if b in ('umul', 'uadd', 'usub', 'smul', 'sadd', 'ssub') and p[2] == 'with':
        def f(ex, st, a, i):
            w = int(p[-1][1:]); op = b[1:]
            r = iop(op, a[0], a[1], w)
            if not isT(a[0]) and not isT(a[1]):
                if b[0] == 'u': full = {'mul': a[0] * a[1], 'add': a[0] + a[1], 'sub': a[0] - a[1]}[op]; ov = not (0 <= full < (1 << w))
                else:
                    x, y = tm.sgn(a[0], w), tm.sgn(a[1], w)
                    full = {'mul': x * y, 'add': x + y, 'sub': x - y}[op]; ov = not (-(1 << w - 1) <= full < (1 << w - 1))
            else: ov = False   # assumption: allocation sizes do not overflow
            return [r, ov]
        return f
    return None
def trap(ex, st, a, i): raise PathEnd('abort')
M['abort'] = M['_ZSt9terminatev'] = M['__clang_call_terminate'] = trap

# ---------------------------------------------------------------- memory
def new_(ex, st, a, i):
    n = a[0]
    if isT(n):
        for v, c in ex.conc_known(st, n): n = v; break
    if isT(n):
        k = st.ghost['nheap'] = st.ghost.get('nheap', 0) + 1
        p = st.new(None, 'heap', 'heap%d' % k)
        o = st.mem[p.obj]
        try: o.size = ex.elem_index(n, 8)
        except EngineError: raise EngineError('symbolic allocation size')
        o.elem = ('heap%d' % k, 8, 'double')
        return p
    return st.new(n, 'heap', 'heap')
M['_Znwm'] = M['_Znam'] = M['malloc'] = new_
M['_ZnwmSt11align_val_t'] = M['_ZnamRKSt9nothrow_t'] = new_
def calloc(ex, st, a, i):
    n = iop('mul', a[0], a[1], 64)
    p = new_(ex, st, [n], i); o = st.mem[p.obj]
    if isinstance(o.size, int): o.fill.append((0, o.size))
    else: raise EngineError('calloc symbolic')
    return p
M['calloc'] = calloc
def free_(ex, st, a, i):
    p = a[0]
    if p == NULL: return
    if isinstance(p.obj, tuple): raise MemError('delete of non-heap pointer')
    o = st.mem[p.obj]
    if o.freed: raise MemError('double free')
    if o.kind != 'heap': raise MemError('delete of non-heap object (%s)' % o.kind)
    if p.off != 0: raise MemError('delete of interior pointer')
    o = st.w(p.obj); o.freed = True; o.cells = {}; o.fill = []
M['_ZdlPv'] = M['_ZdaPv'] = M['_ZdlPvm'] = M['_ZdaPvm'] = M['free'] = free_
def cpy(ex, st, a, i): ex.memcpy(st, a[0], a[1], a[2]); return a[0]
M['memcpy'] = M['memmove'] = cpy
def mset(ex, st, a, i): ex.memset(st, a[0], a[1], a[2]); return a[0]
M['memset'] = mset
def strlen(ex, st, a, i):
    s = ex.cstr(st, a[0])
    if s is None: raise EngineError('strlen of symbolic string')
    return len(s)
M['strlen'] = strlen
def strcmp(ex, st, a, i):
    x, y = ex.cstr(st, a[0]), ex.cstr(st, a[1])
    if x is None or y is None: raise EngineError('strcmp of symbolic string')
    if len(a) > 2: x, y = x[:a[2]], y[:a[2]]
    return 0 if x == y else (1 if x > y else 2**32 - 1)
M['strcmp'] = M['strncmp'] = strcmp
def memcmp(ex, st, a, i):
    n = a[2]
    if n == 0: return 0
    o1, _ = ex.obj(st, a[0]); o2, _ = ex.obj(st, a[1])
    for k in range(n):
        x, y = ex.byte(o1, a[0].off + k), ex.byte(o2, a[1].off + k)
        if x is None or y is None: raise EngineError('memcmp')
        if x != y: return 1 if x > y else 2**32 - 1
    return 0
M['memcmp'] = M['bcmp'] = memcmp
def strcpy(ex, st, a, i):
    s = ex.cstr(st, a[1])
    if s is None: raise EngineError('strcpy')
    b = s.encode('latin1') + b'\0'
    if len(a) > 2: b = b[:a[2]].ljust(a[2], b'\0')
    for k, x in enumerate(b): ex.store(st, Ptr(a[0].obj, a[0].off + k), x, 1)
    return a[0]
M['strcpy'] = M['strncpy'] = strcpy
M['getenv'] = lambda ex, st, a, i: NULL
M['_ZSt20__throw_length_errorPKc'] = M['_ZSt17__throw_bad_allocv'] = M['_ZSt28__throw_bad_array_new_lengthv'] = M['_ZSt24__throw_out_of_range_fmtPKcz'] = M['_ZSt20__throw_out_of_rangePKc'] = M['_ZSt19__throw_logic_errorPKc'] = \
    lambda ex, st, a, i: (_ for _ in ()).throw(Throw('_ZTISt9exception', NULL, 'std exception'))
M['__cxa_throw_bad_array_new_length'] = M['_ZSt17__throw_bad_allocv']
M['__cxa_bad_cast'] = lambda ex, st, a, i: (_ for _ in ()).throw(Throw('_ZTISt8bad_cast', NULL, 'bad_cast'))
def pure(ex, st, a, i): raise MemError('pure virtual call')
M['__cxa_pure_virtual'] = pure
M['__cxa_atexit'] = lambda ex, st, a, i: 0
def guard_acquire(ex, st, a, i):
    v = ex.load(st, a[0], 'i8', 1)
    return 0 if v else 1
M['__cxa_guard_acquire'] = guard_acquire
M['__cxa_guard_release'] = lambda ex, st, a, i: ex.store(st, a[0], 1, 1)
M['__cxa_guard_abort'] = lambda ex, st, a, i: None
M['__cxa_allocate_exception'] = lambda ex, st, a, i: st.new(a[0], 'heap', 'exception')
M['__cxa_free_exception'] = lambda ex, st, a, i: None
def cxa_throw(ex, st, a, i):
    ti = a[1]
    name = ti.obj[1] if isinstance(ti.obj, tuple) else st.mem[ti.obj].name
    raise Throw(name, a[0], 'exception ' + demangle(name))
M['__cxa_throw'] = cxa_throw
M['__cxa_begin_catch'] = lambda ex, st, a, i: a[0]
M['__cxa_end_catch'] = lambda ex, st, a, i: None
M['__cxa_rethrow'] = lambda ex, st, a, i: (_ for _ in ()).throw(st.exc[0])
M['__gxx_personality_v0'] = lambda ex, st, a, i: None

def dyncast(ex, st, a, i):
    """dynamic_cast: walk the type_info graph of the dynamic type"""
    p = a[0]
    vt = ex.load(st, p, 'ptr', 8)
    ott = ex.load(st, Ptr(vt.obj, vt.off - 16), 'i64', 8)
    ti = ex.load(st, Ptr(vt.obj, vt.off - 8), 'ptr', 8)
    top = Ptr(p.obj, p.off + tm.sgn(ott, 64) if isinstance(ott, int) else p.off)
    dst = a[2]
    def name(q): return q.obj[1] if isinstance(q.obj, tuple) else st.mem[q.obj].name
    def search(ti, off):
        if name(ti) == name(dst): return off
        if isinstance(ti.obj, tuple): return None
        g = st.mem[ti.obj]
        c0 = g.cells.get(0)
        kind = name(c0[1]) if c0 and isinstance(c0[1], Ptr) else ''
        if '__si_class' in kind:
            return search(g.cells[16][1], off)
        if '__vmi_class' in kind:
            n = ex.load(st, Ptr(ti.obj, 20), 'i32', 4)
            for k in range(n):
                b = ex.load(st, Ptr(ti.obj, 24 + 16 * k), 'ptr', 8)
                fl = ex.load(st, Ptr(ti.obj, 32 + 16 * k), 'i64', 8)
                bo = tm.sgn(fl, 64) >> 8
                if fl & 1:  # virtual base: offset in vtable
                    vt2 = ex.load(st, Ptr(top.obj, top.off + off), 'ptr', 8)
                    bo = tm.sgn(ex.load(st, Ptr(vt2.obj, vt2.off + bo), 'i64', 8), 64)
                r = search(b, off + bo)
                if r is not None: return r
        return None
    r = search(ti, 0)
    return NULL if r is None else Ptr(top.obj, top.off + r)
M['__dynamic_cast'] = dyncast

# ---------------------------------------------------------------- pthread, misc: no effect
for n in ('pthread_mutex_init', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_destroy', 'pthread_mutexattr_init',
          'pthread_mutexattr_settype', 'pthread_mutexattr_destroy'):
    M[n] = lambda ex, st, a, i: 0
M['pthread_self'] = lambda ex, st, a, i: 1
M['pthread_equal'] = lambda ex, st, a, i: int(a[0] == a[1])
M['puts'] = M['printf'] = M['fprintf'] = M['fflush'] = M['putchar'] = M['fputs'] = M['fwrite'] = lambda ex, st, a, i: 0

# ---------------------------------------------------------------- std::string
def sget(ex, st, p):
    o, oi = ex.obj(st, p, 'string read')
    c = o.cells.get(p.off)
    if c is None or not isinstance(c[1], StrVal): raise MemError('use of unconstructed std::string')
    return c[1].s
def sput(ex, st, p, s):
    o, oi = ex.obj(st, p, 'string write')
    if isinstance(o.size, int) and p.off + 32 > o.size: raise MemError('string out of bounds')
    o = st.w(oi); ex.clear(o, p.off, 32); o.cells[p.off] = (32, StrVal(s))
def lit(ex, st, s):
    q = st.new(len(s) + 1, 'heap', 'cstr')
    o = st.mem[q.obj]
    for k, x in enumerate(s.encode('latin1') + b'\0'): o.cells[k] = (1, x)
    o.kind = 'strbuf'
    return q
def cat(a, b): return None if a is None or b is None else a + b
@rx(r'^(std::string|std::allocator<char>|std::__new_allocator<char>)::')
def strmeth(ex, st, a, i):
    key = i[3]
    d = ex.cur_name(st, i)
    if d.startswith('std::allocator') or d.startswith('std::__new_alloc'): return a[0] if a else None
    m = d[len('std::string::'):]
    name = m[:m.index('(')] if '(' in m else m
    sig = m[m.index('('):] if '(' in m else ''
    name = re.sub(r'<.*', '', name)
    this = a[0]
    sret = False
    if name in ('basic_string', 'string') or name.startswith('basic_string'):
        if 'std::string const&, unsigned long, unsigned long' in sig:
            s = sget(ex, st, a[1]); r = None if s is None else s[a[2]:a[2] + a[3]] if a[3] < 2**63 else s[a[2]:]
        elif 'std::string const&, unsigned long' in sig:
            s = sget(ex, st, a[1]); r = None if s is None else s[a[2]:]
        elif 'std::string const&' in sig or 'std::string&&' in sig:
            r = sget(ex, st, a[1])
            if '&&' in sig: sput(ex, st, a[1], '')
        elif 'char const*, unsigned long' in sig:
            s = ex.cstr(st, a[1]); r = None if s is None else s[:a[2]]
        elif 'char const*, char const*' in sig:
            s = ex.cstr(st, a[1]); r = None if s is None else s[:a[2].off - a[1].off]
        elif 'char const*' in sig: 
            if a[1] == NULL: raise Throw('_ZTISt11logic_error', NULL, 'string from null')
            r = ex.cstr(st, a[1])
        elif 'unsigned long, char' in sig: r = chr(a[2]) * a[1]
        else: r = ''
        sput(ex, st, this, r); return None
    if name == '~basic_string' or name == '~string':
        sget(ex, st, this)
        o, oi = ex.obj(st, this); o = st.w(oi); o.cells.pop(this.off, None); return None
    if name in ('assign', 'operator='):
        if 'std::string const&' in sig: r = sget(ex, st, a[1])
        elif 'std::string&&' in sig: r = sget(ex, st, a[1])
        elif '(char const*, unsigned long' in sig: r = ex.cstr(st, a[1]); r = None if r is None else r[:a[2]]
        elif '(char const*' in sig: r = ex.cstr(st, a[1])
        elif '(char)' in sig: r = chr(a[1])
        else: raise EngineError('string ' + d)
        sget(ex, st, this); sput(ex, st, this, r); return this
    if name in ('append', 'operator+=', 'push_back'):
        if 'std::string const&' in sig: r = sget(ex, st, a[1])
        elif '(char const*, unsigned long' in sig: r = ex.cstr(st, a[1]); r = None if r is None else r[:a[2]]
        elif '(char const*' in sig: r = ex.cstr(st, a[1])
        elif '(char)' in sig: r = chr(a[1]) if not isT(a[1]) else None
        elif '(unsigned long, char)' in sig: r = chr(a[2]) * a[1]
        else: raise EngineError('string ' + d)
        sput(ex, st, this, cat(sget(ex, st, this), r)); return this
    if name in ('size', 'length'):
        s = sget(ex, st, this)
        if s is None: raise EngineError('size of unknown string')
        return len(s)
    if name == 'max_size' or name == 'capacity': return 2**62
    if name in ('reserve', '_M_dispose', '_M_destroy'): return None
    if name == 'get_allocator': return a[0]
    if name == 'empty':
        s = sget(ex, st, this)
        if s is None: raise EngineError('empty() of unknown string')
        return s == ''
    if name in ('c_str', 'data', '_M_data', 'begin', 'end'):
        s = sget(ex, st, this)
        q = lit(ex, st, s if s is not None else '?')
        return Ptr(q.obj, len(s)) if name == 'end' else q
    if name == 'clear': sput(ex, st, this, ''); return None
    if name == 'compare':
        s = sget(ex, st, this)
        if '(char const*' in sig: t = ex.cstr(st, a[1])
        elif '(std::string const&' in sig: t = sget(ex, st, a[1])
        elif '(unsigned long, unsigned long, char const*' in sig: t = ex.cstr(st, a[3]); s = s[a[1]:a[1] + a[2]]
        elif '(unsigned long, unsigned long, std::string const&' in sig: t = sget(ex, st, a[3]); s = s[a[1]:a[1] + a[2]]
        else: raise EngineError('string ' + d)
        if s is None or t is None: raise EngineError('compare unknown strings')
        return 0 if s == t else (1 if s > t else 2**32 - 1)
    if name in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of'):
        s = sget(ex, st, this)
        if '(char const*' in sig: t = ex.cstr(st, a[1])
        elif '(std::string const&' in sig: t = sget(ex, st, a[1])
        else: t = chr(a[1])
        pos = a[2] if len(a) > 2 else (0 if name[0] == 'f' else 2**64 - 1)
        if name == 'find': r = s.find(t, pos)
        elif name == 'rfind': r = s.rfind(t)
        elif name == 'find_first_of': r = next((k for k in range(pos, len(s)) if s[k] in t), -1)
        elif name == 'find_first_not_of': r = next((k for k in range(pos, len(s)) if s[k] not in t), -1)
        else: r = next((k for k in range(len(s) - 1, -1, -1) if s[k] in t), -1)
        return r & (2**64 - 1)
    if name == 'substr':
        s = sget(ex, st, a[1]); n = a[3] if len(a) > 3 else 2**64 - 1
        sput(ex, st, a[0], None if s is None else s[a[2]:] if n >= 2**63 else s[a[2]:a[2] + n]); return None
    if name in ('operator[]', 'at', 'back', 'front'):
        s = sget(ex, st, this); q = lit(ex, st, s)
        k = a[1] if len(a) > 1 else (0 if name == 'front' else len(s) - 1)
        return Ptr(q.obj, k)
    raise EngineError('std::string method ' + d)
@rx(r'^std::string std::operator\+<')
def stradd(ex, st, a, i):
    d = ex.cur_name(st, i); args = split_params(d)
    def get(k):
        t = args[k]; v = a[k + 1]
        if 'string' in t: return sget(ex, st, v)
        if t.strip().startswith('char const*'): return ex.cstr(st, v)
        return chr(v) if not isT(v) else None
    sput(ex, st, a[0], cat(get(0), get(1))); return None
@rx(r'^(bool|auto) std::operator(==|!=|<)<char')
def streq(ex, st, a, i):
    d = ex.cur_name(st, i); args = split_params(d)
    def get(k): return sget(ex, st, a[k]) if 'string' in args[k] else ex.cstr(st, a[k])
    x, y = get(0), get(1)
    if x is None or y is None: raise EngineError('compare unknown strings')
    return x == y if 'operator==' in d else x != y if 'operator!=' in d else x < y
def split_params(d):
    # last parenthesised group
    depth = 0; e = d.rindex(')'); k = e
    while True:
        if d[k] == ')': depth += 1
        elif d[k] == '(':
            depth -= 1
            if depth == 0: break
        k -= 1
    s = d[k + 1:e]; out = []; cur = ''; dep = 0
    for ch in s:
        if ch in '<(': dep += 1
        elif ch in '>)': dep -= 1
        if ch == ',' and dep == 0: out.append(cur); cur = ''
        else: cur += ch
    out.append(cur); return out
@rx(r'^std::(__cxx11::)?to_string\(')
def to_string(ex, st, a, i):
    v = a[1]
    d = ex.cur_name(st, i)
    s = None
    if isinstance(v, int) and not isT(v): s = str(tm.sgn(v, 32) if '(int)' in d else v)
    sput(ex, st, a[0], s)

# streams: diagnostics only, no observable effect on verified state
@rx(r'^(std::ostream|std::basic_ostream|std::basic_ios|std::ios_base|std::istream|std::basic_istream|std::__cxx11::basic_[io]?stringstream|std::locale|std::basic_[io]?fstream|std::basic_[io]f?stream|std::basic_streambuf|std::__cxx11::basic_stringbuf)')
def stream(ex, st, a, i):
    d = ex.cur_name(st, i)
    if '::str() const' in d or re.search(r'::str\(\)', d):
        sput(ex, st, a[0], None); return None
    return a[0] if a else None
@rx(r'^(std::ostream& |std::basic_ostream<.*>& )')
def stream2(ex, st, a, i): return a[0]
for n in ('_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev'): M[n] = lambda ex, st, a, i: None
@rx(r'^std::(setprecision|setw|setfill|hex|endl|flush|fixed|scientific)')
def manip(ex, st, a, i): return a[0] if a and i[2] == 'ptr' else 0

# ---------------------------------------------------------------- Gyoto::throwError is an exceptional exit
@rx(r'^Gyoto::throwError\(')
def throw_error(ex, st, a, i):
    try: w = sget(ex, st, a[0])
    except Exception: w = '?'
    raise Throw('_ZTIN5Gyoto5ErrorE', NULL, 'Gyoto::Error %s' % w)

# ---------------------------------------------------------------- specification primitives
def cs(ex, st, p):
    s = ex.cstr(st, p)
    if s is None: raise EngineError('symbolic label')
    return s
@model('gv_real')
def gv_real(ex, st, a, i):
    n = cs(ex, st, a[0])
    lo, hi = a[1], a[2]
    ex.inputs[n] = ('R', float_(lo), float_(hi))
    return sym(n)
def float_(x):
    if isinstance(x, float): return x
    if isT(x):
        import mpmath
        return float(algebra.feval([x], {})[0])
    return float(x)
@model('gv_int')
def gv_int(ex, st, a, i):
    n = cs(ex, st, a[0]); lo, hi = tm.sgn(a[1], 64), tm.sgn(a[2], 64)
    ex.inputs[n] = ('I', lo, hi)
    t = isym(n, 64)
    st.add(not_(icmp('slt', t, lo & (2**64 - 1), 64))); st.add(not_(icmp('slt', hi & (2**64 - 1), t, 64)))
    return t
@model('gv_bits')
def gv_bits(ex, st, a, i):
    n = cs(ex, st, a[0]); ex.inputs[n] = ('U', 0, 2**64 - 1)
    return isym(n, 64)
@model('gv_bool')
def gv_bool(ex, st, a, i):
    n = cs(ex, st, a[0]); ex.inputs[n] = ('B', 0, 1)
    return b2i(bsym(n), 32)
@model('gv_choose')
def gv_choose(ex, st, a, i):
    """finite exhaustive choice"""
    n = cs(ex, st, a[0]); k = a[1]
    ex.inputs[n] = ('I', 0, k - 1)
    t = isym(n, 64)
    for v in range(k - 1):
        if ex.decide(st, icmp('eq', t, v, 64)): return v
    return k - 1
@model('gv_assume')
def gv_assume(ex, st, a, i):
    c = nz(a[0])
    if isinstance(c, bool):
        if not c: raise PathEnd('assume')
        return
    k = st.known(c)
    if k is True: return
    if k is False or not st.add(c) or not ex.feasible(st, c): raise PathEnd('assume')
def nz(v):
    if isinstance(v, bool): return v
    if isinstance(v, int): return v != 0
    if v is UNDEF: raise MemError('uninitialised condition')
    if v.sort == 'B': return v
    return not_(icmp('eq', v, 0, v.w))
@model('gv_eq')
def gv_eq(ex, st, a, i):
    x, y = a[0], a[1]
    if x is UNDEF or y is UNDEF: ex.obligation(st, cs(ex, st, a[2]), 'fail', None, None, detail='uninitialised value'); return
    ex.obligation(st, cs(ex, st, a[2]), 'eq', x, y)
@model('gv_eqi')
def gv_eqi(ex, st, a, i):
    if a[0] is UNDEF or a[1] is UNDEF: ex.obligation(st, cs(ex, st, a[2]), 'fail', None, None, detail='uninitialised value'); return
    ex.obligation(st, cs(ex, st, a[2]), 'true', icmp('eq', a[0], a[1], 64), None, detail='%s == %s' % (a[0], a[1]))
@model('gv_true')
def gv_true(ex, st, a, i):
    if a[0] is UNDEF: ex.obligation(st, cs(ex, st, a[1]), 'fail', None, None, detail='uninitialised value'); return
    ex.obligation(st, cs(ex, st, a[1]), 'true', nz(a[0]), None)
@model('gv_eqp')
def gv_eqp(ex, st, a, i):
    ex.obligation(st, cs(ex, st, a[2]), 'true', a[0] == a[1] if not (isT(a[0].off) or isT(a[1].off)) else ex.ptrcmp('eq', a[0], a[1]), None, detail='%s == %s' % (a[0], a[1]))
@model('gv_deriv')
def gv_deriv(ex, st, a, i):
    if not isT(a[0]): return Fr(0)
    if not isT(a[1]) or a[1].op != 'sym': raise EngineError('gv_deriv wrt non-symbol')
    return algebra.diff([a[0]], a[1])[0]
@model('gv_uf')
def gv_uf(ex, st, a, i):
    n = cs(ex, st, a[0]); k = a[1]
    args = [ex.load(st, Ptr(a[2].obj, a[2].off + 8 * j), 'double', 8) for j in range(k)]
    return uf(n, *args)
@model('gv_expect_throw')
def gv_expect_throw(ex, st, a, i): st.expect_throw = cs(ex, st, a[0])
@model('gv_allow_throw')
def gv_allow_throw(ex, st, a, i): st.allow_throw = True
@model('gv_no_throw')
def gv_no_throw(ex, st, a, i): st.allow_throw = False
@model('gv_samefields')
def gv_samefields(ex, st, a, i):
    """every real-valued member of *a that depends on an input has the same value in *b"""
    o, _ = ex.obj(st, a[0], 'load'); q, _ = ex.obj(st, a[1], 'load')
    for off, (sz, v) in sorted(o.cells.items()):
        if sz == 8 and isT(v) and v.sort == 'R' and off + 8 <= q.size:
            c = q.cells.get(off); l = '%s member@%d' % (cs(ex, st, a[2]), off)
            if c is None or c[0] != 8 or isinstance(c[1], Ptr): ex.obligation(st, l, 'fail', None, None, detail='not copied')
            else:
                x = c[1] if not isinstance(c[1], int) else (Fr(0) if c[1] == 0 else None)
                if x is None: ex.obligation(st, l, 'fail', None, None, detail='not copied')
                else: ex.obligation(st, l, 'eq', v, x)
@model('gv_init')
def gv_init(ex, st, a, i):
    """run the static initialisers of one source file"""
    n = '_GLOBAL__sub_I_' + cs(ex, st, a[0])
    k = [x for x in ex.prog.f if isinstance(x, tuple) and x[0] == n]
    if not k: raise EngineError('no initialisers for ' + n)
    ex.push(st, k[0], [], None, None); return 'CALL'
@model('gv_enum_floor')
def gv_enum_floor(ex, st, a, i): st.ghost['enumfloor'] = True
@model('gv_cover')
def gv_cover(ex, st, a, i): st.covers.append(cs(ex, st, a[0]))
@model('gv_end')
def gv_end(ex, st, a, i): raise PathEnd('ret')
@model('gv_symbolic')
def gv_symbolic(ex, st, a, i): return 1
@model('gv_alive')
def gv_alive(ex, st, a, i):
    p = a[0]
    if p == NULL or isinstance(p.obj, tuple): return 0
    o = st.mem.get(p.obj); return int(o is not None and not o.freed)
@model('gv_array')
def gv_array(ex, st, a, i):
    """unbounded array of doubles: contents are an uninterpreted function of the index"""
    n = cs(ex, st, a[0])
    p = st.new(None, 'heap', n); o = st.mem[p.obj]; o.elem = (n, 8, 'double'); o.size = a[1]
    return p
@model('gv_streq')
def gv_streq(ex, st, a, i):
    x, y = sget(ex, st, a[0]), ex.cstr(st, a[1])
    if x is None or y is None: raise EngineError('unknown string')
    ex.obligation(st, cs(ex, st, a[2]), 'true', x == y, None, detail='%r == %r' % (x, y))
@model('gv_print')
def gv_print(ex, st, a, i):
    import sys
    print('gv_print', cs(ex, st, a[0]), a[1], file=sys.stderr)
