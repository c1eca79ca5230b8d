"""Symbolic execution / VC generation over LLVM IR (irdump output).

All paths of a harness are executed; doubles are mathematical reals, integers
are bit-vectors, memory is object+offset.  Functions without a model are
executed from their own IR (from /repo's current sources); models in models.py
are the assumed contracts of external functions.
"""
import json, re, sys, time
from fractions import Fraction as Fr
from collections import namedtuple
from term import *
import term as tm
import smt

class Ptr(namedtuple('Ptr', 'obj off')):
    __slots__ = ()
NULL = Ptr(0, 0)
class Undef:
    def __repr__(self): return 'undef'
UNDEF = Undef()
class StrVal:
    """contents of a std::string object (concrete text or None when unknown)"""
    __slots__ = ('s',)
    def __init__(self, s): self.s = s
    def __repr__(self): return 'str(%r)' % (self.s,)

class ForkOn(Exception):
    def __init__(self, cond): self.cond = cond
class Throw(Exception):
    def __init__(self, ti, ptr=NULL, what=''): self.ti = ti; self.ptr = ptr; self.what = what
class PathEnd(Exception):
    def __init__(self, status): self.status = status
class MemError(Exception): pass
class EngineError(Exception): pass

class Program:
    def __init__(self, files):
        self.f = {}; self.g = {}; self.alias = {}; self.cache = {}
        for tu, path in enumerate(files):
            with open(path) as fh:
                for line in fh:
                    k, name, js = line.rstrip('\n').split('\t', 2)
                    if k == 'A': self.alias[name] = json.loads(js); continue
                    i = js.find('"local":'); local = js[i + 8] == '1'
                    d = self.f if k == 'F' else self.g
                    key = (name, tu) if local else name
                    if key not in d: d[key] = (tu, js)
                    elif k == 'F' and not local:
                        # strong definition wins over linkonce
                        if '"linkonce":0' in js[:160] and '"linkonce":1' in d[key][1][:160]: d[key] = (tu, js)
    def fkey(self, name, tu):
        name = self.alias.get(name, name)
        if (name, tu) in self.f: return (name, tu)
        if name in self.f: return name
        return None
    def func(self, key):
        r = self.cache.get(key)
        if r is None:
            tu, js = self.f[key]; r = json.loads(js); r['tu'] = tu; r['key'] = key
            r['name'] = key if isinstance(key, str) else key[0]
            self.cache[key] = r
        return r

class Obj:
    __slots__ = ('size', 'cells', 'kind', 'freed', 'fill', 'owner', 'name', 'elem', 'writes', 'ro')
    def __init__(self, size, kind, owner, name=''):
        self.size = size; self.cells = {}; self.kind = kind; self.freed = False; self.fill = []
        self.owner = owner; self.name = name; self.elem = None; self.writes = (); self.ro = False
    def clone(self, owner):
        o = Obj.__new__(Obj)
        o.size = self.size; o.cells = dict(self.cells); o.kind = self.kind; o.freed = self.freed
        o.fill = list(self.fill); o.owner = owner; o.name = self.name; o.elem = self.elem; o.writes = self.writes; o.ro = self.ro
        return o

class Frame:
    __slots__ = ('fn', 'bb', 'ip', 'prev', 'env', 'res', 'inv', 'allocas', 'tu', 'visits')
    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.bb = self.bb; f.ip = self.ip; f.prev = self.prev; f.env = list(self.env)
        f.res = self.res; f.inv = self.inv; f.allocas = list(self.allocas); f.tu = self.tu
        f.visits = self.visits
        return f

_tok = [0]
class State:
    def __init__(self):
        self.frames = []; self.mem = {}; self.pc = []; self.facts = {}; self.tok = 0
        self.nobj = 1; self.globals = {}; self.ghost = {}; self.steps = 0; self.expect_throw = None
        self.allow_throw = False; self.exc = None; self.uninit = 0; self.covers = []
    def fork(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]; s.mem = dict(self.mem); s.pc = list(self.pc)
        s.facts = dict(self.facts); s.nobj = self.nobj; s.globals = dict(self.globals)
        s.ghost = {k: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v) for k, v in self.ghost.items()}
        s.steps = self.steps; s.expect_throw = self.expect_throw; s.allow_throw = self.allow_throw
        s.exc = self.exc; s.uninit = self.uninit; s.covers = list(self.covers)
        _tok[0] += 1; s.tok = _tok[0]
        _tok[0] += 1; self.tok = _tok[0]
        return s
    # ---- path condition
    def add(self, c):
        """returns False if trivially contradictory"""
        if isinstance(c, bool): return c
        if c.op == 'and': return self.add(c.args[0]) and self.add(c.args[1])
        if c.op == 'not' and c.args[0].op == 'or':
            return self.add(not_(c.args[0].args[0])) and self.add(not_(c.args[0].args[1]))
        k = self.known(c)
        if k is True: return True
        if k is False: return False
        self.pc.append(c); self._fact(c, True)
        return True
    def _fact(self, c, v):
        f = self.facts
        f[c.id] = v
        n = not_(c)
        if isT(n): f[n.id] = not v
        if not v: return
        if c.op == 'lt':
            a, b = c.args
            for d, w in ((le(a, b), True), (lt(b, a), False), (le(b, a), False), (eq(a, b), False)):
                if isT(d):
                    f[d.id] = w
                    nd = not_(d); f[nd.id] = not w
        elif c.op == 'eq':
            a, b = c.args
            for d, w in ((le(a, b), True), (lt(b, a), False), (le(b, a), True), (lt(a, b), False)):
                if isT(d): f[d.id] = w
        elif c.op == 'le':
            d = lt(c.args[1], c.args[0])
            if isT(d): f[d.id] = False
    def known(self, c):
        if isinstance(c, bool): return c
        r = self.facts.get(c.id)
        if r is not None: return r
        if c.op == 'not':
            k = self.known(c.args[0]); return None if k is None else not k
        if c.op == 'and':
            a, b = self.known(c.args[0]), self.known(c.args[1])
            if a is False or b is False: return False
            if a and b: return True
        if c.op == 'or':
            a, b = self.known(c.args[0]), self.known(c.args[1])
            if a or b: return True
            if a is False and b is False: return False
        return None
    # ---- memory
    def new(self, size, kind, name=''):
        i = self.nobj; self.nobj += 1
        self.mem[i] = Obj(size, kind, self.tok, name)
        return Ptr(i, 0)
    def w(self, i):
        o = self.mem[i]
        if o.owner != self.tok:
            o = o.clone(self.tok); self.mem[i] = o
        return o

class Exec:
    def __init__(self, prog, models, opts=None):
        self.prog = prog; self.models = models; self.rmodels = models.REGEX
        self.obs = []          # obligations
        self.paths = []        # path outcomes
        self.opts = dict(max_steps=4000000, max_paths=6000, feas_timeout=250, deadline=None)
        self.opts.update(opts or {})
        self.executed = {}     # functions executed from IR
        self.assumed = {}      # modelled externals used
        self.inputs = {}       # name -> (sort, lo, hi)
        self.nfeas = 0
        self.mcache = {}
        self.total_steps = 0
        self.overrides = {}    # function name -> model (callee contracts)
        self.op = {k[3:]: getattr(self, k) for k in dir(self) if k.startswith('op_')}
        for b in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            self.op[b] = self._ibin
        for b in ('zext', 'sext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            self.op[b] = self._cast

    # ------------------------------------------------------------ values
    def val(self, st, fr, o):
        if o.__class__ is int: 
            return fr.env[o]
        return self.const(st, o, fr.tu)
    def const(self, st, o, tu):
        k = o[0]
        if k == 'i':
            if o[1] == 1: return bool(o[2])
            return o[2]
        if k == 'd': return fp_const(o[1])
        if k == 'n': return NULL
        if k == 'g': return self.gaddr(st, o[1], tu)
        if k == 'ge':
            p = self.const(st, o[1], tu); return Ptr(p.obj, p.off + o[2])
        if k == 'u':
            return UNDEF
        if k == 'ld': return self.longd(o[1])
        if k == 'agg': return [self.const(st, x, tu) for x in o[1]]
        if k == 'cast': return self.const(st, o[3], tu)
        if k == 'md' or k == 'asm': return None
        raise EngineError('constant %r' % (o,))
    def longd(self, s):
        if 'inf' in s.lower(): return -INF if s.startswith('-') else INF
        if 'nan' in s.lower(): return NAN
        x = float(s); r = from_float(x)
        if isT(r): return r
        f = Fr(s)
        if f == r or abs(f - r) <= abs(f) * Fr(1, 10**15): return r
        return f
    def gaddr(self, st, name, tu):
        name = self.prog.alias.get(name, name)
        fk = self.prog.fkey(name, tu)
        if fk is not None: return Ptr(('fn', fk), 0)
        gk = (name, tu) if (name, tu) in self.prog.g else name
        i = st.globals.get(gk)
        if i is not None: return Ptr(i, 0)
        if gk in self.prog.g:
            gtu, js = self.prog.g[gk]; g = json.loads(js)
            p = st.new(g['size'], 'global', name if isinstance(name, str) else name[0])
            st.globals[gk] = p.obj
            ob = st.mem[p.obj]; ob.fill.append((0, g['size']))
            for leaf in g['init']:
                if leaf[1] == 'bytes':
                    b = bytes.fromhex(leaf[2])
                    for j, x in enumerate(b): ob.cells[leaf[0] + j] = (1, x)
                else:
                    v = self.const(st, leaf[2], gtu)
                    if isinstance(v, bool): v = int(v)
                    st.mem[p.obj].cells[leaf[0]] = (leaf[1], v)
            st.mem[p.obj].ro = bool(g['const'])
            return p
        if name.startswith('_Z') and ('C1' in name or 'C2' in name or 'D' in name or 'E' in name) or not name.startswith('_'):
            pass
        if self.models.is_function(name) or self.overrides.get(name):
            return Ptr(('fn', name), 0)
        # unknown external: function or data; decide at use
        return Ptr(('ext', name), 0)

    # ------------------------------------------------------------ decisions
    def decide(self, st, c):
        if isinstance(c, bool): return c
        if c is UNDEF: raise MemError('branch on uninitialised value')
        k = st.known(c)
        if k is not None: return k
        raise ForkOn(c)
    def feasible(self, st, c=None):
        conds = relevant(st.pc, c)
        self.nfeas += 1
        key = frozenset(x.id for x in conds)
        r = self.mcache.get(key)
        if r is None:
            r = 'unsat' if c is not None and isT(c) and len(conds) > 8 and smt.check([c], 200) == 'unsat' else smt.check(conds, self.opts['feas_timeout'])
            self.mcache[key] = r
        return r != 'unsat'
    def concretize(self, st, t, w):
        """enumerate values of an integer term by forking"""
        if not isT(t): return t
        for v, c in self.conc_known(st, t): return v
        while isT(t):
            its = [x for x in walk(t) if x.op == 'ite']
            if not its: break
            c = its[0].args[0]
            k = st.known(c)
            if k is None: raise ForkOn(c)
            t = subst([t], {c: k})[0]
        if not isT(t): return t
        for v, c in self.conc_known(st, t): return v
        r, m = smt.check(st.pc + [icmp('eq', t, isym('!pick', w), w)], 5000, True)
        if r != 'sat' or m is None or '!pick' not in m: raise EngineError('cannot enumerate %r' % t)
        st.ghost['nconc'] = st.ghost.get('nconc', 0) + 1
        if st.ghost['nconc'] > 400: raise EngineError('unbounded enumeration of %s' % pretty(t))
        raise ForkOn(icmp('eq', t, m['!pick'], w))
    def conc_known(self, st, t):
        for c in st.pc:
            if c.op == 'ieq' and c.args[1] is t and not isT(c.args[0]): yield c.args[0], c
            elif c.op == 'ieq' and c.args[0] is t and not isT(c.args[1]): yield c.args[1], c

    # ------------------------------------------------------------ memory
    def obj(self, st, p, what='access'):
        if not isinstance(p, Ptr): raise EngineError('%s through non-pointer %r' % (what, p))
        if p.obj == 0: raise MemError('null pointer ' + what)
        if isinstance(p.obj, tuple):
            if p.obj[0] == 'ext':
                gk = p.obj[1]
                i = st.globals.get(gk)
                if i is None:
                    q = st.new(1 << 20, 'extern', gk); st.globals[gk] = q.obj; i = q.obj
                return st.mem[i], i
            raise MemError(what + ' through function pointer')
        o = st.mem.get(p.obj)
        if o is None or o.freed: raise MemError(what + ' after free (%s)' % (o.name if o else '?'))
        return o, p.obj
    def off(self, st, o, p, size):
        off = p.off
        if isT(off):
            w = 64
            if o.elem is not None: return off
            # bounds obligation then enumeration
            if isinstance(o.size, int):
                inb = and_(not_(icmp('ult', o.size - size, off, w)), True)
                k = st.known(inb)
                if k is None:
                    if smt.check(st.pc + [not_(inb)], 2000) == 'unsat': st._fact(inb, True)
                    else: raise ForkOn(inb)
                elif k is False: raise MemError('out-of-bounds offset in %s' % o.name)
            return self.concretize(st, off, w)
        if isinstance(o.size, int) and o.elem is None:
            if off < 0 or off + size > o.size:
                raise MemError('out-of-bounds access to %s at %d (size %s)' % (o.name, off, o.size))
        return off
    def load(self, st, p, ty, size):
        o, oi = self.obj(st, p, 'load')
        off = self.off(st, o, p, size)
        if o.elem is not None: return self.arr_load(st, o, off, ty, size)
        c = o.cells.get(off)
        if c is not None:
            if c[0] == size: return self.coerce(c[1], ty)
            if isinstance(c[1], StrVal): raise EngineError('raw read of std::string')
        if ty == 'agg': raise EngineError('aggregate load')
        # zero fill?
        if c is None:
            hit = [k for k in range(off - 15, off + size) if k in o.cells and k + o.cells[k][0] > off]
            if not hit:
                for a, b in o.fill:
                    if a <= off and off + size <= b: return self.coerce(0, ty)
                if o.kind == 'extern':
                    return self.extern_value(st, o, off, ty, size)
                st.uninit += 1
                return self.fresh_uninit(st, o, off, ty, size, oi)
        # assemble from bytes
        bs = []
        for k in range(off, off + size):
            b = self.byte(o, k)
            if b is None: raise EngineError('partial read of %s at %d size %d: %r' % (o.name, off, size, {k: o.cells[k] for k in o.cells if abs(k - off) < 16}))
            bs.append(b)
        return self.coerce(int.from_bytes(bytes(bs), 'little'), ty)
    def byte(self, o, k):
        for s in range(0, 16):
            c = o.cells.get(k - s)
            if c is not None and c[0] > s:
                v = c[1]
                if isinstance(v, bool): v = int(v)
                if isinstance(v, int): return v >> (8 * s) & 255
                if isinstance(v, Fr) and c[0] == 8 and v == 0: return 0
                if v == NULL: return 0
                return None
        for a, b in o.fill:
            if a <= k < b: return 0
        return None
    def extern_value(self, st, o, off, ty, size):
        if ty == 'ptr': v = Ptr(('ext', '%s+%d*' % (o.name, off)), 0)
        elif ty in ('double', 'float'): v = sym('ext_%s_%d' % (o.name, off))
        else: v = isym('ext_%s_%d' % (o.name, off), int(ty[1:]))
        return v
    def fresh_uninit(self, st, o, off, ty, size, oi):
        nm = 'uninit_%s_%d_%d' % (o.name, oi, off)
        if ty in ('double', 'float', 'x86_fp80'): v = sym(nm)
        elif ty == 'ptr': raise MemError('load of uninitialised pointer from %s+%d' % (o.name, off))
        elif ty[0] == 'i': v = isym(nm, int(ty[1:])) if ty != 'i1' else bsym(nm)
        else: raise EngineError('uninit ' + ty)
        st.w(oi).cells[off] = (size, v if ty != 'i1' else b2i(v, 8))
        return v
    def coerce(self, v, ty):
        if ty == 'double' or ty == 'float' or ty == 'x86_fp80':
            if isinstance(v, (Fr, float)): return v
            if isT(v):
                if v.sort == 'R': return v
                raise EngineError('int term read as double')
            if isinstance(v, bool): v = int(v)
            if isinstance(v, int):
                if v == 0: return Fr(0)
                return fp_const(v)
            if v is UNDEF: return v
            raise EngineError('read %r as %s' % (v, ty))
        if ty == 'ptr':
            if isinstance(v, Ptr): return v
            if v == 0: return NULL
            if v is UNDEF: raise MemError('uninitialised pointer')
            if isinstance(v, int): return Ptr(('int', v), 0)
            raise EngineError('read %r as ptr' % (v,))
        if ty == 'i1':
            if isinstance(v, int): return bool(v & 1)
            if isT(v) and v.sort == 'I': return self.tobool(v)
            return v
        if isinstance(v, bool): return int(v)
        if isT(v) and v.sort == 'B': return b2i(v, int(ty[1:]))
        return v
    def tobool(self, v):
        if isinstance(v, bool): return v
        if isinstance(v, int): return bool(v & 1)
        if isT(v):
            if v.sort == 'B': return v
            if v.op == 'b2i': return v.args[0]
            return icmp('eq', iop('and', v, 1, v.w), 1, v.w)
        return v
    def store(self, st, p, v, size):
        o, oi = self.obj(st, p, 'store')
        if o.ro: raise MemError('store to constant ' + o.name)
        off = self.off(st, o, p, size)
        if o.elem is not None: return self.arr_store(st, o, oi, off, v, size)
        if isinstance(v, list):
            raise EngineError('aggregate store')
        o = st.w(oi)
        c = o.cells.get(off)
        if c is None or c[0] != size: self.clear(o, off, size)
        if v is UNDEF:
            o.cells.pop(off, None); self.unfill(o, off, size); return
        o.cells[off] = (size, v)
    def clear(self, o, off, size):
        for k in range(off - 31, off + size):
            c = o.cells.get(k)
            if c is not None and k + c[0] > off:
                if k < off or k + c[0] > off + size:
                    # split into bytes when concrete
                    for j in range(k, k + c[0]):
                        if j < off or j >= off + size:
                            pass
                    bs = [(j, self.byte(o, j)) for j in range(k, k + c[0])]
                    del o.cells[k]
                    self.unfill(o, k, c[0])
                    for j, b in bs:
                        if (j < off or j >= off + size) and b is not None: o.cells[j] = (1, b)
                else: del o.cells[k]
    def unfill(self, o, off, size):
        if not o.fill: return
        nf = []
        for a, b in o.fill:
            if b <= off or a >= off + size: nf.append((a, b))
            else:
                if a < off: nf.append((a, off))
                if b > off + size: nf.append((off + size, b))
        o.fill = nf
    # unbounded symbolic arrays (elem = (name, size, ty)): functional updates
    def arr_load(self, st, o, off, ty, size):
        name, es, ety = o.elem
        if size != es: raise EngineError('array element size')
        idx = self.elem_index(off, es)
        self.arr_bounds(st, o, idx)
        base = uf(name, i2r(idx, 64, False)) if ety == 'double' else None
        if base is None: raise EngineError('array type')
        v = base
        for wi, wv in o.writes:
            v = ite(icmp('eq', idx, wi, 64), wv, v) if (isT(idx) or isT(wi)) else (wv if idx == wi else v)
        return v
    def arr_store(self, st, o, oi, off, v, size):
        name, es, ety = o.elem
        idx = self.elem_index(off, es)
        self.arr_bounds(st, o, idx)
        o = st.w(oi); o.writes = o.writes + ((idx, v),)
    def elem_index(self, off, es):
        if not isT(off):
            if off % es: raise EngineError('misaligned element')
            return off // es
        if off.op == 'imul' and not isT(off.args[1]) and off.args[1] == es: return off.args[0]
        if off.op == 'iadd' and not isT(off.args[1]) and off.args[1] % es == 0:
            return iop('add', self.elem_index(off.args[0], es), (tm.sgn(off.args[1], 64) // es) & (2**64 - 1), 64)
        if off.op == 'iadd': return iop('add', self.elem_index(off.args[0], es), self.elem_index(off.args[1], es), 64)
        raise EngineError('element index of %s' % pretty(off))
    def arr_bounds(self, st, o, idx):
        if o.size is None: return
        ok = icmp('ult', idx, o.size, 64)
        k = st.known(ok)
        if k is True: return
        if k is False: raise MemError('index out of bounds in ' + o.name)
        if isinstance(ok, bool):
            if not ok: raise MemError('index out of bounds in ' + o.name)
            return
        if smt.check(st.pc + [not_(ok)], 3000) == 'unsat':
            st._fact(ok, True); return
        raise ForkOn(ok)

    def memcpy(self, st, d, s, n):
        if isT(n): n = self.concretize(st, n, 64)
        if n == 0: return
        so, si = self.obj(st, s, 'memcpy read')
        soff = self.off(st, so, s, n)
        do, di = self.obj(st, d, 'memcpy write')
        if do.ro: raise MemError('memcpy to constant')
        doff = self.off(st, do, d, n)
        if so.elem is not None or do.elem is not None:
            es = (so.elem or do.elem)[1]
            if n % es: raise EngineError('memcpy array')
            vals = [self.load(st, Ptr(s.obj, iop('add', soff, k * es, 64) if isT(soff) else soff + k * es), 'double', es) for k in range(n // es)]
            for k, v in enumerate(vals):
                self.store(st, Ptr(d.obj, iop('add', doff, k * es, 64) if isT(doff) else doff + k * es), v, es)
            return
        items = []; covered = []
        if len(so.cells) < n:
            cand = [k for k in so.cells if soff - 16 < k < soff + n]
        else: cand = [k for k in range(soff - 15, soff + n) if k in so.cells]
        for k in sorted(cand):
            c = so.cells[k]
            if k >= soff and k + c[0] <= soff + n: items.append((k - soff, c))
            elif k + c[0] > soff and k < soff + n:
                for j in range(max(k, soff), min(k + c[0], soff + n)):
                    b = self.byte(so, j)
                    if b is None: raise EngineError('partial memcpy')
                    items.append((j - soff, (1, b)))
        fills = [(max(a, soff) - soff, min(b, soff + n) - soff) for a, b in so.fill if a < soff + n and b > soff]
        do = st.w(di)
        self.clear_range(do, doff, n)
        self.unfill(do, doff, n)
        for a, b in fills: do.fill.append((doff + a, doff + b))
        for k, c in items: do.cells[doff + k] = c
    def clear_range(self, o, off, n):
        if n <= 64: self.clear(o, off, n); return
        for k in list(o.cells):
            c = o.cells[k]
            if k + c[0] > off and k < off + n:
                if k < off or k + c[0] > off + n: self.clear(o, off, n); return
                del o.cells[k]
    def memset(self, st, d, v, n):
        if isT(n): n = self.concretize(st, n, 64)
        if n == 0: return
        o, oi = self.obj(st, d, 'memset')
        off = self.off(st, o, d, n)
        o = st.w(oi)
        self.clear_range(o, off, n)
        if isT(v): raise EngineError('memset symbolic')
        self.unfill(o, off, n)
        if v == 0: o.fill.append((off, off + n))
        else:
            for k in range(n): o.cells[off + k] = (1, v & 255)
    def cstr(self, st, p):
        """read a NUL-terminated string; None if not concrete"""
        o, oi = self.obj(st, p, 'strlen')
        if isT(p.off): return None
        r = bytearray(); k = p.off
        c = o.cells.get(k)
        if c is not None and isinstance(c[1], StrVal): return c[1].s
        while True:
            if isinstance(o.size, int) and k >= o.size: raise MemError('unterminated string')
            b = self.byte(o, k)
            if b is None: return None
            if b == 0: return r.decode('latin1')
            r.append(b); k += 1

    # ------------------------------------------------------------ running
    def start(self, name, args=()):
        st = State()
        key = self.prog.fkey(name, 0)
        if key is None:
            for k in self.prog.f:
                if (k if isinstance(k, str) else k[0]) == name: key = k
        if key is None: raise EngineError('harness %s not found' % name)
        self.push(st, key, list(args), None, None)
        return st
    def push(self, st, key, args, res, inv):
        f = self.prog.func(key)
        fr = Frame(); fr.fn = f; fr.bb = 0; fr.ip = 0; fr.prev = -1
        fr.env = [None] * f['nvals']; fr.res = res; fr.inv = inv; fr.allocas = []; fr.tu = f['tu']; fr.visits = 0
        n = f['nargs']
        if len(args) < n: raise EngineError('arity')
        for i in range(n): fr.env[i] = args[i]
        st.frames.append(fr)
        if len(st.frames) > 400: raise EngineError('recursion')
        self.executed[f['name']] = self.executed.get(f['name'], 0) + 1
    def run(self, name, args=(), init=None):
        st = self.start(name, args)
        if init: init(self, st)
        work = [st]
        while work:
            if len(self.paths) > self.opts['max_paths']: raise EngineError('path limit')
            st = work.pop()
            try:
                while True:
                    self.step_block(st)
            except ForkOn as f:
                c = f.cond
                for v in (False, True):
                    s2 = st.fork()
                    cc = c if v else not_(c)
                    if s2.add(cc) and self.feasible(s2, cc): work.append(s2)
                    elif isT(c): pass
            except PathEnd as e:
                self.finish(st, e.status)
            except MemError as e:
                self.obligation(st, 'memory-safety', 'fail', None, None, detail=str(e) + ' in ' + self.where(st))
                self.finish(st, 'memerror: ' + str(e))
            except Throw as e:
                if not self.unwind(st, e): self.finish(st, 'throw', e)
                else: work.append(st)
        return self
    def where(self, st):
        return ' < '.join(f.fn['name'] for f in reversed(st.frames[-4:]))
    def finish(self, st, status, exc=None):
        if status == 'throw':
            if st.expect_throw: self.obligation(st, st.expect_throw, 'ok', None, None)
            elif not st.allow_throw:
                self.obligation(st, 'no-throw', 'fail', None, None, detail='throws: %s in %s' % (exc.what if exc else '', self.where(st)))
        elif status == 'ret' and st.expect_throw:
            self.obligation(st, st.expect_throw, 'fail', None, None, detail='does not throw')
        self.total_steps += st.steps
        self.paths.append((status, st.pc, st.covers))
    def obligation(self, st, label, kind, a, b, detail=None):
        self.obs.append(dict(label=label, kind=kind, a=a, b=b, pc=tuple(st.pc), detail=detail))
    def unwind(self, st, e):
        while st.frames:
            fr = st.frames[-1]
            ins = fr.fn['bb'][fr.bb][fr.ip] if fr.ip < len(fr.fn['bb'][fr.bb]) else None
            if ins is not None and ins[0] == 'invoke':
                ub = ins[8]
                lp = next((x for x in fr.fn['bb'][ub] if x[0] == 'landingpad'), None)
                sel = None
                if lp is not None:
                    for kind, cl in lp[3]:
                        if kind == 'catch' and self.catches(cl, e.ti): sel = (cl[1] if cl[0] == 'g' else '*'); break
                    if sel is None and lp[2]: sel = 0
                    if sel is not None:
                        st.exc = (e, sel)
                        self.jump(st, fr, ub)
                        return True
            if len(st.frames) == 1: return False
            self.pop_frame(st)
        return False
    def catches(self, clause, ti):
        if clause[0] == 'n': return True
        name = clause[1]
        if ti is None: return True
        seen = 0
        while ti and seen < 5:
            if ti == name: return True
            g = self.prog.g.get(ti)
            if not g: return False
            init = json.loads(g[1])['init']
            ti = next((l[2][1] for l in init if l[0] == 16 and l[2][0] == 'g'), None); seen += 1
        return False
    def pop_frame(self, st):
        fr = st.frames.pop()
        for oi in fr.allocas:
            o = st.w(oi); o.freed = True; o.cells = {}; o.fill = []
        return fr
    def jump(self, st, fr, bb):
        fr.prev = fr.bb; fr.bb = bb; fr.ip = 0
        blk = fr.fn['bb'][bb]
        if blk and blk[0][0] == 'phi':
            vals = []
            for ins in blk:
                if ins[0] != 'phi': break
                for b, o in ins[3]:
                    if b == fr.prev: vals.append((ins[1], self.val(st, fr, o))); break
                else: raise EngineError('phi')
            for r, v in vals: fr.env[r] = v
            fr.ip = len(vals)
    def step_block(self, st):
        """execute until control leaves the current block"""
        fr = st.frames[-1]
        blk = fr.fn['bb'][fr.bb]
        op = self.op
        n = 0
        while True:
            ins = blk[fr.ip]
            n += 1
            h = op.get(ins[0])
            if h is None: raise EngineError('instruction ' + ins[0])
            r = h(st, fr, ins)
            if r is not None: break       # control transferred
            fr.ip += 1
        st.steps += n
        if st.steps > self.opts['max_steps']: raise EngineError('step limit (unbounded loop?) in ' + self.where(st))
        if self.opts['deadline'] and time.time() > self.opts['deadline']: raise EngineError('deadline')

    # ------------------------------------------------------------ instructions
    def op_alloca(self, st, fr, i):
        n = self.val(st, fr, i[3])
        if isT(n): n = self.concretize(st, n, 64)
        p = st.new(i[2] * n, 'stack', 'local')
        fr.allocas.append(p.obj); fr.env[i[1]] = p
    def op_load(self, st, fr, i):
        fr.env[i[1]] = self.load(st, self.val(st, fr, i[4]), i[2], i[3]) if i[2] != 'agg' else self.aggload(st, fr, i)
    def aggload(self, st, fr, i):
        p = self.val(st, fr, i[4]); out = []
        if isT(p.off): raise EngineError('aggregate load')
        for path, off, ty, sz in i[5]:
            v = out
            for k in path[:-1]:
                while len(v) <= k: v.append([])
                v = v[k]
            while len(v) <= path[-1]: v.append(UNDEF)
            v[path[-1]] = self.load(st, Ptr(p.obj, p.off + off), ty, sz)
        return out
    def op_store(self, st, fr, i):
        if i[2] == 'agg':
            p = self.val(st, fr, i[5]); v = self.val(st, fr, i[4])
            for path, off, ty, sz in i[6]:
                x = v
                for k in path: x = x[k] if x is not UNDEF and len(x) > k else UNDEF
                if ty == 'i1' and x is not UNDEF: x = b2i(x, 8)
                self.store(st, Ptr(p.obj, p.off + off), x, sz)
            return
        v = self.val(st, fr, i[4])
        if i[2] == 'i1': v = b2i(v, 8) if v is not UNDEF else v
        self.store(st, self.val(st, fr, i[5]), v, i[3])
    def op_getelementptr(self, st, fr, i):
        p = self.val(st, fr, i[2])
        off = i[3]
        if not isinstance(p, Ptr):
            if p is UNDEF: raise MemError('arithmetic on uninitialised pointer')
            raise EngineError('gep on %r' % (p,))
        for o, sc, w in i[4]:
            v = self.val(st, fr, o)
            if v is UNDEF: raise MemError('uninitialised index')
            if isT(v):
                v = sext(v, w, 64) if w < 64 else v
                off = iop('add', iop('mul', v, sc, 64), off & (2**64 - 1) if not isT(off) else off, 64)
            else:
                v = tm.sgn(v, w)
                if isT(off): off = iop('add', off, v * sc & (2**64 - 1), 64)
                else: off += v * sc
        o0 = p.off
        if isT(o0) or isT(off):
            a = o0 if isT(o0) else o0 & (2**64 - 1); b = off if isT(off) else off & (2**64 - 1)
            r = iop('add', a, b, 64)
            if not isT(r): r = tm.sgn(r, 64)
        else: r = o0 + off
        if p.obj == 0 and r != 0 and not isT(r): r = r
        fr.env[i[1]] = Ptr(p.obj, r)
    def _f2(self, st, fr, i, f):
        a, b = self.val(st, fr, i[3]), self.val(st, fr, i[4])
        if a is UNDEF or b is UNDEF: fr.env[i[1]] = UNDEF; return
        if isinstance(a, list): fr.env[i[1]] = [f(x, y) for x, y in zip(a, b)]; return
        fr.env[i[1]] = f(a, b)
    def op_fadd(self, st, fr, i): self._f2(st, fr, i, add)
    def op_fsub(self, st, fr, i): self._f2(st, fr, i, sub)
    def op_fmul(self, st, fr, i): self._f2(st, fr, i, mul)
    def op_fdiv(self, st, fr, i): self._f2(st, fr, i, div)
    def op_frem(self, st, fr, i): self._f2(st, fr, i, lambda a, b: fn('fmod', a, b))
    def op_fneg(self, st, fr, i):
        v = self.val(st, fr, i[3]); fr.env[i[1]] = neg(v) if v is not UNDEF else v
    def op_freeze(self, st, fr, i):
        v = self.val(st, fr, i[3])
        fr.env[i[1]] = (False if i[2] == 'i1' else 0) if v is UNDEF else v
    def _ibin(self, st, fr, i):
        op, ty = i[0], i[2]
        a, b = self.val(st, fr, i[3]), self.val(st, fr, i[4])
        if a is UNDEF or b is UNDEF: fr.env[i[1]] = UNDEF; return
        if ty == 'i1':
            if op == 'and': r = and_(a, b)
            elif op == 'or': r = or_(a, b)
            elif op in ('xor', 'add', 'sub'):
                if isinstance(b, bool): r = not_(a) if b else a
                elif isinstance(a, bool): r = not_(b) if a else b
                else: r = or_(and_(a, not_(b)), and_(not_(a), b))
            else: raise EngineError('i1 ' + op)
            fr.env[i[1]] = r; return
        w = int(ty[1:])
        if isinstance(a, Ptr) or isinstance(b, Ptr): fr.env[i[1]] = self.ptrarith(op, a, b, w); return
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            z = icmp('eq', b, 0, w)
            if not isinstance(z, bool):
                if self.decide(st, z): raise MemError('integer division by zero')
            elif z: raise MemError('integer division by zero')
        fr.env[i[1]] = iop(op, a, b, w)
    def ptrarith(self, op, a, b, w):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj:
                if isT(a.off) or isT(b.off):
                    m = 2**64 - 1
                    return iop('sub', a.off if isT(a.off) else a.off & m, b.off if isT(b.off) else b.off & m, 64)
                return (a.off - b.off) & ((1 << w) - 1)
            if b == NULL: return a
            raise EngineError('pointer difference of distinct objects')
        if op == 'and' and isinstance(a, Ptr) and b == 1 and not isT(a.off): return (a.off & 1)
        if op == 'and' and isinstance(a, Ptr) and isinstance(b, int) and not isT(a.off): return a.off & b
        if op == 'add' and isinstance(a, Ptr) and not isinstance(b, Ptr):
            if isT(b) or isT(a.off): return Ptr(a.obj, iop('add', a.off if isT(a.off) else a.off & (2**64 - 1), b, 64))
            return Ptr(a.obj, a.off + tm.sgn(b, w))
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, int): return Ptr(a.obj, a.off - tm.sgn(b, w))
        if op == 'add' and isinstance(b, Ptr): return self.ptrarith(op, b, a, w)
        if op == 'or' and b == 0: return a
        raise EngineError('pointer arithmetic ' + op)
    def op_icmp(self, st, fr, i):
        pred, ty = i[2], i[3]
        a, b = self.val(st, fr, i[4]), self.val(st, fr, i[5])
        if a is UNDEF or b is UNDEF: fr.env[i[1]] = UNDEF; return
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            fr.env[i[1]] = self.ptrcmp(pred, a, b); return
        if ty == 'i1':
            if pred in ('eq', 'ne'):
                if isinstance(b, bool): r = a if b else not_(a)
                elif isinstance(a, bool): r = b if a else not_(b)
                else: r = or_(and_(a, b), and_(not_(a), not_(b)))
                fr.env[i[1]] = r if pred == 'eq' else not_(r); return
            a, b = b2i(a, 8), b2i(b, 8); ty = 'i8'
        fr.env[i[1]] = icmp(pred, a, b, int(ty[1:]))
    def ptrcmp(self, pred, a, b):
        if not isinstance(a, Ptr): a = NULL if a == 0 else Ptr(('int', a), 0)
        if not isinstance(b, Ptr): b = NULL if b == 0 else Ptr(('int', b), 0)
        if a.obj == b.obj:
            m = 2**64 - 1
            if isT(a.off) or isT(b.off):
                return icmp(pred, a.off if isT(a.off) else a.off & m, b.off if isT(b.off) else b.off & m, 64)
            p = pred if pred in ('eq', 'ne') else 's' + pred[1:]
            return icmp(p, a.off & m, b.off & m, 64)
        if pred == 'eq': return False
        if pred == 'ne': return True
        ka = str(a.obj); kb = str(b.obj)
        return {'lt': ka < kb, 'le': ka <= kb, 'gt': ka > kb, 'ge': ka >= kb}[pred[1:]]
    def op_fcmp(self, st, fr, i):
        pred = i[2]; a, b = self.val(st, fr, i[4]), self.val(st, fr, i[5])
        fr.env[i[1]] = self.fcmp(pred, a, b)
    def fcmp(self, pred, a, b):
        if pred == 'true': return True
        if pred == 'false': return False
        if a is UNDEF or b is UNDEF: return UNDEF
        nan = (isinstance(a, float) and a != a) or (isinstance(b, float) and b != b)
        if nan: return pred[0] == 'u'
        if pred == 'ord': return True
        if pred == 'uno': return False
        p = pred[1:]
        if p == 'eq': return eq(a, b)
        if p == 'ne': return not_(eq(a, b))
        if p == 'lt': return lt(a, b)
        if p == 'le': return le(a, b)
        if p == 'gt': return lt(b, a)
        if p == 'ge': return le(b, a)
        raise EngineError(pred)
    def _cast(self, st, fr, i):
        op, s, d = i[0], i[2], i[3]
        fr.env[i[1]] = self.cast(op, s, d, self.val(st, fr, i[4]))
    def cast(self, op, s, d, v):
        if v is UNDEF: return v
        if op in ('fpext', 'fptrunc', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            if op == 'inttoptr' and not isinstance(v, Ptr): return NULL if v == 0 else Ptr(('int', v), 0)
            return v
        if op == 'bitcast':
            if s == d: return v
            if d == 'double': return self.coerce(v, 'double')
            if s == 'double' and isinstance(v, Fr) and v == 0: return 0
            return v
        if op in ('zext', 'sext'):
            w = int(d[1:])
            if s == 'i1':
                r = b2i(v, w)
                if op == 'sext': r = iop('sub', 0, r, w)
                return r
            if isinstance(v, Ptr): return v
            return (zext if op == 'zext' else sext)(v, int(s[1:]), w)
        if op == 'trunc':
            if d == 'i1': return self.tobool(v)
            if isinstance(v, Ptr): raise EngineError('truncated pointer')
            return trunc(v, int(s[1:]), int(d[1:]))
        if op in ('fptosi', 'fptoui'):
            return r2i(v, int(d[1:]), op == 'fptosi')
        if op in ('sitofp', 'uitofp'):
            if s == 'i1': return ite(v, Fr(1), Fr(0)) if isT(v) else Fr(int(v))
            return i2r(v, int(s[1:]), op == 'sitofp')
        raise EngineError(op)
    def op_select(self, st, fr, i):
        c, a, b = (self.val(st, fr, x) for x in i[3:6])
        if c is UNDEF: raise MemError('select on uninitialised value')
        k = st.known(c) if isT(c) else c
        if k is not None: fr.env[i[1]] = a if k else b; return
        ty = i[2]
        if ty in ('double', 'float', 'x86_fp80') and not isinstance(a, float) and not isinstance(b, float) and a is not UNDEF and b is not UNDEF:
            fr.env[i[1]] = ite(c, a, b)
        elif ty == 'i1' and a is not UNDEF and b is not UNDEF: fr.env[i[1]] = ite(c, a, b)
        elif ty[0] == 'i' and not isinstance(a, Ptr) and not isinstance(b, Ptr) and a is not UNDEF and b is not UNDEF: fr.env[i[1]] = iite(c, a, b, int(ty[1:]))
        else: raise ForkOn(c)
    def op_extractvalue(self, st, fr, i):
        v = self.val(st, fr, i[2])
        for k in i[3]: v = v[k] if v is not UNDEF else UNDEF
        fr.env[i[1]] = v
    def op_insertvalue(self, st, fr, i):
        v = self.val(st, fr, i[2]); x = self.val(st, fr, i[3])
        def put(v, path):
            v = list(v) if isinstance(v, list) else []
            while len(v) <= path[0]: v.append(UNDEF)
            v[path[0]] = x if len(path) == 1 else put(v[path[0]], path[1:])
            return v
        fr.env[i[1]] = put(v, i[4])
    def op_extractelement(self, st, fr, i):
        v = self.val(st, fr, i[3]); k = self.val(st, fr, i[4]); fr.env[i[1]] = v[k]
    def op_br(self, st, fr, i):
        if i[2] is None: self.jump(st, fr, i[3]); return 1
        c = self.val(st, fr, i[2])
        self.jump(st, fr, i[3] if self.decide(st, c) else i[4]); return 1
    def op_switch(self, st, fr, i):
        v = self.val(st, fr, i[2]); w = i[5]
        if v is UNDEF: raise MemError('switch on uninitialised value')
        if isinstance(v, bool): v = int(v)
        for cv, bb in i[4]:
            if self.decide(st, icmp('eq', v, cv, w) if not (isT(v) and v.sort == 'B') else (v if cv else not_(v))): self.jump(st, fr, bb); return 1
        self.jump(st, fr, i[3]); return 1
    def op_ret(self, st, fr, i):
        v = None if i[2] is None else self.val(st, fr, i[2])
        self.pop_frame(st)
        if not st.frames: raise PathEnd('ret')
        self.ret(st, fr.res, fr.inv, v)
        return 1
    def ret(self, st, res, inv, v):
        fr = st.frames[-1]
        if res is not None and res >= 0: fr.env[res] = v
        if inv is not None: self.jump(st, fr, inv)
        else: fr.ip += 1
    def op_unreachable(self, st, fr, i): raise PathEnd('unreachable')
    def op_resume(self, st, fr, i):
        e = st.exc[0] if st.exc else Throw(None)
        self.pop_frame(st)
        if not st.frames: raise PathEnd('throw')
        raise e
    def op_landingpad(self, st, fr, i):
        e, sel = st.exc
        fr.env[i[1]] = [e.ptr, self.typeid(sel) if sel != 0 else 0]
    def typeid(self, name): return (hash_name(name) & 0x3fffffff) | 1
    def op_atomicrmw(self, st, fr, i):
        ty, size = i[3], i[4]; p = self.val(st, fr, i[5]); v = self.val(st, fr, i[6])
        old = self.load(st, p, ty, size); w = int(ty[1:])
        if i[2] in ('add', 'sub', 'and', 'or', 'xor'): new = iop(i[2], old, v, w)
        elif i[2] == 'xchg': new = v
        else: raise EngineError('atomicrmw')
        self.store(st, p, new, size); fr.env[i[1]] = old
    def op_fence(self, st, fr, i): pass
    def op_call(self, st, fr, i):
        return self.docall(st, fr, i, None)
    def op_invoke(self, st, fr, i):
        r = self.docall(st, fr, i, i[7])
        if r is None: self.jump(st, fr, i[7])
        return 1
    def docall(self, st, fr, i, inv):
        if i[3].__class__ is list and i[3][0] == 'asm': raise EngineError('inline asm')
        cal = self.val(st, fr, i[3])
        if not isinstance(cal, Ptr): raise EngineError('call through %r' % (cal,))
        if cal.obj == 0: raise MemError('call through null pointer')
        if not isinstance(cal.obj, tuple): raise EngineError('call to data')
        key = cal.obj[1]
        name = key if isinstance(key, str) else key[0]
        args = [self.val(st, fr, a) if a.__class__ is int or a[0] != 'md' else None for a in i[4]]
        for k, bv in enumerate(i[6]):
            if bv:
                q = st.new(bv, 'stack', 'byval'); fr.allocas.append(q.obj)
                self.memcpy(st, q, args[k], bv); args[k] = q
        m = self.overrides.get(name) or self.models.find(name)
        if m is not None:
            self.assumed[name] = self.assumed.get(name, 0) + 1
            v = m(self, st, args, i)
            if v == 'CALL': return 1     # model pushed a frame
            if i[1] is not None and i[1] >= 0:
                if i[2] == 'i1' and isinstance(v, int) and not isinstance(v, bool): v = bool(v)
                fr.env[i[1]] = v
            return None
        if cal.obj[0] == 'fn' and key in self.prog.f:
            self.push(st, key, args, i[1], inv)
            return 1
        fk = self.prog.fkey(name, fr.tu)
        if fk is not None:
            self.push(st, fk, args, i[1], inv); return 1
        raise EngineError('external function without contract: ' + str(name))

def hash_name(s):
    import zlib
    return zlib.crc32(str(s).encode())

def relevant(pc, c):
    """cone of influence of c in pc"""
    if c is None or len(pc) < 3: return list(pc)
    syms = {}
    for k in pc: syms[k.id] = _syms(k)
    s = set(_syms(c)); out = []; rest = [k for k in pc]
    ch = True
    while ch:
        ch = False; r2 = []
        for k in rest:
            if k is c or syms[k.id] & s: out.append(k); s |= syms[k.id]; ch = True
            else: r2.append(k)
        rest = r2
    return out
_sc = {}
def _syms(t):
    r = _sc.get(t.id)
    if r is None:
        r = frozenset(x.id for x in walk(t) if x.op in ('sym', 'isym', 'bsym')); _sc[t.id] = r
    return r

def _cur_name(self, st, i):
    """demangled name of the callee of call instruction i"""
    cal = self.val(st, st.frames[-1], i[3])
    k = cal.obj[1]
    return self.models.demangle(k if isinstance(k, str) else k[0])
Exec.cur_name = _cur_name
