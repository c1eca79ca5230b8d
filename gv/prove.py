"""Discharging obligations, and turning failed ones into witnesses."""
import math, random, time
from fractions import Fraction as Fr
from term import *
import term as tm, algebra, smt, signs

def infeasible(conds, timeout):
    return signs.refuted(conds) or smt.check(conds, timeout) == 'unsat'

_branch = {}
def branches(p, alts, timeout):
    """the alternatives (an exhaustive list of conditions) not shown infeasible under p"""
    k = (tuple(c.id for c in p if isT(c)), tuple(c.id if isT(c) else c for c in alts))
    if k in _branch: return _branch[k]
    left = [c for c in alts if not signs.refuted(list(p) + [c])]
    if len(left) > 1: left = [c for c in left if smt.check(list(p) + [c], timeout) != 'unsat']
    _branch[k] = left
    return left
def positive_syms(pc):
    out = set()
    for c in pc:
        if c.op == 'lt' and not isT(c.args[0]) and c.args[0] >= 0 and isT(c.args[1]) and c.args[1].op == 'sym': out.add(c.args[1].args[0])
    return out
def pinned(pc):
    """symbols that two one-variable linear bounds fix to a value"""
    lo, hi = {}, {}
    for c in pc:
        if c.op != 'le': continue
        t = tm.sub(c.args[0], c.args[1])
        if not isT(t): continue
        try: l = algebra.linear(t)
        except TypeError: continue
        at = [a for a in l if a is not None]
        if len(at) != 1 or at[0].op != 'sym' or any(not isinstance(v, (Fr, int)) for v in l.values()): continue
        k = l[at[0]]; v = -Fr(l.get(None, 0)) / k
        if k > 0: hi[at[0]] = min(hi.get(at[0], v), v)
        else: lo[at[0]] = max(lo.get(at[0], v), v)
    return [(x, lo[x]) for x in lo if hi.get(x) == lo[x]]
def solve_equalities(pc):
    """orient real equalities  sym == expr  as substitutions"""
    sub_ = pinned(pc)
    for c in pc:
        if c.op != 'eq': continue
        a, b = subst_list([c.args[0], c.args[1]], sub_)
        for x, y in ((a, b), (b, a)):
            if isT(x) and x.op == 'sym' and (not isT(y) or x not in walk(y)):
                sub_.append((x, y)); break
        else:
            t = tm.sub(a, b)
            if not isT(t): continue
            lin = algebra.linear(t)
            for at, k in lin.items():
                if at is not None and at.op == 'sym':
                    rest = Fr(0); bad = False
                    for a2, k2 in lin.items():
                        if a2 is at: continue
                        if a2 is not None and at in walk(a2): bad = True; break
                        rest = add(rest, k2 if a2 is None else mul(k2, a2))
                    if bad: continue
                    sub_.append((at, div(neg(rest), k))); break
            else:
                # opaque left-hand side (e.g. cos(x) == 0): substitute the whole term
                if isT(a) and a.op == 'fn' and (not isT(b) or a not in walk(b)): sub_.append((a, b))
                elif isT(b) and b.op == 'fn' and (not isT(a) or b not in walk(a)): sub_.append((b, a))
    return sub_
def subst_list(ts, subs):
    for x, y in subs: ts = subst(ts, {x: y})
    return ts
def ite_conds(t):
    out = []
    for x in walk(t):
        if x.op == 'ite' and x.sort == 'R':
            stack = [x.args[0]]
            while stack:
                c = stack.pop()
                if c.op in ('and', 'or', 'not'): stack += [a for a in c.args if isT(a)]
                elif c not in out: out.append(c)
    return out

def positive_atoms(p, t):
    """opaque atoms of t (sines, opaque functions) asserted positive by p"""
    if not isT(t): return []
    w = None; out = []
    for c in p:
        if isT(c) and c.op == 'lt':
            a, b = c.args
            u = b if (not isT(a) and not isinstance(a, float) and a >= 0) else None
            if u is not None and isT(u) and u.op == 'fn' and u.args[0] not in ('sqrt', 'abs'):
                if w is None: w = {x.id for x in walk(t)}
                if u.id in w and u not in out: out.append(u)
    return out[:5]
_sign = {}
def resolve_abs(t, p):
    """replace |u| by u or -u where the sign abstraction of the path condition decides it (innermost first)"""
    while isT(t):
        todo = None; bad = set()
        for x in walk(t):
            if any(isT(y) and y.id in bad for y in x.args) or x.op in ('ite', 'special'): bad.add(x.id); continue
            if x.op == 'fn' and x.args[0] == 'abs':
                k = (x.id, tuple(c.id for c in p if isT(c)))
                if k not in _sign:
                    u = x.args[1]
                    _sign[k] = u if signs.refuted(list(p) + [lt(u, Fr(0))]) else neg(u) if signs.refuted(list(p) + [lt(Fr(0), u)]) else None
                if _sign[k] is not None: todo = (x, _sign[k]); break
                bad.add(x.id)
        if todo is None: return t
        t = subst([t], {todo[0]: todo[1]})[0]
    return t
_zero = {}
def prove_eq(a, b, pc, budget=20.0):
    """-> ('ok', backend) | ('fail', reason) | ('unknown', reason)"""
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, float) and isinstance(b, float) and (a == b or (a != a and b != b)): return 'ok', 'syntactic'
        r = smt.check(pc, 3000)
        if r == 'unsat': return 'ok', 'z3'
        return 'fail', 'non-finite value'
    if a is b or (not isT(a) and not isT(b) and a == b): return 'ok', 'syntactic'
    t = tm.sub(a, b)
    if not isT(t) and t == 0: return 'ok', 'syntactic'
    t0 = time.time()
    pos = positive_syms(pc)
    if isT(t):
        # an unconditional identity needs no path condition: remembered across paths
        k = _zero.get(t.id)
        if k is None:
            try: k = bool(algebra.is_zero(t, set()))
            except algebra.Unsupported: k = False
            _zero[t.id] = k
        if k: return 'ok', 'identity'
    subs = solve_equalities(pc)
    cases = [(t, list(pc), 0)]; backs = set(); n = 0; unknown = None
    while cases:
        t, p, lvl = cases.pop(); n += 1
        if n > 512 or time.time() - t0 > budget: return 'unknown', 'case split budget'
        cs = ite_conds(t) if isT(t) else []
        if isT(t):
            t2 = resolve_abs(t, p)
            if t2 is not t:
                t = t2; cs = ite_conds(t) if isT(t) else []
        if cs:
            c = cs[-1] if lvl else cs[0]
            c = cs[0]
            alts = [c, not_(c)]; fe = branches(p, alts, 400)
            for v, cc in zip((True, False), alts):
                if cc in fe: cases.append((replace_cond(t, c, v), p + [cc], lvl + 1))
            continue
        sb = solve_equalities(p) if lvl else subs
        ps = positive_syms(p)
        try:
            t2 = subst_list([t], sb)[0] if sb else t
            z = algebra.is_zero(t2, ps)
        except algebra.Unsupported as e:
            z = None; why = str(e)
        if z: backs.add('identity'); continue
        if z is False:
            sq = positive_atoms(p, t2)
            if isT(t2) and any(x.op == 'fn' and x.args[0] == 'sqrt' for x in walk(t2)):
                for c in p[len(pc):]: # signs decided by the case split
                    if isT(c) and c.op in ('lt', 'le'):
                        for u in ([c.args[1]] if not isT(c.args[0]) and c.args[0] == 0 else [neg(c.args[0])] if not isT(c.args[1]) and c.args[1] == 0 else []):
                            if isT(u) and len(sq) < 6 and u not in sq: sq = sq + subst_list([u], sb)
            if sq:
                try:
                    if algebra.is_zero(t2, ps, squares=sq): backs.add('identity'); continue
                except algebra.Unsupported: pass
        if z is False or (z is None and 'identically zero' in why):
            ab = [x for x in walk(t) if x.op == 'fn' and x.args[0] == 'abs'] if isT(t) else []
            if ab and lvl < 12:
                x = ab[0]; u = x.args[1]
                alts = [le(Fr(0), u), lt(u, Fr(0))]; fe = branches(p, alts, 4000)
                for c, v in zip(alts, (u, neg(u))):
                    if c in fe: cases.append((subst([t], {x: v})[0], p + [c], lvl + 1))
                continue
        # not an identity on this case: is the case reachable / does z3 prove it?
        r = smt.check(list(p) + [not_(eq(t, Fr(0)))] if isT(t) else p, 3000)
        if r == 'unsat': backs.add('z3'); continue
        if z is False:
            return 'fail', 'differs by %s' % pretty(t)
        unknown = why
    if unknown: return 'unknown', unknown
    return 'ok', '+'.join(sorted(backs)) or 'syntactic'
def replace_cond(t, c, v):
    mp = {c: v}
    n = not_(c)
    if isT(n): mp[n] = not v
    # also strict/non-strict companions of a decided comparison
    if c.op == 'lt' and v:
        for d, w in ((le(c.args[0], c.args[1]), True), (lt(c.args[1], c.args[0]), False), (eq(*c.args), False)):
            if isT(d): mp[d] = w
    if c.op == 'le' and not v:
        for d, w in ((lt(c.args[0], c.args[1]), False), (eq(*c.args), False)):
            if isT(d): mp[d] = w
    return subst([t], mp)[0]

def split_true(c, pc, budget=8.0):
    """case split on the conditionals of the goal, resolve absolute values, refute by sign abstraction"""
    if not any(x.op == 'ite' or (x.op == 'fn' and x.args[0] == 'abs') for x in walk(c)): return False
    t0 = time.time(); cases = [(c, pc)]; n = 0
    while cases:
        c, p = cases.pop(); n += 1
        if n > 64 or time.time() - t0 > budget: return False
        c = resolve_abs(c, p)
        if c is True: continue
        cs = ite_conds(c) if isT(c) else []
        if not cs:
            if signs.refuted(p + [not_(c)] if isT(c) else p): continue
            return False
        for v in (True, False):
            p2 = p + [cs[0] if v else not_(cs[0])]
            if not signs.refuted(p2): cases.append((replace_cond(c, cs[0], v), p2))
    return True
_inex = {}
def inexact(t):
    """contains a function z3 only approximates: a model may be spurious"""
    if not isT(t): return False
    k = _inex.get(t.id)
    if k is None: k = _inex[t.id] = any(x.op == 'fn' and x.args[0] not in ('abs', 'sqrt') for x in walk(t))
    return k
def prove_true(c, pc, timeout=10000):
    if isinstance(c, bool):
        if c: return 'ok', 'syntactic'
        r = smt.check(pc, 3000)
        if r == 'unsat': return 'ok', 'z3'
        return ('fail' if r == 'sat' or not any(inexact(x) for x in pc) else 'maybe'), 'false on this path'
    if signs.refuted(list(pc) + [not_(c)]): return 'ok', 'z3 (sign abstraction)'
    if split_true(c, list(pc)): return 'ok', 'z3 (sign abstraction)'
    r = smt.check(list(pc) + [not_(c)], timeout)
    if r == 'unsat': return 'ok', 'z3'
    # an equality between reals: use the identity prover
    if c.op == 'eq': return prove_eq(c.args[0], c.args[1], pc)
    if r == 'sat': return ('maybe' if inexact(c) or any(inexact(x) for x in pc) else 'fail'), 'z3 model for the negation of %s' % pretty(c)
    return 'unknown', 'z3 ' + r + ' on ' + pretty(c)

def discharge(ob):
    k = ob['kind']
    if k == 'ok': return 'ok', 'path'
    if k == 'fail':
        for n in (1, 2): # an unsatisfiable part makes the path infeasible
            if len(ob['pc']) > n and smt.check(ob['pc'][-n:], 1000) == 'unsat': return 'ok', 'z3 (path infeasible)'
        r = smt.check(ob['pc'], 5000)
        return ('ok', 'z3 (path infeasible)') if r == 'unsat' else ('fail', ob['detail'])
    if k == 'eq': return prove_eq(ob['a'], ob['b'], ob['pc'])
    if k == 'true': return prove_true(ob['a'], ob['pc'])
    raise ValueError(k)

# ---------------------------------------------------------------- witnesses
def h01(n, k):
    M = (1 << 64) - 1; h = 1469598103934665603
    for ch in n.encode(): h = ((h ^ ch) * 1099511628211) & M
    h = ((h ^ ((k + 0x9e37) & M)) * 1099511628211) & M
    h ^= h >> 29
    h = (h * 1099511628211) & M
    return float((h >> 11) & ((1 << 52) - 1)) / float(1 << 52)
def uf_value(f, z):
    """value of the replay interpretation of an uninterpreted function (see gvrt.cpp)"""
    import mpmath
    n = f[3:]; ders = []
    if "'" in n:
        parts = n.split("'"); n = parts[0]; ders = [int(x) for x in parts[1:]]
    p = 6 * h01(n, 1000)
    for i, a in enumerate(z): p += (0.2 + h01(n, i)) * a
    k = len(ders)
    w = 1.0
    for d in ders: w *= 0.2 + h01(n, d)
    m = mpmath.fp if isinstance(p, float) else mpmath.mp
    if k == 0: return 0.5 + h01(n, 1001) + m.cos(p)
    return w * [m.cos(p), -m.sin(p), -m.cos(p), m.sin(p)][k % 4]
def sample(rng, inputs, k):
    env = {'__uf__': uf_value}
    for n, (s, lo, hi) in inputs.items():
        if s == 'R':
            if k % 5 == 4 and rng.random() < 0.4:
                c = [x for x in (0.0, 1.0, -1.0, 0.5, 2.0, lo, hi) if lo <= x <= hi]
                v = rng.choice(c)
            elif lo > 0 and hi / lo > 1000: v = math.exp(rng.uniform(math.log(lo), math.log(hi)))
            else: v = rng.uniform(lo, hi)
            env[n] = v
        elif s == 'I': env[n] = rng.randint(lo, min(hi, lo + 40)) if rng.random() < 0.8 else rng.randint(lo, hi)
        elif s == 'U':
            v = 0
            for b in range(64):
                if rng.random() < (0.5 if k % 3 else 0.1): v |= 1 << b
            env[n] = v
        else: env[n] = rng.random() < 0.5
    return env
def holds(ob, env):
    """None: path condition not met / not evaluable; True/False: obligation"""
    import mpmath
    fp = mpmath.fp
    try:
        for c in reversed(ob['pc']):
            if not algebra.feval([c], env, fp)[0]: return None
        if ob['kind'] == 'fail': return False
        if ob['kind'] == 'true': return bool(algebra.feval([ob['a']], env, fp)[0])
        if ob['kind'] == 'eq':
            a, b = algebra.feval([ob['a'], ob['b']], env, fp)
            a = float(a); b = float(b)
            if a != a or b != b: return None
            return abs(a - b) <= 2e-6 * max(abs(a), abs(b)) or abs(a - b) <= 2e-9
    except (ValueError, ZeroDivisionError, OverflowError, KeyError, TypeError): return None
def agree(ob, inputs, want=30, tmax=10.0):
    """both sides of a refuted identity agree to 12 digits wherever the path is taken: they differ by the rounding of literals only"""
    import mpmath
    rng = random.Random(4711); t0 = time.time(); n = 0
    subs = [(x, y) for x, y in solve_equalities(ob['pc']) if x.op == 'sym']
    with mpmath.workdps(60):
        for k in range(3000):
            if n >= want: return True
            if time.time() - t0 > tmax: return False
            env = sample(rng, inputs, k)
            try:
                for x, y in subs: env[x.args[0]] = float(algebra.feval([y], env)[0]) if isT(y) else float(y)
                if not all(algebra.feval([c], env, mpmath.mp)[0] for c in reversed(ob['pc'])): continue
                a, b = algebra.feval([ob['a'], ob['b']], env, mpmath.mp)
                if not abs(a - b) <= mpmath.mpf(10) ** -12 * max(abs(a), abs(b)): return False
                n += 1
            except (ValueError, ZeroDivisionError, OverflowError, KeyError, TypeError): continue
    return n >= want
def special(ob): return ob['kind'] == 'fail' or any(isinstance(ob[k], float) for k in 'ab')
def witnesses(ob, inputs, seed=1, want=6, tries=4000, tmax=25.0):
    """candidate inputs falsifying the obligation (evaluated on the extracted terms)"""
    out = []; t0 = time.time()
    conds = list(ob['pc'])
    if ob['kind'] == 'true' and isT(ob['a']): conds.append(not_(ob['a']))
    if ob['kind'] == 'eq' and (isT(ob['a']) or isT(ob['b'])) and not special(ob): conds.append(not_(eq(ob['a'], ob['b'])))
    rng = random.Random(seed)
    r, m = smt.check(conds, 4000, True)
    if r == 'sat' and m is not None:
        base = sample(rng, inputs, 0); base.update({k: (float(v) if isinstance(v, Fr) else v) for k, v in m.items() if k in inputs or True})
        zm = base
    else: zm = None
    fixed = {}
    if m:
        # keep the integer part of the model, resample the reals
        fixed = {k: v for k, v in m.items() if k in inputs and inputs[k][0] != 'R'}
    subs = [(x, y) for x, y in solve_equalities(ob['pc']) if x.op == 'sym']
    for k in range(tries):
        if time.time() - t0 > tmax or len(out) >= want: break
        env = sample(rng, inputs, k)
        if k % 2 == 0: env.update(fixed)
        for x, y in subs:
            try: env[x.args[0]] = float(algebra.feval([y], env)[0]) if isT(y) else float(y)
            except Exception: pass
        if special(ob):
            import mpmath
            try: ok = all(algebra.feval([c], env, mpmath.fp)[0] for c in reversed(ob['pc']))
            except Exception: ok = False
            if ok: out.append(env)
        elif holds(ob, env) is False: out.append(env)
    if zm: out.append(zm)
    return out
