"""Counterexample search and bounded comparison for obligations the deductive step did not discharge.
The real crate (release build) supplies the values; the specification is evaluated with 60 digits together with a
first-order bound of the rounding error any faithful double evaluation may show."""
from engine import *
import if97
U = mpf(2) ** -52
class Err:
    """value and rounding error bound; opaque functions are executed concretely on the IR"""
    def __init__(s, env, X, interp=INT): s.env = env; s.X = X; s.memo = {}; s.I = interp
    def ev(s, n):
        m = s.memo
        if n.id in m: return m[n.id]
        st = [n]
        while st:
            k = st[-1]
            if k.id in m: st.pop(); continue
            p = [x for x in k.a if isinstance(x, N) and x.id not in m]
            if p and k.op != 'fnref': st += p; continue
            st.pop(); m[k.id] = s.op(k)
        return m[n.id]
    def op(s, n):
        op, a, m = n.op, n.a, s.memo
        if op == 'c':
            x = b2f(a[0]); return (mpf(repr(x)) if x == x and abs(x) != math.inf else mpf(x), abs(mpf(x)) * U / 2 if abs(x) != math.inf else mpf(0))
        if op == 'v': 
            v = s.env[a[0]]; return v if isinstance(v, tuple) else (mpf(v), mpf(0))
        if op in ('fnref', 'constdata'): return (n, mpf(0))
        w = [m[x.id] if isinstance(x, N) else (x, mpf(0)) for x in a]
        v = [x[0] for x in w]; e = [x[1] for x in w]
        nan = mpf('nan')
        try:
            if op == 'fadd': r = v[0] + v[1]; return r, e[0] + e[1] + abs(r) * U
            if op == 'fsub': r = v[0] - v[1]; return r, e[0] + e[1] + abs(r) * U
            if op == 'fneg': return -v[0], e[0]
            if op == 'fabs': return abs(v[0]), e[0]
            if op == 'fmul': r = v[0] * v[1]; return r, abs(v[0]) * e[1] + abs(v[1]) * e[0] + abs(r) * U
            if op == 'fdiv': r = v[0] / v[1]; return r, (e[0] + abs(r) * e[1]) / abs(v[1]) + abs(r) * U
            if op == 'fma': r = v[0] * v[1] + v[2]; return r, abs(v[0]) * e[1] + abs(v[1]) * e[0] + e[2] + abs(r) * U
            if op == 'powi':
                k = v[1]
                if k == 0: return mpf(1), mpf(0)
                r = v[0] ** k; return r, abs(k * v[0] ** (k - 1)) * e[0] + abs(r) * U * abs(k)
            if op == 'pow':
                if v[0] <= 0: return (mpf(0) if v[0] == 0 else nan), mpf(0)
                r = v[0] ** v[1]; return r, abs(v[1] * r / v[0]) * e[0] + abs(r * mpmath.log(v[0])) * e[1] + abs(r) * 4 * U
            if op == 'sqrt':
                if v[0] < 0: return nan, mpf(0)
                r = mpmath.sqrt(v[0]); return r, (e[0] / (2 * r) if r else mpmath.sqrt(e[0])) + abs(r) * U
            if op == 'exp': r = mpmath.exp(v[0]); return r, r * e[0] + r * 2 * U
            if op == 'log':
                if v[0] <= 0: return nan, mpf(0)
                r = mpmath.log(v[0]); return r, e[0] / v[0] + abs(r) * 2 * U
            if op in ('fmax', 'fmin'):
                i = 0 if (v[0] >= v[1]) == (op == 'fmax') else 1; return v[i], max(e)
            if op == 'rnd32': return v[0], e[0] + abs(v[0]) * mpf(2) ** -24
        except ZeroDivisionError: return nan, mpf(0)
        if op == 'call':
            c = s.I.t.get(a[0])
            if c is not None and len(c[0]) == len(a) - 1:
                return Err({f.a[0]: x for f, x in zip(c[0], w[1:])}, s.X, s.I).ev(c[1])
            return mpf(icall(s.X, a[0], v[1:])), mpf(0)
        raise Unsupported('err ' + op)
_ic = {}
def icall(X, name, vals):
    """execute an opaque function of the crate on concrete doubles (IR interpreter)"""
    if name in ('exp', 'log'): raise Unsupported(name)
    l = [f for f in X.m.fns.values() if f.name == name] or [f for f in X.m.fns.values() if f.name.split('::')[-1] == name]
    if len(l) != 1: raise Unsupported('icall ' + name)
    args = []
    for (t, _, _), v in zip(l[0].params, vals):
        if t.k == 'double': args.append(fc(float(v)))
        elif isinstance(v, N) and v.op == 'fnref': args.append(CX(X).gaddr_of([f for f in X.m.fns.values() if f.name == v.a[0]][0].sym))
        elif isinstance(v, (int,)): args.append(v)
        else: raise Unsupported('icall arg')
    key = (name, tuple(a.id if isinstance(a, N) else a for a in args)); r = _ic.get(key)
    if r is None:
        ps = CX(X).run(l[0], args)
        if len(ps) != 1: raise Unsupported('icall paths')
        r = cval(ps[0].ret) if ps[0].status == 'ret' and isinstance(ps[0].ret, N) else math.nan
        if r is None: raise Unsupported('icall symbolic')
        _ic[key] = r
    return r
_cx = []
def CX(X):
    if not _cx: _cx.append(Exec(X.m, None, fork_limit=10 ** 9))
    return _cx[0]
class KErr(Err):
    """error bound of constant folding only: constants off by 8 ulp, exact operations"""
    def op(s, n):
        global U
        if n.op == 'c':
            v, e = Err.op(s, n); x = float(v); return v, (e * 16 if x != int(x if abs(x) < 1e300 else 0) else mpf(0))
        if n.op == 'call':
            c = s.I.t.get(n.a[0])
            if c is not None and len(c[0]) == len(n.a) - 1: return KErr({f.a[0]: s.memo[x.id] for f, x in zip(c[0], n.a[1:])}, s.X, s.I).ev(c[1])
        U, u0 = mpf(0), U
        try: return Err.op(s, n)
        finally: U = u0
def real_dev(l, r, env, X):
    """do two expressions differ in exact arithmetic by more than constant folding explains?"""
    E = KErr(env, X); lv, le = E.ev(l); rv, re = E.ev(r)
    if lv != lv or rv != rv: return False
    return abs(lv - rv) > le + re + abs(rv) * mpf(10) ** -40
class Fl:
    """plain double evaluation, opaque functions executed on the IR"""
    def __init__(s, env, X, interp=INT): s.env = env; s.X = X; s.memo = {}; s.I = interp
    def ev(s, n):
        m = s.memo
        if n.id in m: return m[n.id]
        st = [n]
        while st:
            k = st[-1]
            if k.id in m: st.pop(); continue
            if k.op == 'fnref' or k.op == 'constdata': m[k.id] = k; continue
            p = [x for x in k.a if isinstance(x, N) and x.id not in m]
            if p: st += p; continue
            st.pop()
            if k.op == 'c': r = b2f(k.a[0])
            elif k.op == 'v':
                r = s.env[k.a[0]]
                if isinstance(r, tuple): r = float(r[0])
            else:
                v = [m[x.id] if isinstance(x, N) else x for x in k.a]
                if k.op == 'call':
                    c = s.I.t.get(k.a[0])
                    if c is not None and len(c[0]) == len(k.a) - 1: r = Fl({f.a[0]: x for f, x in zip(c[0], v[1:])}, s.X, s.I).ev(c[1])
                    else: r = icall(s.X, k.a[0], v[1:])
                else:
                    try: r = sym.ev(k.op, v)
                    except (OverflowError, ValueError): r = math.nan
            m[k.id] = r
        return m[n.id]
def holds_at(atoms, env, X, E=None):
    """do the path conditions hold (double evaluation of both sides)"""
    E = E or Fl(env, X)
    for c, v in atoms:
        if c.op == 'rel':
            x, y = E.ev(c.a[1]), E.ev(c.a[2])
            r = bool(c.a[0] & sym.relop(x, y))
        elif c.op == 'bcall': return False
        else: return True
        if r != v: return False
    return True
# ------------------------------------------------------------------ states inside a region
def B23p(T): return 348.05185628969 - 1.1671859879975 * T + 1.0192970039326e-3 * T * T
def psat(T): return dbl(if97.PSAT, {'T': T})
def states(k, N, rnd):
    """(p,T) strictly inside region k"""
    r = []
    while len(r) < N:
        u, w = rnd.random(), rnd.random()
        if k == 1: T = 273.16 + u * 349.9; lo, hi = psat(T) * 1.001, 100.0
        elif k == 2:
            T = 273.16 + u * 799.9; lo = 0.00062; hi = psat(T) * .999 if T <= 623.15 else B23p(T) * .999 if T <= 863.15 else 100.0
            hi = min(hi, 100.0)
            if lo > hi: continue
        elif k == 3: T = 623.2 + u * 239.0; lo, hi = B23p(T) * 1.001, 100.0
        elif k == 5: T = 1073.2 + u * 1199.0; lo, hi = 0.00062, 50.0
        if lo > hi: continue
        p = lo + w * (hi - lo) if rnd.random() < .5 else lo * (hi / lo) ** w
        r.append((p, T))
    return r
def inputs(n, k, sts):
    """inputs of the pair n at the states, taken from the library's own (p,t) answers with the region fixed"""
    rp = replay(); need = sorted({c for c in n if c not in 'pt'})
    if not need: return [(p, T - 273.15) for p, T in sts]
    vals = rp.many([('pt', p, T - 273.15, IDS[c.upper()], k) for p, T in sts for c in need], 60)
    out = []
    for i, (p, T) in enumerate(sts):
        m = dict(zip(need, vals[i * len(need):(i + 1) * len(need)])); m['p'] = p; m['t'] = T - 273.15
        if all(isinstance(x, float) and x == x for x in m.values()): out.append((m[n[0]], m[n[1]]))
    return out
DFL = {'p': (1e-7, 100.0), 't': (0.0, 2000.0), 'h': (0.0, 7500.0), 's': (0.0, 12.0), 'v': (0.0009, 300.0)}
def directed(n, atoms, N, rnd):
    """points inside the box the path condition implies"""
    cs = Cons()
    if not cs.assume_all(atoms): return []
    box = []
    for v, c in ((fv('a'), n[0]), (fv('b'), n[1])):
        lo, hi = DFL[c]; tight = False
        for node, off in ((v, 0.0), (mk('fadd', v, fc(273.15)), 273.15), (mk('fneg', v), None)):
            d = cs.dom.get(node.id)
            if d and off is not None:
                lo, hi = max(lo, d[0] - off), min(hi, d[1] - off); tight = True
        box.append((lo, hi))
    if any(x > y for x, y in box): return []
    return [tuple(lo + (hi - lo) * (rnd.random() if i > 3 else i / 3) for lo, hi in box) for i in range(N)]
_sup = {}
def support(n):
    r = _sup.get(n.id)
    if r is None:
        r = set(); st = [n]; seen = set()
        while st:
            k = st.pop()
            if k.id in seen: continue
            seen.add(k.id)
            if k.op == 'v': r.add(k.a[0])
            st += [x for x in k.a if isinstance(x, N)]
        r = frozenset(r); _sup[n.id] = r; _keepn.append(n)
    return r
_keepn = []
def slivers(n, k, atom_lists, X, rnd, na=40, per=3, tmax=20, firsts=()):
    """points inside thin sets {atoms}: at sampled first inputs every comparison is solved for the second input and the
    gaps between neighbouring solutions are tested"""
    t0 = time.time(); out = []
    base = list(firsts) or inputs(n, k, states(k, na, rnd))
    for A in atom_lists:
        rel = [(c, v) for c, v in A if c.op == 'rel']; got = 0
        dir_ = directed(n, A, na, rnd)
        for a0, b0 in dir_ + base:
            if time.time() - t0 > tmax: return out
            if got >= per * 4: break
            lo, hi = DFL[n[1]]; cr = []
            ok = True
            for c, v in rel:
                l, r = c.a[1], c.a[2]; sl, sr = support(l), support(r)
                if 'b' not in sl and 'b' not in sr:
                    try: ok = bool(c.a[0] & sym.relop(*(Fl({'a': a0, 'b': b0}, X).ev(z) for z in (l, r)))) == v
                    except Unsupported: ok = False
                    if not ok: break
                    continue
                def g(b):
                    F = Fl({'a': a0, 'b': b}, X)
                    try: return F.ev(l) - F.ev(r)
                    except Unsupported: return math.nan
                lin = l.op == 'v' or l.op == 'fadd' and isinstance(l.a[0], N) and l.a[0].op == 'v' and cval(l.a[1]) is not None
                if lin and 'b' not in sr:
                    F = Fl({'a': a0, 'b': b0}, X)
                    try: rv = F.ev(r) - (cval(l.a[1]) if l.op == 'fadd' else 0.0)
                    except Unsupported: continue
                    if rv == rv and abs(rv) < 1e9: cr.append(rv)
                    continue
                G = [lo + (hi - lo) * i / 12 for i in range(13)] + [b0]; G.sort(); V = [g(x) for x in G]
                for i in range(13):
                    if V[i] * V[i + 1] < 0:
                        x, y, vx = G[i], G[i + 1], V[i]
                        for _ in range(60):
                            m = (x + y) / 2; vm = g(m)
                            if (vm > 0) == (vx > 0): x = m
                            else: y = m
                        cr.append((x + y) / 2)
            if not ok: continue
            cr = sorted(set(cr)); ts = [(x + y) / 2 for x, y in zip(cr, cr[1:])] + cr
            for b in ts:
                try:
                    if holds_at(A, {'a': a0, 'b': b}, X): out.append((a0, b)); got += 1
                except Unsupported: break
    return out
