"""Decision procedures over the expression DAG of sym.py.

 * PIT      - polynomial identity testing over F_q, q = 2^127-1 (literals are exact
              decimals, real arithmetic; error probability < degree/q per obligation)
 * mp eval  - 60 digit evaluation (fallback comparison, candidate inputs)
 * diff     - symbolic differentiation (specifications are derivatives of g(p,T), f(rho,T))
 * rel classes + z3 - feasibility of path conditions in linear real arithmetic over atoms
"""
import random, hashlib, math, time, os
from fractions import Fraction
from decimal import Decimal
import mpmath
from mpmath import mp, mpf
import sym
from sym import N, mk, fc, fv, iv, cval, b2f, mkrel, Cons, LT, EQ, GT, UN, swapm, Unsupported
mp.dps = 60
Q = (1 << 127) - 1

# ------------------------------------------------------------------ operators on DAG nodes
def L(x): return x if isinstance(x, N) else fc(float(x))
N.__add__ = lambda a, b: a if not isinstance(b, N) and b == 0 else mk('fadd', a, L(b))
N.__radd__ = lambda a, b: a if not isinstance(b, N) and b == 0 else mk('fadd', L(b), a)
N.__sub__ = lambda a, b: mk('fsub', a, L(b))
N.__rsub__ = lambda a, b: mk('fsub', L(b), a)
N.__mul__ = lambda a, b: mk('fmul', a, L(b))
N.__rmul__ = lambda a, b: mk('fmul', L(b), a)
N.__truediv__ = lambda a, b: mk('fdiv', a, L(b))
N.__rtruediv__ = lambda a, b: mk('fdiv', L(b), a)
N.__neg__ = lambda a: mk('fneg', a)
N.__pow__ = lambda a, n: (mk('powi', a, n) if isinstance(n, int) else mk('pow', a, L(n)))
def sqrt(x): return mk('sqrt', x)
def exp(x): return mk('exp', x)
def log(x): return mk('log', x)
def fabs(x): return mk('fabs', x)
def call(name, *a): return mk('call', name, *[L(x) for x in a])
def poly(x, y, tab): 
    """sum n x^I y^J"""
    r = None
    for i, j, n in tab:
        t = fc(n)
        if i: t = t * x ** i
        if j: t = t * y ** j
        r = t if r is None else r + t
    return r

# ------------------------------------------------------------------ differentiation
_dc = {}
def diff(n, x):
    k = (n.id, x.id)
    r = _dc.get(k)
    if r is None: r = _dc[k] = _diff(n, x)
    return r
ZERO = fc(0.0); ONE = fc(1.0)
def z_(n): return n.op == 'c' and b2f(n.a[0]) == 0
def add_(a, b): return b if z_(a) else a if z_(b) else a + b
def mul_(a, b):
    if z_(a) or z_(b): return ZERO
    if a is ONE: return b
    if b is ONE: return a
    return a * b
def _diff(n, x):
    if n is x: return ONE
    op, a = n.op, n.a
    if op in ('c', 'v'): return ZERO
    if op == 'fadd': return add_(diff(a[0], x), diff(a[1], x))
    if op == 'fsub':
        d = diff(a[1], x); e = diff(a[0], x)
        return e if z_(d) else (-d if z_(e) else e - d)
    if op == 'fneg':
        d = diff(a[0], x); return d if z_(d) else -d
    if op == 'fmul': return add_(mul_(diff(a[0], x), a[1]), mul_(a[0], diff(a[1], x)))
    if op == 'fdiv':
        da, db = diff(a[0], x), diff(a[1], x)
        if z_(db): return ZERO if z_(da) else da / a[1]
        r = -(n * db / a[1]) if z_(da) else (da - n * db) / a[1]
        return r
    if op == 'powi':
        d = diff(a[0], x)
        if z_(d) or a[1] == 0: return ZERO
        return mul_(float(a[1]) * a[0] ** (a[1] - 1) if a[1] != 1 else ONE, d)
    if op == 'pow' and a[1].op == 'c':
        d = diff(a[0], x); e = b2f(a[1].a[0])
        return ZERO if z_(d) else e * mk('pow', a[0], fc(e - 1)) * d
    if op == 'sqrt':
        d = diff(a[0], x)
        return ZERO if z_(d) else d / (2.0 * n)
    if op == 'exp':
        d = diff(a[0], x); return ZERO if z_(d) else n * d
    if op == 'log':
        d = diff(a[0], x); return ZERO if z_(d) else d / a[0]
    raise Unsupported('diff ' + op)
def subst(n, m, memo=None):
    """m: dict node id -> node"""
    if memo is None: memo = {}
    if n.id in m: return m[n.id]
    r = memo.get(n.id)
    if r is None:
        if not any(isinstance(x, N) for x in n.a): r = n
        else: r = mk(n.op, *[subst(x, m, memo) if isinstance(x, N) else x for x in n.a])
        memo[n.id] = r
    return r
def nodes(n, seen=None):
    seen = {} if seen is None else seen
    st = [n]
    while st:
        k = st.pop()
        if k.id in seen: continue
        seen[k.id] = k
        st += [x for x in k.a if isinstance(x, N)]
    return seen
def calls(n): return {k.a[0] for k in nodes(n).values() if k.op in ('call', 'icall', 'bcall')}

# ------------------------------------------------------------------ contracts = interpretations of callee symbols
class Interp:
    """name -> (formals, body DAG) for float functions (struct results: name.i)"""
    def __init__(s): s.t = {}
    def add(s, name, formals, body): s.t[name] = (formals, body)
INT = Interp()

class Singular(Exception): pass
class DivZero(Singular): pass
def frac(bits):
    x = b2f(bits)
    if x != x or x in (math.inf, -math.inf): raise Unsupported('non-finite literal in real-mode evaluation')
    return Fraction(Decimal(repr(x)))
_cq = {}
def cq(bits):
    r = _cq.get(bits)
    if r is None:
        f = frac(bits); r = _cq[bits] = f.numerator * pow(f.denominator, -1, Q) % Q
    return r
def H(*k): return int.from_bytes(hashlib.blake2b(repr(k).encode(), digest_size=24).digest(), 'little') % Q
def qr(x): return pow(x, (Q - 1) // 2, Q) == 1
class FQ:
    """one random point of the identity test"""
    def __init__(s, seed, env=None, interp=INT): s.seed = seed; s.env = env or {}; s.memo = {}; s.I = interp; s.uninterp = set()
    def var(s, name):
        v = s.env.get(name)
        if v is None: v = s.env[name] = H('var', s.seed, name)
        return v
    def ev(s, n):
        m = s.memo
        if n.id in m: return m[n.id]
        st = [n]
        while st:
            k = st[-1]
            if k.id in m: st.pop(); continue
            p = [x for x in k.a if isinstance(x, N) and x.id not in m]
            if p and k.op not in ('fnref',): st += p; continue
            st.pop(); m[k.id] = s.op(k)
        return m[n.id]
    def op(s, n):
        op, a, m = n.op, n.a, s.memo
        if op == 'c': return cq(a[0])
        if op == 'v': return s.var(a[0])
        if op == 'fadd': return (m[a[0].id] + m[a[1].id]) % Q
        if op == 'fsub': return (m[a[0].id] - m[a[1].id]) % Q
        if op == 'fmul': return m[a[0].id] * m[a[1].id] % Q
        if op == 'fdiv':
            d = m[a[1].id]
            if d == 0: raise DivZero()
            return m[a[0].id] * pow(d, -1, Q) % Q
        if op == 'fneg': return -m[a[0].id] % Q
        if op == 'fma': return (m[a[0].id] * m[a[1].id] + m[a[2].id]) % Q
        if op == 'powi':
            x, e = m[a[0].id], a[1]
            if x == 0 and e < 0: raise Singular()
            return pow(x, e, Q)
        if op == 'pow':
            e = cval(a[1]); x = m[a[0].id]
            if e is not None and e == int(e) and abs(e) < 1e6:
                if x == 0 and e < 0: raise Singular()
                return pow(x, int(e), Q)
            if e is not None and 2 * e == int(2 * e):
                return pow(s.root(x), int(2 * e), Q)
            if e is not None and 4 * e == int(4 * e): return pow(s.root(s.root(x)), int(4 * e), Q)
            return H('pow', s.seed, x, m[a[1].id])
        if op == 'sqrt': return s.root(m[a[0].id])
        if op == 'fabs':
            x = m[a[0].id]; return x if x == 0 or qr(x) else Q - x
        if op == 'call':
            c = s.I.t.get(a[0])
            if c is not None and len(c[0]) == len(a) - 1:
                f, b = c
                key = ('call', a[0]) + tuple(m[x.id] for x in a[1:])
                r = m.get(key)
                if r is None:
                    sub = FQ(s.seed, {v.a[0]: m[x.id] for v, x in zip(f, a[1:])}, s.I); r = m[key] = sub.ev(b); s.uninterp |= sub.uninterp
                return r
            s.uninterp.add(a[0])
            return H('call', s.seed, a[0], tuple(m[x.id] if isinstance(x, N) and x.op != 'fnref' else (x.a[0] if isinstance(x, N) else repr(x)) for x in a[1:]))
        if op in ('exp', 'log', 'rnd32', 'fmax', 'fmin', 'copysign', 'cbrt', 'tanh', 'sinh', 'cosh', 'sin', 'cos', 'tan', 'floor', 'ceil', 'trunc', 'round', 'exp2', 'log2', 'log10', 'expm1', 'log1p'):
            return H(op, s.seed, tuple(m[x.id] for x in a))
        # integers, function references, anything else: uninterpreted
        return H(op, s.seed, tuple(m.get(x.id, 0) if isinstance(x, N) else repr(x) for x in a))
    def root(s, x):
        if x == 0: return 0
        r = pow(x, (Q + 1) // 4, Q)
        if r * r % Q != x: raise Singular()
        return r
class IllDefined(Unsupported): pass
SEED = int(os.environ.get('VERIF_SEED', '1'))
class Stats:
    pit = 0; pit_s = 0.0; z3 = 0; z3_s = 0.0; mpe = 0
ST = Stats()
POS = []          # nodes known positive: identity points are restricted to those where they are squares (assumption listed by the user)
def points(ns, k=2, interp=INT, tries=3000):
    """evaluate list of nodes at k random regular points: list of tuples"""
    r = []; t = 0; t0 = time.time(); dz = 0
    while len(r) < k:
        t += 1
        if t > tries: raise Unsupported('no regular point found')
        f = FQ((SEED, t), None, interp)
        try:
            if any(not qr(f.ev(x)) for x in POS): continue
            r.append(tuple(f.ev(n) for n in ns))
        except DivZero:
            dz += 1
            if dz > 3: raise IllDefined('denominator is identically zero')
        except Singular: continue
    ST.pit_s += time.time() - t0
    return r
def identical(a, b, interp=INT):
    """real-field identity a == b"""
    if a is b: return True
    ST.pit += 1
    return all(x == y for x, y in points([a, b], 2, interp))

# ------------------------------------------------------------------ high precision evaluation
class MP:
    def __init__(s, env, interp=INT, uninterp=None): s.env = env; s.memo = {}; s.I = interp; s.un = uninterp; s.mag = None
    def ev(s, n):
        m = s.memo
        if n.id in m: return m[n.id]
        st = [n]
        while st:
            k = st[-1]
            if k.id in m: st.pop(); continue
            p = [x for x in k.a if isinstance(x, N) and x.id not in m]
            if p: st += p; continue
            st.pop(); m[k.id] = s.op(k)
        return m[n.id]
    def op(s, n):
        op, a, m = n.op, n.a, s.memo
        if op == 'c':
            x = b2f(a[0])
            return mpf(repr(x)) if x == x and abs(x) != math.inf else mpf(x)
        if op == 'v': return s.env[a[0]]
        v = [m[x.id] if isinstance(x, N) else x for x in a]
        try:
            if op == 'fadd': return v[0] + v[1]
            if op == 'fsub': return v[0] - v[1]
            if op == 'fmul': return v[0] * v[1]
            if op == 'fdiv': return v[0] / v[1]
            if op == 'fneg': return -v[0]
            if op == 'fma': return v[0] * v[1] + v[2]
            if op == 'powi': return v[0] ** v[1]
            if op == 'pow': 
                return v[0] ** v[1] if v[0] > 0 or v[1] == int(v[1]) else mpf('nan')
            if op == 'sqrt': return mpmath.sqrt(v[0]) if v[0] >= 0 else mpf('nan')
            if op == 'fabs': return abs(v[0])
            if op == 'exp': return mpmath.exp(v[0])
            if op == 'log': return mpmath.log(v[0]) if v[0] > 0 else mpf('nan')
            if op == 'fmax': return max(v)
            if op == 'fmin': return min(v)
            if op == 'cbrt': return mpmath.cbrt(v[0])
            if op == 'rnd32': return mpf(sym.ev('rnd32', [float(v[0])]))
            if op == 'floor': return mpmath.floor(v[0])
            if op == 'ceil': return mpmath.ceil(v[0])
            if op in ('tanh', 'sinh', 'cosh', 'sin', 'cos', 'tan', 'expm1', 'log1p'): return getattr(mpmath, op)(v[0])
        except ZeroDivisionError: return mpf('nan')
        if op == 'call':
            c = s.I.t.get(a[0])
            if c is not None and len(c[0]) == len(a) - 1:
                return MP({f.a[0]: x for f, x in zip(c[0], v[1:])}, s.I, s.un).ev(c[1])
            if s.un: return s.un(a[0], v[1:])
        raise Unsupported('mp ' + op + ' ' + str(a[0])[:60])
def mpeval(n, env, interp=INT, un=None):
    ST.mpe += 1
    return MP({k: mpf(v) for k, v in env.items()}, interp, un).ev(n)
def dbl(n, env, memo=None, interp=INT):
    """IEEE double evaluation with interpretation"""
    memo = {} if memo is None else memo
    if n.id in memo: return memo[n.id]
    st = [n]
    while st:
        k = st[-1]
        if k.id in memo: st.pop(); continue
        p = [x for x in k.a if isinstance(x, N) and x.id not in memo]
        if p: st += p; continue
        st.pop()
        if k.op == 'c': r = b2f(k.a[0])
        elif k.op == 'v': r = env[k.a[0]]
        else:
            v = [memo[x.id] if isinstance(x, N) else x for x in k.a]
            if k.op == 'call':
                c = interp.t.get(k.a[0])
                if c is None: raise Unsupported('dbl call ' + k.a[0])
                r = dbl(c[1], {f.a[0]: x for f, x in zip(c[0], v[1:])}, None, interp)
            else:
                try: r = sym.ev(k.op, v)
                except (OverflowError, ValueError): r = math.nan
        memo[k.id] = r
    return memo[n.id]

# ------------------------------------------------------------------ relation classes, linear atoms, z3
import z3
class Lin:
    """linear normal form over fingerprint-identified atoms"""
    def __init__(s, c=Fraction(0), t=None): s.c = c; s.t = t or {}
    def add(s, o, k=1):
        r = Lin(s.c + k * o.c, dict(s.t))
        for a, v in o.t.items():
            x = r.t.get(a, 0) + k * v
            if x: r.t[a] = x
            else: r.t.pop(a, None)
        return r
    def scale(s, k): return Lin(s.c * k, {a: v * k for a, v in s.t.items()} if k else {})
_lin = {}
_atoms = {}       # fingerprint -> index
atom_node = []
_ill = {}
def fprint(n):
    return points([n], 2)
_cf = {}
def closed(n):
    """no variable, every call interpreted"""
    r = _cf.get(n.id)
    if r is None:
        r = _cf[n.id] = all(k.op not in ('v', 'ivar', 'icall', 'bcall') and (k.op != 'call' or k.a[0] in INT.t) for k in nodes(n).values())
    return r
def atom(n):
    """atom up to constant factor and offset-free: returns Lin"""
    if closed(n): return Lin(mpeval_const(n))
    try: (x,), (y,) = fprint(n)
    except IllDefined:   # a quotient by an identically zero term: no value, an unconstrained unknown
        a = _ill.setdefault(n.id, len(atom_node))
        if a == len(atom_node): atom_node.append(n)
        return Lin(Fraction(0), {a: Fraction(1)})
    if x == 0 and y == 0: return Lin(Fraction(0))
    if x == y and recon(x) is not None: return Lin(recon(x))
    key = x * pow(y, -1, Q) % Q if y else (x,)
    for a, x0 in _atoms.setdefault(key, []):
        k = recon(x * pow(x0, -1, Q) % Q) if x0 else None
        if k is not None: return Lin(Fraction(0), {a: k})
    a = len(atom_node); atom_node.append(n); _atoms[key].append((a, x))
    return Lin(Fraction(0), {a: Fraction(1)})
def recon(x):
    """small rational k with k = x (mod Q), or None"""
    r0, r1, s0, s1 = Q, x, 0, 1; B = 1 << 50
    while r1 > B: q = r0 // r1; r0, r1, s0, s1 = r1, r0 - q * r1, s1, s0 - q * s1
    if s1 == 0 or abs(s1) > B or r1 == 0: return None
    return Fraction(r1, s1)
def mpeval_const(n):
    try: return Fraction(str(mpmath.nstr(mpeval(n, {}), 40)))
    except KeyError: raise Unsupported('constant fingerprint of a non-constant')
def lin(n):
    r = _lin.get(n.id)
    if r is None:
        r = _lin[n.id] = _linf(n)
    return r
def _linf(n):
    op, a = n.op, n.a
    if op == 'c': return Lin(frac(a[0]))
    if op == 'fadd': return lin(a[0]).add(lin(a[1]))
    if op == 'fsub': return lin(a[0]).add(lin(a[1]), -1)
    if op == 'fneg': return lin(a[0]).scale(-1)
    if op == 'fmul':
        x, y = lin(a[0]), lin(a[1])
        if not x.t: return y.scale(x.c)
        if not y.t: return x.scale(y.c)
    if op == 'fdiv':
        y = lin(a[1])
        if not y.t and y.c: return lin(a[0]).scale(1 / y.c)
    if op == 'call' and a[0] in INT.t and len(INT.t[a[0]][0]) == len(a) - 1:
        f, b = INT.t[a[0]]
        return lin(subst(b, {v.id: x for v, x in zip(f, a[1:])}))
    return atom(n)
_zv = {}
def zvar(i):
    v = _zv.get(i)
    if v is None: v = _zv[i] = z3.Real('x%d' % i)
    return v
def zlin(l):
    return z3.Sum([z3.RealVal(str(v)) * zvar(a) for a, v in l.t.items()] + [z3.RealVal(str(l.c))])
def zrel(c, val=True):
    """z3 term of a condition (real semantics: UN never holds)"""
    if c is True or c is False: return z3.BoolVal(c == val)
    if c.op == 'rel':
        m, a, b = c.a
        if not val: m = 15 ^ m
        m &= 7
        if m == 7: return z3.BoolVal(True)
        if m == 0: return z3.BoolVal(False)
        for x, y, mm in ((a, b, m), (b, a, swapm(m))):
            w = cval(y)
            if w is not None and abs(w) == math.inf: return z3.BoolVal(bool(mm & (LT if w > 0 else GT)))
            if w is not None and w != w: return z3.BoolVal(False)
        d = zrelkey(a, b)
        return {LT: d < 0, EQ: d == 0, GT: d > 0, LT | EQ: d <= 0, GT | EQ: d >= 0, LT | GT: d != 0}[m]
    if c.op == 'iset':
        n, ivs = c.a
        x = z3.Int('i%d' % n.id)
        r = z3.Or([z3.And(x >= lo, x <= hi) for lo, hi in ivs])
        return r if val else z3.Not(r)
    if c.op == 'bcall':
        x = z3.Bool('b%d' % c.id); return x if val else z3.Not(x)
    raise Unsupported('zrel ' + c.op)
def zrelkey(a, b):
    return zlin(lin(a).add(lin(b), -1))
def sat(terms, timeout=5000):
    """True / False / None(unknown)"""
    t0 = time.time(); s = z3.Solver(); s.set('timeout', timeout); s.add(*terms)
    r = s.check(); ST.z3 += 1; ST.z3_s += time.time() - t0
    return True if r == z3.sat else False if r == z3.unsat else None
def zatoms(atoms): return [zrel(c, v) for c, v in atoms]
