"""Symbolic executor for the LLVM IR of the crate under verification.

Floats are hash-consed expression DAGs; integers, pointers and tables are concrete
(or opaque integer nodes with interval domains).  A function summary is the complete
list of its paths: (path condition, result).  Loops run concretely to their real exit;
a loop whose exit depends on symbolic data makes the *call* opaque (an uninterpreted
function of its arguments), which the caller reports."""
import struct, math, sys
from ir import *
sys.setrecursionlimit(20000)

class Unsupported(Exception): pass
class SymLoop(Unsupported): pass
class Fork(Exception):
    def __init__(s, alts): s.alts = alts            # list of list of (cond,bool)
class ForkRet(Exception):
    def __init__(s, alts): s.alts = alts            # list of (atoms, status, retval)

# ------------------------------------------------------------------ DAG
class N(object):
    __slots__ = ('op', 'a', 'id', 'cv', 'isint')
    def __repr__(s): return show(s)
_tab = {}
_cnt = [0]
def mk(op, *a):
    k = (op, tuple([x.id if isinstance(x, N) else ('#', x) for x in a]))
    n = _tab.get(k)
    if n is None:
        n = N(); n.op = op; n.a = a; _cnt[0] += 1; n.id = _cnt[0]; n.cv = False; n.isint = op[0] == 'i' and op != 'iset'
        _tab[k] = n
    return n
def f2b(x): return struct.unpack('<Q', struct.pack('<d', x))[0]
def b2f(b): return struct.unpack('<d', struct.pack('<Q', b & 0xFFFFFFFFFFFFFFFF))[0]
def fc(x): return mk('c', f2b(x))
def fv(n): return mk('v', n)
def iv(n): return mk('ivar', n)

def show(n, d=6):
    if not isinstance(n, N): return repr(n)
    if n.op == 'c': return repr(b2f(n.a[0]))
    if n.op in ('v', 'ivar'): return n.a[0]
    if d == 0: return '…'
    s = {'fadd': '+', 'fsub': '-', 'fmul': '*', 'fdiv': '/'}.get(n.op)
    if s: return '(' + show(n.a[0], d - 1) + s + show(n.a[1], d - 1) + ')'
    if n.op in ('call', 'icall'): return n.a[0].split('::')[-1] + '(' + ','.join(show(x, d - 1) for x in n.a[1:]) + ')'
    return n.op + '(' + ','.join(show(x, d - 1) for x in n.a) + ')'

def cpow(x, n):
    try: return math.pow(x, n)
    except (OverflowError, ValueError, ZeroDivisionError):
        try:
            if x == 0: return math.inf
            return math.nan if x < 0 and n != int(n) else math.inf
        except Exception: return math.nan
def cval(n):
    """IEEE value of a constant node, None if not constant"""
    if n.cv is not False: return n.cv
    op = n.op; r = None
    if op == 'c': r = b2f(n.a[0])
    elif op in ('v', 'call', 'top', 'rng') or n.isint: r = None
    else:
        vs = [cval(x) if isinstance(x, N) else x for x in n.a]
        if any(v is None for v in vs): r = None
        else:
            try: r = ev(op, vs)
            except (OverflowError, ValueError): r = math.nan
    n.cv = r
    return r
def ev(op, v):
    if op == 'fadd': return v[0] + v[1]
    if op == 'fsub': return v[0] - v[1]
    if op == 'fmul': return v[0] * v[1]
    if op == 'fdiv':
        if v[1] == 0:
            if v[0] == 0 or v[0] != v[0]: return math.nan
            return math.copysign(math.inf, v[0]) * math.copysign(1, v[1])
        return v[0] / v[1]
    if op == 'fneg': return -v[0]
    if op == 'fabs': return abs(v[0])
    if op in ('powi', 'pow'): return cpow(v[0], v[1])
    if op == 'sqrt': return math.sqrt(v[0]) if v[0] >= 0 else math.nan
    if op == 'log': return math.log(v[0]) if v[0] > 0 else (-math.inf if v[0] == 0 else math.nan)
    if op == 'exp':
        try: return math.exp(v[0])
        except OverflowError: return math.inf
    if op == 'fma': return v[0] * v[1] + v[2]
    if op == 'rnd32': return struct.unpack('<f', struct.pack('<f', v[0]))[0]
    if op == 'fmax': return v[1] if v[0] != v[0] else v[0] if v[1] != v[1] else max(v[0], v[1])
    if op == 'fmin': return v[1] if v[0] != v[0] else v[0] if v[1] != v[1] else min(v[0], v[1])
    if op == 'floor': return float(math.floor(v[0]))
    if op == 'ceil': return float(math.ceil(v[0]))
    if op == 'trunc': return float(math.trunc(v[0]))
    raise Unsupported('ev ' + op)

# ------------------------------------------------------------------ conditions
LT, EQ, GT, UN = 1, 2, 4, 8
FP = {'oeq': EQ, 'ogt': GT, 'oge': GT | EQ, 'olt': LT, 'ole': LT | EQ, 'one': LT | GT, 'ord': LT | EQ | GT, 'uno': UN,
      'ueq': EQ | UN, 'ugt': GT | UN, 'uge': GT | EQ | UN, 'ult': LT | UN, 'ule': LT | EQ | UN, 'une': LT | GT | UN, 'true': 15, 'false': 0}
def swapm(m): return (m & (EQ | UN)) | (GT if m & LT else 0) | (LT if m & GT else 0)
def relop(a, b):
    return UN if (a != a or b != b) else LT if a < b else GT if a > b else EQ
def mkrel(m, a, b):
    """condition node or bool"""
    if m == 15: return True
    if m == 0: return False
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None: return bool(m & relop(ca, cb))
    if a is b:
        m2 = m & (EQ | UN)
        if m2 == EQ | UN: return True
        if m2 == 0: return False
        return mk('rel', m2 | LT | GT if False else m2, a, b)
    if ca is not None or (cb is None and a.id > b.id): a, b, m = b, a, swapm(m)
    return mk('rel', m, a, b)
CHAIN = ('iop', 'isext', 'izext', 'itrunc')
I32FULL = ((-(1 << 31), (1 << 31) - 1),)
def iset(n, ivs):
    return mk('iset', n, tuple(ivs))
def inter(A, B):
    r = []
    for a, b in A:
        for c, d in B:
            lo, hi = max(a, c), min(b, d)
            if lo <= hi: r.append((lo, hi))
    return tuple(sorted(r))
def compl(A, full=I32FULL):
    lo, hi = full[0]; r = []
    for a, b in sorted(A):
        if lo < a: r.append((lo, a - 1))
        lo = b + 1
    if lo <= hi: r.append((lo, hi))
    return tuple(r)
NEXT = lambda x: math.nextafter(x, math.inf)
PREV = lambda x: math.nextafter(x, -math.inf)

class Cons:
    __slots__ = ('rel', 'dom', 'idom', 'atoms')
    def __init__(s): s.rel = {}; s.dom = {}; s.idom = {}; s.atoms = []
    def copy(s):
        c = Cons(); c.rel = s.rel.copy(); c.dom = s.dom.copy(); c.idom = s.idom.copy(); c.atoms = s.atoms[:]
        return c
    def bnd(s, a, d=0):
        """domain of a node; x+c, x-c, x*c, x/c are monotone under IEEE rounding"""
        D = s.dom.get(a.id, (-math.inf, math.inf, True, ()))
        if d < 4 and a.op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            c = cval(a.a[1]); x = a.a[0]
            if c is None and a.op in ('fadd', 'fmul'): c = cval(a.a[0]); x = a.a[1]
            if c is not None and c == c and abs(c) != math.inf and (c > 0 or a.op in ('fadd', 'fsub')):
                lo, hi, nan, ex = s.bnd(x, d + 1)
                if lo > -math.inf or hi < math.inf or not nan:
                    lo, hi = ev(a.op, [lo, c]), ev(a.op, [hi, c])
                    if lo == lo and hi == hi:
                        D = (max(lo, D[0]), min(hi, D[1]), nan and D[2], D[3])
        return D
    def feas(s, a, b):
        """feasible relation mask of pair (canonical order)"""
        cb = cval(b)
        if cb is not None:
            lo, hi, nan, ex = s.bnd(a)
            if cb != cb: return UN
            m = 0
            if lo < cb: m |= LT
            if hi > cb: m |= GT
            if lo <= cb <= hi and cb not in ex: m |= EQ
            if nan: m |= UN
            return m
        m = s.rel.get((a.id, b.id), 15)
        da, db = s.dom.get(a.id), s.dom.get(b.id)
        if da or db:
            D = (-math.inf, math.inf, True, ())
            da = da or D; db = db or D
            if not (da[2] or db[2]): m &= ~UN
            if not (da[0] < db[1]): m &= ~LT
            if not (da[1] > db[0]): m &= ~GT
            if da[1] < db[0] or db[1] < da[0]: m &= ~EQ
        if a is b: m &= EQ | UN
        return m
    def decide(s, c):
        if c is True or c is False: return c
        if isinstance(c, int): return bool(c)
        if c.op == 'rel':
            m, a, b = c.a; f = s.feas(a, b)
            if f & m == 0: return False
            if f & ~m == 0: return True
            return None
        if c.op == 'iset':
            n, ivs = c.a; d = s.idom.get(n.id, I32FULL)
            x = inter(d, ivs)
            if not x: return False
            if not inter(d, compl(ivs)): return True
            return None
        if c.op == 'bcall': 
            return s.idom.get(c.id)
        raise Unsupported('decide ' + c.op)
    def assume(s, c, v):
        """returns False if inconsistent"""
        if c is True or c is False or isinstance(c, int): return bool(c) == v
        if c.op == 'bcall':
            d = s.idom.get(c.id)
            if d is None: s.idom[c.id] = v; s.atoms.append((c, v)); return True
            return d == v
        if c.op == 'rel':
            m, a, b = c.a
            if not v: m = 15 ^ m
            f = s.feas(a, b)
            g = f & m
            if g == 0: return False
            if g == f: return True
            s.atoms.append((c, v))
            cb = cval(b)
            if cb is not None:
                lo, hi, nan, ex = s.dom.get(a.id, (-math.inf, math.inf, True, ()))
                if cb != cb: return bool(g & UN)
                if not g & UN: nan = False
                t = g & 7
                if t == 0: lo, hi = math.inf, -math.inf
                elif t == LT: hi = min(hi, PREV(cb))
                elif t == GT: lo = max(lo, NEXT(cb))
                elif t == EQ: lo, hi = max(lo, cb), min(hi, cb)
                elif t == LT | EQ: hi = min(hi, cb)
                elif t == GT | EQ: lo = max(lo, cb)
                elif t == LT | GT: ex = ex + (cb,)
                if lo == hi and lo in ex: lo, hi = math.inf, -math.inf
                if lo > hi and not nan: return False
                s.dom[a.id] = (lo, hi, nan, ex)
            else:
                s.rel[(a.id, b.id)] = g
                if not g & UN:
                    for x in (a, b):
                        d = s.dom.get(x.id, (-math.inf, math.inf, True, ()))
                        s.dom[x.id] = (d[0], d[1], False, d[3])
            return True
        if c.op == 'iset':
            n, ivs = c.a
            if not v: ivs = compl(ivs)
            d = s.idom.get(n.id, I32FULL)
            x = inter(d, ivs)
            if not x: return False
            if x != d:
                s.idom[n.id] = x; s.atoms.append((c, v))
            return True
        raise Unsupported('assume ' + c.op)
    def assume_all(s, atoms):
        for c, v in atoms:
            if not s.assume(c, v): return False
        return True

# ------------------------------------------------------------------ memory
OBJ = 1 << 32
class Obj:
    __slots__ = ('size', 'base', 'ov', 'ro')
    def __init__(s, size, base=None, ro=False): s.size = size; s.base = base; s.ov = {}; s.ro = ro
    def clone(s):
        o = Obj(s.size, s.base, s.ro); o.ov = s.ov.copy(); return o

class Frame:
    __slots__ = ('fn', 'regs', 'blk', 'ip', 'prev', 'dst', 'objs', 'forks')
    def clone(s):
        f = Frame(); f.fn = s.fn; f.regs = s.regs.copy(); f.blk = s.blk; f.ip = s.ip; f.prev = s.prev; f.dst = s.dst; f.objs = s.objs[:]; f.forks = s.forks.copy(); return f
class State:
    __slots__ = ('frames', 'mem', 'cons')
    def clone(s):
        t = State(); t.frames = [f.clone() for f in s.frames]; t.mem = {k: o.clone() for k, o in s.mem.items()}; t.cons = s.cons.copy(); return t

class Path:
    __slots__ = ('cons', 'status', 'ret')
    def __init__(s, cons, status, ret): s.cons, s.status, s.ret = cons, status, ret
    def __repr__(s): return f'<{s.status} {show(s.ret) if isinstance(s.ret, N) else s.ret} | {[(show(c), v) for c, v in s.cons.atoms]}>'

INTR1 = {'sqrt': 'sqrt', 'exp': 'exp', 'log': 'log', 'fabs': 'fabs', 'floor': 'floor', 'ceil': 'ceil', 'trunc': 'trunc', 'round': 'round', 'sin': 'sin', 'cos': 'cos', 'exp2': 'exp2', 'log2': 'log2', 'log10': 'log10', 'rint': 'rint', 'roundeven': 'roundeven'}
LIBM1 = {'cbrt', 'tanh', 'sinh', 'cosh', 'tan', 'atan', 'expm1', 'log1p', 'asin', 'acos'}
def signed(v, n): return v - (1 << n) if v >> (n - 1) & 1 else v

class Exec:
    """policy(name, sym, args) -> None (execute body) or a return value (contract substituted)"""
    def __init__(s, mod, policy=None, fork_limit=14, path_limit=6000, step_limit=4000000, panics=False):
        s.m = mod; s.policy = policy; s.cache = {}; s.fl = fork_limit; s.pl = path_limit; s.sl = step_limit
        s.gobj = {}; s.objs = {}; s.gaddr = {}; s.faddr = {}; s.fnat = {}; s.nobj = [1 << 20]
        s.opaque = {}; s.steps = 0; s.used = {}; s.active = []; s.ops = {}
        s.inline_loops = False; s.mutable_globals = set(); s.extern_calls = set(); s.substituted = {}
    # -------- globals
    def gaddr_of(s, name):
        while name in s.m.aliases: name = s.m.aliases[name]
        if name in s.gaddr: return s.gaddr[name]
        s.nobj[0] += 1; oid = s.nobj[0]; s.gaddr[name] = oid * OBJ
        if name in s.m.fns or name in s.m.decls:
            s.fnat[oid * OBJ] = name
            return oid * OBJ
        g = s.m.globals.get(name)
        if g is None or g.get('err') or g['init'] is None: 
            raise Unsupported('global ' + name + str(g and g.get('err')))
        if g['kind'] != 'constant' or g['tls']:
            s.mutable_globals.add(name); raise Unsupported('mutable global ' + name)
        o = Obj(g['ty'].size(), None, True)
        s.fill(o, 0, g['ty'], g['init'])
        if isinstance(g['init'], bytes) : o.base = g['init']
        s.objs[oid] = o
        return oid * OBJ
    def fill(s, o, off, ty, v):
        if isinstance(v, bytes):
            if off == 0 and len(v) == o.size: o.base = v
            else:
                b = bytearray(o.base if o.base is not None else bytes(o.size)); b[off:off + len(v)] = v; o.base = bytes(b)
        elif isinstance(v, Agg):
            if ty.k == 'struct':
                for f, e, x in zip(ty.offs(), ty.el, v.v): s.fill(o, off + f, e, x)
            else:
                for i, x in enumerate(v.v): s.fill(o, off + i * ty.el.size(), ty.el, x)
        elif isinstance(v, G): o.ov[off] = (8, s.gaddr_of(v.name) + v.off)
        elif isinstance(v, FConst): o.ov[off] = (8, fc(v.v))
        elif v is UNDEF: pass
        else: o.ov[off] = (ty.size(), v)
    # -------- memory access
    def obj(s, st, addr):
        oid = addr >> 32
        o = st.mem.get(oid)
        if o is None: o = s.objs.get(oid)
        if o is None: raise Unsupported('bad address %x' % addr)
        return o, addr & 0xffffffff
    def load(s, st, ty, addr):
        if not isinstance(addr, int): raise Unsupported('symbolic address')
        if ty.k == 'struct':
            return tuple(s.load(st, e, addr + f) for e, f in zip(ty.el, ty.offs()))
        o, off = s.obj(st, addr); sz = ty.size()
        if off + sz > o.size: raise Unsupported('out of object load')
        e = o.ov.get(off)
        if e is not None and e[0] == sz: return s.conv(e[1], ty)
        # compose
        if e is None and o.base is not None and not any(x < off + sz and x + y[0] > off for x, y in o.ov.items()):
            return s.decode(ty, o.base[off:off + sz])
        if ty.k == 'i' or ty.k == 'ptr':
            v = 0; cov = 0
            for x, y in o.ov.items():
                if x < off + sz and x + y[0] > off:
                    if x < off or x + y[0] > off + sz:
                        if isinstance(y[1], int) and x <= off and x + y[0] >= off + sz:
                            return (y[1] >> (8 * (off - x))) & ((1 << (8 * sz)) - 1)
                        raise Unsupported('partial load')
                    if not isinstance(y[1], int): raise Unsupported('compose symbolic')
                    v |= y[1] << (8 * (x - off)); cov += y[0]
            return v
        if ty.k == 'double' and e is None and o.base is None and not any(x < off + sz and x + y[0] > off for x, y in o.ov.items()):
            s.nobj[0] += 1; return fv('undef#%d' % s.nobj[0])      # an undefined value: any double
        raise Unsupported(f'load {ty} mismatch')
    def decode(s, ty, b):
        if ty.k == 'double': return mk('c', int.from_bytes(b, 'little'))
        if ty.k in ('i', 'ptr'): return int.from_bytes(b, 'little') & ((1 << (ty.n or 64)) - 1)
        raise Unsupported('decode ' + ty.k)
    def conv(s, v, ty):
        if ty.k == 'double':
            if isinstance(v, int): return mk('c', v)
            if v.op == 'ibits': return v.a[0]
            if v.isint: raise Unsupported('int as double')
            return v
        if ty.k == 'i' or ty.k == 'ptr':
            if isinstance(v, N) and not v.isint and v.op not in ('rel', 'iset', 'bcall'):
                return v.a[0] if v.op == 'c' else mk('ibits', v)
            return v
        return v
    def store(s, st, ty, v, addr):
        if not isinstance(addr, int): raise Unsupported('symbolic address')
        if ty.k == 'struct':
            for e, f, x in zip(ty.el, ty.offs(), v if isinstance(v, tuple) else [UNDEF] * len(ty.el)): s.store(st, e, x, addr + f)
            return
        oid = addr >> 32; off = addr & 0xffffffff; o = st.mem.get(oid)
        if o is None:
            raise Unsupported('store outside frame')
        sz = ty.size()
        if off + sz > o.size: raise Unsupported('out of object store')
        s.clear(o, off, sz)
        if v is UNDEF: return
        o.ov[off] = (sz, v)
    def clear(s, o, off, sz):
        if off in o.ov and o.ov[off][0] == sz: del o.ov[off]; return
        for x in list(o.ov):
            y = o.ov[x]
            if x < off + sz and x + y[0] > off:
                if x < off or x + y[0] > off + sz: raise Unsupported('partial overwrite')
                del o.ov[x]
    def memcpy(s, st, d, sr, n):
        if n == 0: return
        so, so_ = s.obj(st, sr); do = st.mem.get(d >> 32); df = d & 0xffffffff
        if do is None: raise Unsupported('memcpy outside frame')
        ents = [(x, y) for x, y in so.ov.items() if x < so_ + n and x + y[0] > so_]
        s.clear(do, df, n)
        if so.base is not None:
            b = bytearray(do.base if do.base is not None else bytes(do.size)); b[df:df + n] = so.base[so_:so_ + n]; do.base = bytes(b)
        for x, y in ents:
            if x < so_ or x + y[0] > so_ + n: raise Unsupported('partial memcpy')
            do.ov[df + x - so_] = y
    # -------- operand
    def val(s, fr, x):
        if isinstance(x, Reg): return fr.regs[x.name]
        if isinstance(x, int): return x
        if isinstance(x, FConst): return fc(x.v)
        if isinstance(x, G): return s.gaddr_of(x.name) + x.off
        if x is UNDEF: return UNDEF
        if isinstance(x, Agg): return tuple(s.val(fr, y) for y in x.v)
        raise Unsupported('operand')
    # -------- entry
    def find(s, name):
        l = s.m.by_name(name)
        if len(l) != 1: raise Unsupported(f'{len(l)} functions named {name}')
        return l[0]
    def run(s, fn, args, pre=()):
        """summary without caching, precondition atoms pre"""
        return s._run(fn, args, pre)
    def summary(s, fn, args):
        key = (fn.sym, tuple(a.id if isinstance(a, N) else ('#', a) for a in args))
        r = s.cache.get(key)
        if r is None:
            if s.active.count(fn.sym) >= 4: raise Unsupported('recursion ' + fn.name)
            if s.opaque.get(fn.sym, 0) > 3: r = 'opaque'
            else:
                s.active.append(fn.sym)
                try: r = s._run(fn, args, ())
                except Unsupported as e:
                    if not s.pure_sig(fn, args): raise
                    s.opaque[fn.sym] = s.opaque.get(fn.sym, 0) + 1; s.used.setdefault(fn.name, str(e)); r = 'opaque'
                finally: s.active.pop()
            if r == 'opaque': r = [Path(Cons(), 'ret', s.opq(fn, args))]
            s.cache[key] = r
        return r
    def pure_sig(s, fn, args):
        return all(t.k in ('double', 'i') or (t.k == 'ptr' and isinstance(a, int) and (a in s.fnat or (a >> 32) in s.objs)) for (t, _, _), a in zip(fn.params, args)) and fn.ret.k in ('double', 'i', 'struct')
    def opq(s, fn, args):
        aa = [mk('fnref', demangle(s.fnat[a])) if isinstance(a, int) and a in s.fnat else a for a in args]
        aa = [mk('constdata', s.constkey(a)) if isinstance(a, int) and (a >> 32) in s.objs and a >= OBJ else a for a in aa]
        if fn.ret.k == 'double': return mk('call', fn.name, *aa)
        if fn.ret.k == 'i': return mk('icall', fn.name, *aa) if fn.ret.n > 1 else mk('bcall', fn.name, *aa)
        return tuple(mk('call' if e.k == 'double' else 'icall', fn.name + f'.{i}', *aa) for i, e in enumerate(fn.ret.el))
    def constkey(s, a):
        o = s.objs[a >> 32]
        return (o.base, tuple(sorted((k, v[0], v[1] if isinstance(v[1], int) else ('n', v[1].id)) for k, v in o.ov.items())), a & 0xffffffff)
    def push(s, st, fn, args, dst):
        fr = Frame(); fr.fn = fn; fr.regs = {}; fr.blk = fn.entry; fr.ip = 0; fr.prev = None; fr.dst = dst; fr.objs = []; fr.forks = {}
        if len(args) != len(fn.params): raise Unsupported('arity ' + fn.name)
        for (t, n, _), a in zip(fn.params, args):
            if n: fr.regs[n] = a
        st.frames.append(fr)
        if len(st.frames) > 60: raise Unsupported('depth')
    def _run(s, fn, args, pre):
        st = State(); st.frames = []; st.mem = {}; st.cons = Cons()
        if not st.cons.assume_all(pre): return []
        st.cons.atoms = list(st.cons.atoms)
        s.push(st, fn, args, None)
        work = [st]; out = []
        steps = 0
        while work:
            st = work.pop()
            while True:
                fr = st.frames[-1]
                ins = fr.fn.blocks[fr.blk][fr.ip]
                steps += 1
                if steps > s.sl: raise Unsupported('step limit in ' + fn.name)
                try:
                    r = getattr(s, 'x_' + ins.op)(st, fr, ins)
                except Fork as f:
                    k = (fr.blk, fr.ip)
                    c = fr.forks.get(k, 0) + 1
                    if c > s.fl: raise SymLoop(f'symbolic loop in {fr.fn.name}')
                    fr.forks[k] = c
                    alts = f.alts; n0 = len(work)
                    for al in alts[1:]:
                        t = st.clone()
                        if t.cons.assume_all(al): work.append(t)
                    if len(work) + len(out) > s.pl: raise Unsupported('path limit in ' + fn.name)
                    if not st.cons.assume_all(alts[0]): break
                    continue
                except ForkRet as f:
                    k = (fr.blk, fr.ip)
                    c = fr.forks.get(k, 0) + 1
                    if c > s.fl: raise SymLoop(f'symbolic loop in {fr.fn.name}')
                    fr.forks[k] = c
                    for at, status, rv in f.alts:
                        t = st.clone()
                        if not t.cons.assume_all(at): continue
                        if status != 'ret': out.append(Path(t.cons, status, rv)); continue
                        tf = t.frames[-1]
                        if ins.d: tf.regs[ins.d] = rv
                        tf.ip += 1; work.append(t)
                    if len(work) + len(out) > s.pl: raise Unsupported('path limit in ' + fn.name)
                    break
                if r is None: fr.ip += 1
                elif r[0] == 'done':
                    out.append(Path(st.cons, 'ret', r[1])); break
                elif r[0] == 'panic':
                    out.append(Path(st.cons, 'panic', r[1])); break
        s.steps += steps
        return out
    # -------- instructions
    def x_unsupported(s, st, fr, i): raise Unsupported(str(i.a))
    def dec(s, st, c):
        """concretise a boolean, forking if needed"""
        if c is UNDEF: raise Unsupported('branch on undef')
        r = st.cons.decide(c)
        if r is None: raise Fork([[(c, True)], [(c, False)]])
        return r
    def x_alloca(s, st, fr, i):
        s.nobj[0] += 1; oid = s.nobj[0]
        st.mem[oid] = Obj(i.a[0].size()); fr.objs.append(oid); fr.regs[i.d] = oid * OBJ
    def x_load(s, st, fr, i): fr.regs[i.d] = s.load(st, i.a[0], s.val(fr, i.a[1]))
    def x_store(s, st, fr, i): s.store(st, i.a[0], s.val(fr, i.a[1]), s.val(fr, i.a[2]))
    def x_jmp(s, st, fr, i): fr.prev = fr.blk; fr.blk = i.a[0]; fr.ip = -1
    def x_br(s, st, fr, i):
        c = s.val(fr, i.a[0]); r = s.dec(st, c)
        fr.prev = fr.blk; fr.blk = i.a[1] if r else i.a[2]; fr.ip = -1
    def x_switch(s, st, fr, i):
        ty, v, dft, cs = i.a; v = s.val(fr, v)
        if isinstance(v, int):
            for k, l in cs:
                if k == v: break
            else: l = dft
        else:
            if v.op in ('rel', 'iset', 'bcall'): v = int(s.dec(st, v)); l = dict(cs).get(v, dft)
            else:
                if ty.n != 32: raise Unsupported('switch on symbolic i%d' % ty.n)
                alts = []; allk = []
                for k, _ in cs:
                    k = signed(k, 32); allk.append((k, k)); alts.append([(iset(v, [(k, k)]), True)])
                alts.append([(iset(v, compl(allk)), True)])
                dd = [st.cons.decide(a[0][0]) for a in alts]
                if True in dd: 
                    j = dd.index(True); l = cs[j][1] if j < len(cs) else dft
                else: raise Fork([a for a, d in zip(alts, dd) if d is not False])
        fr.prev = fr.blk; fr.blk = l; fr.ip = -1
    def x_phi(s, st, fr, i):
        # evaluate all phis of the block in parallel
        blk = fr.fn.blocks[fr.blk]; k = fr.ip; vals = []
        while blk[k].op == 'phi':
            for v, l in blk[k].a[1]:
                if l == fr.prev: vals.append((blk[k].d, s.val(fr, v))); break
            k += 1
        for d, v in vals: fr.regs[d] = v
        fr.ip = k - 1
    def x_ret(s, st, fr, i):
        v = None if i.a[1] is None else s.val(fr, i.a[1])
        st.frames.pop()
        for o in fr.objs: del st.mem[o]
        if not st.frames: return ('done', v)
        pf = st.frames[-1]
        if fr.dst: pf.regs[fr.dst] = v
        pf.ip += 1
        return ('cont',)
    def x_unreachable(s, st, fr, i): return ('panic', 'unreachable in ' + fr.fn.name)
    def x_fneg(s, st, fr, i): fr.regs[i.d] = mk('fneg', s.val(fr, i.a[1]))
    def fbin(s, st, fr, i):
        if i.a[0].k != 'double': raise Unsupported('float op on ' + i.a[0].k)
        s.ops[i.op] = s.ops.get(i.op, 0) + 1
        fr.regs[i.d] = mk(i.op, s.val(fr, i.a[1]), s.val(fr, i.a[2]))
    x_fadd = x_fsub = x_fmul = x_fdiv = fbin
    def x_frem(s, st, fr, i): raise Unsupported('frem')
    def x_freeze(s, st, fr, i): fr.regs[i.d] = s.val(fr, i.a[1])
    def x_fcmp(s, st, fr, i):
        fr.regs[i.d] = mkrel(FP[i.a[0]], s.val(fr, i.a[2]), s.val(fr, i.a[3]))
    def x_icmp(s, st, fr, i):
        pr, ty, a, b = i.a; a = s.val(fr, a); b = s.val(fr, b); n = ty.n or 64
        if isinstance(a, N) and a.op in ('rel', 'iset', 'bcall'): a = int(s.dec(st, a))
        if isinstance(b, N) and b.op in ('rel', 'iset', 'bcall'): b = int(s.dec(st, b))
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if isinstance(a, N) and a.op in CHAIN: a = s.conc(st, a)
        if isinstance(b, N) and b.op in CHAIN: b = s.conc(st, b)
        if isinstance(a, int): a &= (1 << n) - 1
        if isinstance(b, int): b &= (1 << n) - 1
        if isinstance(a, int) and isinstance(b, int):
            if pr[0] == 's': a, b = signed(a, n), signed(b, n)
            q = pr if pr in ('eq', 'ne') else pr[1:]
            r = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[q]
        else:
            if a is b:
                r = pr in ('eq', 'sle', 'sge', 'ule', 'uge')
                fr.regs[i.d] = r; return
            if isinstance(a, int): a, b = b, a; pr = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(pr, pr)
            if not isinstance(b, int) or n != 32 or isinstance(a, N) and a.op == 'ibits': 
                r = mk('bcall', 'icmp.' + pr, a, b)
            else:
                k = signed(b, 32); lo, hi = I32FULL[0]
                def iv_(x, y): return [(x, y)] if x <= y else []
                if pr == 'eq': S = [(k, k)]
                elif pr == 'ne': S = compl([(k, k)])
                elif pr == 'slt': S = iv_(lo, k - 1)
                elif pr == 'sle': S = iv_(lo, k)
                elif pr == 'sgt': S = iv_(k + 1, hi)
                elif pr == 'sge': S = iv_(k, hi)
                else:
                    # unsigned order on signed domain: [0..hi] < [lo..-1]
                    def uset(x, y):   # unsigned interval to signed
                        if x > y: return []
                        r_ = []
                        if x <= hi: r_.append((x, min(y, hi)))
                        if y > hi: r_.append((max(x, hi + 1) - (1 << 32), y - (1 << 32)))
                        return r_
                    u = b; M = (1 << 32) - 1
                    S = {'ult': uset(0, u - 1), 'ule': uset(0, u), 'ugt': uset(u + 1, M), 'uge': uset(u, M)}[pr]
                r = iset(a, sorted(S)) if S else False
                if S and tuple(sorted(S)) == I32FULL: r = True
        fr.regs[i.d] = r
    def x_bin(s, st, fr, i):
        op, ty, a, b = i.a; a = s.val(fr, a); b = s.val(fr, b); n = ty.n
        fr.regs[i.d] = s.ibin(st, op, n, a, b)
    def ibin(s, st, op, n, a, b):
        if n == 1:
            if isinstance(a, N) and isinstance(b, int) or isinstance(b, N) and isinstance(a, int):
                x, k = (a, b) if isinstance(a, N) else (b, a)
                if op == 'xor': return s.neg(x) if k else x
                if op == 'and': return x if k else False
                if op == 'or': return True if k else x
            a = int(s.dec(st, a)); b = int(s.dec(st, b))
        if isinstance(a, N) and a.op in ('rel', 'iset', 'bcall'): a = int(s.dec(st, a))
        if isinstance(b, N) and b.op in ('rel', 'iset', 'bcall'): b = int(s.dec(st, b))
        if isinstance(a, int) and isinstance(b, int):
            a = int(a); b = int(b)
            M = (1 << n) - 1; sa, sb = signed(a, n), signed(b, n)
            if op in ('sdiv', 'srem', 'udiv', 'urem') and b == 0: raise Unsupported('div by zero')
            if op == 'sdiv': r = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
            elif op == 'srem': r = math.copysign(1, sa) * (abs(sa) % abs(sb)); r = int(r)
            elif op == 'ashr': r = sa >> b
            else: r = {'add': a + b, 'sub': a - b, 'mul': a * b, 'udiv': a // b if b else 0, 'urem': a % b if b else 0, 'shl': a << b if b < n else 0, 'lshr': a >> b, 'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
            return r & M
        if isinstance(a, int): 
            if op in ('and', 'xor', 'or', 'add', 'mul'): a, b = b, a
        if isinstance(a, N) and a.op == 'ibits' and isinstance(b, int):
            if op == 'and' and b == 0x7fffffffffffffff: return mk('ibits', mk('fabs', a.a[0]))
            if op == 'xor' and b == 1 << 63: return mk('ibits', mk('fneg', a.a[0]))
        if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr') and b == 0 and isinstance(b, int): return a
        return mk('iop', op, n, a, b)
    def conc(s, st, v):
        """a symbolic integer computed from one integer variable with a small domain: its value, forking over the domain; v itself otherwise"""
        if not isinstance(v, N) or v.op in ('rel', 'iset', 'bcall', 'ibits'): return v
        ch = []; x = v
        while True:
            if x.op == 'iop':
                op, n, p, q = x.a
                if isinstance(q, int) and isinstance(p, N): ch.append((op, n, q, 0)); x = p
                elif isinstance(p, int) and isinstance(q, N): ch.append((op, n, p, 1)); x = q
                else: return v
            elif x.op in ('isext', 'izext', 'itrunc'): ch.append((x.op, x.a[1], 0, 0)); x = x.a[0]
            else: break
            if not isinstance(x, N): return v
        d = st.cons.idom.get(x.id)
        if not isinstance(d, tuple) or sum(h - l + 1 for l, h in d) > 12: return v
        vals = [j for l, h in d for j in range(l, h + 1)]
        if len(vals) > 1: raise Fork([[(iset(x, [(j, j)]), True)] for j in vals])
        r = vals[0] & 0xffffffff
        for op, n, k, sw in reversed(ch):
            if op == 'isext': r = signed(r & ((1 << n) - 1), n) & ((1 << 64) - 1)
            elif op == 'izext': r = r & ((1 << n) - 1)
            elif op == 'itrunc': r = r & ((1 << n) - 1)
            else: r = s.ibin(st, op, n, k, r & ((1 << n) - 1)) if sw else s.ibin(st, op, n, r & ((1 << n) - 1), k)
        return r
    def neg(s, x):
        if x.op == 'rel': return mk('rel', 15 ^ x.a[0], x.a[1], x.a[2])
        if x.op == 'iset': 
            c = compl(x.a[1]); return iset(x.a[0], c) if c else False
        return mk('bcall', 'not', x)
    def x_cast(s, st, fr, i):
        op, t1, v, t2 = i.a; v = s.val(fr, v)
        if op == 'trunc':
            if isinstance(v, int): r = int(v) & ((1 << t2.n) - 1)
            elif v.op in ('rel', 'iset', 'bcall'): r = v
            elif t2.n == 1: raise Unsupported('trunc sym to i1')
            elif v.op == 'izext' and v.a[1] == t2.n: r = v.a[0]
            else: r = mk('itrunc', v, t2.n)
        elif op == 'zext':
            if isinstance(v, N) and v.op in ('rel', 'iset', 'bcall'):
                if t1.n == 1 and t2.n <= 8: r = v
                else: r = int(s.dec(st, v))
            elif isinstance(v, int): r = int(v)
            else: r = mk('izext', v, t1.n)
        elif op == 'sext':
            if isinstance(v, N): r = mk('isext', v, t1.n)
            else: r = signed(v, t1.n) & ((1 << t2.n) - 1)
        elif op in ('sitofp', 'uitofp'):
            if t2.k != 'double': raise Unsupported('to ' + t2.k)
            if isinstance(v, int): r = fc(float(signed(v, t1.n) if op == 'sitofp' else v))
            elif v.op in ('rel', 'iset', 'bcall'): r = fc(float(int(s.dec(st, v))))
            else:
                d = st.cons.idom.get(v.id)
                if d and len(d) == 1 and d[0][0] == d[0][1]: r = fc(float(d[0][0]))
                else: r = mk(op, v)
        elif op == 'bitcast': r = s.conv(v, t2)
        elif op in ('ptrtoint', 'inttoptr'): r = v
        elif op == 'fptrunc': r = mk('rnd32', v)      # a float is kept as the double of the same value
        elif op == 'fpext': r = v
        else:
            c = cval(v)
            if op in ('fptosi', 'fptoui') and c is not None and c == c and abs(c) < 1e15: r = int(c) & ((1 << t2.n) - 1)
            else: r = mk('i' + op, v, t2.n)
        fr.regs[i.d] = r
    def x_getelementptr(s, st, fr, i):
        ty, b, ix = i.a; b = s.val(fr, b); cur = ty
        if not isinstance(b, int): raise Unsupported('symbolic gep base')
        off = 0
        for k, (t, x) in enumerate(ix):
            x = s.conc(st, s.val(fr, x))
            if not isinstance(x, int): raise Unsupported('symbolic index')
            x &= (1 << t.n) - 1
            x = signed(x, t.n)
            if k == 0: off += x * ty.size()
            elif cur.k == 'struct': off += cur.offs()[x]; cur = cur.el[x]
            else: cur = cur.el; off += x * cur.size()
        fr.regs[i.d] = b + off
    def x_extractvalue(s, st, fr, i):
        v = s.val(fr, i.a[1])
        for k in i.a[2]: v = v[k]
        fr.regs[i.d] = v
    def x_insertvalue(s, st, fr, i):
        t, v, v2, ix = i.a; v = s.val(fr, v)
        def ins(v, t, ix, x):
            if not ix: return x
            els = t.el if t.k == 'struct' else [t.el] * t.n
            l = list(v) if isinstance(v, tuple) else [UNDEF] * len(els)
            l[ix[0]] = ins(l[ix[0]], els[ix[0]], ix[1:], x); return tuple(l)
        fr.regs[i.d] = ins(v, t, ix, s.val(fr, v2))
    def x_select(s, st, fr, i):
        c, t, a, b = i.a; r = s.dec(st, s.val(fr, c))
        fr.regs[i.d] = s.val(fr, a if r else b)
    # -------- calls
    def x_call(s, st, fr, i):
        rt, cal, args = i.a
        av = [s.val(fr, x) for _, x in args]
        if isinstance(cal, G): sym = cal.name
        else:
            a = s.val(fr, cal)
            if isinstance(a, N): raise Unsupported('symbolic callee')
            sym = s.fnat.get(a)
            if sym is None: raise Unsupported('call through non-function')
        while sym in s.m.aliases: sym = s.m.aliases[sym]
        if sym.startswith('@llvm.'): return s.intrinsic(st, fr, i, sym, av)
        name = demangle(sym)
        if s.policy:
            # normalise function-pointer args
            r = s.policy(name, av, s)
            if r is not None:
                s.substituted[name] = s.substituted.get(name, 0) + 1
                fr.regs[i.d] = r; return
        fn = s.m.fns.get(sym)
        if fn is None: return s.external(st, fr, i, sym, name, av)
        # a call with only scalars / constant data: use its summary
        if all(not (isinstance(a, int) and t.k == 'ptr' and (a >> 32) in st.mem) and not isinstance(a, tuple) for (t, _), a in zip(args, av)) and fn.ret.k in ('double', 'i', 'struct') and not any(p[2] for p in fn.params):
            ps = s.summary(fn, av)
            if s.inline_loops and s.opaque.get(fn.sym) and len(ps) == 1 and isinstance(ps[0].ret, N) and ps[0].ret.op in ('call', 'icall', 'bcall') and ps[0].ret.a[0] == fn.name:
                s.push(st, fn, av, i.d); return ('cont',)   # the caller's path condition may decide the loop
            if len(ps) == 1 and ps[0].status == 'ret' and not ps[0].cons.atoms:
                fr.regs[i.d] = ps[0].ret; return
            raise ForkRet([(p.cons.atoms, p.status, p.ret) for p in ps])
        s.push(st, fn, av, i.d)
        return ('cont',)
    def intrinsic(s, st, fr, i, sym, av):
        p = sym.split('.'); n = p[1]
        if n in ('lifetime', 'dbg', 'assume', 'donothing', 'experimental'): return
        if n in INTR1 and p[-1] == 'f64':
            if n == 'fabs' or n in INTR1: fr.regs[i.d] = mk(INTR1[n], av[0]); return
        if n == 'powi':
            e = av[1]
            if isinstance(e, int): e = signed(e, 32)
            fr.regs[i.d] = mk('powi', av[0], e) if isinstance(e, int) else mk('powis', av[0], e); return
        if n == 'pow' and p[-1] == 'f64': fr.regs[i.d] = mk('pow', av[0], av[1]); return
        if n in ('fma', 'fmuladd') and p[-1] == 'f64': fr.regs[i.d] = mk('fma', *av); return
        if n in ('maxnum', 'maximumnum') and p[-1] == 'f64': fr.regs[i.d] = mk('fmax', *av); return
        if n in ('minnum', 'minimumnum') and p[-1] == 'f64': fr.regs[i.d] = mk('fmin', *av); return
        if n == 'copysign' and p[-1] == 'f64': fr.regs[i.d] = mk('copysign', *av); return
        if n in ('sadd', 'ssub', 'smul', 'uadd', 'usub', 'umul') and p[2] == 'with':
            w = int(p[-1][1:]); a, b = s.conc(st, av[0]), s.conc(st, av[1])
            a = a & ((1 << w) - 1) if isinstance(a, int) else a; b = b & ((1 << w) - 1) if isinstance(b, int) else b
            if isinstance(a, int) and isinstance(b, int):
                if n[0] == 's': x, y = signed(a, w), signed(b, w)
                else: x, y = a, b
                r = {'add': x + y, 'sub': x - y, 'mul': x * y}[n[1:]]
                ok = -(1 << (w - 1)) <= r < 1 << (w - 1) if n[0] == 's' else 0 <= r < 1 << w
                fr.regs[i.d] = (r & ((1 << w) - 1), not ok); return
            opn = {'add': 'add', 'sub': 'sub', 'mul': 'mul'}[n[1:]]
            fr.regs[i.d] = (mk('iop', opn, w, a, b), mk('bcall', 'ovf.' + n, w, a, b)); return
        if n in ('memcpy', 'memmove'):
            s.memcpy(st, av[0], av[1], av[2]); return
        if n == 'memset':
            o = st.mem.get(av[0] >> 32)
            if o is None: raise Unsupported('memset')
            off = av[0] & 0xffffffff; s.clear(o, off, av[2])
            b = bytearray(o.base if o.base is not None else bytes(o.size)); b[off:off + av[2]] = bytes([av[1]]) * av[2]; o.base = bytes(b); return
        if n in ('umax', 'umin', 'smax', 'smin') and all(isinstance(x, int) for x in av):
            w = int(p[-1][1:]); k = (lambda x: signed(x, w)) if n[0] == 's' else (lambda x: x)
            fr.regs[i.d] = (max if n.endswith('max') else min)(av, key=k); return
        if n == 'abs' and isinstance(av[0], int):
            w = int(p[-1][1:]); fr.regs[i.d] = abs(signed(av[0], w)) & ((1 << w) - 1); return
        if n in ('ctpop', 'cttz', 'ctlz') and isinstance(av[0], int):
            w = int(p[-1][1:]); v = av[0] & ((1 << w) - 1)
            fr.regs[i.d] = bin(v).count('1') if n == 'ctpop' else (w if not v else (v & -v).bit_length() - 1 if n == 'cttz' else w - v.bit_length()); return
        if n == 'expect': fr.regs[i.d] = av[0]; return
        if n in ('fptosi', 'fptoui') : fr.regs[i.d] = mk('i' + n, av[0], p[2]); return
        if n == 'trap': return ('panic', 'trap')
        raise Unsupported('intrinsic ' + sym)
    def external(s, st, fr, i, sym, name, av):
        if 'panic' in name or 'panic' in sym or 'unwrap_failed' in sym or 'expect_failed' in sym or 'slice_index' in sym or 'slice_start_index' in sym or 'slice_end_index' in sym or 'unreachable' in sym:
            return ('panic', name)
        if sym == '@memcmp' and all(isinstance(x, int) for x in av):
            def rd(a, n):
                o, f = s.obj(st, a)
                if o.base is None or o.ov: raise Unsupported('memcmp data')
                return o.base[f:f + n]
            if av[2] == 0: fr.regs[i.d] = 0; return
            a, b = rd(av[0], av[2]), rd(av[1], av[2])
            fr.regs[i.d] = 0 if a == b else (1 if a > b else 0xffffffff); return
        base = sym.lstrip('@')
        if base in LIBM1 and len(av) == 1: fr.regs[i.d] = mk(base, av[0]); return
        s.extern_calls.add(sym)
        raise Unsupported('external call ' + sym)
