"""C07: total-correctness contracts (returns, no panic) of every function reachable from the API.

Each function whose arguments are scalars is verified on its own against the contract
"for all arguments: no panic, terminates" (all doubles, all ints); callees are used through the
same contract with an arbitrary result (plus a result range where a range contract is proved).
The abstract state graph of the function is explored completely: floats are constants, intervals
or unknown, integers concrete or intervals.  No panic state reachable + graph acyclic = contract
proved.  Loops whose state does not stay concrete are cut at their header: the loop's variables
are havocked and a ranking lemma (bounded counter / geometrically shrinking bracket) is proved by
one symbolic iteration."""
from engine import *
from sym import *
import ir as IR
from ir import UNDEF
TOP = mk('top')
def rngn(lo, hi, nan):
    if lo == hi and not nan and lo != 0: return fc(lo)
    if lo == -math.inf and hi == math.inf and nan: return TOP
    return mk('rng', lo, hi, nan)
def irng(w, lo, hi):
    if lo == hi: return lo & ((1 << w) - 1)
    return mk('irng', w, lo, hi)
def isnan(a): c = cval(a); return c is not None and c != c
class Nd(Exception): pass
class Cyclic(Exception): pass
# range contracts: argument interval -> result interval (proved in range_obligations)
RC = {'p_saturation': [((273.15, 623.15), (0.0006, 16.6))], 'B23_T2p': [((623.15, 863.15), (16.0, 100.1))]}

def liveness(fn):
    r = getattr(liveness, 'c', None)
    if r is None: r = liveness.c = {}
    if fn.sym in r: return r[fn.sym]
    def regs(o, out):
        if isinstance(o, IR.Reg): out.add(o.name)
        elif isinstance(o, (tuple, list)):
            for x in o: regs(x, out)
        elif isinstance(o, IR.Agg): regs(o.v, out)
    succ = {}; use = {}; df = {}; phiuse = {}
    for b, L in fn.blocks.items():
        u = set(); d = set()
        for i in L:
            if i.op == 'phi':
                for v, l in i.a[1]: 
                    if isinstance(v, IR.Reg): phiuse.setdefault(l, set()).add(v.name)
            else:
                x = set(); regs(i.a, x); u |= x - d
            if i.d: d.add(i.d)
        t = L[-1]
        succ[b] = [t.a[0]] if t.op == 'jmp' else [t.a[1], t.a[2]] if t.op == 'br' else [t.a[2]] + [l for _, l in t.a[3]] if t.op == 'switch' else []
        use[b] = u; df[b] = d
    live = {b: set() for b in fn.blocks}; ch = True
    while ch:
        ch = False
        for b in reversed(fn.order):
            o = set(phiuse.get(b, ()))
            for x in succ[b]: o |= live[x]
            n = use[b] | (o - df[b])
            if n != live[b]: live[b] = n; ch = True
    pred = {b: 0 for b in fn.blocks}
    for b in succ:
        for x in set(succ[b]): pred[x] += 1
    # back edges (DFS)
    col = {}; heads = set()
    st = [(fn.entry, iter(succ[fn.entry]))]; col[fn.entry] = 1
    while st:
        b, it = st[-1]
        for x in it:
            if x not in col: col[x] = 1; st.append((x, iter(succ[x]))); break
            elif col[x] == 1: heads.add(x)
        else: col[b] = 2; st.pop()
    # natural loop body of each header
    loops = {}
    for h in heads:
        body = {h}; rp = {}
        for b in succ:
            for x in succ[b]: rp.setdefault(x, []).append(b)
        # blocks that reach h without leaving through h and are reachable from h
        def reach(start, nx, stop):
            s = {start}; w = [start]
            while w:
                y = w.pop()
                for z in nx.get(y, []):
                    if z not in s and z != stop: s.add(z); w.append(z)
            return s
        f = reach(h, succ, None); g = reach(h, rp, None)
        loops[h] = (f & g) | {h}
    r[fn.sym] = (live, pred, heads, loops, phiuse)
    return r[fn.sym]

class Res: pass
class AX(Exec):
    """abstract executor"""
    def __init__(s, mod):
        Exec.__init__(s, mod); s.units = {}; s.act = []; s.limit = 60000; s.headlim = 6000; s.rcok = set(); s.log = []; s.tot = 0; s.nloops = 0; s.lemmas = {}
        s.deadline = None
    # ---- values
    def rg(s, st, n):
        c = cval(n)
        if c is not None: return (c, c, False) if c == c else (math.inf, -math.inf, True)
        if n.op == 'rng': return n.a
        if n.op == 'v': return st.cons.dom.get(n.id, (-math.inf, math.inf, True, ()))[:3]
        return (-math.inf, math.inf, True)
    def fop(s, st, op, *v):
        if any(not isinstance(x, N) or x.isint for x in v): return TOP
        cs = [cval(x) for x in v]
        if all(c is not None for c in cs):
            try: return fc(ev(op, cs))
            except (OverflowError, ValueError): return fc(math.nan)
            except Unsupported: return TOP
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fabs') and any(isnan(x) for x in v): return fc(math.nan)
        R = [s.rg(st, x) for x in v]
        if any(r[2] or r[0] == -math.inf or r[1] == math.inf or r[0] > r[1] for r in R): 
            if op == 'fabs': return rngn(0.0, math.inf, True)
            return TOP
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            (a, b, _), (c, d, _) = R
            if op == 'fdiv' and c <= 0 <= d: return TOP
            q = [ev(op, [x, y]) for x in (a, b) for y in (c, d)]
            if any(x != x or abs(x) == math.inf for x in q): return TOP
            return rngn(min(q), max(q), False)
        if op == 'fneg': return rngn(-R[0][1], -R[0][0], False)
        if op == 'fabs':
            a, b, _ = R[0]; return rngn(0.0 if a <= 0 <= b else min(abs(a), abs(b)), max(abs(a), abs(b)), False)
        if op in ('fmax', 'fmin'):
            f = max if op == 'fmax' else min
            return rngn(f(R[0][0], R[1][0]), f(R[0][1], R[1][1]), False)
        return TOP
    def ir_(s, st, x, w):
        if isinstance(x, bool): return (int(x), int(x))
        if isinstance(x, int): x = signed(x, w); return (x, x)
        if x.op == 'irng': return (x.a[1], x.a[2])
        if x.op == 'ivar':
            d = st.cons.idom.get(x.id)
            if d: return (d[0][0], d[-1][1])
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    def conv(s, v, ty):
        if ty.k == 'double':
            if isinstance(v, int): return mk('c', v)
            return TOP if not isinstance(v, N) or v.isint else v
        if ty.k in ('i', 'ptr') and isinstance(v, N) and not v.isint:
            c = v.a[0] if v.op == 'c' else None
            return c if c is not None else (irng(ty.n, -(1 << (ty.n - 1)), (1 << (ty.n - 1)) - 1) if ty.k == 'i' else v)
        return v
    def x_fneg(s, st, fr, i): fr.regs[i.d] = s.fop(st, 'fneg', s.val(fr, i.a[1]))
    def fbin(s, st, fr, i): fr.regs[i.d] = s.fop(st, i.op, s.val(fr, i.a[1]), s.val(fr, i.a[2]))
    x_fadd = x_fsub = x_fmul = x_fdiv = fbin
    def x_frem(s, st, fr, i): fr.regs[i.d] = TOP
    def branch(s, st, i, alts):
        """alts: [(value, atoms)]; value goes to register i.d; forks"""
        out = []
        for v, at in alts[1:]:
            t = st.clone()
            if at and not t.cons.assume_all(at): continue
            f = t.frames[-1]; f.regs[i.d] = v; f.ip += 1; out.append(t)
        v, at = alts[0]
        if at and not st.cons.assume_all(at): st = None
        else: st.frames[-1].regs[i.d] = v; st.frames[-1].ip += 1; out.append(st)
        return ('fork', out)
    def x_fcmp(s, st, fr, i):
        m = FP[i.a[0]]; a = s.val(fr, i.a[2]); b = s.val(fr, i.a[3])
        ca, cb = cval(a), cval(b)
        if ca is not None and cb is not None: fr.regs[i.d] = bool(m & relop(ca, cb)); return
        if a.op == 'v' and cb is not None or b.op == 'v' and ca is not None:
            c = mkrel(m, a, b)
            r = c if c is True or c is False else st.cons.decide(c)
            if r is not None: fr.regs[i.d] = r; return
            return s.branch(st, i, [(True, [(c, True)]), (False, [(c, False)])])
        A, B_ = s.rg(st, a), s.rg(st, b); f = 0
        if A[2] or B_[2]: f |= UN
        if isnan(a) or isnan(b): fr.regs[i.d] = bool(m & UN); return
        if A[0] < B_[1]: f |= LT
        if A[1] > B_[0]: f |= GT
        if A[0] <= B_[1] and B_[0] <= A[1]: f |= EQ
        if f & m == 0: fr.regs[i.d] = False; return
        if f & ~m == 0: fr.regs[i.d] = True; return
        return s.branch(st, i, [(True, None), (False, None)])
    def x_icmp(s, st, fr, i):
        pr, ty, a, b = i.a; a = s.val(fr, a); b = s.val(fr, b); n = ty.n or 64
        if ty.k == 'ptr' or (isinstance(a, (int, bool)) and isinstance(b, (int, bool))):
            if isinstance(a, N) or isinstance(b, N): return s.branch(st, i, [(True, None), (False, None)])
            return Exec.x_icmp(s, st, fr, i)
        if isinstance(a, N) and not a.isint or isinstance(b, N) and not b.isint: return s.branch(st, i, [(True, None), (False, None)])
        if isinstance(a, N) and a.op == 'ivar' and isinstance(b, int) and n == 32 or isinstance(b, N) and b.op == 'ivar' and isinstance(a, int) and n == 32:
            Exec.x_icmp(s, st, fr, i); c = fr.regs[i.d]
            r = c if c is True or c is False else st.cons.decide(c)
            if r is not None: fr.regs[i.d] = r; return
            return s.branch(st, i, [(True, [(c, True)]), (False, [(c, False)])])
        (la, ha), (lb, hb) = s.ir_(st, a, n), s.ir_(st, b, n)
        if pr[0] == 'u' and pr != 'une':
            if min(la, lb) < 0: return s.branch(st, i, [(True, None), (False, None)])
        q = pr if pr in ('eq', 'ne') else pr[1:]
        lt, gt, eq = la < hb, ha > lb, la <= hb and lb <= ha
        t, f = {'eq': (eq, lt or gt), 'ne': (lt or gt, eq), 'lt': (lt, gt or eq), 'le': (lt or eq, gt), 'gt': (gt, lt or eq), 'ge': (gt or eq, lt)}[q]
        if not f: fr.regs[i.d] = True; return
        if not t: fr.regs[i.d] = False; return
        return s.branch(st, i, [(True, None), (False, None)])
    def ibin(s, st, op, n, a, b):
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)): return Exec.ibin(s, st, op, n, int(a), int(b))
        if a is UNDEF or b is UNDEF: raise Unsupported('undef int')
        return s.iar(st, op, n, a, b)[0]
    def iar(s, st, op, n, a, b):
        """interval arithmetic; (value, may overflow signed, must)"""
        (la, ha), (lb, hb) = s.ir_(st, a, n), s.ir_(st, b, n); L, Hh = -(1 << (n - 1)), (1 << (n - 1)) - 1
        if op == 'add': lo, hi = la + lb, ha + hb
        elif op == 'sub': lo, hi = la - hb, ha - lb
        elif op == 'mul': q = [x * y for x in (la, ha) for y in (lb, hb)]; lo, hi = min(q), max(q)
        elif op == 'and' and lb == hb and lb >= 0: return irng(n, 0, lb), False, False
        elif op == 'lshr' and lb == hb and lb > 0: return irng(n, 0, (1 << (n - lb)) - 1), False, False
        else: return irng(n, L, Hh), True, False
        if lo < L or hi > Hh: return irng(n, L, Hh), True, hi < L or lo > Hh
        return irng(n, lo, hi), False, False
    def x_cast(s, st, fr, i):
        op, t1, v, t2 = i.a; v = s.val(fr, v)
        if isinstance(v, (int, bool)) or op in ('ptrtoint', 'inttoptr') or (isinstance(v, N) and not v.isint and op in ('fptrunc', 'fpext')):
            if op in ('fptrunc', 'fpext'): fr.regs[i.d] = s.fop(st, 'rnd32', v) if op == 'fptrunc' else v; return
            return Exec.x_cast(s, st, fr, i)
        if op in ('fptosi', 'fptoui'):
            fr.regs[i.d] = irng(t2.n, -(1 << (t2.n - 1)), (1 << (t2.n - 1)) - 1) if cval(v) is None else Exec.x_cast(s, st, fr, i) or fr.regs[i.d]; return
        if op in ('sitofp', 'uitofp'):
            lo, hi = s.ir_(st, v, t1.n); fr.regs[i.d] = rngn(float(lo), float(hi), False) if op == 'sitofp' or lo >= 0 else rngn(0.0, 2.0 ** 64, False); return
        if op == 'sext': lo, hi = s.ir_(st, v, t1.n); fr.regs[i.d] = irng(t2.n, lo, hi); return
        if op == 'zext':
            lo, hi = s.ir_(st, v, t1.n); fr.regs[i.d] = irng(t2.n, lo, hi) if lo >= 0 else irng(t2.n, 0, (1 << t1.n) - 1); return
        if op == 'trunc':
            lo, hi = s.ir_(st, v, t1.n); L, Hh = -(1 << (t2.n - 1)), (1 << (t2.n - 1)) - 1
            if t2.n == 1: return s.branch(st, i, [(True, None), (False, None)])
            fr.regs[i.d] = irng(t2.n, lo, hi) if L <= lo and hi <= Hh else irng(t2.n, L, Hh); return
        if op == 'bitcast': fr.regs[i.d] = s.conv(v, t2); return
        raise Unsupported('cast ' + op)
    def x_br(s, st, fr, i):
        c = s.val(fr, i.a[0])
        if c is UNDEF: raise Unsupported('branch on undef')
        if isinstance(c, N):
            t = st.clone(); f = t.frames[-1]; f.prev = f.blk; f.blk = i.a[2]; f.ip = 0
            fr.prev = fr.blk; fr.blk = i.a[1]; fr.ip = 0; return ('fork', [t, st])
        fr.prev = fr.blk; fr.blk = i.a[1] if c else i.a[2]; fr.ip = -1
    def x_switch(s, st, fr, i):
        ty, v, dft, cs = i.a; v = s.val(fr, v)
        if isinstance(v, (int, bool)):
            v = int(v); l = dict(reversed(cs)).get(v, dft); fr.prev = fr.blk; fr.blk = l; fr.ip = -1; return
        out = []; allk = []; w = ty.n; lo, hi = s.ir_(st, v, w)
        for k, l in cs:
            k = signed(k, w); allk.append((k, k))
            at = [(iset(v, [(k, k)]), True)] if v.op == 'ivar' and w == 32 else None
            if not at and not lo <= k <= hi: continue
            t = st.clone()
            if at and not t.cons.assume_all(at): continue
            out.append((t, l))
        at = [(iset(v, compl(allk)), True)] if v.op == 'ivar' and w == 32 else None
        if at is None and all(any(k == x for x, _ in allk) for k in range(lo, hi + 1)) if hi - lo < 300 else False: pass
        else:
            t = st.clone()
            if not at or t.cons.assume_all(at): out.append((t, dft))
        for t, l in out: f = t.frames[-1]; f.prev = f.blk; f.blk = l; f.ip = 0
        return ('fork', [t for t, _ in out])
    def x_select(s, st, fr, i):
        c, t, a, b = i.a; c = s.val(fr, c)
        if isinstance(c, N): return s.branch(st, i, [(s.val(fr, a), None), (s.val(fr, b), None)])
        fr.regs[i.d] = s.val(fr, a if c else b)
    def x_alloca(s, st, fr, i):
        oid = (len(st.frames) << 12) + len(fr.objs) + 1
        st.mem[oid] = Obj(i.a[0].size()); fr.objs.append(oid); fr.regs[i.d] = oid * OBJ
    def intrinsic(s, st, fr, i, sy, av):
        p = sy.split('.'); n = p[1]
        if n in ('lifetime', 'dbg', 'assume', 'donothing', 'experimental'): return
        if p[-1] == 'f64' or n in ('powi',):
            op = INTR1.get(n) or {'pow': 'pow', 'powi': 'powi', 'fma': 'fma', 'fmuladd': 'fma', 'maxnum': 'fmax', 'maximumnum': 'fmax', 'minnum': 'fmin', 'minimumnum': 'fmin'}.get(n)
            if n == 'powi':
                e = av[1]; c = cval(av[0]) if isinstance(av[0], N) else None
                fr.regs[i.d] = fc(cpow(c, signed(e, 32))) if isinstance(e, int) and c is not None and not (c != c and e == 0) else TOP; return
            if op in ('fabs', 'fmax', 'fmin'): fr.regs[i.d] = s.fop(st, op, *av); return
            fr.regs[i.d] = fc(math.nan) if op in ('exp', 'log', 'sqrt', 'sin', 'cos', 'exp2', 'log10', 'log2') and isnan(av[0]) else TOP; return
        if n in ('sadd', 'ssub', 'smul', 'uadd', 'usub', 'umul') and p[2] == 'with':
            a, b = av; w = int(p[-1][1:])
            if isinstance(a, int) and isinstance(b, int): return Exec.intrinsic(s, st, fr, i, sy, av)
            v, may, must = s.iar(st, n[1:], w, a, b)
            if n[0] == 'u' and (s.ir_(st, a, w)[0] < 0 or s.ir_(st, b, w)[0] < 0 or s.iar(st, n[1:], w + 1, a, b)[1] or n == 'usub' and s.ir_(st, a, w)[0] < s.ir_(st, b, w)[1]): may = True
            if must: fr.regs[i.d] = (v, True); return
            if not may: fr.regs[i.d] = (v, False); return
            return s.branch(st, i, [((v, True), None), ((v, False), None)])
        if n in ('umax', 'umin', 'smax', 'smin') and any(isinstance(x, N) for x in av):
            w = int(p[-1][1:]); fr.regs[i.d] = irng(w, -(1 << (w - 1)), (1 << (w - 1)) - 1); return
        if n in ('fptosi', 'fptoui'):
            w = int(p[2][1:]); fr.regs[i.d] = irng(w, -(1 << (w - 1)) if n == 'fptosi' else 0, (1 << (w - 1)) - 1) if n == 'fptosi' else irng(w, -(1 << (w - 1)), (1 << (w - 1)) - 1); return
        return Exec.intrinsic(s, st, fr, i, sy, av)
    def external(s, st, fr, i, sy, name, av):
        b = sy.lstrip('@')
        if b in LIBM1 or b in ('pow', 'exp', 'log', 'sin', 'cos', 'fmod', 'atan2', 'hypot', 'exp2', 'log2', 'log10', 'sqrt'): fr.regs[i.d] = TOP; return
        return Exec.external(s, st, fr, i, sy, name, av)
    # ---- calls
    def x_call(s, st, fr, i):
        rt, cal, args = i.a
        av = [s.val(fr, x) for _, x in args]
        if isinstance(cal, IR.G): sy = cal.name
        else:
            a = s.val(fr, cal)
            if isinstance(a, N) or a not in s.fnat: raise Unsupported('symbolic callee')
            sy = s.fnat[a]
        while sy in s.m.aliases: sy = s.m.aliases[sy]
        if sy.startswith('@llvm.'): return s.intrinsic(st, fr, i, sy, av)
        name = demangle(sy); fn = s.m.fns.get(sy)
        if fn is None: return s.external(st, fr, i, sy, name, av)
        if is_unit(fn):
            r = s.unit(fn, tuple(('nan' if isnan(a) else None) if isinstance(a, N) else a for a in av))
            if r.ok:
                short = name.split('::')[-1]
                for dom, res in RC.get(short, ()) if short in s.rcok else ():
                    if len(av) == 1 and fn.ret.k == 'double':
                        g = s.rg(st, av[0])
                        if not g[2] and dom[0] <= g[0] and g[1] <= dom[1]: fr.regs[i.d] = rngn(*res, False); return
                if fn.ret.k == 'void': return
                if not r.returns: return ('panic', 'never returns')
                if fn.ret.k == 'i' and fn.ret.n == 32 and r.vals is not None and 1 < len(r.vals) <= 12: return s.branch(st, i, [(v, None) for v in sorted(r.vals)])
                if fn.ret.k == 'double' and r.vals is not None and 1 < len(r.vals) <= 12: return s.branch(st, i, [(fc(v), None) for v in sorted(r.vals)])
                fr.regs[i.d] = r.ret; return
        s.push(st, fn, av, i.d)
        return ('cont',)
    def unit(s, fn, ints):
        """contract of a scalar function: explored on its own with unknown doubles"""
        key = (fn.sym, ints); r = s.units.get(key)
        if r is None:
            if (fn.sym, ints) in s.act: r = Res(); r.ok = False; r.why = 'recursion'; r.panics = []; r.returns = True; r.rec = True; return r
            s.act.append((fn.sym, ints))
            try:
                args = []
                for k, ((t, n, _), c) in enumerate(zip(fn.params, ints)):
                    args.append(fc(math.nan) if c == 'nan' else fv(f'arg{k}') if t.k == 'double' else c if c is not None else iv(f'arg{k}') if t.n == 32 else irng(t.n, -(1 << (t.n - 1)), (1 << (t.n - 1)) - 1))
                r = s.explore(fn, args)
            finally: s.act.pop()
            s.units[key] = r
        return r
    def join(s, r, v, st):
        if r.vals is not None:      # the set of returned constants, while it is one
            c = cval(v) if isinstance(v, N) else int(v) if isinstance(v, (int, bool)) else None
            if c is not None and c == c: r.vals.add(c)
            if c is None or c != c or len(r.vals) > 24: r.vals = None; r.odd = v
        if r.ret is None: 
            r.ret = s.absval(v, st); return
        def j(a, b):
            if isinstance(a, tuple): return tuple(j(x, y) for x, y in zip(a, b)) if isinstance(b, tuple) else a
            if a is b or (isinstance(a, int) and isinstance(b, int) and a == b): return a
            if isinstance(a, N) and not a.isint or isinstance(b, N) and not b.isint:
                A = s.rg(st, a) if isinstance(a, N) else (-math.inf, math.inf, True); B_ = s.rg(st, b) if isinstance(b, N) else (-math.inf, math.inf, True)
                return rngn(min(A[0], B_[0]), max(A[1], B_[1]), A[2] or B_[2])
            w = 32
            for x in (a, b):
                if isinstance(x, N) and x.op == 'irng': w = x.a[0]
            A, B_ = s.ir_(st, a, w), s.ir_(st, b, w); return irng(w, min(A[0], B_[0]), max(A[1], B_[1]))
        r.ret = j(r.ret, s.absval(v, st))
    def absval(s, v, st):
        if isinstance(v, tuple): return tuple(s.absval(x, st) for x in v)
        if isinstance(v, bool): return int(v)
        if isinstance(v, N) and not v.isint and v.op != 'c': return rngn(*s.rg(st, v))
        if isinstance(v, N) and v.op == 'ivar': lo, hi = s.ir_(st, v, 32); return irng(32, lo, hi)
        return v
    # ---- exploration
    def key(s, st):
        def h(v):
            if isinstance(v, N): return v.id
            if isinstance(v, tuple): return tuple(h(x) for x in v)
            return ('#', int(v)) if isinstance(v, (int, bool)) else id(v)
        fs = []
        for f in st.frames:
            fs.append((f.fn.sym, f.blk, f.ip, f.prev if f is st.frames[-1] and f.fn.blocks[f.blk][0].op == 'phi' else None, tuple(sorted((k, h(v)) for k, v in f.regs.items()))))
        m = tuple((oid, o.base, tuple(sorted((k, x[0], h(x[1])) for k, x in o.ov.items()))) for oid, o in sorted(st.mem.items()))
        c = tuple(sorted(st.cons.dom.items())), tuple(sorted(st.cons.idom.items()))
        return (tuple(fs), m, c)
    def explore(s, fn, args, dom=None):
        cuts = {}; wid = {}
        for attempt in range(10):
            r = s.explore1(fn, args, cuts, dom, wid)
            if r.retry is None: return r
            h = r.retry           # (fn.sym, header): state of this loop does not stay finite
            if h not in wid and r.varied.get(h): wid[h] = dict(r.varied[h]); continue     # first forget its floating-point variables
            wid[h] = {}
            lm = ranking(s, h, r.sample)
            if lm is None:
                r.ok = False; r.why = f'no ranking lemma for the loop in {demangle(h[0])}'; r.loop = True; return r
            s.lemmas[h] = lm[0]; cuts[h] = lm
        r.ok = False; r.why = 'too many loop cuts'; return r
    def explore1(s, fn, args, cuts, dom=None, wid={}):
        r = Res(); r.ok = True; r.why = ''; r.panics = []; r.ret = None; r.returns = False; r.retry = None; r.loop = False; r.unsup = None; r.states = 0; r.rec = False; r.vals = set(); r.odd = None; r.cutlemmas = [c[0] for c in cuts.values()]
        st = State(); st.frames = []; st.mem = {}; st.cons = Cons(); st.cons.assume_all(dom or []); s.push(st, fn, args, None)
        seen = {}; edges = []; hv = {}; steps = 0; first = {}; r.varied = {}
        work = [(st, None)]
        while work:
            st, last = work.pop()
            while True:
                fr = st.frames[-1]
                if fr.ip <= 0 and fr.blk is not None:
                    fr.ip = 0
                    live, pred, heads, loops, phiuse = liveness(fr.fn)
                    isphi = fr.fn.blocks[fr.blk][0].op == 'phi'
                    if pred[fr.blk] > 1 or fr.blk in heads:
                        L = live[fr.blk]
                        if not isphi: fr.regs = {k: v for k, v in fr.regs.items() if k in L}
                        else: 
                            P = phiuse.get(fr.prev, set()) | L
                            fr.regs = {k: v for k, v in fr.regs.items() if k in P}
                        hk = (fr.fn.sym, fr.blk)
                        cut = cuts.get(hk)
                        if cut: s.havoc(st, hk, cut)
                        elif hk in wid:
                            for (k, off), sz in wid[hk].items():
                                o = st.mem[fr.objs[k]]
                                if off in o.ov: o.ov[off] = (sz, TOP)
                        elif fr.blk in heads:
                            F = first.setdefault(hk, {})
                            for k, oid in enumerate(fr.objs):
                                for off, (sz, v) in st.mem[oid].ov.items():
                                    if isinstance(v, N) and not v.isint and F.setdefault((k, off), v) is not v: r.varied.setdefault(hk, {})[k, off] = sz
                        st.cons.atoms = []
                        k = s.key(st); n = seen.get(k)
                        if n is not None:
                            if last is not None: edges.append((last, n, hk))
                            break
                        n = seen[k] = len(seen); r.states += 1; s.tot += 1
                        if last is not None: edges.append((last, n, hk))
                        last = n
                        if fr.blk in heads:
                            hv[hk] = hv.get(hk, 0) + 1
                            if hv[hk] > s.headlim and not cut: r.retry = hk; r.sample = (st.clone(), hk); return r
                        if r.states > s.limit: r.ok = False; r.why = f'more than {s.limit} states'; r.loop = True; return r
                ins = fr.fn.blocks[fr.blk][fr.ip]; steps += 1
                if s.deadline and (steps & 4095) == 0 and time.time() > s.deadline: r.ok = False; r.why = 'time limit'; r.unsup = True; return r
                try: o = getattr(s, 'x_' + ins.op)(st, fr, ins)
                except Unsupported as e: r.ok = False; r.why = f'{e} in {fr.fn.name}'; r.unsup = True; return r
                except KeyError as e: r.ok = False; r.why = f'undefined value {e} in {fr.fn.name}'; r.unsup = True; return r
                if o is None: fr.ip += 1
                elif o[0] == 'done': r.returns = True; s.join(r, o[1], st) if o[1] is not None else None; break
                elif o[0] == 'panic':
                    if o[1] != 'never returns': r.panics.append((o[1], [(show(c), v) for c, v in st.cons.atoms][:12], dict(st.cons.dom), fr.fn.name))
                    break
                elif o[0] == 'fork':
                    for t in o[1][:-1]: work.append((t, last))
                    if not o[1]: break
                    st = o[1][-1]
        # acyclicity (Kahn), edges into a cut header are ranked by its lemma
        indeg = [0] * len(seen); adj = [[] for _ in seen]
        for a, b, hk in edges:
            if hk in cuts: continue
            adj[a].append(b); indeg[b] += 1
        q = [i for i, d in enumerate(indeg) if d == 0]; n = 0
        while q:
            x = q.pop(); n += 1
            for y in adj[x]:
                indeg[y] -= 1
                if indeg[y] == 0: q.append(y)
        if n < len(seen):
            # find a header on a cycle
            hs = [hk for a, b, hk in edges if indeg[b] > 0 and hk not in cuts and hk[1] in liveness(s.m.fns[hk[0]])[2]]
            if hs:
                for h in dict.fromkeys(hs):
                    k = next((kk for kk, nn in seen.items() if indeg[nn] > 0 and kk[0][-1][0] == h[0] and kk[0][-1][1] == h[1]), None)
                r.retry = hs[0]; r.sample = None; r.cyc = True; r.fn = fn; r.args = args; s.want = hs[0]
                r.sample = s.first_at(fn, args, cuts, hs[0]) if hs[0] in wid or not r.varied.get(hs[0]) else None; return r
            r.ok = False; r.why = 'cycle'; r.loop = True; return r
        if r.panics: r.ok = False; r.why = 'panic: ' + r.panics[0][0]
        return r
    def first_at(s, fn, args, cuts, hk):
        """some state at the header hk"""
        st = State(); st.frames = []; st.mem = {}; st.cons = Cons(); s.push(st, fn, args, None)
        work = [st]; seen = set()
        while work:
            st = work.pop()
            while True:
                fr = st.frames[-1]
                if fr.ip <= 0:
                    fr.ip = 0
                    if (fr.fn.sym, fr.blk) == hk: return (st, hk)
                    if liveness(fr.fn)[1][fr.blk] > 1:
                        if (fr.fn.sym, fr.blk) in cuts: s.havoc(st, (fr.fn.sym, fr.blk), cuts[(fr.fn.sym, fr.blk)])
                        st.cons.atoms = []; k = s.key(st)
                        if k in seen: break
                        seen.add(k)
                ins = fr.fn.blocks[fr.blk][fr.ip]; o = getattr(s, 'x_' + ins.op)(st, fr, ins)
                if o is None: fr.ip += 1
                elif o[0] in ('done', 'panic'): break
                elif o[0] == 'fork':
                    for t in o[1][:-1]: work.append(t)
                    if not o[1]: break
                    st = o[1][-1]
        return None
    def havoc(s, st, hk, cut):
        """forget the values of the loop's variables in the top frame"""
        lem, mod = cut; fr = st.frames[-1]
        for (k, off), (sz, kind, inv) in mod.items():
            o = st.mem[fr.objs[k]]
            if kind == 'f': v = rngn(*inv) if inv else TOP
            else:
                v = iv(f'{demangle(hk[0])}.{k}.{off}')
                st.cons.idom.pop(v.id, None)
                if inv: st.cons.idom[v.id] = (inv,)
                if kind != 32: v = irng(kind, *(inv or (-(1 << (kind - 1)), (1 << (kind - 1)) - 1)))
            o.ov[off] = (sz, v)
def is_unit(fn):
    return all(t.k == 'double' or t.k == 'i' for t, _, _ in fn.params) and fn.params and not any(p[2] for p in fn.params) and (fn.ret.k in ('double', 'i', 'void') or fn.ret.k == 'struct' and all(e.k in ('double', 'i') for e in fn.ret.el))

# ------------------------------------------------------------------ ranking lemmas
def ranking(A, hk, sample):
    """one symbolic iteration of the loop from an arbitrary state at its header.
    returns (lemma text, {(alloca index, offset): (size, kind, invariant)}) or None"""
    if sample is None: return None
    fn = A.m.fns[hk[0]]; live, pred, heads, loops, phiuse = liveness(fn); body = loops[hk[1]]
    if any(i.op == 'phi' for i in fn.blocks[hk[1]]): return None
    st0 = sample[0]; fr0 = st0.frames[-1]
    X = Exec(A.m, lambda name, args, X: opq(X, name, args) if is_state_fn(name) and not re.match(r'(core|std|alloc)::', name) else None, fork_limit=200, path_limit=20000)
    X.gaddr = A.gaddr; X.fnat = A.fnat; X.objs = A.objs; X.nobj = A.nobj; X.gobj = A.gobj
    mod = {}
    for rnd in range(6):
        st = st0.clone(); st.frames = [st.frames[-1]]; st.cons = Cons(); fr = st.frames[0]; fr.ip = 0; fr.forks = {}
        ren = {}
        # scalars of the frame become symbols
        env = {}
        def symb(v, nm):
            if isinstance(v, N): return iv(nm) if v.isint else fv(nm)
            return v
        for k, oid in enumerate(fr.objs):
            o = st.mem[oid]
            for off, (sz, v) in list(o.ov.items()):
                if (k, off) in mod:
                    o.ov[off] = (sz, fv(f'm{k}_{off}') if mod[k, off][1] == 'f' else iv(f'm{k}_{off}')); env[k, off] = o.ov[off][1]
                elif isinstance(v, N): o.ov[off] = (sz, fv(f'k{k}_{off}') if not v.isint else iv(f'k{k}_{off}'))
        for rname, v in list(fr.regs.items()):
            if isinstance(v, N): fr.regs[rname] = v if v.op == 'c' else symb(v, 'r' + rname)
        # outer frames' memory is kept but unknown
        ends = []
        try: iterate(X, st, hk, body, ends)
        except (Unsupported, KeyError) as e: A.log.append(f'{demangle(hk[0])}: {e}'); return None
        new = dict(mod)
        for e in ends:
            f = e.frames[0]
            for k, oid in enumerate(f.objs):
                o = e.mem[oid]; b = st0.mem[fr0.objs[k]] if k < len(fr0.objs) else None
                for off, (sz, v) in o.ov.items():
                    if (k, off) in mod: continue
                    was = b.ov.get(off) if b else None
                    cur = fv(f'k{k}_{off}') if was and isinstance(was[1], N) and not was[1].isint else iv(f'k{k}_{off}') if was and isinstance(was[1], N) else was[1] if was else None
                    if was is None or was[0] != sz or not (v is cur or (isinstance(v, int) and isinstance(cur, int) and v == cur)):
                        if was is None: continue      # temporary, written before it is read
                        isf = isinstance(v, N) and not v.isint and v.op not in ('rel', 'iset', 'bcall')
                        if not isf and not isinstance(was[1], (int, N)): return None
                        if isinstance(v, int) and v >= OBJ: return None
                        new[k, off] = (sz, 'f' if isf else 8 * sz, None)
                if o.base != (b.base if b else None): return None
        if new == mod: break
        mod = new
    else: return None
    # temporaries written in the loop but absent at the first arrival must be absent or havocked: give up if live
    if not mod: return None
    # counters
    for (k, off), (sz, kind, _) in mod.items():
        if kind == 'f': continue
        L = env[k, off]; step = None; lo = hi = None; good = True
        for e in ends:
            f = e.frames[0]; v = e.mem[f.objs[k]].ov.get(off)
            v = v[1] if v else None
            if not (isinstance(v, N) and v.op == 'iop' and v.a[0] in ('add', 'sub') and v.a[2] is L and isinstance(v.a[3], int)): good = False; break
            d = signed(v.a[3], kind) * (1 if v.a[0] == 'add' else -1)
            if step is not None and (d > 0) != (step > 0) or d == 0: good = False; break
            step = d; D = e.cons.idom.get(L.id)
            if not D: good = False; break
            if d > 0: hi = max(hi, D[-1][1]) if hi is not None else D[-1][1]; good = good and D[-1][1] < (1 << 31) - 1
            else: lo = min(lo, D[0][0]) if lo is not None else D[0][0]; good = good and D[0][0] > -(1 << 31)
        if good and step:
            m2 = dict(mod); m2[k, off] = (sz, kind, None)
            return (f'loop in {demangle(hk[0])}: counter steps by {step} and every iteration requires it to be {"<=" if step > 0 else ">="} {hi if step > 0 else lo}', m2)
    # geometrically shrinking bracket
    fl = [kk for kk, v in mod.items() if v[1] == 'f']
    for i1, A1 in enumerate(fl):
        for B1 in fl[i1 + 1:]:
            x, y = env[A1], env[B1]; ok = True; qmax = None
            for e in ends:
                f = e.frames[0]; g = lambda kk: e.mem[f.objs[kk[0]]].ov[kk[1]][1]
                try: x2, y2 = g(A1), g(B1)
                except KeyError: ok = False; break
                # |x2-y2| = q |x-y|
                hit = None
                for q in (0.5, 1 / 3.0, 2 / 3.0, 0.25, 0.75):
                    if pit_eq((x2 - y2) * (x2 - y2), fc(q) * fc(q) * (x - y) * (x - y)): hit = q; break
                if hit is None: ok = False; break
                # guard |x-y| > c
                gd = False
                for c, v in e.cons.atoms:
                    if c.op != 'rel': continue
                    m, a, b = c.a; m = m if v else 15 ^ m
                    cb = cval(b)
                    if cb is not None and cb > 0 and a.op == 'fabs' and m & (LT | UN) == 0 and (a.a[0] is x - y or a.a[0] is y - x): gd = True
                if not gd: ok = False; break
            if ok and ends: return (f'loop in {demangle(hk[0])}: every iteration shrinks a bracket by a constant factor and requires it to be wider than a positive constant', mod)
    return None
def pit_eq(l, r):
    for sd in ('c07a', 'c07b'):
        E = FQ(sd)
        try:
            if E.ev(l) != E.ev(r): return False
        except Singular: return False
    return True
def iterate(X, st, hk, body, ends):
    """run one iteration: paths back to the header are appended to ends"""
    work = [st]; steps = 0; first = True
    depth0 = 1
    while work:
        st = work.pop()
        while True:
            fr = st.frames[-1]
            if len(st.frames) == depth0:
                if not first and fr.ip <= 0 and fr.blk == hk[1]: ends.append(st); break
                if fr.blk not in body: break
            first = False
            if fr.ip < 0: fr.ip = 0
            ins = fr.fn.blocks[fr.blk][fr.ip]; steps += 1
            if steps > 400000 or len(ends) > 2000: raise Unsupported('iteration too large')
            if ins.op == 'ret' and len(st.frames) == depth0: break
            try: o = getattr(X, 'x_' + ins.op)(st, fr, ins)
            except Fork as f:
                for al in f.alts:
                    t = st.clone()
                    if t.cons.assume_all(al): work.append(t)
                break
            except ForkRet as f:
                for at, status, rv in f.alts:
                    t = st.clone()
                    if status != 'ret' or not t.cons.assume_all(at): continue
                    tf = t.frames[-1]
                    if ins.d: tf.regs[ins.d] = rv
                    tf.ip += 1; work.append(t)
                break
            if o is None: fr.ip += 1
            elif o[0] in ('done', 'panic'): break

# ------------------------------------------------------------------ the check
def range_obligations(A, ck):
    """the result ranges used to bound the bracketing loops, proved on the code's own expression"""
    import ivl
    for nm, L in RC.items():
        fs = [f for f in A.m.fns.values() if f.name.split('::')[-1] == nm and is_unit(f)]
        if len(fs) != 1: continue
        for dom, res in L:
            try:
                x = fv('x'); X = Exec(A.m); ps = X.run(fs[0], [x], [(mkrel(GT | EQ, x, fc(dom[0])), True), (mkrel(LT | EQ, x, fc(dom[1])), True)])
                ok = len(ps) > 0
                for p in ps:
                    if p.status != 'ret': ok = False; break
                    c = cval(p.ret)
                    if c is not None: ok = ok and res[0] <= c <= res[1]; continue
                    d = p.cons.dom.get(x.id, dom)
                    ok = ok and ivl.prove([p.ret - fc(res[0]), fc(res[1]) - p.ret], {'x': (max(d[0], dom[0]), min(d[1], dom[1]))}, minw=1e-9, tmax=20).ok
            except Unsupported as e: ok = False
            if ok: A.rcok.add(nm); ck.ok(f'range contract: {nm}({dom[0]}..{dom[1]}) in [{res[0]},{res[1]}]', 'interval branch and bound')
def constants(M):
    """float constants the code compares with"""
    out = set()
    for f in M.fns.values():
        if not f.name.startswith('seuif97'): continue
        for b in f.blocks.values():
            for i in b:
                if i.op == 'fcmp':
                    for x in i.a[2:4]:
                        if isinstance(x, IR.FConst) and x.v == x.v and abs(x.v) < 1e7: out.add(x.v)
    return sorted(out)
def search(names, tlimit=150, regs=()):
    """panics and hangs of the real code"""
    from dispatch import special, RANGES, XR
    import witness
    rp = replay(); rnd = random.Random(SEED); T1 = time.time() + tlimit; M = module()
    cs = constants(M); cs = sorted(set(cs) | {c - 273.15 for c in cs if 200 < c < 2400})
    lo = {'p': (0, 120), 't': (-50, 2300), 'h': (-50, 8000), 's': (-1, 15), 'v': (0, 1000), 'x': (-.1, 1.1)}
    hit = []; n_ = 0
    for rd in range(3):
        for n in names:
            A_ = []
            for c in n:
                l, h = lo[c]; base = [x for x in cs if l <= x <= h] + (list(XR[n]) if n in API1 and c == n[0] else [])
                A_.append([y for x in base for y in (x, math.nextafter(x, math.inf), math.nextafter(x, -math.inf))])
            qs = []
            def add(x, y, k=2):
                for _ in range(k):
                    o = rnd.choice([0, 1, 3, 4, 5, 15] if rnd.random() < .5 else list(range(36)) + [77, -3, 2 ** 31 - 1, -2 ** 31])
                    r = None if n in API1 else rnd.choice(list(regs)) if regs and rnd.random() < .5 else rnd.choice([None, None, None, 1, 2, 3, 4, 5, 10, 0, -7, 99])
                    qs.append((n, x, y, o, r))
            if rd == 0:
                for x in special():
                    for y in special(): add(x, y, 3)
                for x in special()[:9]:
                    for y in A_[1]: add(x, y, 1)
                for y in special()[:9]:
                    for x in A_[0]: add(x, y, 1)
            for _ in range(12000 if rd else 6000):
                r = rnd.random()
                x = rnd.choice(A_[0]) if r < .5 and A_[0] else rnd.uniform(*lo[n[0]]); y = rnd.choice(A_[1]) if r > .25 and r < .75 and A_[1] else rnd.uniform(*lo[n[1]])
                if rnd.random() < .15: x = rnd.choice((1, 1, -1)) * 10 ** rnd.uniform(-20, 40)
                if rnd.random() < .15: y = rnd.choice((1, 1, -1)) * 10 ** rnd.uniform(-20, 40)
                if rnd.random() < .2 and n[0] in 'pv': x = 10 ** rnd.uniform(-4, 2)
                if rnd.random() < .3 and n[1] in 'v': y = 10 ** rnd.uniform(-3, 3)
                add(x, y, 1)
            if n in API2:
                for k in (1, 2, 3, 5):
                    for x, y in witness.inputs(n, k, witness.states(k, 400, rnd)): add(x, y, 2)
            if n in API2:      # two-phase states
                tx = [(rnd.uniform(0, 373.946) if i % 2 else 373.946 - 60 * rnd.random() ** 2, rnd.random()) for i in range(1500)]
                m = {c: rp.many([('tx', T, x, IDS[c.upper()], None) for T, x in tx], 20, True) for c in n if c != 't'}; m['t'] = [T for T, _ in tx]
                for x, y in zip(m[n[0]], m[n[1]]):
                    if isinstance(x, float) and isinstance(y, float): add(x, y, 1)
            rnd.shuffle(qs)
            for i in range(0, len(qs), 4000):
                ch = qs[i:i + 4000]; n_ += len(ch)
                for q, r in zip(ch, rp.many(ch, 20, True)):
                    if not isinstance(r, float): hit.append((q, r)); break
                if hit or time.time() > T1: return hit, n_
    return hit, n_
def work(item):
    n, A = item
    t = time.time(); fn = [g for g in A.m.fns.values() if g.name == n]
    if len(fn) != 1: raise Unsupported('entry point ' + n)
    A.deadline = time.time() + 120
    r = A.unit(fn[0], tuple(None for _ in fn[0].params))
    U = [(demangle(k[0]), k[1], u.ok, u.why, u.states, u.rec, [p[0] for p in u.panics[:2]]) for k, u in A.units.items()]
    return n, r.ok, r.why, U, list(A.lemmas.values()), round(time.time() - t, 1)
def c07():
    ck = Check('C07'); M = module(); A = AX(M); range_obligations(A, ck)
    names = ['v_' + x for x in API2 + API1] + ['vr_' + x for x in API2]
    order = sorted(names, key=lambda n: n[-2:] not in ('hs', 'tv', 'th'))
    from par import pmap
    res = pmap(work, [(n, A) for n in order]); fns = {}; bad = {}; states = 0; lem = set(); recs = []
    for n, o in zip(order, res):
        if not o[0]: bad[n] = (o[1], []); continue
        _, ok, why, U, L, dt = o[1]; lem |= set(L)
        for nm, ctx, uok, uwhy, st, rec, pan in U:
            key = nm + ('' if all(c is None for c in ctx) else str(tuple('*' if c is None else c for c in ctx)))
            fns.setdefault(key, []).append((uok, uwhy)); states += st
        if not ok: bad[n] = (why, [(nm, w, pan) for nm, ctx, uok, w, st, rec, pan in U if not uok])
    good = {k for k, v in fns.items() if all(x[0] for x in v)}
    for k in sorted(good): ck.ok(f'{k}: returns without panic for all arguments', 'abstract state exploration, acyclic')
    for l in sorted(lem): ck.ok('ranking: ' + l, 'one symbolic iteration + PIT')
    ck.fns |= {k for k in good if k.startswith('seuif97')}
    if bad:
        api = sorted({n.split('_')[1] for n in bad})
        regs = sorted({int(m.group(1)) for _, (w, roots) in bad.items() for r in roots if r[0].startswith('seuif97') for m in [re.search(r'_reg(?:ion)?(\d)', r[0])] if m})
        hit, nq = search(api, regs=regs)
        for n, (why, roots) in bad.items():
            f = n.split('_')[1]; h = [x for x in hit if x[0][0] == f]
            root = [x for x in roots if x[0].startswith('seuif97')]
            txt = why + (f'; first failing function: {root[0][0]}: {root[0][1]}' if root else '')
            if h: ck.violate(f'{n}: returns without panic', f'{h[0][0]} -> {h[0][1]} ({txt})', {'query': h[0][0], 'got': h[0][1]}, txt)
            else: ck.bounded(f'{n}: returns without panic', f'not discharged ({txt}); {nq} replayed queries returned')
    else:
        rp = replay(); rnd = random.Random(SEED); from dispatch import special
        sp = special(); qs = [(n, x, y, rnd.randrange(-2, 38), None if n in API1 else rnd.choice([None, 1, 2, 3, 4, 5, 9])) for n in API2 + API1 for x in sp for y in sp]
        for q, r in zip(qs, rp.many(qs, 60)):
            if not isinstance(r, float): ck.violate('replay of special values', f'{q} -> {r}', {'query': q, 'got': r}); break
    ck.need(150)
    ck.cov['abstract_states'] = states
    ck.assume += ['termination of the bisection loop of T_sat(h,s) is argued in real arithmetic (the bracket halves exactly until it is narrower than 1e-4 MPa)', 'the ranges of p_saturation and B23_T2p hold in real arithmetic with a margin of 0.1 MPa', 'stack depth: the call graph is acyclic, stack size itself is not modelled']
    return ck.finish(['rustc front end up to LLVM IR (dev profile, overflow checks on)', 'vc/ir.py', 'vc/term.py + vc/sym.py', 'libm functions return'])
