"""C21, deductive part: the iterative solvers of the code (secant, bisection, ternary search) against their contracts, and the
convergence of each use of them, for every state of a region.

 1. contract of a solver: one symbolic iteration of its loop from an arbitrary state at the header that satisfies the invariant
    (every residual variable equals  y - g(x)  of its abscissa): the invariant is preserved, the update is the secant step (the
    bisection step), the loop is left only through its stated exits and the result is the last abscissa.
 2. call sites: the inverting function is executed symbolically with the solver replaced by its contract; the residuals passed
    equal y - g(start), the result is the (clipped) abscissa.
 3. convergence: with y = g(x*) for a state of the region, the error e = x - x* of the iterates obeys
        e'' = e e' g''/(2 g')      and      e'' = e' (1 - g'(k)/g'(s)),
    the intervals of which are propagated over a branch-and-bound cover of the region until |step| <= xacc is certain; every
    earlier exit has |residual| <= xacc * max|g'| * (max|g'|/min|g'| - 1)."""
from engine import *
from contracts import *
from contracts import _p, _T, _d
from api import expand
from ir import demangle
from sym import *
import numpy as np, ivl, ir as IR, core
from ivl import INF, iadd, isub, imul, idiv, dn, up
from term import liveness
Z = fv('z')
# ------------------------------------------------------------------ 1. the secant contract
def paths_from(X, work, header, body=None, depth=1, cap=400):
    """run states until the header is reached again (depth frames) or the outermost frame returns: (arrivals, returns)"""
    arr, ret = [], []; steps = 0; work = [(s, True) for s in work]
    while work:
        st, first = work.pop()
        while True:
            fr = st.frames[-1]
            if len(st.frames) == depth and fr.ip <= 0 and fr.blk == header and not first: arr.append(st); break
            first = False
            if fr.ip < 0: fr.ip = 0
            ins = fr.fn.blocks[fr.blk][fr.ip]; steps += 1
            if steps > 200000 or len(arr) + len(ret) > cap: raise Unsupported('solver: too many paths')
            try: o = getattr(X, 'x_' + ins.op)(st, fr, ins)
            except Fork as f:
                for al in f.alts:
                    t = st.clone()
                    if t.cons.assume_all(al): work.append((t, False))
                break
            except ForkRet as f:
                for at, status, rv in f.alts:
                    t = st.clone()
                    if status != 'ret' or not t.cons.assume_all(at): continue
                    tf = t.frames[-1]
                    if ins.d: tf.regs[ins.d] = rv
                    tf.ip += 1; work.append((t, False))
                break
            if o is None: fr.ip += 1
            elif o[0] == 'done': ret.append((st, o[1])); break
            elif o[0] == 'panic': break      # C07: no panic
    return arr, ret
def same(a, b):
    try: return isinstance(a, N) and isinstance(b, N) and agree(a, b)
    except Unsupported: return False
def has(atoms, pred): return any(pred(c, v) for c, v in atoms)
def rel_is(c, v, m, l, r):
    """the atom states exactly  l m r"""
    if c.op != 'rel': return False
    mm = c.a[0] if v else 15 ^ c.a[0]
    if mm & 7 == m & 7 and same(c.a[1], l) and same(c.a[2], r): return True
    return sw(mm) & 7 == m & 7 and same(c.a[1], r) and same(c.a[2], l)
def sw(m): return (m & (EQ | UN)) | (GT if m & LT else 0) | (LT if m & GT else 0)
_sec = {}
def secant(C, short_, gsym, gpos):
    """None if the solver function satisfies the secant contract for the function g with the unknown at position gpos, else why"""
    key = (short_, gsym, gpos)
    if key in _sec: return _sec[key]
    try: r = _secant(C, short_, gsym, gpos)
    except (Unsupported, KeyError, IndexError) as e: r = f'{type(e).__name__}: {str(e)[:150]}'
    _sec[key] = r; return r
def _secant(C, short_, gs, gpos):
    fn = C.bynm[short_]
    if len(fn) != 1: return 'solver not found'
    fn = fn[0]; X = Exec(C.M, C.policy, fork_limit=50); gaddr = X.gaddr_of(gs)
    gn = short(demangle(gs)); c, y, x1, x2, xacc = (fv(n) for n in ('c', 'y', 'x1', 'x2', 'xacc')); imax = iv('imax')
    gx = lambda x: mk('call', gn, *((x, c) if gpos == 0 else (c, x)))
    if len(fn.params) != 9: return 'signature'
    live, pred, heads, loops, phiuse = liveness(fn)
    if len(heads) != 1: return f'{len(heads)} loops'
    hd = next(iter(heads))
    st = State(); st.frames = []; st.mem = {}; st.cons = Cons()
    X.push(st, fn, [gaddr, c, y, x1, x2, y - gx(x1), y - gx(x2), xacc, imax], None)
    ent, ret0 = paths_from(X, [st], hd)
    if not ent: return 'the loop is not reached'
    for s_, r in ret0:    # before the loop: equal residuals
        if not (same(r, x1) or same(r, x2)): return 'early result is not a start value'
        if not has(s_.cons.atoms, lambda a, v: rel_is(a, v, EQ, y - gx(x1), y - gx(x2)) or rel_is(a, v, EQ, gx(x1) - gx(x2), fc(0.0)) or rel_is(a, v, EQ, (y - gx(x2)) - (y - gx(x1)), fc(0.0)) or rel_is(a, v, EQ, (y - gx(x1)) - (y - gx(x2)), fc(0.0))): return 'left before the loop for another reason than equal residuals'
    # roles of the loop's variables: two abscissae, two residuals, the step
    o = [{(k, off): v for k, oid in enumerate(s_.frames[0].objs) for off, (sz, v) in s_.mem[oid].ov.items() if isinstance(v, N)} for s_ in ent]
    keys = set(o[0])
    for m in o: keys &= set(m)
    def always(f): return [k for k in sorted(keys) if all(f(m, m[k]) for m in o)]
    import itertools
    cand = []
    for rx, lx in itertools.permutations([k for k in always(lambda m, v: same(v, x1) or same(v, x2))], 2):
        if any(same(m[rx], m[lx]) for m in o): continue
        fs = [k for k in keys if all(same(m[k], y - gx(m[rx])) for m in o)]; ls = [k for k in keys if all(same(m[k], y - gx(m[lx])) for m in o)]
        for f_ in fs:
            for l_ in ls: cand.append((rx, lx, f_, l_))
    for rx, lx, f_, l_ in cand:
        st = ent[0].clone(); fr = st.frames[0]; fr.ip = 0; fr.forks = {}; st.cons = Cons()
        R, L_, DX, I_ = fv('rts'), fv('xl'), fv('dx'), iv('it'); F, FL = y - gx(R), y - gx(L_)
        stp = (L_ - R) * F / (F - FL)
        new = {rx: R, lx: L_, f_: F, l_: FL}
        dxs = [k for k in keys if k not in new and all(same(m[k], (m[lx] - m[rx]) * m[f_] / (m[f_] - m[l_])) for m in o)]
        ints = [(k, off) for k, oid in enumerate(fr.objs) for off, (sz, v) in st.mem[oid].ov.items() if isinstance(v, int) and v == 0 and sz == 4]
        if len(dxs) != 1 or len(ints) != 1: continue
        for (k, off), v in list(new.items()) + [(dxs[0], DX)]: o_ = st.mem[fr.objs[k]]; o_.ov[off] = (o_.ov[off][0], v)
        for k, off in ints: o_ = st.mem[fr.objs[k]]; o_.ov[off] = (o_.ov[off][0], I_)
        try: ends, rets = paths_from(X, [st], hd)
        except Unsupported as e: continue
        good = bool(ends)
        for e in ends:
            f = e.frames[0]; g = lambda kk: e.mem[f.objs[kk[0]]].ov[kk[1]][1]
            r2 = g(rx); clamp = False
            if cval(r2) is not None: clamp = has(e.cons.atoms, lambda a, v: rel_is(a, v, LT | EQ, R + stp, fc(0.0)) or rel_is(a, v, LT, R + stp, fc(0.0))) and 0 < cval(r2) <= 1e-6
            good = good and (clamp or same(r2, R + stp)) and same(g(lx), R) and same(g(f_), y - gx(r2)) and same(g(l_), F) and same(g(dxs[0]), stp)
            # nothing else changes
            for k, oid in enumerate(f.objs):
                for off, (sz, v) in e.mem[oid].ov.items():
                    b = st.mem[fr.objs[k]].ov.get(off)
                    if (k, off) in new or (k, off) == dxs[0] or (k, off) in ints or b is None: continue
                    if b[0] == sz and (v is b[1] or isinstance(v, int) and isinstance(b[1], int) and v == b[1]): continue
                    good = False
            for k, off in ints:
                v = e.mem[f.objs[k]].ov[off][1]
                good = good and isinstance(v, N) and v.op == 'iop' and v.a[0] == 'add' and v.a[2] is I_ and v.a[3] == 1
            good = good and has(e.cons.atoms, lambda a, v: rel_is(a, v, GT, mk('fabs', DX), xacc))
            if not good: break
        for e, r in rets:
            if not good: break
            at = e.cons.atoms
            ex = has(at, lambda a, v: rel_is(a, v, LT | EQ, mk('fabs', DX), xacc)) or has(at, lambda a, v: rel_is(a, v, EQ, F, fc(0.0))) or has(at, lambda a, v: rel_is(a, v, EQ, F - FL, fc(0.0)) or rel_is(a, v, EQ, F, FL)) or has(at, lambda a, v: a.op == 'bcall' and a.a[0] == 'icmp.slt' and a.a[1] is I_ and a.a[2] is imax and not v)
            good = same(r, R) and ex
        if good: return None
    return 'no assignment of roles satisfies the invariant'

def bracket(X, st0, fn, av):
    """(kind, F, z): fn(closure.., xl, xr) called in st0 satisfies the contract of bisection for f = F[z] (the bracket is halved, its ends keep
    their signs) or of the search of a minimum (the third holding the larger value is dropped); a str says why not"""
    live, pred, heads, loops, phiuse = liveness(fn)
    if len(heads) != 1: return f'{len(heads)} loops'
    hd = next(iter(heads)); XL, XR = fv('xl'), fv('xr')
    st = State(); st.frames = []; st.mem = {k: o.clone() for k, o in st0.mem.items()}; st.cons = Cons(); old = set(st.mem)
    X.push(st, fn, list(av[:-2]) + [XL, XR], None)
    ent, ret0 = paths_from(X, [st], hd)
    if len(ent) != 1 or ret0: return 'the loop is not entered directly'
    e = ent[0]; fr = e.frames[0]; slot = {}
    for k, oid in enumerate(fr.objs):
        for off, (sz, v) in e.mem[oid].ov.items():
            if v is XL: slot.setdefault('l', []).append((k, off))
            elif v is XR: slot.setdefault('r', []).append((k, off))
            elif v == 0 and isinstance(v, int) and sz == 4: slot.setdefault('i', []).append((k, off))
    if any(len(slot.get(q, [])) != 1 for q in 'lri'): return 'roles of the loop variables'
    sl, sr, si = (slot[q][0] for q in 'lri'); L_, R_, I_ = fv('bl'), fv('br'), iv('it')
    h = e.clone(); fr = h.frames[0]; fr.ip = 0; fr.forks = {}; h.cons = Cons()
    for (k, off), v in ((sl, L_), (sr, R_), (si, I_)): o = h.mem[fr.objs[k]]; o.ov[off] = (o.ov[off][0], v)
    base = {(k, off): o.ov[off] for k, oid in enumerate(fr.objs) for o in [h.mem[oid]] for off in o.ov}
    ends, rets = paths_from(X, [h], hd)
    third, mid = (R_ - L_) / 3.0, fc(.5) * (L_ + R_); x1, x2 = L_ + third, R_ - third; kinds = set(); Fs = []
    if not ends or not rets: return 'no loop'
    zv = fv('zb')
    def sub(F, at):    # F as a function of the point
        ids = [n.id for n in nodes(F).values() if same(n, at)]
        r = subst(F, {i: zv for i in ids})
        return None if any(n.op == 'v' and n.a[0] in ('bl', 'br', 'xl', 'xr') for n in nodes(r).values()) or not ids else r
    for q in ends:
        f = q.frames[0]; g = lambda kk: q.mem[f.objs[kk[0]]].ov[kk[1]][1]; l2, r2, i2 = g(sl), g(sr), g(si); at = q.cons.atoms
        for k, oid in enumerate(f.objs):
            for off, v in q.mem[oid].ov.items():
                b = base.get((k, off))
                if (k, off) in (sl, sr, si) or b is None: continue
                if not (b[0] == v[0] and (b[1] is v[1] or isinstance(b[1], int) and isinstance(v[1], int) and b[1] == v[1])): return 'another variable changes'
        for k in old:
            if k in q.mem and {o: v[1] if isinstance(v[1], int) else id(v[1]) for o, v in q.mem[k].ov.items()} != {o: v[1] if isinstance(v[1], int) else id(v[1]) for o, v in st0.mem[k].ov.items()}: return 'the caller\'s memory changes'
        if not (isinstance(i2, N) and i2.op == 'iop' and i2.a[0] == 'add' and i2.a[2] is I_ and i2.a[3] == 1): return 'counter'
        rl = [(c, v) for c, v in at if c.op == 'rel']
        if l2 is L_ and same(r2, mid) or r2 is R_ and same(l2, mid):
            sg = [(c.a[1] if cval(c.a[2]) == 0 else c.a[2], (c.a[0] if cval(c.a[2]) == 0 else sw(c.a[0])) if v else 15 ^ (c.a[0] if cval(c.a[2]) == 0 else sw(c.a[0]))) for c, v in rl if 0 in (cval(c.a[1]), cval(c.a[2]))]
            cand = [(sub(F, mid), m & 7) for F, m in sg]; cand = [(F, m) for F, m in cand if F is not None]
            if len(cand) != 1: return 'no sign test of the midpoint'
            F, m = cand[0]; ris = [((c.a[0] if v else 15 ^ c.a[0]) & 7, c.a[1], c.a[2]) for c, v in rl if 0 not in (cval(c.a[1]), cval(c.a[2]))]
            FL, FR = subst(F, {zv.id: XL}), subst(F, {zv.id: XR}); up_ = None
            for mm, a_, b_ in ris:
                if same(a_, FR) and same(b_, FL): up_ = mm
                elif same(a_, FL) and same(b_, FR): up_ = sw(mm) & 7
            if up_ is None: return 'no test of the direction'
            rising = up_ in (GT, GT | EQ); neg = m in (LT, LT | EQ)
            if not (rising or up_ in (LT, LT | EQ)) or not (neg or m in (GT, GT | EQ)): return 'tests'
            if (l2 is not L_) != (neg == rising): return 'the wrong half is kept'
            kinds.add('bisect'); Fs.append(F)
        elif l2 is L_ and same(r2, x2) or r2 is R_ and same(l2, x1):
            ok = False
            for c, v in rl:
                m = (c.a[0] if v else 15 ^ c.a[0]) & 7
                for p_, q_, mm in ((c.a[1], c.a[2], m), (c.a[2], c.a[1], sw(m) & 7)):
                    F = sub(p_, x1)
                    if F is None or not same(q_, subst(F, {zv.id: x2})): continue
                    if (l2 is L_) == (mm in (LT, LT | EQ)) and mm in (LT, LT | EQ, GT, GT | EQ): ok = True; Fs.append(F)
            if not ok: return 'the wrong third is dropped'
            kinds.add('argmin')
        else: return 'update of the bracket'
    if len(kinds) != 1 or not all(same(F, Fs[0]) for F in Fs): return 'no single function'
    for q, r in rets:
        if not (same(r, mid) or r is L_ or r is R_): return 'result outside the bracket'
        if not has(q.cons.atoms, lambda a, v: a.op == 'iset' and a.a[0] is I_ and (not v and any(lo <= 0 and hi >= 89 for lo, hi in a.a[1]) or v and all(lo >= 90 for lo, hi in a.a[1]))): return 'loop exit'
    return kinds.pop(), Fs[0], zv

# ------------------------------------------------------------------ 2. call sites
class SX(Exec):
    """the solvers are replaced by their contracts; what they were called with is recorded"""
    def __init__(s, C):
        Exec.__init__(s, C.M, s.pol, fork_limit=2000, path_limit=20000); s.C = C; s.calls = {}; s.why = None
    def x_call(s, st, fr, i):
        if isinstance(i.a[1], G) and i.d and i.a[0].k == 'double' and len(i.a[2]) >= 3:
            sym = i.a[1].name
            while sym in s.m.aliases: sym = s.m.aliases[sym]
            fn = s.m.fns.get(sym)
            if fn and short(demangle(sym)) in ('bisect', 'argmin') and '::algo::' in demangle(sym):
                av = [s.val(fr, x) for _, x in i.a[2]]; w = bracket(s, st, fn, av)
                if isinstance(w, str): s.why = f'{short(demangle(sym))}: {w}'
                else:
                    kind, F, z = w; k = (kind, F.id, av[-2].id, av[-1].id)
                    if k not in s.calls: s.calls[k] = (fv(f'root{len(s.calls)}'), (kind, F, z, av[-2:]))
                    fr.regs[i.d] = s.calls[k][0]; return
        return Exec.x_call(s, st, fr, i)
    def pol(s, name, args, X):
        if not name.startswith('seuif97::'): return None
        nm = short(name)
        if nm in ('rtsec1', 'rtsec2') and len(args) == 9 and isinstance(args[0], int) and args[0] in X.fnat:
            gs = X.fnat[args[0]]; gn = short(demangle(gs)); pos = 0 if nm == 'rtsec1' else 1; s.C.holds(gn)
            w = secant(s.C, nm, gs, pos)
            if w: s.why = f'{nm} over {gn}: {w}'; return None
            k = ('sec', gn, pos) + tuple(a.id if isinstance(a, N) else a for a in args[1:])
            if k not in s.calls: s.calls[k] = (fv(f'root{len(s.calls)}'), ('secant', gn, pos, args[1:]))
            return s.calls[k][0]
        return s.C.policy(name, args, X)
# ------------------------------------------------------------------ 3. convergence
U_, K_ = fv('u'), fv('k')
def ilist(x): return x if isinstance(x, tuple) else (x, x)
def hull(*a): return np.minimum.reduce([x[0] for x in a]), np.maximum.reduce([x[1] for x in a])
def meet(a, b): return np.maximum(a[0], b[0]), np.minimum(a[1], b[1])
def iabs(a): z = (a[0] <= 0) & (a[1] >= 0); x, y = np.abs(a[0]), np.abs(a[1]); return np.where(z, 0.0, np.minimum(x, y)), np.maximum(x, y)
class Enc:
    """enclosures of a node over boxes: natural extension, sharpened by the mean value form"""
    def __init__(s, node, names): s.n = node; s.names = names; s.d = [core.diff(node, fv(v)) for v in names]
    def one(s, env):
        nat = ivl.ev([s.n], env)[0]
        mid = {v: (m, m) for v in env for m in [np.clip(env[v][0] + (env[v][1] - env[v][0]) * .5, env[v][0], env[v][1])]}
        acc = ivl.ev([s.n], mid)[0]; memo = {}
        for v, d in zip(s.names, s.d): acc = iadd(acc, imul(ivl.ev([d], env, memo)[0], (dn(env[v][0] - mid[v][0]), up(env[v][1] - mid[v][0]))))
        r = meet(nat, acc); bad = r[0] > r[1]
        return np.where(bad, nat[0], r[0]), np.where(bad, nat[1], r[1])
    def __call__(s, env, split=None, frac=.015):
        """split: variable cut into pieces, at most frac wide each, up to 200 of them"""
        if split is None: return s.one(env)
        lo, hi = env[split]; m = len(lo)
        with np.errstate(all='ignore'): k = np.nan_to_num(np.ceil((hi - lo) / (frac * np.abs(lo) + 1e-12)), nan=1, posinf=200)
        k = np.clip(k, 1, 200).astype(int); idx = np.repeat(np.arange(m), k); j = np.concatenate([np.arange(x) for x in k]); w = (hi - lo) / k
        e = {v: (x[0][idx], x[1][idx]) for v, x in env.items()}
        e[split] = (np.where(j == 0, lo[idx], dn(lo[idx] + w[idx] * j)), np.where(j == k[idx] - 1, hi[idx], up(lo[idx] + w[idx] * (j + 1))))
        r = s.one(e); st = np.concatenate([[0], np.cumsum(k)[:-1]])
        return np.minimum.reduceat(r[0], st), np.maximum.reduceat(r[1], st)
def nofabs(e, box, out):
    """fabs of an argument whose sign is proved on the box"""
    m = {}
    for k in nodes(e).values():
        if k.op == 'fabs' and not any(x.op == 'fabs' for x in nodes(k.a[0]).values()):
            a = k.a[0]; vs = {n.a[0] for n in nodes(a).values() if n.op == 'v'}; bx = {v: x for v, x in box.items() if v in vs}; ot = [o for o in out if {n.a[0] for n in nodes(o).values() if n.op == 'v'} <= vs]
            if ivl.prove([a], bx, ot, tmax=10, minw=1e-6).ok: m[k.id] = a
            elif ivl.prove([0.0 - a], bx, ot, tmax=10, minw=1e-6).ok: m[k.id] = 0.0 - a
    return subst(e, m) if m else e
def converge(g, x1, x2, con, star, box, out, tol, xacc=1e-8, imax=100, tmax=60.0, pos=True, frac=.015, most=math.inf, cap=400000, minw=1e-7):
    """g: node in u (unknown) and k; x1, x2, con, star: nodes in the box variables; every state of the box (outside no out-node) has
    its secant iteration stop with |y - g| <= tol (node).  returns ivl.Res"""
    R = ivl.Res(); t0 = time.process_time(); names = sorted(box)
    GK = Enc(core.diff(core.diff(g, U_), K_), ('u', 'k')); G0, G1, G2 = Enc(g, ('u', 'k')), Enc(core.diff(g, U_), ('u', 'k')), Enc(core.diff(core.diff(g, U_), U_), ('u', 'k'))
    E1, E2, ST, CN, TL = (Enc(e, names) for e in (x1 - star, x2 - star, star, con, tol))
    lo = np.array([[float(box[n][0])] for n in names]); hi = np.array([[float(box[n][1])] for n in names]); W0 = (hi - lo)[:, 0]
    R.worst = 0.0; R.iters = 0
    def run(A, L, X, C, tl):
        """secant from the latest point A and the older L; True where it certainly stops within the cap and the tolerance"""
        m = len(A[0]); okm = np.zeros(m, bool); live = np.arange(m); z = np.zeros(m); bad = np.zeros(m, bool)
        res = np.zeros(m)
        for it in range(imax - 2):
            if not len(live): break
            a, l, x, c = [(v[0][live], v[1][live]) for v in (A, L, X, C)]; zz = np.zeros(len(live))
            H_ = hull((zz, zz), a, l); uu = iadd(x, H_)
            if pos: uu = (np.maximum(uu[0], 0.0), uu[1])      # the iterates are positive
            ill = ~(np.isfinite(uu[0]) & np.isfinite(uu[1]))
            if not pos: ill |= uu[0] <= 0      # the clamp of the solver is not reached
            uu = (np.where(ill, 1.0, uu[0]), np.where(ill, 1.0, uu[1]))
            env = {'u': uu, 'k': c}
            g1 = G1(env, 'u', frac); ga = iabs(g1); ill |= ~((g1[0] > 0) | (g1[1] < 0)) | ~np.isfinite(ga[1])
            # step over the narrow hull of the latest point, slopes over the whole
            q = np.where(ill, INF, up(ga[1] / ga[0]))          # max|g'| / min|g'|
            g2 = G2(env, 'u', frac); r = idiv(imul(g2, (np.full_like(zz, .5), np.full_like(zz, .5))), g1)
            e1 = imul(imul(a, l), r); k = (dn(1 - q), dn(1 - 1 / q)); k = (k[0], up(1 - dn(1 / q))); e2 = imul(a, k)
            e = meet(e1, e2); ww = e[0] > e[1]; e = (np.where(ww, e2[0], e[0]), np.where(ww, e2[1], e[1]))
            # divided differences where the points are apart
            dal = isub(a, l); sep = ~ill & ((a[0] > 0) | (a[1] < 0)) & ((dal[0] > 0) | (dal[1] < 0)) & (np.minimum(iabs(a)[0], iabs(dal)[0]) > 1e-3 * np.abs(x[1]))
            if sep.any():
                j = np.nonzero(sep)[0]; pk = lambda v: (v[0][j], v[1][j]); pt = lambda d: (lambda v: (np.maximum(v[0], uu[0][j]), np.minimum(v[1], uu[1][j])))(iadd(pk(x), pk(d)))
                cj = pk(c); c0 = (lambda m_: (m_, m_))(np.clip(.5 * (cj[0] + cj[1]), cj[0], cj[1])); v0, va, vl = (G0({'u': q_, 'k': c0}) for q_ in (pk(x), pt(a), pt(l)))
                cr = imul(GK({'u': pk(uu), 'k': cj}, 'u', frac * 4), isub(cj, c0))
                s1 = meet(iadd(idiv(isub(va, v0), pk(a)), cr), pk(g1)); s2 = meet(iadd(idiv(isub(va, vl), pk(dal)), cr), pk(g1)); okj = (s1[0] <= s1[1]) & (s2[0] <= s2[1])
                e3 = imul(pk(a), isub((np.ones(len(j)), np.ones(len(j))), idiv(s1, s2))); e3 = (np.maximum(e3[0], e[0][j]), np.minimum(e3[1], e[1][j])); okj &= e3[0] <= e3[1]
                e[0][j] = np.where(okj, e3[0], e[0][j]); e[1][j] = np.where(okj, e3[1], e[1][j])
            if pos: e = (np.maximum(e[0], -x[1]), np.where(e[0] <= 1e-6 - x[0], np.maximum(e[1], 1e-6 - x[0]), e[1]))
            # an exit after this step: |dx| <= xacc; its residual
            rs = np.where(ill, INF, xacc * ga[1] * np.maximum(q - 1, 0)) if it else np.where(ill, INF, xacc * ga[1] * q)
            rs = np.where(~ill & (iabs(a)[0] / q > xacc) & (it > 0), 0.0, rs)      # the step is certainly longer: no exit here
            res[live] = np.maximum(res[live], rs)
            ae = np.maximum(np.abs(e[0]), np.abs(e[1])); aa = np.maximum(np.abs(a[0]), np.abs(a[1]))
            done = ~ill & (aa + ae <= xacc * .99)
            ill |= res[live] > tl[0][live]
            okm[live[done & ~ill]] = True
            A[0][live], A[1][live], L[0][live], L[1][live] = e[0], e[1], a[0], a[1]
            if it >= imax - 4: R.iters = imax
            R.iters = max(R.iters, it + 1)
            keep = ~done & ~ill
            if it > 8:     # no progress
                keep &= ae < .98 * aa + 1e-9
            live = live[keep]
        R.worst = max(R.worst, float(np.max(np.where(okm, res / tl[0], 0))) if m else 0)
        return okm
    stack = [(lo, hi)]
    while stack:
        lo, hi = stack.pop(); R.boxes += lo.shape[1]
        def stop(j): R.left = [[(float(lo[i, j]), float(hi[i, j])) for i in range(len(names))]]; R.t = time.process_time() - t0; return R
        if R.boxes > cap or time.process_time() - t0 > tmax: return stop(0)
        env = {n: (lo[i], hi[i]) for i, n in enumerate(names)}; memo = {}; dead = np.zeros(lo.shape[1], bool)
        for d in out: dead |= ivl.ev([d], env, memo)[0][1] < 0
        al = np.nonzero(~dead)[0]
        if not len(al): continue
        lo, hi = lo[:, al], hi[:, al]; env = {n: (lo[i], hi[i]) for i, n in enumerate(names)}
        e1, e2, X, C, tl = E1(env), E2(env), ST(env), CN(env), TL(env); tl = (np.minimum(tl[0], most), tl[1])
        cp = lambda v: (v[0].copy(), v[1].copy())
        okb = run(cp(e2), cp(e1), X, C, tl) & run(cp(e1), cp(e2), X, C, tl)
        r = np.nonzero(~okb)[0]
        if not len(r): continue
        lo, hi = lo[:, r], hi[:, r]; rel = (hi - lo) / W0[:, None]
        if np.any(np.max(rel, axis=0) < minw): return stop(int(np.argmin(np.max(rel, axis=0))))
        lr = np.where(lo > 0, np.log(hi / np.where(lo > 0, lo, 1.0)), 0.0); ax = np.argmax(np.maximum(rel, .5 * lr), axis=0); j = np.arange(len(r))
        mid = np.where(lr[ax, j] > .5, np.sqrt(np.abs(lo[ax, j] * hi[ax, j])), lo[ax, j] + (hi[ax, j] - lo[ax, j]) * .5)
        h1 = hi.copy(); h1[ax, j] = mid; l2 = lo.copy(); l2[ax, j] = mid
        LL, HH = np.concatenate([lo, l2], 1), np.concatenate([h1, hi], 1)
        for k in range(0, LL.shape[1], 4000): stack.append((LL[:, k:k + 4000], HH[:, k:k + 4000]))
    R.ok = True; R.t = time.process_time() - t0
    return R

def flat(e):
    """contracts expanded, the saturation line included (used where the path and the box keep its argument in range)"""
    e = expand(e); m = {}
    for k in nodes(e).values():
        if k.op != 'call': continue
        if short(k.a[0]) == 'p_saturation': m[k.id] = subst(if97.PSAT, {_T.id: flat(k.a[1])})
        elif short(k.a[0]) == 'T_saturation': m[k.id] = subst(if97.TSAT, {_p.id: flat(k.a[1])})
    return subst(e, m) if m else e
def outnodes(atoms, m):
    """nodes that are negative where the path condition fails"""
    o = []
    for c, v in atoms:
        if c.op != 'rel': continue
        mm = (c.a[0] if v else 15 ^ c.a[0]) & 7; l, r = flat(subst(c.a[1], m)), flat(subst(c.a[2], m))
        if any(k.op in ('call', 'icall', 'iset', 'fabs') or k.op == 'v' and str(k.a[0]).startswith('root') for e in (l, r) for k in nodes(e).values()): continue
        if mm in (LT, LT | EQ): o.append(r - l)
        elif mm in (GT, GT | EQ): o.append(l - r)
    return o

def disj(gs, box, out, tmax=60.0, minw=1e-6):
    """at every point of the box outside no out-node, one of the gs is > 0"""
    R = ivl.Res(); t0 = time.process_time(); names = sorted(box); E = [Enc(g, names) for g in gs]
    lo = np.array([[float(box[n][0])] for n in names]); hi = np.array([[float(box[n][1])] for n in names]); W0 = (hi - lo)[:, 0]; stack = [(lo, hi)]
    while stack:
        lo, hi = stack.pop(); R.boxes += lo.shape[1]; env = {n: (lo[i], hi[i]) for i, n in enumerate(names)}; done = np.zeros(lo.shape[1], bool); memo = {}
        for d in out: done |= ivl.ev([d], env, memo)[0][1] < 0
        for e in E:
            j = np.nonzero(~done)[0]
            if len(j): done[j] |= e({n: (v[0][j], v[1][j]) for n, v in env.items()})[0] > 0
        r = np.nonzero(~done)[0]
        if not len(r): continue
        lo, hi = lo[:, r], hi[:, r]; rel = (hi - lo) / W0[:, None]; R.left = [[(float(lo[i, 0]), float(hi[i, 0])) for i in range(len(names))]]
        if np.any(np.max(rel, axis=0) < minw) or time.process_time() - t0 > tmax: R.t = time.process_time() - t0; return R
        ax = np.argmax(rel, axis=0); j = np.arange(len(r)); mid = lo[ax, j] + (hi[ax, j] - lo[ax, j]) * .5
        h1 = hi.copy(); h1[ax, j] = mid; l2 = lo.copy(); l2[ax, j] = mid; LL, HH = np.concatenate([lo, l2], 1), np.concatenate([h1, hi], 1)
        for k in range(0, LL.shape[1], 4000): stack.append((LL[:, k:k + 4000], HH[:, k:k + 4000]))
    R.ok = True; R.left = []; R.t = time.process_time() - t0; return R
def bracketed(s):
    """s: Site whose function brackets the unknown.  (why, lemmas): lemmas [(name, nodes, box, out)], each a disjunction to prove; together
    with the contracts of bisection and of the search of the minimum they give  |g(result) - y| ~ 0  for every state"""
    X = SX(s.C); f = s.C.bynm[s.nm]
    if len(f) != 1: return 'function not found', []
    ps = X.run(f[0], [s.c, s.y])
    if X.why: return X.why, []
    G = lambda x: mk('call', s.gn, *((x, s.c) if s.pos == 0 else (s.c, x))); g = lambda x: subst(s.gu, {U_.id: x, K_.id: s.con})
    if not X.calls or any(v[1][0] == 'secant' for v in X.calls.values()): return 'no bracketing solver', []
    byid = {v[0].id: v[1] for v in X.calls.values()}; sg = set()
    for kind, F, z, _ in byid.values():
        if kind == 'argmin': sg.add(1 if same(F, G(z)) else -1 if same(F, mk('fneg', G(z))) else 0)
        elif not (same(F, G(z) - s.y) or same(F, s.y - G(z))): return 'bisection of another function', []
    if len(sg) != 1 or 0 in sg: return 'extremum of another function', []
    sg = sg.pop(); N_ = lambda e: e if sg == 1 else 0.0 - e; lem = {}
    gu = core.diff(s.gu, U_); at = lambda e: subst(e, {U_.id: s.star, K_.id: s.con}); d1, d2 = N_(at(gu)), N_(at(core.diff(gu, U_)))
    lem['one extremum'] = ([d1, 0.0 - d1, d2], s.box, s.out)
    T = s.star is _T
    def end(x, atoms):      # 'A', 'B' or None
        if T:
            if cval(x) is not None and abs(cval(x) - 273.15) < 1e-9: return 'A'
            if x.op == 'call' and short(x.a[0]) == 'T_saturation' and x.a[1] is s.c: return 'B'
            if cval(x) is not None and abs(cval(x) - 623.15) < 1e-9 and has(atoms, lambda c, v: c.op == 'rel' and not (((c.a[0] if v else 15 ^ c.a[0]) & LT) if c.a[1] is s.c else 1) and cval(c.a[2]) is not None and 16.529 < cval(c.a[2]) < 16.53): return 'B'
        else:
            if x.op == 'call' and short(x.a[0]) == 'p_saturation' and x.a[1] is s.c: return 'A'
            if cval(x) is not None and abs(cval(x) - 100.) < 1e-9: return 'B'
    def side(x, atoms):
        """what the path says of sigma (y - g(x)): subset of {LT, EQ, GT}"""
        r = LT | EQ | GT
        for c, v in atoms:
            if c.op != 'rel': continue
            m = (c.a[0] if v else 15 ^ c.a[0]) & 7
            for p_, q_, mm in ((c.a[1], c.a[2], m), (c.a[2], c.a[1], sw(m) & 7)):
                if same(p_, s.y) and same(q_, G(x)): r &= mm
        return r if sg == 1 else sw(r)
    for q in ps:
        if q.status != 'ret': return 'a path does not return', []
        a, r = q.cons.atoms, q.ret
        if not isinstance(r, N): return 'result', []
        used = {n.id: n for c, _ in a for n in nodes(c).values() if n.id in byid}; used.update({n.id: n for n in nodes(r).values() if n.id in byid})
        ends_ = {}
        for i in used:
            for x in byid[i][3]:
                w = end(x, a)
                if w: ends_[w] = x
                elif x.op == 'fmin':
                    pr = [(end(y_, a), z_) for y_, z_ in ((x.a[0], x.a[1]), (x.a[1], x.a[0]))]; pr = [z_ for w2, z_ in pr if w2 == 'B' and cval(z_) is not None]
                    if pr and T: lem[f'monotone beyond {cval(pr[0])}'] = ([d1], dict(s.box, T=(cval(pr[0]), s.box['T'][1])), s.out)
                    else: return f'bracket {show(x)}', []
                    k = next(y_ for y_ in x.a if end(y_, a) == 'B'); ends_['B'] = k
                elif x.id not in byid: return f'bracket {show(x)}', []
            if byid[i][0] == 'argmin' and end(byid[i][3][0], a) != 'A': return 'the minimum is searched from another end', []
        if r.id in byid and byid[r.id][0] == 'bisect':
            l_, r_ = (side(x, a) for x in byid[r.id][3])
            if not (l_ in (LT, LT | EQ) and r_ in (GT, GT | EQ) or r_ in (LT, LT | EQ) and l_ in (GT, GT | EQ)) or l_ & r_ & EQ: return 'the path does not bracket the root', []
            continue
        if r.id in byid and side(r, a) in (LT, LT | EQ, EQ): continue      # y is the extremum
        if all(w in ends_ and side(ends_[w], a) == GT for w in 'AB'): continue   # beyond both ends: no state of the region
        w = end(r, a)
        if w and 'A' in ends_ and side(r, a) in (GT, GT | EQ):
            o_ = ends_['B' if w == 'A' else 'A']; ev_ = lambda x: g(flat(subst(x, s.m)))
            if s.star is _T: return 'end value', []
            lem[f'the larger end is {w}'] = ([N_(ev_(r) - ev_(o_))], {'T': s.box['T']}, []); continue
        return f'a path returns {show(r)} for other values', []
    return None, [(n,) + v for n, v in lem.items()]

# ------------------------------------------------------------------ obligations
class Site:
    """one inverting function fn(c, y); box: the states; m: the inputs in the state variables; star: the unknown; the solver works on
    g over (unknown, con)"""
    def __init__(s, C, nm, k, inp, box, rel, out=(), parts=None, lows=(), split=None):
        s.parts = parts or [(box, list(out))]; s.lows = lows; s.zoom = False; s.split = split or {'T': 8}
        s.C = C; s.nm = nm; s.k = k; s.box = box; s.out = list(out); s.c, s.y = fv('c'), fv('y'); q = inp[1]
        def eq(gn):
            C.holds(gn); ps, ex = SIMPLE[gn]; return lambda x, z: subst(expand(ex), {ps[0].id: x, ps[1].id: z})
        if k == 3:
            if inp == 'pv': s.gn, s.pos, s.star, s.con, s.lim = 'Td2p_reg3', 0, _T, _d, (623.15, 863.15)
            else: s.gn, s.pos, s.star, s.con, s.lim = f'Td2{q}_reg3', 1, _d, _T, (100., 770.)
            g = eq(s.gn); s.val = g(_T, _d); s.m = {s.c.id: s.val, s.y.id: fc(1.0) / _d} if inp == 'pv' else {s.c.id: _T, s.y.id: s.val}
        else:
            u = 'p' if inp[0] == 't' else 'T'; s.gn = f'pT2{q}_reg{k}'; s.pos = 0 if u == 'p' else 1; g = eq(s.gn); s.lim = box[u]
            s.star = _p if u == 'p' else _T; s.con = _T if u == 'p' else _p; s.val = g(_p, _T); s.m = {s.c.id: s.con, s.y.id: s.val}
        s.gu = g(U_, K_) if s.pos == 0 else g(K_, U_); s.tol = fc(rel) * s.val
    def paths(s):
        """None and the list of (root, x1, x2, out-nodes), or why the call site does not meet the contract"""
        f = s.C.bynm[s.nm]
        if len(f) != 1: return 'function not found', []
        X = SX(s.C); ps = X.run(f[0], [s.c, s.y])
        if X.why: return X.why, []
        for rv, (kind, gn, pos, a) in X.calls.values():
            if gn != s.gn or pos != s.pos: return f'the solver is used over {gn}', []
            if not (same(flat(subst(a[0], s.m)), s.con) and same(flat(subst(a[1], s.m)), s.val)): return 'the solver is used for other inputs', []
            G = lambda x: mk('call', s.gn, *((x, a[0]) if s.pos == 0 else (a[0], x)))
            if not (same(a[4], a[1] - G(a[2])) and same(a[5], a[1] - G(a[3]))): return 'the residuals passed to the solver are not those of its start values', []
            if not (cval(a[6]) is not None and 0 < cval(a[6]) <= 1e-6 and isinstance(a[7], int) and 20 <= a[7] <= 10000): return f'accuracy {a[6]}, cap {a[7]}', []
        lo, hi = s.lim; sites = []; GY = lambda x: mk('call', s.gn, *((x, s.c) if s.pos == 0 else (s.c, x)))
        low = lambda r: isinstance(r, N) and (cval(r) is not None and cval(r) <= lo * (1 + 1e-6) or r.op == 'call' and short(r.a[0]) in s.lows and r.a[1] is s.c)
        high = lambda r: isinstance(r, N) and cval(r) is not None and cval(r) >= hi * (1 - 1e-12)
        def clip(rv, r, at):
            """the solver's result, clipped to the region only"""
            return r is rv or low(r) and has(at, lambda c, v: rel_is(c, v, LT, rv, r) or rel_is(c, v, LT | EQ, rv, r)) or high(r) and has(at, lambda c, v: rel_is(c, v, GT, rv, r) or rel_is(c, v, GT | EQ, rv, r))
        for q in ps:
            if q.status != 'ret': return 'a path does not return', []
            at = q.cons.atoms; r = q.ret
            used = [k for k in X.calls.values() if any(n.id == k[0].id for c, _ in at for n in nodes(c).values()) or isinstance(r, N) and k[0].id in nodes(r)]
            if len(used) > 1: return 'two solver calls on one path', []
            if not used:        # an early result: its residual is small
                if isinstance(r, N) and has(at, lambda c, v: c.op == 'rel' and (any(rel_is(c, v, m_, mk('fabs', s.y - GY(r)), c.a[2]) for m_ in (LT, LT | EQ)) and cval(c.a[2]) is not None and cval(c.a[2]) <= 1e-7 or rel_is(c, v, EQ, s.y, GY(r)))): continue
                return f'a path returns {show(r)} without the solver', []
            rv, (_, _, _, a) = used[0]
            if has(at, lambda c, v: c.op == 'rel' and (c.a[0] if v else 15 ^ c.a[0]) & 7 == GT and low(c.a[1]) and c.a[1].op == 'call' and high(c.a[2])): continue    # an empty isobar: no state
            if not clip(rv, r, at):     # a correction where the residual is larger than 1e-8: excluded by convergence to less
                far = [e for e in (x for c, v in at if c.op == 'rel' for k in nodes(c).values() if k.op == 'call' and short(k.a[0]) == s.gn for x in k.a[1:]) if e is not s.c]
                if not any((e is rv or low(e) or high(e)) and has(at, lambda c, v: rel_is(c, v, GT, mk('fabs', s.y - GY(e)), fc(1e-8)) or rel_is(c, v, GT, mk('fabs', GY(e) - s.y), fc(1e-8))) for e in far): return f'a path with the solver returns {show(r)}', []
                if not any(e is rv or clip(rv, e, at) or has(at, lambda c, v: c.op == 'rel') for e in far): return 'correction', []
                s.zoom = True
            sites.append((rv, a, at))
        R = {}
        for rv, a, at in sites:     # by root and the conditions before the call
            pre = tuple((c, v) for c, v in at if rv.id not in nodes(c)); R.setdefault((rv.id, frozenset((c.id, v) for c, v in pre if not any(x is s.y or x.op == 'call' and short(x.a[0]) != 'p_saturation' for x in nodes(c).values()))), (rv, a, pre))
        L = []; seen = {}
        for rv, a, pre in R.values():
            pre = [(c, v) for c, v in pre if not any(x is s.y or x.op == 'call' and short(x.a[0]) != 'p_saturation' for x in nodes(c).values())]
            for box, out in s.parts:
                o = list(out) + outnodes(pre, s.m); key = (rv.id, id(box), tuple(sorted({n.id for n in o})))
                if key in seen: continue
                seen[key] = 1; quick = Enc(s.val, sorted(box))
                if any(ivl.ev([n], {v: (np.array([float(x[0])]), np.array([float(x[1])])) for v, x in box.items()})[0][1][0] < 0 for n in o): continue     # no state takes this path
                L.append((rv, nofabs(flat(subst(a[2], s.m)), box, o), nofabs(flat(subst(a[3], s.m)), box, o), o, cval(a[6]), a[7], box))
        return None, L
    def cells(s, box):
        """the box cut into a grid"""
        L = [dict(box)]
        for v, n in s.split.items():
            lo, hi = box[v]
            if v == 'p' and hi / lo > 50: e = [lo * (hi / lo) ** (i / n) for i in range(n)] + [hi]
            else: e = [lo + (hi - lo) * i / n for i in range(n)] + [hi]
            L = [dict(b, **{v: (e[i], e[i + 1])}) for b in L for i in range(n)]
        return L
R5 = {'p': (0.000611212, 50.0), 'T': (1073.15, 2273.15)}
def sites():
    f1 = lambda n, x: subst(flat(mk('call', n, x)), {})
    return [('pv2T_reg5', 5, 'pv', R5, 1e-5, (), {}), ('ph2T_reg5', 5, 'ph', R5, 1e-6, (), {}), ('ps2T_reg5', 5, 'ps', R5, 1e-6, (), {'split': {'T': 8, 'p': 2}})]
SITES = []
R1 = {'p': (0.0006, 100.0), 'T': (273.15, 623.15)}; O1 = [_p - if97.PSAT]
BRACKET = [('pv2T_reg1', 1, 'pv', R1, 1e-5, O1), ('Th2p_reg1', 1, 'th', R1, 1e-6, O1), ('Ts2p_reg1', 1, 'ts', R1, 1e-6, O1)]
def prove(ck, nproc=None):
    """adds the discharged obligations; what is not discharged is only named (it is replayed anyway)"""
    import api, par
    nb = [0, {}]
    try: C = api.contracts()
    except Exception as e: ck.bounded('deductive part', f'not available: {type(e).__name__}: {e}'); return
    jobs = []; S = []
    SITES[:] = sites()
    for a in SITES:
        nm = a[0]
        try:
            s = Site(C, *a[:6], **a[6]); w, L = s.paths()
        except (Unsupported, KeyError, IndexError, AssertionError) as e: w, L = f'{type(e).__name__}: {str(e)[:200]}', []
        ob = f'{nm}: solver contract, residuals passed, result clipped to the region only'
        if w: ck.bounded(ob, f'not discharged ({w}); replay only'); continue
        ck.ok(ob, 'symbolic execution, loop invariant')
        for i, l in enumerate(L):
            S.append((s, i, len(L), l)); jobs += [(len(S) - 1, j) for j in range(len(s.cells(l[6])))]
    B = []
    for nm, k, inp, box, rel, out in BRACKET:
        try: s = Site(C, nm, k, inp, box, rel, out); w, L = bracketed(s)
        except (Unsupported, KeyError, IndexError, AssertionError) as e: w, L = f'{type(e).__name__}: {str(e)[:200]}', []
        ob = f'{nm}: the search of the extremum and the bisection meet their contracts, every path brackets the root, returns the extremum or is beyond both ends'
        if w: ck.bounded(ob, f'not discharged ({w}); replay only'); continue
        ck.ok(ob, 'symbolic execution, loop invariant')
        for l in L: B.append((nm,) + l)
    jobs = [(-1, j) for j in range(len(B))] + jobs; T0 = time.time()
    def run(job):
        if time.time() - T0 > (240 if TIER == 'quick' else 1500): return False, 0, 0, 0, 'time'
        if job[0] < 0: nm, l, gs, box, out = B[job[1]]; r = disj(gs, box, out, tmax=120); return bool(r), r.boxes, 0, r.t, repr(r.left)[:200] if not r else ''
        s, i, n, (rv, x1, x2, o, xacc, imax, box) = S[job[0]]; b = s.cells(box)[job[1]]
        r = converge(s.gu, x1, x2, s.con, s.star, b, o, s.tol, most=9e-9 if s.zoom else math.inf, xacc=xacc, imax=imax, tmax=60 if TIER == 'quick' else 400, pos=s.pos == 0)
        return bool(r), r.boxes, r.iters, r.t, repr(r.left)[:200] if not r else ''
    res = par.pmap(run, jobs, nproc); by = {}
    for (i, j), r in zip(jobs, res):
        if i >= 0: by.setdefault(i, []).append(r); continue
        ok, v = r; ob = f'{B[j][0]}: {B[j][1]}, for every state of the region'
        if ok and v[0]: ck.ok(ob, 'interval branch and bound'); nb[0] += v[1]; ck.solver_t = getattr(ck, 'solver_t', 0) + v[3]
        else: ck.bounded(ob, f'not discharged ({v[4] if ok else v}); replay only')
    for i, rs in by.items():
        s, k, n, _ = S[i]; ob = f'{s.nm}: the secant iteration of call {k + 1} of {n} converges for every state of the region'
        if all(ok and r[0] for ok, r in rs):
            ck.ok(ob, 'interval branch and bound'); nb[0] += sum(r[1] for _, r in rs); nb[1][s.nm + f' call {k + 1}'] = max(r[2] for _, r in rs)
            ck.solver_t = getattr(ck, 'solver_t', 0) + sum(r[3] for _, r in rs)
        else: ck.bounded(ob, 'not discharged (%s); replay only' % next(r if not ok else r[4] for ok, r in rs if not (ok and r[0])))
    ck.cov['boxes'] = nb[0]; ck.cov['iterations_at_most'] = nb[1]; ck.cov['interval_seconds'] = round(getattr(ck, 'solver_t', 0), 1)
    ck.fns |= {'rtsec1', 'rtsec2', 'bisect', 'argmin'} | {a[0] for a in SITES + BRACKET}
