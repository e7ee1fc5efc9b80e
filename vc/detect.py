"""C04, C20 (and the (p,t) part of C05): region detection. The region query of the real API is executed symbolically; the state
functions it compares with are contract symbols; every path must return what the published region map assigns to every state it
can meet. Orderings of the region edges along p are interval lemmas."""
from api import *
from contracts import _p, _T, _d
import if97, witness, ivl
from if97 import *
from wet import libfn, fabs_ax, ge, le
from witness import Fl, holds_at
a, b = fv('a'), fv('b')
TT = b + C27
TOLm, TOLp = fc(0.999999), fc(1.000001)
PMIN, PMAX, TC, PC = 0.000611212677444, 100.0, 647.096, 22.064
NEG = 'negative'
def inset(v, allowed): return v is not None and (v < 0 if allowed == NEG else v in allowed)
class DApi(Api):
    def __init__(s): Api.__init__(s, 'A')
def div_ax(atoms, posn):
    """q = n/d with d > 0: order of q against the constants that occur, as linear facts on n and d"""
    qs = {}; cst = {Fraction(0), Fraction(1), Fraction('1e-6'), -Fraction('1e-6'), Fraction('1.000001'), Fraction('0.999999')}
    for c, v in atoms:
        for k in nodes(c).values():
            if k.op == 'fdiv' and cval(k.a[1]) is None: qs[k.id] = k
        if c.op == 'rel':
            for x in c.a[1:]:
                w = cval(x)
                if w is not None and w == w and abs(w) != math.inf: cst.add(frac(x.a[0]) if x.op == 'c' else Fraction(w))
    r = []
    for k in qs.values():
        if not any(k.a[1] is p_ or identical(k.a[1], p_) for p_ in posn): continue
        q, n, d = zlin(lin(k)), lin(k.a[0]), lin(k.a[1])
        for c in cst:
            e = zlin(n.add(d, -c)); cc = z3.RealVal(str(c)); r += [(q < cc) == (e < 0), (q > cc) == (e > 0)]
    return r
def decide(paths, conds, allowed, ax=(), posn=()):
    """None or a path that returns something else on this case"""
    if not paths: return 'no path', None
    met = False
    for pth in paths:
        at = list(pth.cons.atoms) + list(conds)
        if not Cons().assume_all(at): continue
        if pth.status == 'ret' and isinstance(pth.ret, N) and inset(cval(pth.ret), allowed): met = True; continue
        at += list(ax)
        r = sat(zatoms(at) + fabs_ax(at) + div_ax(at, posn))
        if r is False: continue
        return f'returns {cval(pth.ret) if isinstance(pth.ret, N) else pth.status}' + ('' if r else ' (feasibility unknown)'), pth
    return None if met else ('no path meets the case', None)
def near(x, y): return abs(x - y) <= 1e-12 * (abs(x) + abs(y))
def hunt(ck, A, n, name, w, cases, pts):
    """pts: (x, y, allowed or None)"""
    rp = replay(); got = rp.many([(n, x, y, IDS['R'], None) for x, y, _ in pts], 120); agree_ = 0
    why = {'why': w[0], 'path': [(show(c), v) for c, v in w[1].cons.atoms] if w[1] else None, 'returns': show(w[1].ret, 3) if w[1] and isinstance(w[1].ret, N) else None}
    for (x, y, al), g in zip(pts, got):
        if al is None:
            env = {'a': x, 'b': y}; F = Fl(env, A.X)
            try:
                for nm, cd, al_, ax in cases:
                    vs = [(F.ev(c.a[1]), F.ev(c.a[2]), c, v) for c, v in cd]
                    if all(bool(c.a[0] & sym.relop(l, r)) == v for l, r, c, v in vs):
                        if not any(near(l, r) and l != r or (l == r and cval(c.a[1]) is None and cval(c.a[2]) is None) for l, r, c, v in vs): al = al_
                        break
            except (Unsupported, OverflowError, ValueError): continue
            if al is None: continue
        if not isinstance(g, float) or not inset(g, al):
            ck.violate(name, f'{n}({x!r},{y!r},OR) = {g!r}, region map: {al if al == NEG else sorted(al)}', {'query': (n, x, y, 16, None), 'got': g, 'expected': str(al)}, why); return
        agree_ += 1
    if w[1] is not None and 'unknown' not in w[0]: ck.violate(name, 'a path contradicts the region map: ' + w[0], None, why)
    elif agree_ >= 100: ck.bounded(name, f'{w[0]}; {agree_} replayed states agree')
    else: ck.violate(name, w[0], None, why)

# ---------------------------------------------------------------- (p,t)
def pt_nodes(A): return libfn(A, 'p_saturation', TT), libfn(A, 'B23_T2p', TT)
def pt_cases(A):
    PS, PB = pt_nodes(A); T = TT
    dom = [ge(a, PMIN), le(a, PMAX), ge(T, 273.15)]
    low, high = lt(a, TOLm * PS), gt(a, TOLp * PS)
    sub = lt(T, TC)
    c = [('4 in the saturation band', dom + [sub, gt(a, TOLm * PS), lt(a, TOLp * PS)], {4.0}),
         ('1 above saturation', dom + [le(T, 623.15), high], {1.0}), ('2 below saturation', dom + [le(T, 623.15), low], {2.0})]
    c += [(f'{r} at the rim of the saturation band', dom + [le(T, 623.15), (mkrel(EQ, a, t * PS), True)], {r, 4.0}) for r, t in ((1.0, TOLp), (2.0, TOLm))]
    for s_, cd in (('subcritical, above the band', [gt(T, 623.15), sub, high]), ('subcritical, below the band', [gt(T, 623.15), sub, low]), ('supercritical', [ge(T, TC), le(T, 863.15)])):
        c += [('2 up to B23, ' + s_, dom + cd + [le(a, PB)], {2.0}), ('3 beyond B23, ' + s_, dom + cd + [gt(a, PB)], {3.0})]
    c += [(f'{r} at the rim of the band, T > 623.15', dom + [gt(T, 623.15), sub, (mkrel(EQ, a, t * PS), True)], {2.0, 3.0, 4.0}) for r, t in ((3, TOLp), (2, TOLm))]
    c += [('2 up to 1073.15 K', dom + [gt(T, 863.15), le(T, 1073.15)], {2.0}), ('5 above 1073.15 K up to 50 MPa', dom + [gt(T, 1073.15), le(T, 2273.15), le(a, 50.0)], {5.0})]
    return [(n, cd, al, []) for n, cd, al in c]
def pt_out(A):
    T = TT; inp = [ge(a, PMIN), le(a, PMAX)]
    return [(n, cd, al, []) for n, cd, al in (('p below the minimum', [lt(a, PMIN)], {-2100.0}), ('p above 100 MPa', [gt(a, PMAX)], {-2100.0}), ('T below 273.15 K', inp + [lt(T, 273.15)], {-2101.0}),
            ('T above 2273.15 K', inp + [gt(T, 2273.15)], {-2101.0}), ('p above 50 MPa beyond 1073.15 K', inp + [gt(T, 1073.15), le(T, 2273.15), gt(a, 50.0)], {-2100.0}))]
def pt_pts(A, rnd):
    nx = math.nextafter
    ts = [0.0, 350.0, 590.0, 800.0, 2000.0, 373.946, 200.0, 100.0]; ts += [nx(t, -1e9) for t in ts] + [nx(t, 1e9) for t in ts] + [rnd.uniform(0, 2001) for _ in range(60)] + [rnd.uniform(0, 374) for _ in range(60)] + [rnd.uniform(349, 592) for _ in range(60)]
    pb = [PMIN, 100.0, 50.0, 22.064, 16.5291642526045]; pb += [nx(p, 0) for p in pb] + [nx(p, 1e9) for p in pb] + [rnd.uniform(0.0006, 100.5) for _ in range(12)] + [10 ** rnd.uniform(-3.3, 2.1) for _ in range(12)]
    out = [(p, t, None) for t in ts for p in pb]
    sat_ = replay().many([('tx', t, 0.0, 0, None) for t in ts])
    for t, p in zip(ts, sat_):
        if isinstance(p, float) and p > 0:
            for e in (0.0, 1e-9, -1e-9, 3e-7, -3e-7, 9e-7, -9e-7, 1.1e-6, -1.1e-6, 2e-6, -2e-6, 1e-5, -1e-5, 1e-4, -1e-4, 1e-3, -1e-3): out.append((p * (1 + e), t, None))
    for t in ts:
        if 350 < t < 591:
            p = dbl(B23_P, {_T.a[0]: t + 273.15})
            for e in (1e-9, -1e-9, 1e-7, -1e-7, 1e-5, -1e-5, 1e-3, -1e-3): out.append((p * (1 + e), t, None))
    out += [(x, y, None) for x in (-1.0, 0.0, 1e-9, 0.0006, 101.0, 1e300, math.inf, -math.inf) for y in (-1e9, -300., -1.0, 0.0, 300., 900., 2000., 2001., 1e9)]
    return out
B23_P = SIMPLE['B23_T2p'][1]
def c04():
    ck = Check('C04'); A = DApi(); rnd = random.Random(SEED); C = A.C
    PS, PB = pt_nodes(A)
    for nm in ('p_saturation', 'B23_T2p'):
        if C.holds(nm): ck.ok(f'contract {nm} (published equation)', 'PIT'); ck.fns.add(nm)
    if ivl.prove([PSAT], {'T': (273.15, 647.2)}, minw=1e-12).ok: ck.ok('lemma: p_sat(T) > 0 on [273.15, 647.2]', 'interval branch and bound')
    lim = dbl(B23_P, {_T.a[0]: TC})
    axs = [z3.Implies(zrel(mkrel(EQ, TT, fc(TC))), z3.And(zlin(lin(PB)) < z3.RealVal('19.7'), zlin(lin(PB)) > z3.RealVal('19.4')))] if 19.4 < lim < 19.7 else []
    run_cases(ck, A, 'pt', pt_cases(A) , [PS], axs, lambda: pt_pts(A, rnd), 'region ')
    ck.fns |= {'pt (region query)', 'pT_sub_region'}
    ck.assume += ['comparisons are exact in floating point except the relative 1e-6 test, which is decided in real arithmetic', 'T is the floating-point sum t + 273.15, as everywhere in the library'] + AS97[1:]
    ck.need(15)
    return ck.finish(TB97)
def run_cases(ck, A, n, cases, posn, axs, pts, prefix):
    try: ps = A.X.run(A.X.find('v_' + n), [a, b, IDS['R']])
    except Unsupported as e: ps = None; err = 'unsupported: ' + str(e)[:200]
    bad = []
    for nm, cd, al, ax in cases:
        name = f'{n}: {prefix}{nm}'
        if ps is None: bad.append((name, (err, None))); continue
        w = decide2(ps, cd, al, ax, posn, axs)
        if w is None: ck.ok(name, 'symbolic execution + z3 case analysis')
        else: bad.append((name, w))
    if bad:
        q = pts()
        for name, w in bad[:6]:
            one = [c for c in cases if f'{n}: {prefix}{c[0]}' == name]
            hunt(ck, A, n, name, w, one, [x for x in q if x[2] is None] + [x for x in q if x[2] is not None])
def decide2(ps, cd, al, ax, posn, axs):
    if not axs: return decide(ps, cd, al, ax, posn)
    global sat
    s0 = sat
    try:
        sat = lambda t, timeout=5000: s0(list(t) + list(axs), timeout)
        return decide(ps, cd, al, ax, posn)
    finally: sat = s0

# ---------------------------------------------------------------- (p,h), (p,s)
P623 = 16.5291642
def edges(A, y):
    """the published edges as nodes over p = a"""
    Y = 'h' if y == 'h' else 's'
    f = lambda k, T: libfn(A, f'pT2{Y}_reg{k}', a, L(T) if not isinstance(T, N) else T)
    TS_, TB_ = libfn(A, 'T_saturation', a), libfn(A, 'B23_p2T', a)
    return {'min': f(1, 273.15), '14': f(1, TS_), '24': f(2, TS_), '25': f(2, 1073.15), 'max': f(5, 2273.15), '13': f(1, 623.15), '32': f(2, TB_)}
def spec_edges(y):
    f = lambda k, T: subst(PROPS[k][1][y.upper()], {_T.id: L(T) if not isinstance(T, N) else T})
    TB_ = SIMPLE['B23_p2T'][1]
    return {'min': f(1, 273.15), '14': f(1, TSAT), '24': f(2, TSAT), '25': f(2, 1073.15), 'max': f(5, 2273.15), '13': f(1, 623.15), '32': f(2, TB_)}
SL = PMIN * (1 + 1e-6)
ORD = {'A': [('min', '14', SL, 16.53), ('min', '24', PMIN, 16.53), ('14', '24', PMIN, 16.53), ('24', '25', PMIN, 16.53), ('25', 'max', PMIN, 50.0)],
       'B': [('min', '13', 16.529, 100.0), ('13', '32', 16.529, 100.0), ('32', '25', 16.529, 100.0), ('25', 'max', PMIN, 50.0)]}
def phps_cases(A, n, ax):
    y = n[1]; E = edges(A, y); c = []
    psat3 = libfn(A, 'h2p_sat_reg3' if y == 'h' else 's2p_sat_reg3', b) if A.C.holds('h2p_sat_reg3' if y == 'h' else 's2p_sat_reg3') else mk('call', (A.C.bynm.get('h2p_sat_reg3' if y == 'h' else 's2p_sat_reg3') or [type('x', (), {'name': 'missing'})])[0].name, b)
    def band(tag, pc, chain, top, axn):
        """chain: [(edge, region-set above it)], first edge is the minimum"""
        axs = [x for k in axn for x in ax.get(k, ())]
        e0 = E[chain[0][0]]
        c.append((f'{tag}: below the 273.15 K value', pc + [lt(b, e0)] + ([gt(a, SL)] if tag.startswith('p <=') else []), NEG, axs))
        for (e, r), (e2, r2) in zip(chain, chain[1:] + [(top, None)]):
            cd = pc + [gt(b, E[e]), lt(b, E[e2])]
            lo_s = [gt(a, SL)] if e == 'min' and tag.startswith('p <=') else []
            if e == '14': cd = cd + [gt(b, E['min'])]
            if r == 34:
                c.append((f'{tag}: 4 below the region 3 saturation pressure', cd + [lt(a, psat3)], {4.0}, axs))
                c.append((f'{tag}: 3 at or above the region 3 saturation pressure', cd + [ge(a, psat3)], {3.0}, axs))
            else: c.append((f'{tag}: {r} between the {e} and {e2} values', cd + lo_s, {float(r)}, axs))
            both = {float(x) for x in ([3, 4] if r == 34 else [r]) + ([3, 4] if r2 == 34 else [r2] if r2 else [])}
            c.append((f'{tag}: no gap at the {e2} value', pc + [(mkrel(EQ, b, E[e2]), True)] + ([gt(a, SL)] if e == 'min' and tag.startswith('p <=') else []), both, axs))
        c.append((f'{tag}: no gap at the {chain[0][0]} value', pc + [(mkrel(EQ, b, e0), True)] + ([gt(a, SL)] if tag.startswith('p <=') else []), {float(chain[0][1])}, axs))
        c.append((f'{tag}: above the upper limit', pc + [gt(b, E[top])], NEG, axs))
    band('p <= 16.529', [ge(a, PMIN), le(a, P623)], [('min', 1), ('14', 4), ('24', 2), ('25', 5)], 'max', 'A')
    band('16.529 < p < 22.064', [gt(a, 16.52917), lt(a, PC)], [('min', 1), ('13', 34), ('32', 2), ('25', 5)], 'max', 'B')
    band('22.064 <= p <= 50', [ge(a, PC), le(a, 50.0)], [('min', 1), ('13', 3), ('32', 2), ('25', 5)], 'max', 'B')
    band('50 < p <= 100', [gt(a, 50.0), le(a, 100.0)], [('min', 1), ('13', 3), ('32', 2)], '25', 'B')
    c += [('p below the minimum', [lt(a, PMIN)], NEG, []), ('p above 100 MPa', [gt(a, 100.0)], NEG, [])]
    return c
def phps_pts(A, n, rnd):
    y = n[1]; o = IDS[y.upper()]; S = spec_edges(y); out = []
    ps = [PMIN * 1.00001, 0.001, 16.529164, 16.52918, 22.0639999, 22.064, 50.0, 100.0, 22.0640001, 49.999, 50.001] + [10 ** rnd.uniform(-3.2, 2) for _ in range(40)] + [rnd.uniform(16.5, 22.1) for _ in range(40)] + [rnd.uniform(22, 100) for _ in range(30)]
    rp = replay()
    # exact edge bits from the library's own values
    q = []
    for p in ps:
        q += [('pt', p, 0.0, o, 1), ('px', p, 0.0, o, None), ('px', p, 1.0, o, None), ('pt', p, 800.0, o, 2), ('pt', p, 2000.0, o, 5), ('pt', p, 350.0, o, 1)]
    v = rp.many(q)
    for i, p in enumerate(ps):
        m, h14, h24, h25, mx, h13 = v[6 * i:6 * i + 6]
        if p <= P623: ed = [(m, {1.}), (h14, {1., 4.}), (h24, {4., 2.}), (h25, {2., 5.}), (mx, {5.})]
        elif p < 16.5292: ed = []
        else: ed = [(m, {1.}), (h13, {1., 3., 4.}), (h25, {2., 5.} if p <= 50 else {2.})] + ([(mx, {5.})] if p <= 50 else [])
        for j, (e, al) in enumerate(ed):
            if j in (0, len(ed) - 1): out.append((p, e + (1 if j == 0 else -1) * 1e-12 * (1 + abs(e)), al))   # the outer edges are sums of two roundings
            else: out += [(p, e + k * (1 + abs(e)), al) for k in (-1e-13, 0.0, 1e-13)]
        env = {'p': p}; vals = []
        for k, e in S.items():
            try: z = dbl(e, env)
            except Exception: continue
            if z == z: vals.append(z)
        vals = sorted(vals)
        for z in vals:
            for r in (1e-9, 1e-7, 1e-5, 1e-3): out += [(p, z * (1 + r), None), (p, z * (1 - r), None)]
        for l, h in zip(vals, vals[1:]): out += [(p, l + (h - l) * rnd.random(), None) for _ in range(3)]
        out += [(p, vals[0] - 5, None), (p, vals[-1] + 5, None), (p, vals[-1] * 2, None)]
    cl, ch = (2000., 2180.) if y == 'h' else (4.28, 4.55)
    out += [(22.064 - d, cl + (ch - cl) * i / 60, None) for d in (1e-7, 1e-5, 1e-4, 4e-4, 9e-4, 3e-3, 1e-2, .03, .1) for i in range(61)]
    out += [(x, z, None) for x in (-1., 0., 1e-5, 0.0006, 100.1, 1e9) for z in (0.1, 1.0, 100., 1000., 3000., 5000.)]
    return out
def c20():
    ck = Check('C20'); A = DApi(); rnd = random.Random(SEED)
    for n in ('ph', 'ps'):
        y = n[1]; S = spec_edges(y); E = edges(A, y); ax = {'A': [], 'B': []}
        for bd, l in ORD.items():
            for x, z, lo, hi in l:
                r = ivl.prove([S[z] - S[x]], {'p': (lo, hi)}, minw=1e-13, tmax=30)
                nm = f'lemma: {y} on edge {x} < {y} on edge {z} for p in [{lo:.6g},{hi}]'
                if r.ok: ck.ok(nm, 'interval branch and bound'); 
                else: ck.bounded(nm, 'lemma not discharged'); continue
                ax[bd].append((E[x], E[z], lo, hi))
        def band_ax(bd):
            return [(lt(E_, F_), lo, hi) for E_, F_, lo, hi in ax[bd]]
        cs = []
        axd = {k: [v[0] for v in band_ax(k)] for k in ax}
        for nm, cd, al, ax_ in phps_cases(A, n, {}):
            # an ordering is used only inside the pressure range on which it was proved
            bd = 'A' if nm.startswith('p <=') else 'B' if ':' in nm else None
            use = []
            for atom_, lo, hi in (band_ax(bd) if bd else []):
                Z = Cons()
                if sat(zatoms(cd + [lt(a, lo)])) is False and sat(zatoms(cd + [gt(a, hi)])) is False: use.append(atom_)
            cs.append((nm, cd, al, use))
        run_cases(ck, A, n, cs, [], [], lambda: phps_pts(A, n, rnd), '')
        for nm in ('h2p_sat_reg3' if y == 'h' else 's2p_sat_reg3', 'B23_p2T', 'T_saturation', f'pT2{y}_reg1', f'pT2{y}_reg2', f'pT2{y}_reg5'):
            if A.C.holds(nm): ck.ok(f'{n}: contract {nm} (published equation)', 'PIT'); ck.fns.add(nm)
    ck.fns |= {'ph (region query)', 'ps (region query)', 'ph_sub_region', 'ps_sub_region'}
    ck.assume += ['edge orderings are proved in real arithmetic; comparisons of an input with an edge value are exact', f'p in [{PMIN}, {SL}] (relative 1e-6): the order of the 273.15 K and saturated-liquid values, which coincide there, is not used', 'between 16.5291642 and 16.52917 MPa either of the two adjoining branches is right'] + AS97[1:]
    ck.need(60)
    return ck.finish(TB97 + ['vc/ivl.py interval arithmetic (numpy double, outward rounding)'])
