"""C16: round trip of the backward equations T(p,h), T(p,s) of regions 1 and 2.  The code's path expressions (verified contracts
expanded) with the code's own h(p,T) / s(p,T) substituted are bounded on the whole region by a second-order interval proof."""
from api import *
from contracts import _p, _T, _d
import if97, witness, ivl, backward
from par import pmap
from if97 import *
from borders import BApi, interp_all
from wet import ge, le
a, b = fv('a'), fv('b')
PS_, B23_ = PSAT, B23P
H6 = 6.546   # just below the lower end of the 2b/2c boundary (6.54670 MPa, rounded in the release; it starts on the saturated vapour line)
class TApi(BApi):
    """single-expression contracts and p_saturation; piecewise functions are inlined"""
    def pol(s, name, args, X):
        if name.startswith('seuif97::') and (short(name) in SIMPLE or short(name) == 'p_saturation'): return s.C.policy(name, args, X)
def pieces(y, k):
    """(name, limit, conditions on (a,b), p range, out-nodes in (p,Y))"""
    if k == 1: return [('1', 0.025, [], (0.0006, 100.0), lambda Y: [])]
    if y == 'h':
        hb = subst(H2BC, {_p.id: a}); hp = H2BC
        return [('2a', 0.01, [le(a, 4.0)], (0.0006, 4.0), lambda Y: []), ('2b', 0.01, [ge(a, 4.0), ge(a, H6), (mkrel(GT | EQ, b, hb), True)], (H6, 100.0), lambda Y: [Y - hp]),
                ('2b below 6.546 MPa', 0.01, [ge(a, 4.0), le(a, H6)], (4.0, H6), lambda Y: []), ('2c', 0.025, [ge(a, H6), (mkrel(LT | EQ, b, hb), True)], (H6, 100.0), lambda Y: [hp - Y])]
    return [('2a', 0.01, [le(a, 4.0)], (0.0006, 4.0), lambda Y: []), ('2b', 0.01, [ge(a, 4.0), ge(b, 5.85)], (4.0, 100.0), lambda Y: [Y - 5.85]), ('2c', 0.025, [ge(a, 4.0), le(b, 5.85)], (4.0, 100.0), lambda Y: [5.85 - Y])]
def slices(k, pr):
    """(T range, p range, out nodes)"""
    if k == 1: return [((273.15, 623.15), pr, [_p - PS_])]
    r = []
    for lo, hi in ((273.15, 330), (330, 400), (400, 460), (460, 500), (500, 525), (525, 570), (570, 600), (600, 623.15)):
        pm = min(pr[1], dbl(PSAT, {'T': hi}) * 1.001)
        if pm > pr[0]: r.append(((lo, hi), (pr[0], pm), [PS_ - _p]))
    for lo, hi in ((623.15, 740), (740, 863.15)):
        pm = min(pr[1], witness.B23p(hi) * 1.001)
        if pm > pr[0]: r.append(((lo, hi), (pr[0], pm), [B23_ - _p]))
    return r + [((863.15, 1073.15), pr, [])]
def cond_out(atoms, m):
    """nodes negative outside the path condition, in (p,T); a true ordered comparison has no NaN side, so roots in it are real"""
    o = []
    for c, v in atoms:
        if c.op != 'rel': continue
        mm = c.a[0] if v else 15 ^ c.a[0]
        l, r = (subst(interp_all(e), m) for e in c.a[1:])
        if any(k.op in ('call', 'icall', 'iset') for e in (l, r) for k in nodes(e).values()): continue
        if any(w is not None and abs(w) == math.inf for w in (cval(l), cval(r))): continue
        if not mm & 8:
            cl = {}
            for k in list(nodes(l).values()) + list(nodes(r).values()):
                if k.op == 'sqrt': o.append(k.a[0]); cl[k.id] = mk('sqrtc', k.a[0])
            if cl: l, r = subst(l, cl), subst(r, cl)
        mm &= 7
        if mm in (LT, LT | EQ): o.append(r - l)
        elif mm in (GT, GT | EQ): o.append(l - r)
        elif mm == EQ: o += [l - r, r - l]
    return o
def tdomain(k, pc, p, T):
    if k == 1: return p >= witness.psat(T)
    if T <= 623.15: return p <= witness.psat(T)
    return T > 863.15 or p <= witness.B23p(T)
def piece_of(y, k, p, Y):
    if k == 1: return '1'
    if p <= 4.0: return '2a'
    if y == 's': return '2b' if Y >= 5.85 else '2c'
    if p <= H6: return '2b below 6.546 MPa'
    return '2b' if Y >= dbl(H2BC, {'p': p}) else '2c'
LIMS = {'1': 0.025, '2a': 0.01, '2b': 0.01, '2b below 6.546 MPa': 0.01, '2c': 0.025}
_h = {}
def samples(y, k, rnd, extra=()):
    """(p, T, Y, T') of states of region k"""
    pts = list(extra)
    for p, T in witness.states(k, 3000, rnd): pts.append((p, T))
    for _ in range(2500):
        u = rnd.random()
        if k == 1: T = 273.15 + 350 * u; pts.append((rnd.choice([witness.psat(T) * (1 + 10 ** rnd.uniform(-7, -1)), 100 * rnd.random() ** .5]), T))
        else:
            T = 273.15 + 800 * u; hi = witness.psat(T) if T <= 623.15 else witness.B23p(T) if T <= 863.15 else 100.0
            pts += [(min(hi, 100.0) * (1 - 10 ** rnd.uniform(-7, -1)), T), (4.0 * (1 + rnd.choice([-1, 1]) * 10 ** rnd.uniform(-9, -2)), T)]
    pts = [(p, T) for p, T in pts if 0.000611213 <= p <= 100.0 and 273.15 <= T <= (623.15 if k == 1 else 1073.15) and tdomain(k, None, p, T)]
    rp = replay(); Y = rp.many([('pt', p, T - 273.15, IDS[y.upper()], k) for p, T in pts], 120)
    g = [(p, T, h) for (p, T), h in zip(pts, Y) if isinstance(h, float) and h == h]
    t = rp.many([('p' + y, p, h, IDS['T'], k) for p, T, h in g], 120)
    return [(p, T, h, w) for (p, T, h), w in zip(g, t)]
def hunt(ck, name, y, k, pc, why, extra=(), rep=None):
    """None (violated, reported) or the number of agreeing states"""
    key = (y, k)
    if key not in _h: _h[key] = samples(y, k, random.Random(SEED))
    n = 0
    for p, T, h, w in _h[key] + (samples(y, k, random.Random(SEED), extra)[:len(extra)] if extra else []):
        if piece_of(y, k, p, h) != pc: continue
        if not isinstance(w, float) or not abs(w + 273.15 - T) <= LIMS[pc]:
            ck.violate(name, f'p={p!r} MPa, T={T!r} K: {y}(p,T)={h!r}; p{y}({p!r},{h!r},OT)={w!r}, off by {abs(w + 273.15 - T) if isinstance(w, float) else w!r} K (limit {LIMS[pc]} K)', {'query': ('p' + y, p, h, IDS['T'], k), 'got': w, 'want': T - 273.15}, rep); return None
        n += 1
    return n
def c16():
    ck = Check('C16'); A = TApi(); obl = []; T = fv('T'); p = fv('p')
    backward.lemmas  # shared module, contracts below
    for nm in ('ph2T_reg1', 'ps2T_reg1', 'ph2T_reg2a', 'ph2T_reg2b', 'ph2T_reg2c', 'ps2T_reg2a', 'ps2T_reg2b', 'ps2T_reg2c', 'enthalpy_2bc', 'pT2h_reg1', 'pT2s_reg1', 'pT2h_reg2', 'pT2s_reg2', 'p_saturation', 'B23_T2p'):
        if A.C.holds(nm): ck.fns.add(nm)
    jobs = []; st = {}
    for k in (1, 2):
        for y in 'hs':
            # the forward function
            Ys = []; why = None
            try:
                for q in A.q('pt', k, IDS[y.upper()]):
                    if sat(zatoms(q.cons.atoms) + zatoms([ge(a, 0.0006), le(a, 100.0), ge(b + C27, 273.15), le(b + C27, 623.15 if k == 1 else 1073.15)])) is False: continue
                    if q.status != 'ret' or not isinstance(q.ret, N): why = 'a path of pt does not return a value'; continue
                    S = PROPS[k][1][y.upper()]
                    Ys.append(S if agree(q.ret, subst(S, {_p.id: a, _T.id: b + C27})) else subst(subst(interp_all(q.ret), {mk('fadd', b, C27).id: T}), {a.id: p}))
                bk = A.q('p' + y, k, IDS['T'])
            except Unsupported as e: why = 'unsupported: ' + str(e)[:200]; bk = []
            Ys = list({e.id: e for e in Ys}.values())
            if len(Ys) != 1 and not why: why = f'{len(Ys)} different forward expressions'
            for pc, lim, cond, pr, po in pieces(y, k):
                name = f'p{y} region {pc}: |T(p,{y}(p,T)) - T| <= {int(lim * 1000)} mK'; obl.append((name, y, k, pc)); st[name] = [[], 0, 0, False]
                if why: st[name][0].append((why, None)); continue
                Y = Ys[0]
                if b.id in nodes(Y) : st[name][0].append(('forward expression does not reduce to (p,T)', None)); continue
                m = {a.id: p, b.id: Y}
                for q in bk:
                    if sat(zatoms(q.cons.atoms) + zatoms(cond)) is False: continue
                    if q.status != 'ret' or not isinstance(q.ret, N): st[name][0].append(('a path does not return a value', None)); continue
                    st[name][2] += 1
                    e = subst(interp_all(q.ret) + C27, m)
                    # t - 273.15 + 273.15
                    r = interp_all(q.ret)
                    if r.op == 'fsub' and cval(r.a[1]) == 273.15: e = subst(r.a[0], m)
                    if any(x.op in ('call', 'icall') for x in nodes(e).values()): st[name][0].append(('unknown function in the path', None)); continue
                    known = any(agree(q.ret, backward.AB(SIMPLE[f'p{y}2T_reg{pc[:2]}'][1], 'p' + y) - C27) for _ in (0,))
                    if not known: st[name][3] = True
                    for Tr, pr2, o in slices(k, pr): jobs.append((name, e, Y, lim, Tr, pr2, o + po(Y) + cond_out(q.cons.atoms, m)))
    # obligations whose code differs from the published equation: look for a failing state first
    for name, y, k, pc in obl:
        if st[name][3] or st[name][0]:
            if hunt(ck, name, y, k, pc, '') is None: st[name][3] = 'violated'
    jobs = [j for j in jobs if st[j[0]][3] != 'violated']
    jobs.sort(key=lambda j: -(j[3] < .02) * (j[4][1] < 700) * j[4][0])
    def job(j, cap=10 ** 9):
        name, e, Y, lim, Tr, pr, out = j
        d = [diff(Y, T), diff(Y, p)]; ti = [diff(d[0], T), diff(d[0], p), diff(d[1], p)] + d + [Y]
        try: r = ivl.bound(e - T, lim, {'p': pr, 'T': Tr}, out, tight=ti, cap=cap, tmax=300 if TIER == 'quick' else 900)
        except Unsupported as x: return False, 0, str(x), 0
        return r.ok, r.boxes, r.left, r.t
    first = {}
    for j in jobs: first.setdefault((j[0], tuple(x.id for x in j[6])), j)   # one compilation per kernel
    pmap(lambda j: job(j, 0), list(first.values()))
    rs = pmap(job, jobs)
    for j, (good, r) in zip(jobs, rs):
        w = st[j[0]]
        if not good: w[0].append(('no result: ' + str(r), None)); continue
        w[1] += r[1]
        if not r[0]: w[0].append(('interval proof not closed', r[2] if isinstance(r[2], list) else None))
    for name, y, k, pc in obl:
        bad, boxes, n, v = st[name]
        if v == 'violated': continue
        if not bad and n: ck.ok(name, 'symbolic execution + PIT + second-order interval branch and bound'); ck.cov.setdefault('boxes', {})[name] = boxes; continue
        ex = []
        for _, l in bad:
            for (t0, t1), (p0, p1) in l or []: ex += [(p0 + (p1 - p0) * i / 8, t0 + (t1 - t0) * q / 8) for i in range(9) for q in range(9)]
        m = hunt(ck, name, y, k, pc, '', ex, {'why': [x[0] for x in bad][:5], 'open': [x[1] for x in bad][:3]})
        if m is None: continue
        if m >= 200: ck.bounded(name, f'{(bad or [("no path",)])[0][0]}; {m} replayed states agree')
        else: ck.violate(name, (bad or [('no path',)])[0][0], None, bad[:3])
    ck.assume += ['(p,T) to (p,h)/(p,s) and back with the region fixed; the automatic query returns the explicit-region value (C03) wherever C20/C05 detection gives that region', 'on the 2b/2c boundary and at 4 MPa either neighbouring tolerance is accepted'] + AS97
    ck.need(9)
    return ck.finish(TB97 + ['vc/ivc.py generated interval kernels (gcc, directed rounding; exp/log/pow widened by 8 ulp)'])
