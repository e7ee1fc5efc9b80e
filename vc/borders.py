"""C17: agreement of neighbouring formulations along the region borders. The real API is executed symbolically with the border
substituted for its inputs; every path of every query is bounded by one-dimensional interval branch and bound."""
from api import *
from contracts import _p, _T, _d
import if97, witness, ivl
from par import pmap
from if97 import *
from witness import Fl
a, b = fv('a'), fv('b')
z = fv('z')
LIM = {'V': '0.2 %', 'H': '1 kJ/kg', 'S': '2 J/(kg K)'}
class BApi(Api):
    """everything but verified contracts is inlined"""
    def pol(s, name, args, X): return s.C.policy(name, args, X) if name.startswith('seuif97::') else None
def interp_all(n, sub_=lambda p: True):
    """contract calls -> their published expressions: p_saturation at constants inside its range, T_saturation where sub_(argument)
    confirms that the path keeps it below the critical pressure"""
    n = expand(n); m = {}
    for k in nodes(n).values():
        if k.op != 'call': continue
        if short(k.a[0]) == 'p_saturation' and closed(k.a[1]) and 273.15 < dbl(k.a[1], {}) < 647.096: m[k.id] = subst(PSAT, {_T.id: k.a[1]})
        if short(k.a[0]) == 'T_saturation' and sub_(k.a[1]): m[k.id] = subst(TSAT, {_p.id: k.a[1]})
    return subst(n, m) if m else n
def outs(atoms, box=None, fix=lambda e: e):
    """nodes that are negative outside the path condition; T_saturation(p) is read as the published root where the other
    conditions keep p inside its range (interval lemma)"""
    def conv(sub_):
        o = []
        for c, v in atoms:
            if c.op != 'rel': continue
            m, l, r = c.a
            m = (m if v else 15 ^ m) & 7
            l, r = fix(interp_all(l, sub_)), fix(interp_all(r, sub_))
            if any(k.op in ('call', 'icall', 'iset') for e in (l, r) for k in nodes(e).values()): continue
            if any(abs(w) == math.inf for w in (cval(l), cval(r)) if w is not None): continue
            if m in (LT, LT | EQ): o.append(r - l)
            elif m in (GT, GT | EQ): o.append(l - r)
            elif m == EQ: o += [l - r, r - l]
        return o
    o0 = conv(lambda p: False); memo = {}
    if box is None: return o0
    def sub_(p):
        if p.id not in memo:
            q = fix(interp_all(p)); memo[p.id] = bool(ivl.prove([PC + 1e-9 - q, q - 0.0006113], box, o0, tmax=5, minw=1e-12))
        return memo[p.id]
    return conv(sub_)
def goals(prop, x, y):
    """positive nodes iff x and y agree within the limit"""
    if prop == 'V': return [0.002 * x - (y - x), 0.002 * x + (y - x)]
    lim = 1.0 if prop == 'H' else 0.002
    return [fc(lim) - (y - x), fc(lim) + (y - x)]
def paths(A, k, o, pa, tb, memo={}):
    key = (k, o, pa.id, tb.id)
    if key not in memo: memo[key] = A.X.run(A.X.find('vr_pt'), [pa, tb, IDS[o], k])
    return memo[key]
def setT(e, tb, Tn):
    """the sum t+273.15 is the border temperature"""
    return subst(e, {mk('fadd', tb, C27).id: Tn})
def prove(A, k1, k2, o, pa, tb, Tn, lo, hi):
    bad = []; boxes = 0; n = 0; t0 = time.time()
    for p1 in paths(A, k1, o, pa, tb):
        for p2 in paths(A, k2, o, pa, tb):
            at = [(c, v) for c, v in list(p1.cons.atoms) + list(p2.cons.atoms)]
            if not Cons().assume_all(at): continue
            if bad and time.time() - t0 > 90: continue
            if sat(zatoms(at) + zatoms([(mkrel(GT | EQ, z, fc(lo)), True), (mkrel(LT | EQ, z, fc(hi)), True)])) is False: continue
            out = outs(at, {'z': (lo, hi)}, lambda e: setT(e, tb, Tn))
            n += 1
            if p1.status != 'ret' or p2.status != 'ret' or not all(isinstance(q.ret, N) for q in (p1, p2)): gs = [fc(-1.0) + 0.0 * z]
            else: gs = [setT(e, tb, Tn) for e in goals(o, interp_all(p1.ret), interp_all(p2.ret))]
            if bad and time.time() - t0 > 60: bad.append(('not attempted (the obligation already failed on other paths)', at, None)); continue
            try: r = ivl.prove(gs, {'z': (lo, hi)}, out, tmax=60 if not bad else 10, minw=1e-11)
            except Unsupported as e: bad.append((f'unsupported: {e}', at, None)); continue
            boxes += r.boxes
            if not r.ok: bad.append(('not bounded by the interval proof', at, r.left))
    return (None if n and not bad else bad or [('no path', (), None)]), boxes, n
def hunt(ck, name, k1, k2, o, pts, why, extra):
    rp = replay(); v = rp.many([('pt', p, t, IDS[o], k) for k in (k1, k2) for p, t in pts], 120); n = len(pts); okc = 0
    for i, (p, t) in enumerate(pts):
        x, y = v[i], v[n + i]
        if not (isinstance(x, float) and isinstance(y, float) and x == x and y == y): bad = True
        elif o == 'V': bad = abs(x - y) > 0.002 * abs(x)
        else: bad = abs(x - y) > (1.0 if o == 'H' else 0.002)
        if bad: ck.violate(name, f'pt({p!r},{t!r},O{o}): region {k1} gives {x!r}, region {k2} gives {y!r} (limit {LIM[o]})', {'query': ('pt', p, t, IDS[o], (k1, k2)), 'got': [x, y]}, extra); return
        okc += 1
    if okc >= 200: ck.bounded(name, f'{why}; {okc} replayed border states agree')
    else: ck.violate(name, why, None, extra)
def near_left(left, border):
    """sample points around an open interval box"""
    r = []
    for l in left or []:
        lo, hi = l[0]
        r += [lo + (hi - lo) * i / 6 for i in range(7)]
    return r
def c17():
    ck = Check('C17'); A = BApi(); rnd = random.Random(SEED)
    B = subst(B23P, {_T.id: z})
    tz = z - C27   # the argument in degrees Celsius; (z - 273.15) + 273.15 = z in real arithmetic
    borders = [('623.15 K, regions 1 and 3', 1, 3, z, fc(350.0), fc(623.15), 16.5291973, 100.0, lambda q: (q, 350.0)),
               ('1073.15 K, regions 2 and 5', 2, 5, z, fc(800.0), fc(1073.15), 0.000611212677444, 50.0, lambda q: (q, 800.0)),
               ('B23, regions 2 and 3', 2, 3, B, fv('tc'), z, 623.1502, 863.1499999, lambda q: (dbl(B23P, {'T': q}), q - 273.15))]
    jobs = [((bd[0], *bd[1:6], bd[6] + (bd[7] - bd[6]) * i / NS, bd[6] + (bd[7] - bd[6]) * (i + 1) / NS if i < NS - 1 else bd[7], bd[8]), o) for bd in borders for o in 'VHS' for NS in [10 if bd[0].startswith('B23') else 1] for i in range(NS)]
    def job(j):
        (nm, k1, k2, pa, tb, Tn, lo, hi, pt), o = j
        try: w, boxes, n = prove(A, k1, k2, o, pa, tb, Tn, lo, hi)
        except Unsupported as e: w, boxes, n = [('unsupported: ' + str(e)[:200], (), None)], 0, 0
        return w and [(x[0], [(show(c), v) for c, v in x[1]], x[2]) for x in w], boxes
    for bd, o in jobs[:1]:
        for nm in ('p_saturation', 'T_saturation', 'B23_T2p', 'B23_p2T'): A.C.holds(nm)   # shared by the workers
    for k in (1, 2, 3, 5):
        for o in 'VHS':
            try: A.q('pt', k, IDS[o])
            except Unsupported: pass
    tot = {}
    for ((nm, *_), o), (good, r) in zip(jobs, pmap(job, jobs)):
        w, boxes = r if good else ([('no result: ' + r, (), None)], 0)
        e = tot.setdefault((nm, o), [[], 0]); e[0] += w or []; e[1] += boxes
    for nm, k1, k2, pa, tb, Tn, lo, hi, pt in borders:
      for o in 'VHS':
        name = f'{nm}: {o} within {LIM[o]}'; w, boxes = tot[nm, o]
        if not w: ck.ok(name, 'symbolic execution + interval branch and bound'); ck.cov.setdefault('border_boxes', {})[name] = boxes; continue
        qs = [lo, hi] + [lo + (hi - lo) * (i + rnd.random()) / 1500 for i in range(1500)]
        qs += [q for x in w for q in near_left(x[2], nm)]
        hunt(ck, name, k1, k2, o, [pt(q) for q in qs], w[0][0], {'paths': [x[1] for x in w[:3]], 'open': [x[2] for x in w[:3]]})
    # B23 forward and inverse
    C = A.C
    for nm, in_, out_, fw, bw, lo, hi, var in (('T(p(T)) = T', 'B23_T2p', 'B23_p2T', lambda q: q, None, 623.15, 863.15, 'T'), ('p(T(p)) = p', 'B23_p2T', 'B23_T2p', None, None, 16.5291642526045, 100.0, 'p')):
        name = f'B23: {nm} within 1e-6'
        ok = C.holds(in_) and C.holds(out_)
        f1, e1 = SIMPLE[in_]; f2, e2 = SIMPLE[out_]
        g = subst(e2, {f2[0].id: e1}); v_ = f1[0]
        r = ivl.prove([fc(1e-6) - (g - v_), fc(1e-6) + (g - v_)], {v_.a[0]: (lo, hi)}, minw=1e-9, tmax=30)
        if ok and r.ok: ck.ok(name, 'PIT contracts + interval branch and bound')
        else:
            # the code's own expressions
            try:
                X = Exec(A.M, None); f_in, f_out = A.C.bynm[in_][0], A.C.bynm[out_][0]
                ps = X.run(f_in, [v_]); ok2 = bool(ps)
                for q1 in ps:
                    for q2 in X.run(f_out, [q1.ret]):
                        e = q2.ret
                        r2 = ivl.prove([fc(1e-6) - (e - v_), fc(1e-6) + (e - v_)], {v_.a[0]: (lo, hi)}, outs(list(q1.cons.atoms) + list(q2.cons.atoms)), minw=1e-9, tmax=30); ok2 = ok2 and r2.ok
                        if not r2.ok and r2.left:
                            for q in near_left([r2.left[0]], ''):
                                val = witness.icall(X, f_out.name, [witness.icall(X, f_in.name, [q])])
                                if not abs(val - q) <= 1e-6: ck.violate(name, f'{out_}({in_}({q!r})) = {val!r} (functions executed on the IR)', {'input': q, 'got': val}, None); break
                if ok2: ck.ok(name, 'symbolic execution + interval branch and bound'); continue
                if name not in [v[0] for v in ck.viol]: ck.bounded(name, 'interval proof incomplete')
            except (Unsupported, KeyError, IndexError) as e: ck.bounded(name, f'B23 functions are not accessible by name: {e}')
    ck.fns |= {n for n, s in A.C.state.items() if s}
    ck.assume += ['at the lower end of the 623.15 K and B23 borders the relative 1e-5 neighbourhood of the saturation curve (where the three regions meet) is left out', 'on B23 the pressure is the exact real value of the border equation'] + AS97
    ck.need(11)
    return ck.finish(TB97 + ['vc/ivl.py interval arithmetic (numpy double, outward rounding)'])
