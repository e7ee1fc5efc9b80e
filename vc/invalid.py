"""C05: states outside the validity range. The region query is proved to return only 1..5 or a negative code (abstract exploration of the
real IR, all doubles including NaN); the dispatch of an undetected state returns that code for every other id (symbolic execution);
the (p,t) codes and the range checks of the quality queries are case analyses over the executed paths."""
from term import *
import dispatch, detect, api
from dispatch import XR, TB
a, b = fv('a'), fv('b')
M5 = ['P T V H S E U F G X R'.split()]
def isneg(v): return v is not None and v < 0
OUT = {'p': [(LT, detect.PMIN, 'p below 0.000611212677444 MPa'), (GT, 100.0, 'p above 100 MPa')], 't': [(LT, 0.0, 't below 0'), (GT, 2000.0, 't above 2000')]}
def odd_inputs(n, rnd, cnt=3000):
    """inputs outside the covered domain"""
    B = {'p': [-1e300, -1.0, 0.0, 1e-9, 0.0006, 0.0006112, 100.0000001, 101., 500., 1e9, math.inf, -math.inf, math.nan], 't': [-1e9, -300., -273.15, -50., -1e-6, 2000.0001, 2100., 1e9, math.inf, -math.inf, math.nan],
         'h': [-1e9, -10., -1.0, 7376.99, 9000., 1e9, math.inf, -math.inf, math.nan], 's': [-1e9, -1., -0.01, 13.91, 20., 1e9, math.inf, -math.inf, math.nan], 'v': [-1e9, -1., 0.0, 1e-9, 0.0009, 2000., 1e9, math.inf, -math.inf, math.nan]}
    G = dispatch.RANGES; out = []
    X, Y = n[0], n[1]
    for x in B[X]:
        for y in G[Y] + B[Y]: out.append((x, y))
    for y in B[Y]:
        for x in G[X]: out.append((x, y))
    out += dispatch.grid(n, rnd, cnt)
    return out
def replay_codes(n, ids, rnd, cnt=2500):
    """(query, got, expected) where an undetected state does not return its code"""
    rp = replay(); pts = odd_inputs(n, rnd, cnt); reg = rp.many([(n, x, y, 16, None) for x, y in pts], 60); qs = []; k = 0
    for (x, y), r in zip(pts, reg):
        if not isinstance(r, float) or r not in (1., 2., 3., 4., 5.) and not r < 0: return [((n, x, y, 16, None), r, '1..5 or a negative code')], len(pts)
        if (x != x or y != y) and r > 0: return [((n, x, y, 16, None), r, 'a negative code')], len(pts)
        if r < 0:
            for o in ids: qs.append(((n, x, y, o, None), -9999.0 if o == 15 else r))
    got = rp.many([q for q, _ in qs], 60)
    return [(q, g, w) for (q, w), g in zip(qs, got) if g != w][:1], len(pts) + len(qs)
SLACK = {'h': 0.5, 's': 2e-3, 't': 1e-6}
def wide(n, rnd, cnt):
    def pick(c):
        u = rnd.random()
        if c == 'p': return 10 ** rnd.uniform(-3.5, 2.1) if u < .6 else rnd.uniform(0, 105)
        if c == 't': return rnd.uniform(-5, 2010) if u < .5 else rnd.uniform(-1, 600)
        if c == 'h': return rnd.uniform(-20, 7600) if u < .5 else rnd.uniform(-20, 4300)
        if c == 's': return rnd.uniform(-.1, 14) if u < .5 else rnd.uniform(-.1, 10)
        return 10 ** rnd.uniform(-3.05, 3.3) if u < .5 else 10 ** rnd.uniform(-3.02, -2)
    return [(pick(n[0]), pick(n[1])) for _ in range(cnt)]
def accepted(ck, n, rnd, cnt):
    """bounded: a state that detection accepts is a state of the IF97 range, and it reproduces the inputs"""
    rp = replay(); pts = wide(n, rnd, cnt); R = rp.many([(n, x, y, 16, None) for x, y in pts], 60)
    P = [(q, int(r)) for q, r in zip(pts, R) if r in (1., 2., 3., 4., 5.)]
    val = {o: rp.many([(n, x, y, IDS[o], None) for (x, y), _ in P], 120) for o in 'PTVX'}
    def qry(c, i):
        k = P[i][1]; p, t, v, x = (val[o][i] for o in 'PTVX')
        if c == 't': return ('tv', t, 1.0, 1, None)
        if k == 4: return ('px', p, x, IDS[c.upper()], None)
        return ('tv', t, v, IDS[c.upper()], 3) if k == 3 else ('pt', p, t, IDS[c.upper()], k)
    B = {c: rp.many([qry(c, i) if all(isinstance(val[o][i], float) for o in 'PTVX') else ('pt', 1.0, 20.0, 16, None) for i in range(len(P))], 120) for c in n}
    nm = f'{n}: an accepted state lies in the validity range'; nb = f'{n}: an accepted state reproduces its inputs'; bad = []; bb = []; used = 0
    for i, (q, k) in enumerate(P):
        p, t, v, x = (val[o][i] for o in 'PTVX')
        if not all(isinstance(z, float) for z in (p, t, v, x)): bad.append((q, k, 'does not return')); continue
        lo, hi = {1: (0., 350.), 2: (0., 800.), 3: (350., 590.), 4: (0., 373.946), 5: (800., 2000.)}[k]
        xs = 1e-9 if n != 'hs' else 2e-3 if t < 365 else 0.1
        # region 3 with an input beside (p,t): the backward equations allow 0.1 K and 0.1 %
        if not (0 < p <= (50.05 if k == 5 else 22.0641 if k == 4 else 100.15) and lo - .1 <= t <= hi + .1 and (k != 4 or n == 'pt' or -xs <= x <= 1 + xs) and v > 0): bad.append((q, k, f'p={p!r} t={t!r} v={v!r} x={x!r}')); continue
        if p < detect.PMIN or k == 4 and (n == 'pt' or p > 22.05 or n == 'hs' and not 0 <= x <= 1) or n == 'ps' and k == 3 and p > 99.9: continue
        used += 1
        for j, c in enumerate(n):
            g, w = q[j], B[c][i]; lim = SLACK.get(c) or 2e-3 * abs(g)
            if not (isinstance(w, float) and abs(g - w) <= lim): bb.append((q, k, f'{c} of the reported state is {w!r}'))
    if bad: q, k, w = bad[0]; ck.violate(nm, f'{n}({q[0]!r},{q[1]!r}) is accepted as region {k}: {w}; {len(bad)} of {len(P)} states', {'query': (n, *q, 16, None), 'got': w})
    else: ck.bounded(nm, f'replay of {len(P)} accepted states out of {cnt}')
    if bb: q, k, w = bb[0]; ck.violate(nb, f'{n}({q[0]!r},{q[1]!r}) is accepted as region {k}, but {w}; {len(bb)} of {used} states', {'query': (n, *q, 16, None), 'got': w})
    else: ck.bounded(nb, f'replay of {used} accepted states')
def c05():
    ck = Check('C05'); M = module(); X = Exec(M, pol_dispatch); A = AX(M); D = detect.DApi(); rnd = random.Random(SEED)
    doc = lambda n: [i for i in range(36) if i not in OWN[n] and i != 16] + [36, 99, -7, 2 ** 31 - 1, -2 ** 31]
    for n in API2:
        f = X.find('v_' + n); todo = []
        for args, nm, good in (([a, b, 16], 'the region query returns 1..5 or a negative code for all doubles', lambda v: v in (1., 2., 3., 4., 5.) or v < 0),
                ([fc(math.nan), b, 16], f'a NaN {n[0]} gives a negative code', isneg), ([a, fc(math.nan), 16], f'a NaN {n[1]} gives a negative code', isneg)):
            A.deadline = time.time() + 60
            try: r = A.explore(f, args); w = 'returns something else than a constant' if r.vals is None else f'returns {sorted(v for v in r.vals if not good(v))}' if not all(map(good, r.vals)) else r.why
            except (Unsupported, KeyError) as e: r = None; w = f'unsupported: {e}'
            if r and r.ok and r.vals and all(map(good, r.vals)): ck.ok(f'{n}: {nm}', 'abstract state exploration')
            else: todo.append((f'{n}: {nm}', w))
        # dispatch of undetected states
        o = iv('o'); base = [(iset(o, [(x, x) for x in OWN[n]]), False)]
        try:
            auto = X.run(f, [a, b, o], base); det = list(dispatch.det_node(X, auto)); w = 'region detection not recognised'
            if len(det) == 1:
                au = X.run(f, [a, b, o], base + [(iset(det[0], compl([(1, 5)])), True)]); w = None if au else 'no path'
                for p in au:
                    d = p.cons.idom.get(o.id, sym.I32FULL); inx = d == ((15, 15),)
                    if not (p.status == 'ret' and isinstance(p.ret, N)) or (cval(p.ret) != -9999.0 if inx else p.ret is not mk('sitofp', det[0])): w = f'ids {d}: returns {show(p.ret) if isinstance(p.ret, N) else p.status}'
        except Unsupported as e: w = f'unsupported: {e}'
        nm = f'{n}: an undetected state returns the region query code for every id, -9999 for the quality'
        if w is None: ck.ok(nm, 'symbolic execution (detection code and id symbolic)')
        else: todo.append((nm, w))
        # first input out of range
        for m, lim, txt in OUT.get(n[0], ()) if n != 'pt' else ():
            nm = f'{n}: {txt} is not covered'; x = a if n[0] == 'p' else a + C27_
            lim_ = lim if n[0] == 'p' else lim + 273.15
            if n == 'pv' and m == LT: lim_ = 1e-8; nm = 'pv: p below 1e-8 MPa is not covered'
            try: w = detect.decide(D.X.run(f, [a, b, 16], [(mkrel(m, x, fc(lim_)), True)]), [], detect.NEG)
            except Unsupported as e: w = (f'unsupported: {e}', None)
            if w is None: ck.ok(nm, 'symbolic execution')
            else: todo.append((nm, w[0]))
        if todo:
            hit, cnt = replay_codes(n, doc(n), rnd)
            ext = []
            if not hit:       # the codes of first inputs out of range
                for m, lim, txt in OUT.get(n[0], ()):
                    ext += [(x, y) for x in odd_inputs(n, rnd, 0) for y in (x[1],) for x in (x[0],) if (x < lim if m == LT else x > lim)]
                for (x, y), g in zip(ext, replay().many([(n, x, y, 16, None) for x, y in ext], 60)):
                    if not g < 0: hit = [((n, x, y, 16, None), g, 'a negative code')]; break
            for nm, w in todo:
                if hit: q, g, e = hit[0]; ck.violate(nm, f'{q} = {g}, expected {e} ({w})', {'query': q, 'got': g, 'expected': e}, str(w)[:600])
                else: ck.bounded(nm, f'{w}; {cnt + len(ext)} replayed queries agree')
    for n in API2: accepted(ck, n, rnd, 8000 if TIER == 'quick' else 60000)
    # (p,t) codes
    PS, PB = detect.pt_nodes(D); cs = detect.pt_out(D)
    try: ps = D.X.run(D.X.find('v_pt'), [a, b, 16]); err = None
    except Unsupported as e: ps = None; err = f'unsupported: {e}'
    bad = []
    for nm, cd, al, ax in cs:
        w = (err, None) if ps is None else detect.decide(ps, cd, al, ax, [PS])
        if w is None: ck.ok(f'pt: code for {nm}', 'symbolic execution + z3 case analysis')
        else: bad.append((nm, w))
    if bad:
        pts = detect.pt_pts(D, rnd) + [(x, y, None) for x, y in odd_inputs('pt', rnd, 0) if x == x and y == y]
        for nm, w in bad: detect.hunt(ck, D, 'pt', f'pt: code for {nm}', w, [c for c in cs if c[0] == nm], pts)
    # quality queries
    o = iv('o'); o_ = [(iset(o, compl([(i, i) for i in ()])), True)]
    for n in API1:
        lo, hi = XR[n]; f = X.find('v_' + n); base = [(iset(o, [(x, x) for x in OWN[n]]), False)]
        # the documented limits are of t in C for (t,x): T = t + 273.15 in the code
        x = a if n != 'tx' else a + C27_; l_, h_ = (lo, hi) if n != 'tx' else (273.15, 647.096); todo = []
        for txt, cd in ((f'{n[0]} below {lo}', [(mkrel(LT, x, fc(l_)), True)]), (f'{n[0]} above {hi}', [(mkrel(GT, x, fc(h_)), True)]), (f'{n[0]} NaN', None), ('x below 0', [(mkrel(LT, b, fc(0.0)), True)]), ('x above 1', [(mkrel(GT, b, fc(1.0)), True)]), ('x NaN', None)):
            nm = f'{n}: {txt} gives -9999 for every non-input id'
            try:
                A_ = [a, b]
                if cd is None: A_[0 if txt[0] == n[0] else 1] = fc(math.nan)
                ps = X.run(f, A_ + [o], base + (cd or []))
                odd = [p for p in ps if not (p.status == 'ret' and isinstance(p.ret, N) and cval(p.ret) == -9999.0)]
                w = 'no path' if not ps else f'returns {show(odd[0].ret, 3) if isinstance(odd[0].ret, N) else odd[0].status}' if odd else None
            except Unsupported as e: w = f'unsupported: {e}'
            if w is None: ck.ok(nm, 'symbolic execution (all ids)')
            else: todo.append((nm, w, txt))
        for nm, w, txt in todo:
            k = 0 if txt[0] == n[0] else 1
            v = {'NaN': [math.nan], 'below': [(lo if k == 0 else 0.0) - d for d in (1e-6, 1e-3, 1., 1e9, math.inf)] + [math.nextafter(lo, -1e9) if k == 0 and n != 'tx' else -5e-324 if k else -1e-6],
                 'above': [(hi if k == 0 else 1.0) + d for d in (1e-6, 1e-3, 1., 1e9, math.inf)] + [math.nextafter(hi if k == 0 else 1.0, 1e9) if n != 'tx' or k else hi + 1e-6]}[txt.split()[1]]
            if n == 'sx' or n == 'hx' or n == 'px':
                if k == 0 and 'below' in txt: v = [x for x in v if x < lo]
            inn = [lo, hi, (lo + hi) / 2, lo + (hi - lo) / 7] if k else [0.0, 1.0, .5, .03]
            qs = [(n, x, y, i, None) for i in [j for j in range(36) if j not in OWN[n]] + [77, -9] for q in v for r in inn for x, y in ([(q, r)] if k == 0 else [(r, q)])]
            bad = [(q, g) for q, g in zip(qs, replay().many(qs, 60)) if g != -9999.0][:1]
            if bad: ck.violate(nm, f'{bad[0][0]} = {bad[0][1]}, expected -9999 ({w})', {'query': bad[0][0], 'got': bad[0][1]}, w)
            elif w.startswith('unsupported'): ck.bounded(nm, f'{w}; {len(qs)} replayed queries agree')
            else: ck.violate(nm, w, None, w)
    ck.fns |= set(API2 + API1) | {n + '_sub_region' for n in ('pT', 'ph', 'ps', 'hs', 'pv', 'tv', 'th', 'ts')}
    ck.need(60)
    ck.assume += ['T is the floating-point sum t + 273.15, as everywhere in the library']
    return ck.finish(TB + ['vc/term.py abstract semantics'])
C27_ = fc(273.15)
