"""API-level obligations: every public query in every region, executed symbolically under the verified contracts;
properties are relations between the values of several queries at the same inputs (joint paths)."""
from engine import *
from contracts import *
from contracts import _p, _T, _d
a, b, o_ = fv('a'), fv('b'), iv('o')
_C = None
def contracts():
    global _C
    if _C is None: _C = Contracts()
    return _C
INT.add('surface_tension', (_T,), if97.surft(_T))   # under the precondition T in [248.15,647.096], added by the user of ST
REGS = (1, 2, 3, 5)
STATEFN = re.compile(r'::(pT2v_reg3|p[hsv]2T_reg\d|p[hs]2v_reg3|hs2p_reg\d|T[vhs]2p_reg\d|p2Tmin_reg2|T2pmax_reg2)$')   # inversion functions: state only, contracts elsewhere
# functions kept uninterpreted by name (their bodies only determine the state); any other double function is a helper and is read
# through unless it has many paths
OPAQUE = {'T2phmin_reg1', 'p2Tmax_reg1', 'p2Tvmin_reg1', 'T2pmax_reg2', 'p2Tmin_reg2', 'pT2v_reg3', 'pT2v_sat_reg3', 'hs2T_reg4', 'hs2p_reg5', 'ph2s_reg5'} | {
          f'{x}2{y}_reg{k}' for k in REGS for x, y in (('pv', 'T'), ('ph', 'T'), ('ps', 'T'), ('Tv', 'p'), ('Th', 'p'), ('Ts', 'p'), ('Th', 'd'), ('Ts', 'd'))}
class Api:
    def __init__(s, mode='A'):
        s.M = module(); s.C = contracts(); s.mode = mode; s.X = Exec(s.M, s.pol); s.memo = {}; s.busy = set()
    def pol(s, name, args, X):
        if not name.startswith('seuif97::'): return None
        r = s.C.policy(name, args, X)
        if r is not None: return r
        if is_state_fn(name) and (s.mode == 'A' or STATEFN.search(name)):
            fn = X.find(name)
            ps = X.summary(fn, args)
            if len(ps) == 1 and ps[0].status == 'ret' and not ps[0].cons.atoms: return ps[0].ret
            if not STATEFN.search(name) and name.split('::')[-1] not in OPAQUE and len(ps) <= 8 and all(q.status == 'ret' for q in ps): return None
            return X.opq(fn, args)
    def q(s, n, k, o, pre=()):
        key = (n, k, o, tuple((c.id, v) for c, v in pre))
        r = s.memo.get(key)
        if r is None:
            fn = s.X.find(('vr_' if k is not None else 'v_') + n)
            r = s.memo[key] = s.X.run(fn, [a, b, o] + ([k] if k is not None else []), pre)
        return r

# ------------------------------------------------------------------ states and joint relations
C27 = fc(273.15)
def state(A, n, k):
    """(formals, nodes) of the state in which every property of this query is claimed to be: (p,T), region 3 (T,d).
    Own inputs are the inputs, the rest are the library's own answers to OP / OT / OV."""
    def one(c):
        i = IDS[c]
        if i in OWN[n]: return [((), (a, b)[OWN[n].index(i)])]
        return [(tuple(x.cons.atoms), x.ret if x.status == 'ret' else None) for x in A.q(n, k, i)]
    r = []
    for ta, t in one('T'):
        for xa, x in one('V' if k == 3 else 'P'):
            if t is None or x is None: r.append((ta + xa, None)); continue
            T = t + C27
            r.append((ta + xa, (T, 1.0 / x) if k == 3 else (x, T)))
    return r
def at_state(e, k, st):
    f = PROPS[k][0]
    return subst(e, {f[0].id: st[0], f[1].id: st[1]})
_ex = {}
def expand(n):
    """inline every interpreted call"""
    r = _ex.get(n.id)
    if r is not None: return r
    todo = [n]
    while todo:
        k = todo[-1]
        if k.id in _ex: todo.pop(); continue
        w = [x for x in k.a if isinstance(x, N) and x.id not in _ex]
        if w: todo += w; continue
        todo.pop()
        aa = [_ex[x.id] if isinstance(x, N) else x for x in k.a]
        if k.op == 'call' and k.a[0] in INT.t and len(INT.t[k.a[0]][0]) == len(aa) - 1:
            f, e = INT.t[k.a[0]]
            _ex[k.id] = expand(subst(expand(e), {v.id: x for v, x in zip(f, aa[1:])}))
        else: _ex[k.id] = mk(k.op, *aa) if aa else k
    return _ex[n.id]
