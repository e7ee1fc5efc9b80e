"""Obligation bookkeeping, evidence, and the executor set-ups shared by all checks."""
import os, sys, json, time, re, random, traceback
import build, ir, sym, core
from core import *
from sym import Exec, Path, show, iset, compl
V = build.V
T0 = time.time()
TIER = os.environ.get('VERIF_TIER', 'quick')
KNOWN = os.path.join(V, 'known_findings.txt')

class Module(ir.Module): pass
_mod = None
def module():
    global _mod
    if _mod is None:
        with build.lock('irload'):
            fs = build.ir()
            _mod = ir.Module()
            for f in fs: _mod.load(f)
    return _mod
_rp = None
def replay():
    global _rp
    if _rp is None: _rp = build.Replay()
    return _rp

API2 = ['pt', 'ph', 'ps', 'hs', 'pv', 'tv', 'th', 'ts']
API1 = ['px', 'tx', 'hx', 'sx']
IDS = dict(zip('P T D V H S E U CP CV W KS F G Z X R EC KT DVDT DVDP DPDT IJTC JTC DV KV TC TD PR ST SDC PC BETAP FI FU ALFAP'.split(), range(36)))
NAME = {v: 'O' + k for k, v in IDS.items()}
OWN = {n: tuple(IDS[c.upper()] for c in n) for n in API2 + API1}
REG_RE = re.compile(r'(^|::)(pT|pt|ph|ps|hs|pv|tv|Tv|th|Th|ts|Ts|px|Tx|hx|sx|Td|td)_reg\d$')
DET_RE = re.compile(r'(^|::)(pT|ph|ps|hs|pv|tv|th|ts)_sub_region$')

def rettype(name):
    l = module().by_name(name)
    return (l[0].ret.k, l[0].ret.n if l[0].ret.k == 'i' else None) if l else (None, None)
def opq(X, name, args):
    return X.opq(X.find(name), args)
def pol_dispatch(name, args, X):
    """region functions and region detection stay uninterpreted"""
    if (REG_RE.search(name) or DET_RE.search(name)) and module().by_name(name): return opq(X, name, args)
_sigmemo = {}
def is_state_fn(name):
    """double(double,double..) function of the crate"""
    r = _sigmemo.get(name)
    if r is None:
        l = module().by_name(name)
        r = bool(l) and len(l) == 1 and l[0].ret.k == 'double' and len(l[0].params) > 0 and all(t.k == 'double' for t, _, _ in l[0].params)
        _sigmemo[name] = r
    return r
def pol_scalar(name, args, X):
    """all double(double...) functions stay uninterpreted (their value is irrelevant)"""
    if is_state_fn(name): return opq(X, name, args)
def pol_scalar_det(name, args, X):
    if DET_RE.search(name) and module().by_name(name): return opq(X, name, args)
    return pol_scalar(name, args, X)

class Fail(Exception): pass
class Check:
    def __init__(s, pid, level='proof', title=''):
        s.pid = pid; s.level = level; s.viol = []; s.ob = {}; s.bound = {}; s.notes = []; s.fns = set(); s.assume = []; s.cov = {}; s.min = 1; s.err = []; s.samples = []; s.evals = 0
        s.fwd = []
    def ok(s, name, backend='symbolic execution'): s.ob[name] = backend
    def bounded(s, name, why): s.bound[name] = why
    def violate(s, name, what, replay=None, verifier=None):
        if name in [v[0] for v in s.viol]: return
        s.viol.append((name, what, replay, verifier))
    def need(s, n): s.min = n
    def finish(s, trusted=(), checker='python3-vt vc/run.py', extra=None):
        os.makedirs(V + '/evidence/replays', exist_ok=True)
        known = {}
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                l = l.strip()
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
                if m and m.group(1) == s.pid: known[m.group(2)] = m.group(3)
        total = len(s.ob) + len(s.bound) + len(s.viol)
        kf = [v for v in s.viol if v[0].replace(' ', '_') in known]
        s.viol = [v for v in s.viol if v not in kf]
        for v in kf: print(f'KNOWN-FINDING: property={s.pid} {v[1]}')
        X = {'obligations': total, 'discharged': len(s.ob), 'bounded_obligations': len(s.bound),
             'checker_cmd': checker, 'trusted_base': list(trusted),
             'functions_under_contract': sorted(s.fns), 'n_functions_under_contract': len(s.fns),
             'back_ends': {}, 'solver': {'pit_queries': ST.pit, 'pit_s': round(ST.pit_s, 3), 'z3_queries': ST.z3, 'z3_s': round(ST.z3_s, 3), 'mp_evaluations': ST.mpe},
             'replay_evaluations': _rp.n if _rp else 0,
             'bounded_stand_ins': [f'{k}: {v}' for k, v in sorted(s.bound.items())][:60],
             'samples': s.samples[:12] or sorted(s.ob)[:12]}
        for b in s.ob.values(): X['back_ends'][b] = X['back_ends'].get(b, 0) + 1
        if s.level == 'exploration':
            X['evaluations'] = s.evals or X['replay_evaluations']; X.setdefault('distinct_nontrivial', s.evals)
            X.setdefault('rule', 'see explanation')
        X.update(s.cov); X.update(extra or {})
        ev = {'property': s.pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': s.level, 'coverage': X,
              'assumptions': list(s.assume), 'wall_s': round(time.time() - T0, 2), 'violations': len(s.viol)}
        json.dump(ev, open(f'{V}/evidence/{s.pid}.json', 'w'), indent=1)
        rc = 0
        for k, (name, what, rep, ver) in enumerate(s.viol):
            path = f'{V}/evidence/replays/{s.pid}_{k}.json'
            json.dump({'property': s.pid, 'obligation': name, 'what': what, 'failing_input': rep, 'verifier': ver}, open(path, 'w'), indent=1, default=str)
            print(f'  failed obligation: {name}: {what}')
            print(f'VIOLATION property={s.pid} replay={path}' + ('' if rep else ' no-failing-input-found'))
            rc = 1
            if k >= 9: break
        if rc == 0 and len(s.ob) + len(s.bound) < s.min:
            print(f'ERROR {s.pid}: only {len(s.ob)}+{len(s.bound)} obligations generated, expected at least {s.min}'); rc = 3
        print(f'{s.pid}: {len(s.ob)} obligations discharged, {len(s.bound)} bounded, {len(s.viol)} violated, {round(time.time() - T0, 1)} s')
        return rc
