import json
CH = {
 'C01': ('symbolic execution of real LLVM IR against contracts (all paths, all inputs)', 'proof', 'Every path of every entry point, ids concrete, inputs and region symbolic over all doubles/i32: the result is the input node itself. Trusts rustc to IR, the IR reader and the executor.'),
 'C03': ('symbolic execution against dispatch contracts; region functions uninterpreted', 'proof', 'Path sets of automatic and explicit queries are compared for symbolic property id; region functions are uninterpreted symbols (their own contracts are C09-C15, C19).'),
 'C06': ('symbolic execution with symbolic property id', 'proof', 'The property id is symbolic over all undocumented values; every path must return -1000. State functions are uninterpreted.'),
 'C08': ('frame-condition scan of every reachable function in the real IR', 'proof', 'Syntactic frame proof over LLVM IR: no mutable global, no effectful callee is reachable from any entry point.'),
}
PITN = 'Every obligation is (pair, region, property id); state functions are replaced by verified contracts (else inlined) and the result is compared with the specification by randomized polynomial identity testing over a prime field after symbolic execution; branches are refuted with z3. Real-number semantics: float rounding is outside the proof.'
CH['C09'] = ('function contracts on real LLVM IR, discharged by symbolic execution + polynomial identity testing + z3', 'proof', PITN + ' Spec: IF97 Gibbs/Helmholtz equation differentiated symbolically from the published tables.')
CH['C10'] = (CH['C09'][0], 'proof', PITN)
CH['C11'] = (CH['C09'][0], 'proof', PITN + ' Partial derivatives are symbolic derivatives of the expression the library itself computes.')
CH['C12'] = (CH['C09'][0], 'proof', PITN + ' Correlations frozen from the published releases (thermal conductivity without critical enhancement, as the library documents).')
CH['C15'] = (CH['C09'][0] + '; interval lemmas for boundary-curve ordering', 'proof', PITN + ' Piecewise selection is decided by path conditions: each path must imply one published sub-region or a published boundary between two.')
CH['C19'] = (CH['C09'][0], 'proof', PITN + ' Iterative solvers and backward dispatchers stay uninterpreted: only one-state consistency is claimed.')
CH['C13'] = (CH['C09'][0] + '; interval sign lemmas for the roots', 'proof', 'The closed-form roots are proved inverse of each other by polynomial identity testing on the points where the square roots have the signs that interval arithmetic proves on the whole range. Real-number semantics.')
CH['C14'] = (CH['C09'][0], 'proof', PITN + ' Saturated phases are the library\'s own single-phase values (C09-C12 judge those); iterative T_sat(h,s) and T(h,x) are uninterpreted.')
CH['C04'] = ('function contracts on real LLVM IR, discharged by symbolic execution + z3 case analysis; interval lemmas', 'proof', 'Every path of the region query is checked against every cell of the published region map; saturation pressure and B23 are verified contracts. Comparisons exact, the relative 1e-6 test in real arithmetic.')
CH['C20'] = (CH['C04'][0] + ' for the order of the region edges', 'proof', 'Every path of the region query against every band and edge; the edge functions are contract symbols, their order along p is proved by interval branch and bound on the published equations.')
CH['C18'] = (CH['C09'][0] + '; interval branch-and-bound lemmas for the signs of the Gibbs derivatives', 'proof', 'Sign lemmas (gamma_pi>0, gamma_pipi<0, gamma_tautau<0 and the cv discriminant) are proved on the whole of regions 1, 2, 5; the code is linked to them by polynomial identity. Real arithmetic; rounding is outside the proof.')
CH['C17'] = ('symbolic execution of real LLVM IR with the border substituted + interval branch and bound on every path', 'proof', 'Both formulations are the expressions the code computes on each path (contracts expanded); one-dimensional interval branch and bound along the whole border. Real arithmetic; the last 1e-5 (relative) next to the saturation curve is left out.')
CH['C16'] = ('function contracts on real LLVM IR (symbolic execution + PIT) composed with the basic equation; second-order interval branch and bound over the whole region', 'proof', 'T(p,Y(p,T)) - T of every code path is bounded on the whole (p,T) region; contracts expanded to the published expressions, real arithmetic.')
CH['C21'] = ('contracts of the secant, bisection and minimum-search loops (loop invariants over the real LLVM IR) and of their call sites; interval branch and bound for the convergence; bounded replay of the rest', 'exploration', 'Deductive for region 1 (p,v) (t,h) (t,s) and region 5 (p,v) (p,h) (p,s): solver contract, call sites and convergence for every state, real arithmetic. The remaining pairs (region 1 (t,v), regions 2 and 3, region 5 (t,v) (t,h) (t,s) (h,s), (h,x), (s,x)) are a bounded stand-in: round trips of seeded random, grid and border states on the real code, which also covers the proved ones.')
CH['C07'] = ("per-function contracts 'returns, without panic, for all arguments' on the real LLVM IR; ranking lemmas for loops", 'proof', 'Complete abstract state exploration of each function (floats: constants/intervals/unknown, integers: constants/intervals), acyclic state graph, cut loops with a discharged ranking lemma.')
CH['C05'] = ("contracts on region detection (returned set, proved by abstract state exploration) and on the dispatch of undetected states (symbolic execution, z3)", 'proof', 'All doubles and NaN. Bounded stand-in, labelled: accepted states replayed to lie in the range and to reproduce their inputs.')
CH['C02'] = ("contract 'returns what the Rust function of the same build returns' on every cdecl, stdcall and Python function, by symbolic execution of the LLVM IR of each feature build (x86_64 and i686); symbolic evaluation of the Python helpers", 'proof', 'All argument bit patterns and ids; calling convention and signature read from the IR. Bounded stand-in, labelled: the pyo3 glue, exercised by importing the built module.')
import os
p = '/verif/tools/claims.json'
m = {'version': 1, 'setup_cmd': 'bash /verif/setup.sh', 'checks': [], 'not_applicable': [], 'notes': 'Checks run as python3-vt vc/run.py <ID>; see DESIGN.md.'}
for k, (t, l, n) in sorted(CH.items()):
    m['checks'].append({'property': k, 'quick_cmd': f'python3-vt vc/run.py {k}', 'thorough_cmd': f'python3-vt vc/run.py {k}', 'technique': t, 'level': l, 'level_note': n})
NA = {}
for i in range(1, 22):
    k = f'C{i:02d}'
    if k not in CH: m['not_applicable'].append({'property': k, 'reason': NA.get(k, 'check under construction')})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
