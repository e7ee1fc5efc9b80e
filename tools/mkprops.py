import json
P=[]
def add(id,title,stmt,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or ["public functions pt ph ps hs pv tv th ts px tx hx sx"],hook_needed=None)))
API="src/rust_if97.rs"; PP="src/common/propertry_pairs.rs"; REG="src/common/region.rs"
add("C01","A query for one of its own inputs returns that input unchanged",
 "Every two-property query (p,t) (p,h) (p,s) (h,s) (p,v) (t,v) (t,h) (t,s) asked for one of its own two inputs returns exactly the bits it was given, for every input value including NaN, infinities and out-of-range states, with or without an explicit region. The quality queries (p,x) (t,x) (h,x) (s,x) do the same whenever their first input lies in the closed saturation range and 0<=x<=1.",
 ["inputs"],"all 2^64 x 2^64 bit patterns of the two arguments, all 2^32 regions, for each pair and each of its own ids",
 "Tests never ask for an input back; a swapped id or a shortcut through a region equation would only show on that query.",
 [API],[("echo arms of the match on o_id",API)])
add("C02","C, stdcall and Python bindings return exactly what the Rust API returns",
 "For each of the twelve property functions, the cdecl export, the stdcall export and the Python function return bit for bit the value the Rust function of the same name returns for the same two numbers and property id. Each export exists under that name, with its arguments in the same order and with the calling convention its feature names. The helpers of the Python package named ab2c(x, y) return ab(x, y, id of c).",
 ["inputs","configurations"],"all argument bit patterns, all property ids, all twelve functions, features cdecl / stdcall / python",
 "No test builds or calls any binding; each is a hand-made copy of the Rust API.",
 ["src/cdecl_c_if97.rs","src/stdcall_c_if97.rs","src/python_if97.rs","python/seuif97/__init__.py",API],[("copied wrappers around pair_properties","src/cdecl_c_if97.rs"),("copied wrappers","src/python_if97.rs")],["exported symbols"])
add("C03","Explicit region k uses region k's equations; automatic = the detected one",
 "With an explicit region 1..5 a two-property query never consults region detection: the region query returns that number and every other non-input property is the one computed by that region's formulation. Without a region (or with the 'none' value 10) the result is bit-identical to passing the region that the region query of the same pair reports for the same inputs.",
 ["inputs"],"all argument bit patterns, all property ids, all explicit regions, all eight two-property pairs",
 "Tests sample a handful of states per region and never compare automatic with explicit queries.",
 [API,PP,"src/r1/region1.rs","src/r2/region2.rs","src/r3/region3.rs","src/r4/region4.rs","src/r5/region5.rs"],[("pair_properties dispatch",PP),("o_id_region_args conversions",API)])
add("C04","(p,t) region detection implements the IF97 region map with no holes",
 "For every p in [p_sat(273.15 K) = 0.000611212677444 MPa, 100 MPa] and T=t+273.15 in [273.15, 1073.15] K, and p<=50 MPa up to 2273.15 K, the (p,t) region query returns exactly one of 1,2,3,4,5 as IF97 assigns it: 1 at or above the saturation pressure and 2 below it up to 623.15 K, 2 up to and 3 beyond the B23 curve up to 863.15 K, 2 up to 1073.15 K, 5 above; 4 only within a relative 1e-6 of the saturation pressure below the critical temperature. No point of that domain, edges included, is reported as invalid.",
 ["inputs"],"all (p,t) bit patterns in and around the validity range, including every boundary curve",
 "Tests use a few dozen interior points; boundary points and narrow bands are never hit.",
 [REG,"src/common/boundaries.rs","src/common/constant.rs","src/r4/region4_sat_pT.rs"],[("pT_sub_region",REG),("B23_T2p","src/common/boundaries.rs"),("p_saturation","src/r4/region4_sat_pT.rs")])
add("C05","States outside the validity range give an error code, never a property",
 "When automatic detection does not cover a state, every property query other than the inputs returns the same negative code as the region query, and the quality query returns -9999. For (p,t) the code is -2100 for p outside [0.000611212677444,100] MPa (or p>50 MPa above 1073.15 K) and -2101 for T outside [273.15,2273.15] K, the pressure test first; (p,x),(t,x),(h,x),(s,x) return -9999 for any non-input property whenever the first input is outside its saturation range or x is outside [0,1]. A NaN argument is outside every range. A state that detection accepts is one of the validity range: its reported p, t (and x) lie in the range of the reported region, and from p_min up it reproduces the given inputs.",
 ["inputs"],"all argument bit patterns outside the covered domain, all property ids",
 "Tests contain no out-of-range input at all.",
 [API,PP,REG,"src/common/constant.rs"],[("error return of pT_sub_region",REG),("range checks in px/tx/hx/sx",API),("fall-through arm of pair_properties",PP)])
add("C06","An unsupported property id yields -1000 and nothing else",
 "In the single-phase regions 1,2,3,5 (detected or explicit) every id that is not one of the 36 documented ones returns exactly -1000 from every two-property query. In two-phase states strictly between saturated liquid and vapour, ids with no mixture meaning (all but p,t,d,v,h,s,e,u,f,g,x and region) return -1000, and quality queries return -1000 for undocumented ids everywhere in their range. (p,t) on the saturation line, which does not fix the quality, yields an error code and no property value.",
 ["inputs"],"all 2^32 property ids, all states",
 "No test passes an undocumented id or an unsupported two-phase id.",
 [PP,"src/r1/region1_pT_ext.rs","src/r2/region2_pT_ext.rs","src/r3/region3_Td_ext.rs","src/r5/region5_pT_ext.rs","src/r4/region4_pTx.rs"],[("last arm of each id match",PP)])
add("C07","Every query returns: no panic, no overflow, no endless loop",
 "Every public function returns a value for every pair of 64-bit floating-point arguments (NaN, infinities, denormals, out of range), every property id and every explicit region. It never panics, never overflows an integer, never indexes out of bounds and never loops forever.",
 ["inputs"],"all argument bit patterns, ids and regions",
 "Tests only evaluate well-behaved published check points; the iterative solvers' loop exits are never stressed.",
 [API,"src/algo/root.rs","src/algo/polynomial_steps.rs",REG,"src/r4/region4_T_hs.rs","src/r4/region4.rs","src/r1/region1_pair_ext.rs","src/r2/region2_pair_ext.rs","src/r3/region3_pair_ext.rs","src/r5/region5_pair_ext.rs"],[("iteration caps","src/algo/root.rs"),("bracketing loops","src/r2/region2_pair_ext.rs"),("step tables","src/algo/polynomial_steps.rs")])
add("C08","Queries are pure: results depend on the arguments alone",
 "A query's result is a function of its two numbers, the property id and the region only: no earlier call, no other thread and no state of the process can change it. No query writes memory that outlives it, and none performs input or output.",
 ["inputs","histories","schedules"],"all call histories and all interleavings of concurrent callers",
 "Tests run each query in isolation and compare with a tolerance; a cache or shared scratch value shows only under specific histories.",
 ["src/lib.rs",API,"src/algo/polynomial_steps.rs"],[("absence of statics, cells and I/O in the crate","src/lib.rs")])
add("C09","v,h,u,s,cp,cv,w are the IF97 basic equations' derivatives in each region",
 "In regions 1, 2 and 5 specific volume, enthalpy, internal energy, entropy, cp, cv and speed of sound as functions of (p,T), and in region 3 pressure and these same properties as functions of (T,rho), equal the expressions obtained by differentiating the IF97 Gibbs (region 3: Helmholtz) equation with its published coefficients. Equality is over the whole real plane of each formulation, up to floating-point rounding.",
 ["inputs"],"all (p,T) or (T,rho), regions 1,2,3,5, seven properties (eight in region 3)",
 "Tests compare three states per region to 9 digits; a coefficient or exponent whose term is small at those states is invisible.",
 ["src/r1/region1_gfe.rs","src/r1/region1_pT.rs","src/r2/region2_gfe.rs","src/r2/region2_pT.rs","src/r3/region3_hfe.rs","src/r3/region3_Td.rs","src/r5/region5_gfe.rs","src/r5/region5_pT.rs","src/algo/polynomial.rs","src/algo/polynomial_steps.rs"],[("coefficient tables and derivative sums","src/r1/region1_gfe.rs"),("split summation helpers","src/algo/polynomial_steps.rs")])
add("C10","Density, Helmholtz, Gibbs, z and exergy follow from p,T,v,u,h,s",
 "In each of regions 1,2,3,5 at every state: density = 1/v, f = u - T s, g = h - T s, compressibility factor z = p v/(R T) (consistent units, R=0.461526 kJ/(kg K); in region 3 p is the formulation's own p(T,rho)), and exergy e = h - 273.16 K * s (zero-flow reference at the triple-point temperature). Each holds as an identity between the values the library itself returns at that state, up to floating-point rounding.",
 ["inputs"],"all states of regions 1,2,3,5",
 "d, f, g, z, e are checked at few or no states; the identities are never checked.",
 ["src/r1/region1_pT_ext.rs","src/r2/region2_pT_ext.rs","src/r3/region3_Td_ext.rs","src/r5/region5_pT_ext.rs","src/r1/region1.rs","src/r2/region2.rs","src/r3/region3.rs","src/r5/region5.rs"],[("extended property formulas","src/r3/region3_Td_ext.rs")])
add("C11","Derivative properties equal the partial derivatives they are named for",
 "At every state of regions 1,2,3,5, in the documented units: (dv/dT)p, (dv/dp)T and (dp/dT)v are the exact partial derivatives of the library's own v; expansion coefficient = (dv/dT)p/v, isothermal compressibility = -(dv/dp)T/v, isochoric pressure coefficient = (dp/dT)v/p, isothermal stress coefficient = -(dp/dv)T/p, relative pressure coefficient per its definition, isentropic exponent = w^2/(p v). Joule-Thomson coefficient = (T(dv/dT)p - v)/cp, isothermal throttling coefficient = (dh/dp)T = v - T(dv/dT)p in kJ/(kg MPa), and fugacity = p * fugacity coefficient.",
 ["inputs"],"all states of regions 1,2,3,5, thirteen properties",
 "Most of these ids are tested at no state at all, the rest at a few.",
 ["src/r1/region1_pT_ext.rs","src/r2/region2_pT_ext.rs","src/r3/region3_Td_ext.rs","src/r5/region5_pT_ext.rs"],[("extended property formulas","src/r1/region1_pT_ext.rs")])
add("C12","Transport properties: IAPWS formulas and their defining ratios",
 "At every single-phase state the dynamic viscosity, thermal conductivity, surface tension and static dielectric constant are the library's published IAPWS correlations evaluated at that state's own density and temperature. Kinematic viscosity = viscosity/density, thermal diffusivity = conductivity/(density cp), Prandtl number = viscosity cp/conductivity, in consistent units, in every region.",
 ["inputs"],"all states of regions 1,2,3,5, seven properties",
 "Only viscosity/conductivity at a few (rho,T) points are tested; the ratios in region 3 and the Prandtl number are not.",
 [PP,"src/common/transport_further.rs"],[("pair_transport_reg",PP),("viscosity, thcond, surface_tension, static_dielectric","src/common/transport_further.rs")])
add("C13","Saturation pressure and temperature satisfy one implicit equation",
 "p_sat(T) and T_sat(p) are the two closed-form roots of the IF97 region 4 quadratic, so T_sat(p_sat(T)) = T for every T in [273.15,647.096] K and p_sat(T_sat(p)) = p for every p in [p_sat(273.15 K),22.064 MPa] up to rounding, wherever the intermediate value lies in the other's closed range. Saturated (t,x) pressures and (p,x) temperatures are these values for every quality.",
 ["inputs"],"all T in [273.15,647.096], all p in the saturation range, all x in [0,1]",
 "Tests check three temperatures and three pressures.",
 ["src/r4/region4_sat_pT.rs","src/r4/region4_pTx.rs",API],[("p_saturation, T_saturation","src/r4/region4_sat_pT.rs")])
add("C14","Wet steam mixes its saturated phases linearly and inverts that mixing",
 "For 0<x<1, (p,x) and (t,x) return for v,h,s,u,f,g,e the mixture y' + x (y''-y') of the saturated-liquid and saturated-vapour values at that pressure or temperature, and density 1/v of the mixture; at x=0 and x=1 they return the saturated phase itself, taken from region 1 / 2 up to 623.15 K and from region 3 above. Two-phase (p,h) (p,s) (p,v) (t,v) (t,h) (t,s) states report x=(y-y')/(y''-y') and all other properties as that mixture at that x; (h,s) does the same with x from h at the pressure p_sat of the temperature it reports, and (h,x), (s,x) return the (t,x) state of the temperature they report. Within 1e-6 MPa (or K) of the critical point both phases are the critical density.",
 ["inputs"],"all p or T on the saturation curve, all x in [0,1], all two-phase inputs",
 "Two-phase states are sampled at a handful of points for h,s,v only.",
 ["src/r4/region4_pTx.rs","src/r4/region4.rs","src/r4/region4_pair_ext.rs"],[("px_reg4, Tx_reg4","src/r4/region4_pTx.rs"),("x from (y-y')/(y''-y')","src/r4/region4_pair_ext.rs")])
add("C15","Backward equations are the published IAPWS polynomials on their sub-regions",
 "T(p,h), T(p,s) in regions 1,2,3, v(p,h), v(p,s) in region 3, p(h,s) in regions 1,2,3, T(h,s) in region 4 and the 26 sub-region equations v(p,T) of region 3 are the published polynomials with the published coefficients, each selected on exactly its published sub-region (2a/2b/2c, 3a/3b, 3a..3z). The auxiliary boundary equations (B23, h2ab, h2bc, h3ab, p3sat(h), p3sat(s), h1(s), h3a(s), h2ab(s), h2c3b(s), h13(s), T23(h,s), T3ab..T3wx) are the published ones too.",
 ["inputs"],"all inputs of each backward and boundary equation, every sub-region",
 "Tests use three states per equation; a wrong coefficient in a small term or a shifted sub-region border passes.",
 ["src/r1/region1_T_phps.rs","src/r1/region1_p_hs.rs","src/r2/region2_T_ph.rs","src/r2/region2_T_ps.rs","src/r2/region2_p_hs.rs","src/r3/region3_Tv_phps.rs","src/r3/region3_p_hs.rs","src/r3/region3_v_pT.rs","src/r3/region3_v_subregion_pT.rs","src/r4/region4_T_hs.rs","src/common/boundaries.rs"],[("coefficient tables and sub-region selectors","src/r3/region3_v_pT.rs")])
add("C16","Backward equations agree with the basic equations to the IAPWS tolerance",
 "For every state of region 1, feeding its (p,h) or (p,s) back recovers the temperature within 25 mK; for every state of region 2 within 10 mK in sub-regions 2a and 2b and 25 mK in 2c.",
 ["inputs"],"all (p,T) of regions 1 and 2 in floating point, as a continuum",
 "Tests check nine states per region against tabulated values, not the round trip over the region.",
 ["src/r1/region1_T_phps.rs","src/r2/region2_T_ph.rs","src/r2/region2_T_ps.rs","src/r1/region1_pT.rs","src/r2/region2_pT.rs"],[("backward polynomials vs basic equation","src/r1/region1_T_phps.rs")])
add("C17","Properties are continuous across region borders within IF97 limits",
 "Along the whole 623.15 K border of regions 1 and 3, along the B23 border of regions 2 and 3, and along the 1073.15 K border of regions 2 and 5, the two neighbouring formulations agree at the same (p,T) within 0.2 % in specific volume, 1 kJ/kg in enthalpy and 2 J/(kg K) in entropy. B23 written for p and for T are inverse to each other.",
 ["inputs"],"all points of the three borders as continua",
 "Tests touch no border at all.",
 ["src/common/boundaries.rs","src/r1/region1_pT.rs","src/r2/region2_pT.rs","src/r3/region3_Td.rs","src/r3/region3_v_pT.rs","src/r5/region5_pT.rs"],[("region equations at their borders","src/r2/region2_pT.rs"),("B23_T2p, B23_p2T","src/common/boundaries.rs")])
add("C18","Single-phase states are thermodynamically stable and finite",
 "At every (p,T) of regions 1, 2 and 5 the library's v, cp, cv, w and isothermal compressibility are finite and positive and cp >= cv. Enthalpy and entropy therefore strictly increase with temperature along every isobar inside a region.",
 ["inputs"],"all (p,T) of regions 1, 2 and 5 as a continuum",
 "Tests look at isolated states; a sign or NaN in a thin zone is invisible.",
 ["src/r1/region1_pT.rs","src/r2/region2_pT.rs","src/r5/region5_pT.rs","src/r1/region1_gfe.rs","src/r2/region2_gfe.rs","src/r5/region5_gfe.rs"],[("region equations","src/r1/region1_pT.rs")])
add("C19","One query, one state: all properties belong to the same (p,T) or (T,rho)",
 "For each two-property query and each region 1,2,3,5, every property id returns what the region's basic (p,T) formulation (region 3: (T,rho)) returns at one common state that does not depend on the id; the t (or p, or v) query returns that state's own temperature (or pressure, or volume), and temperatures enter and leave in degrees Celsius. In regions 1, 2 and 5 the inputs p or t are that state's p or t exactly. In region 3 (h,s) the p query returns the backward p(h,s) that the state is built from. The quality (id 15) of a state of region 1 is 0, of regions 2, 3 and 5 it is 1.",
 ["inputs"],"all input values, all 36 ids, eight pairs, regions 1,2,3,5",
 "Tests check one or two output ids per pair.",
 ["src/r1/region1.rs","src/r2/region2.rs","src/r3/region3.rs","src/r5/region5.rs",API],[("pair functions of each region","src/r2/region2.rs")])
add("C20","(p,h) and (p,s) region detection partitions the IF97 range without gaps",
 "For every p in [0.000611212677444,100] MPa and every h (or s) from the 273.15 K value to the 1073.15 K value (2273.15 K for p<=50 MPa) the (p,h) and (p,s) region queries return one region: up to 16.529 MPa 1, 4, 2, 5 split at the saturated-liquid, saturated-vapour and 1073.15 K values; above it 1 up to the 623.15 K value, 2 from the B23 value, and between them 3, or 4 where p is below the region 3 saturation pressure of that h (or s), subcritical only. Values below the 273.15 K value, above the upper limit, or p outside the range are invalid (negative).",
 ["inputs"],"all (p,h) and (p,s) values including every border",
 "Tests contain a few interior points per region and no border.",
 [REG,"src/common/boundaries.rs"],[("ph_sub_region, ps_sub_region",REG)])
add("C21","Iterative pairs (p,v) (t,v) (t,h) (t,s) and region 5 invert the equations",
 "For every state of regions 1,2,3,5 the (p,v), (t,v), (t,h), (t,s) queries, and (p,h), (p,s), (h,s) in region 5, recover the state: recomputing the given input from the returned state reproduces it to solver accuracy. For (h,x) and (s,x) in range, the mixture of that quality at the reported temperature has the given h (s) up to 1e-5 in quality whenever some saturation temperature gives it.",
 ["inputs"],"all states reachable through the iterative pairs",
 "Tests sample a few states per pair.",
 ["src/algo/root.rs","src/r1/region1_pair_ext.rs","src/r2/region2_pair_ext.rs","src/r3/region3_pair_ext.rs","src/r5/region5_pair_ext.rs","src/r5/region5_ph_ps_hs.rs","src/r4/region4.rs"],[("secant solvers","src/algo/root.rs")])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
