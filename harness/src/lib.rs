//! Instantiates every generic entry point of the crate's public API so that
//! rustc emits their bodies; contains no logic of its own.
#![allow(non_snake_case)]
macro_rules! two { ($($n:ident $m:ident $f:ident;)*) => { $(
    #[no_mangle] #[inline(never)]
    pub fn $m(a: f64, b: f64, o: i32) -> f64 { seuif97::$f(a, b, o) }
    #[no_mangle] #[inline(never)]
    pub fn $n(a: f64, b: f64, o: i32, r: i32) -> f64 { seuif97::$f(a, b, (o, r)) }
)* } }
macro_rules! one { ($($m:ident $f:ident;)*) => { $(
    #[no_mangle] #[inline(never)]
    pub fn $m(a: f64, b: f64, o: i32) -> f64 { seuif97::$f(a, b, o) }
)* } }
two! { vr_pt v_pt pt; vr_ph v_ph ph; vr_ps v_ps ps; vr_hs v_hs hs; vr_pv v_pv pv; vr_tv v_tv tv; vr_th v_th th; vr_ts v_ts ts; }
one! { v_px px; v_tx tx; v_hx hx; v_sx sx; }
