//! One entry point per public method of the caches and per re-exported or projected function:
//! compiled for its MIR only, never run.
#![allow(non_snake_case)]
use puruspe::*;
type V2 = (f64, f64);
type V4 = (f64, f64, f64, f64);

macro_rules! cache {
    ($m:ident, $t:ident, $v:ty, $f:ident) => {
        pub mod $m {
            use super::*;
            pub fn h_compute(c: &mut $t, nu: f64, x: f64) -> $v { c.$f(nu, x) }
            pub fn h_new() -> $t { <$t>::new() }
            pub fn h_with_capacity(n: usize) -> $t { <$t>::with_capacity(n) }
            pub fn h_default() -> $t { <$t as Default>::default() }
            pub fn h_contains(c: &$t, nu: f64, x: f64) -> bool { c.contains(nu, x) }
            pub fn h_get(c: &$t, nu: f64, x: f64) -> Option<&$v> { c.get(nu, x) }
            pub fn h_is_empty(c: &$t) -> bool { c.is_empty() }
            pub fn h_len(c: &$t) -> usize { c.len() }
            pub fn h_clear(c: &mut $t) { c.clear() }
            pub fn h_shrink_to_fit(c: &mut $t) { c.shrink_to_fit() }
            pub fn h_reserve(c: &mut $t, n: usize) { c.reserve(n) }
            pub fn h_retain(c: &mut $t, f: fn(V2, $v) -> bool) { c.retain(f) }
            pub fn h_clone(c: &$t) -> $t { <$t as Clone>::clone(c) }
            pub fn h_eq(c: &$t, d: &$t) -> bool { <$t as PartialEq>::eq(c, d) }
        }
    };
}
cache!(jy2, CachedJnuYnu, V2, Jnu_Ynu);
cache!(ik2, CachedInuKnu, V2, Inu_Knu);
cache!(jy4, CachedBesselJY, V4, besseljy);
cache!(ik4, CachedBesselIK, V4, besselik);

pub mod free {
    use super::*;
    pub fn h_Jnu_Ynu(nu: f64, x: f64) -> V2 { Jnu_Ynu(nu, x) }
    pub fn h_Inu_Knu(nu: f64, x: f64) -> V2 { Inu_Knu(nu, x) }
    pub fn h_besseljy(nu: f64, x: f64) -> V4 { besseljy(nu, x) }
    pub fn h_besselik(nu: f64, x: f64) -> V4 { besselik(nu, x) }
    pub fn h_lambert_w(k: i32, re: f64, im: f64) -> V2 { lambert_w(k, re, im) }
    pub fn h_lambert_w0(x: f64) -> f64 { lambert_w0(x) }
    pub fn h_lambert_wm1(x: f64) -> f64 { lambert_wm1(x) }
    pub fn h_sp_lambert_w0(x: f64) -> f64 { sp_lambert_w0(x) }
    pub fn h_sp_lambert_wm1(x: f64) -> f64 { sp_lambert_wm1(x) }
}
