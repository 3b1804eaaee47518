//! Entry points for the analysis: this crate is compiled to LLVM IR and never run.
//! Every `v_*` function forwards to one public function; every `c_*` function states a
//! relation between public functions as an expression that has to be (close to) zero.
#![allow(non_snake_case)]
use puruspe::*;

macro_rules! fwd1 { ($($n:ident = $f:path;)*) => { $(#[no_mangle] pub extern "C" fn $n(x: f64) -> f64 { $f(x) })* } }
macro_rules! fwd2 { ($($n:ident = $f:path;)*) => { $(#[no_mangle] pub extern "C" fn $n(x: f64, y: f64) -> f64 { $f(x, y) })* } }
macro_rules! fwd3 { ($($n:ident = $f:path;)*) => { $(#[no_mangle] pub extern "C" fn $n(x: f64, y: f64, z: f64) -> f64 { $f(x, y, z) })* } }
macro_rules! fwdn { ($($n:ident = $f:path;)*) => { $(#[no_mangle] pub extern "C" fn $n(n: u32, x: f64) -> f64 { $f(n, x) })* } }

fwd1! {
    v_erf = erf; v_erfc = erfc; v_erfcx = erfcx; v_inverf = inverf; v_inverfc = inverfc;
    v_gamma = gamma; v_ln_gamma = ln_gamma; v_dawson = dawson;
    v_w0 = lambert_w0; v_wm1 = lambert_wm1; v_spw0 = sp_lambert_w0; v_spwm1 = sp_lambert_wm1;
}
fwd2! { v_beta = beta; v_gammp = gammp; v_gammq = gammq; v_invgammp = invgammp; v_sign = utils::sign; }
fwd3! { v_betai = betai; v_invbetai = invbetai; }
fwdn! { v_jn = Jn; v_yn = Yn; v_in = In; v_kn = Kn; }

#[no_mangle] pub extern "C" fn v_factorial(n: usize) -> f64 { utils::factorial(n) }
#[no_mangle] pub extern "C" fn v_ldexp(x: f64, e: i32) -> f64 { utils::ldexp(x, e) }
#[no_mangle] pub extern "C" fn v_frexp(x: f64, o: &mut [f64; 2]) { let (m, e) = utils::frexp(x); *o = [m, e as f64]; }
#[no_mangle] pub extern "C" fn v_faddeeva(re: f64, im: f64, o: &mut [f64; 2]) { let w = faddeeva(re, im); *o = [w.0, w.1]; }
#[no_mangle] pub extern "C" fn v_besseljy(nu: f64, x: f64, o: &mut [f64; 4]) { let (a, b, c, d) = besseljy(nu, x); *o = [a, b, c, d]; }
#[no_mangle] pub extern "C" fn v_besselik(nu: f64, x: f64, o: &mut [f64; 4]) { let (a, b, c, d) = besselik(nu, x); *o = [a, b, c, d]; }
#[no_mangle] pub extern "C" fn v_jnuynu(nu: f64, x: f64, o: &mut [f64; 2]) { let (a, b) = Jnu_Ynu(nu, x); *o = [a, b]; }
#[no_mangle] pub extern "C" fn v_inuknu(nu: f64, x: f64, o: &mut [f64; 2]) { let (a, b) = Inu_Knu(nu, x); *o = [a, b]; }

#[no_mangle] pub extern "C" fn v_refrexp(x: f64) -> f64 { let (m, e) = utils::frexp(x); utils::ldexp(m, e) }
