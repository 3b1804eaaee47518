B = "src/bessel.rs"
HEAD = """#!/bin/bash
# cwd: the repository; exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
t=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
printf '[package]\\nname = "demo"\\nversion = "0.0.0"\\nedition = "2021"\\n[dependencies]\\npuruspe = { path = "%s" }\\n[workspace]\\n' "$repo" > "$t/Cargo.toml"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cd "$t"; export CARGO_TARGET_DIR="$t/target"
"""
IKF2 = "        let fact2 = if e.abs() < EPS { 1f64 } else { e.sinh() / e };\n        let xx = 8.0 * xmu.powi(2) - 1f64;\n        let gam1 = chebev(xx, &C1, 7);\n        let gam2 = chebev(xx, &C2, 8);\n        let gampl = gam2 - xmu * gam1;\n        let gammi = gam2 + xmu * gam1;\n        let mut ff = fact * (gam1"
SEEDS = [
 dict(id="Q02", property="A17", edits=[(B, IKF2, IKF2.replace("e.abs() < EPS", "e.abs() < 0.02"))],
  demo="    close(besselik(0.02, 0.8).1, 0.56544525781375, 1e-7); close(besselik(0.02, 1.0).1, 0.42108600436814876, 1e-7); close(besselik(1.02, 0.8).1, 0.87616022403552366, 1e-7);",
  needs="an order within 0.01 or so of an integer, but not on it", breaks="sinh(e)/e is taken for 1 too early"),
 dict(id="Q03", property="A16", edits=[(B, "        let fact3 = if pimu2.abs() < EPS {", "        let fact3 = if pimu2.abs() < 0.1 {")],
  demo="    close(besseljy(0.06, 0.5).1, -0.52943799358045285, 1e-6); close(besseljy(0.06, 1.5).1, 0.33324734452256456, 1e-6); close(besseljy(1.05, 1.0).1, -0.81121603548942072, 1e-6);",
  needs="an order within 0.06 of an integer", breaks="sin(t)/t is taken for 1 too early"),
 dict(id="Q05", property="A17", edits=[(B, "        rkmu = (PI / (2.0 * x)).sqrt() * (-x).exp() / s;", "        rkmu = (PI / (2.0 * x)).sqrt() * (-x.min(60.0)).exp() / s;")],
  demo="    for x in [61.0f64, 80.0, 100.0] { let b = besselik(0.5, x); close(b.1, (std::f64::consts::PI / (2.0 * x)).sqrt() * (-x).exp(), 1e-8); close(b.0, x.sinh() * (2.0 / (std::f64::consts::PI * x)).sqrt(), 1e-8); }",
  needs="an argument above 60", breaks="the decay of K is clamped"),
 dict(id="Q07", property="A16", edits=[(B, "        let rytemp = (xmu + i as f64) * xi2 * ry1 - rymu;\n        rymu = ry1;\n        ry1 = rytemp;", "        let rytemp = (xmu + (i as f64).min(11.0)) * xi2 * ry1 - rymu;\n        rymu = ry1;\n        ry1 = rytemp;")],
  demo="    for nu in [12.3f64, 14.0, 17.2] { for x in [0.6f64, 1.0, 1.5] { let b = besseljy(nu, x); close(b.0 * b.3 - b.2 * b.1, 0.6366197723675814 / x, 1e-7); let c = besseljy(nu + 1.0, x); close(b.3, nu / x * b.1 - c.1, 1e-7); } }",
  needs="an order above 11.5 and a small argument", breaks="the recurrence for Y goes wrong after eleven steps"),
 dict(id="Q09", property="A06", edits=[("src/utils.rs", "    let mut k = 0usize;\n", "    let n = n as u32 as usize;\n    let mut k = 0usize;\n")],
  demo="    for n in [171usize, 1 << 20, 1 << 32, (1 << 32) + 5, 1 << 40, usize::MAX] { assert_eq!(puruspe::utils::factorial(n), f64::INFINITY); } close(puruspe::utils::factorial(20), 2432902008176640000f64, 1e-15);",
  needs="an argument of 2^32 or more whose low half is small", breaks="the argument is truncated"),
 dict(id="Q10", property="S25", edits=[("src/beta.rs", "    assert!((0f64..=1f64).contains(&x), \"Bad x in routine betai\");", "    assert!(!(x < 0f64 || x > 1f64), \"Bad x in routine betai\");")],
  demo="    for x in [f64::NAN, -1.0, 2.0, f64::INFINITY] { assert!(std::panic::catch_unwind(|| betai(2.0, 3.0, x)).is_err()); } close(betai(1.0, 1.0, 0.25), 0.25, 1e-8);",
  needs="x = NaN", breaks="NaN is no longer rejected"),
 dict(id="Q11", property="S26", edits=[("src/error.rs", "    if x <= 12. {\n        return cheb", "    if x <= 16. {\n        return cheb")],
  demo="    for k in 1..3000 { let x = k as f64 / 128.0; let y = erfcx(x); assert!(y > 0.0 && y < 1.0); }",
  needs="exactly x = 16", breaks="the table is read behind its end"),
 dict(id="Q12", property="S29", edits=[("src/lib.rs", "pub use lambert_w::{lambert_w, lambert_w0, lambert_wm1, sp_lambert_w0, sp_lambert_wm1};", "pub use lambert_w::{lambert_w, lambert_w0, lambert_wm1, sp_lambert_wm1};\n\n/// The principal branch of the Lambert W function to 24 bits.\npub fn sp_lambert_w0(z: f64) -> f64 {\n    if z > 1e3 {\n        lambert_w0(z)\n    } else {\n        lambert_w::sp_lambert_w0(z)\n    }\n}")],
  demo_sh=HEAD + """printf 'lambert_w = { version = "1", default-features = false, features = ["std"] }\\n' > "$t/dep"; sed -i "/^puruspe/r $t/dep" "$t/Cargo.toml"
echo 'fn main() { for k in 0..400 { let z = 1.1f64.powi(k) - 0.3; assert_eq!(puruspe::sp_lambert_w0(z).to_bits(), lambert_w::sp_lambert_w0(z).to_bits()); assert_eq!(puruspe::lambert_w0(z).to_bits(), lambert_w::lambert_w0(z).to_bits()); } }' > "$t/src/main.rs"
timeout 250 cargo run --offline -q --release
""", needs="an argument above 1000", breaks="another function answers"),
 dict(id="Q13", property="S30", edits=[(B, "pub struct CachedBesselIK(HashMap<", "pub struct CachedBesselIK(pub HashMap<")],
  demo_sh=HEAD + """cat > "$t/src/main.rs" <<'R'
// an entry that was never computed must not be obtainable
fn main() { let mut c = puruspe::CachedBesselIK::new(); c.0.insert((0.5f64.to_bits(), 1f64.to_bits()), (7.0, 7.0, 7.0, 7.0)); assert_ne!(c.besselik(0.5, 1.0), (7.0, 7.0, 7.0, 7.0)); }
R
timeout 200 cargo build --offline -q --release 2>"$t/err" || { grep -q "^error" "$t/err"; exit $?; }
./target/release/demo
""", needs="a program that writes into the map", breaks="the map of a cache can be written to from outside"),
 dict(id="Q14", property="S30", edits=[(B, "            pub fn get(&self, nu: f64, x: f64) -> Option<&$val> {\n                self.0.get(&(nu.to_bits(), x.to_bits()))\n            }", "            pub fn get(&self, nu: f64, x: f64) -> Option<&$val> {\n                self.0.get(&(nu.to_bits(), x.to_bits()))\n            }\n\n            /// Like [`get`](Self::get), for updating.\n            #[inline]\n            pub fn get_mut(&mut self, nu: f64, x: f64) -> Option<&mut $val> {\n                self.0.get_mut(&(nu.to_bits(), x.to_bits()))\n            }")],
  demo_sh=HEAD + """cat > "$t/src/main.rs" <<'R'
fn main() { let mut c = puruspe::CachedJnuYnu::new(); let a = c.Jnu_Ynu(0.5, 1.0); c.get_mut(0.5, 1.0).unwrap().0 = 7.0; assert_eq!(c.Jnu_Ynu(0.5, 1.0), a); }
R
timeout 200 cargo build --offline -q --release 2>"$t/err" || { grep -q "^error" "$t/err"; exit $?; }
./target/release/demo
""", needs="a program that uses the new method", breaks="entries can be overwritten from outside"),
 dict(id="Q15", property="S31", edits=[("src/error.rs", "        * t\n        + CHEBYSHEV_COEFFS_0[(q_idx + 1) as usize])", "        * t\n        + unsafe { *CHEBYSHEV_COEFFS_0.get_unchecked((q_idx + 1) as usize) })")],
  demo_sh="""#!/bin/bash
# the crate must compile with unsafe code forbidden
repo=$(pwd); t=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$t"' EXIT
mkdir -p "$t/r"; cp -r "$repo/src" "$repo/Cargo.toml" "$t/r/"; [ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/r/"; cp -r "$repo"/*.html "$repo"/README.md "$t/r/" 2>/dev/null
cd "$t/r" && CARGO_TARGET_DIR="$t/target" timeout 250 cargo rustc --lib --offline -q -- -F unsafe-code
""", needs="an index outside the table", breaks="a table is read without a bounds check"),
 dict(id="Q16", property="S22", edits=[(B, "                    .retain(|k, v| f((f64::from_bits(k.0), f64::from_bits(k.1)), *v))", "                    .retain(|k, v| v.0.is_nan() || f((f64::from_bits(k.0), f64::from_bits(k.1)), *v))")],
  demo="    let mut c = CachedBesselJY::new(); let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { c.besseljy(0.5, 1e-300); })); let mut any = false; if v.is_ok() { c.retain(|_, _| false); assert!(c.is_empty()); } let mut d = CachedJnuYnu::new(); d.Jnu_Ynu(0.5, 1.0); d.retain(|_, _| false); assert!(d.is_empty());",
  needs="an entry whose first value is NaN", breaks="retain keeps entries its predicate rejects"),
 dict(id="Q17", property="A12", edits=[(B, "            let m = 2 * ((n as u64 + (acc * n_f64).sqrt() as u64) / 2);", "            let m = 2 * ((n as u64 + (acc * n_f64.min(6.0)).sqrt() as u64) / 2);")],
  demo="    for (n, x) in [(20u32, 19.5f64), (25, 24.5), (20, 15.0), (15, 14.9)] { let r = Jn(n + 1, x) + Jn(n - 1, x) - 2.0 * n as f64 / x * Jn(n, x); let w = Jn(n, x) * Yn(n - 1, x) - Jn(n - 1, x) * Yn(n, x); close(w, 0.6366197723675814 / x, 2e-5); }",
  needs="a large order and an argument just below it", breaks="the downward recurrence starts too low"),
]
