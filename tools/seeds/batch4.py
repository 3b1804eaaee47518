B = "src/bessel.rs"
SEEDS = [
 dict(id="P01", property="A10", edits=[("src/beta.rs", "    if a > switch && b > switch {", "    if a > switch || b > switch {")],
  demo="    for x in [1e-6f64, 1e-5, 1e-4, 4e-4] { close(betai(1.0, 4000.0, x), -(4000.0 * (-x).ln_1p()).exp_m1(), 1e-6); }",
  needs="one parameter above 3000 and the other small", breaks="the quadrature, made for two large parameters, is used with a small one"),
 dict(id="P02", property="A10", edits=[("src/beta.rs", "    for m in 1..10000 {", "    for m in 1..25 {")],
  demo="    close(betai(1500.0, 1500.0, 0.5), 0.5, 1e-7); close(betai(2900.0, 2900.0, 0.5), 0.5, 1e-7);",
  needs="both parameters above 1000 or so and x close to the mean", breaks="the continued fraction is cut before it converges"),
 dict(id="P03", property="A11", edits=[("src/beta.rs", "        if t.abs() < EPS * x && j > 0 {", "        if t.abs() < EPS.max(EPS * x) {")],
  demo="    for i in 4..12 { let p = 10f64.powi(-i); let x = invbetai(p, 0.25, 2.5); close(betai(0.25, 2.5, x), p, 1e-8); }",
  needs="a solution below 2e-16", breaks="tiny steps count as converged however tiny the solution is"),
 dict(id="P04", property="A09", edits=[("src/gamma.rs", "    for _j in 0..12 {", "    for _j in 0..4 {")],
  demo="    for i in 1..12 { let p = 10f64.powi(-i); let x = invgammp(p, 1.1); close(gammp(1.1, x), p, 1e-8); let x = invgammp(p, 4.0); close(gammp(4.0, x), p, 1e-8); }",
  needs="a probability far out in the lower tail", breaks="too few iterations"),
 dict(id="P05", property="A09", edits=[("src/gamma.rs", "            afac * (-(x - a1) + a1 * (x.ln() - lna1)).exp()", "            afac * (-(x - a1) + a1 * (x / a1).ln()).exp().min(1f64)"), ("src/gamma.rs", "        if x <= 0f64 {\n            x = 0.5 * (x + t);\n        }\n", "        if x <= 0f64 {\n            x = 0.5 * (x + t);\n        } else if t.abs() < 1e-3 * x && p > 0.99 {\n            break;\n        }\n")],
  demo="    for i in 2..9 { let p = 1.0 - 3.0 * 10f64.powi(-i - 1); for a in [1.1, 2.5, 8.0, 30.0] { let x = invgammp(p, a); close(gammq(a, x), 1.0 - p, 1e-7); } }",
  needs="a probability above 0.99", breaks="the iteration ends early in the upper tail"),
 dict(id="P06", property="S31", edits=[(B, "    for val in dnm.iter().rev() {", "    for val in dnm.iter().rev() {")],
  demo="", needs="", breaks=""),
 dict(id="P07", property="S29", edits=[("src/lib.rs", "pub use lambert_w::{lambert_w, lambert_w0, lambert_wm1, sp_lambert_w0, sp_lambert_wm1};", "pub use lambert_w::{lambert_w, lambert_w0, lambert_wm1, sp_lambert_w0 as sp_lambert_w0, sp_lambert_wm1};")],
  demo="", needs="", breaks=""),
 dict(id="P08", property="A06", edits=[("src/utils.rs", "    let m = (n as f64).sqrt().floor().min(60f64) as usize;", "    let m = (n as f64).sqrt().round().min(12f64) as usize;"), ("src/utils.rs", "        let l = m.min(n - k);", "        let l = if n - k < 2 * m && n > 144 { n - k } else { m.min(n - k) };")],
  demo="    let mut f = 1f64; for n in 1..=170usize { f *= n as f64; close(factorial(n), f, 1e-13); }",
  needs="n above 144", breaks="the last factors are counted twice"),
 dict(id="P09", property="A18", edits=[("src/dawson.rs", "        n0 = 2 * (0.5 * xx / h + 0.5) as u64;", "        n0 = 2 * (0.5 * xx / h + 0.5) as u16 as u64;")],
  demo="    for x in [6e4f64, 1e5, 1e6, 5e7] { close(dawson(x), 0.5 / x, 1e-6); }",
  needs="an argument above 5e4", breaks="the sample index saturates"),
 dict(id="P11", property="A13", edits=[(B, "        for j in 1..n {\n            let byp = j as f64 * tox * by - bym;", "        for j in 1..n.min(12) {\n            let byp = j as f64 * tox * by - bym;")],
  demo="    for x in [9.0f64, 20.0] { let r = Yn(14, x) + Yn(12, x) - 26.0 / x * Yn(13, x); assert!(r.abs() < 1e-8); let w = Jn(14, x) * Yn(13, x) - Jn(13, x) * Yn(14, x); close(w, 0.6366197723675814 / x, 1e-6); }",
  needs="an order above 12", breaks="the recurrence stops early"),
]
SEEDS = [s for s in SEEDS if s["demo"]]
