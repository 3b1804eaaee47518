SEEDS = [
 dict(id="N01", property="A04", edits=[("src/gamma.rs", "            if f.is_infinite() {", "            if f.abs() > 1e260 {")],
  demo="    assert!(gamma(-155.5) != 0.0);\n    close(gamma(-154.5) / gamma(-155.5), -155.5, 1e-10);",
  needs="a large negative non-integer argument", breaks="gamma underflows to zero about 50 orders of magnitude too early"),
 dict(id="N03", property="A08", edits=[("src/gamma.rs", "0f64.max((a1 - 7.5 * sqrta1).min(x - 5f64 * sqrta1))", "0f64.max((a1 - 2.5 * sqrta1).min(x - 2f64 * sqrta1))")],
  demo="    let p = gammp(200.0, 190.0); let q = gammq(200.0, 190.0);\n    assert!((p + q - 1.0).abs() < 1e-12);\n    let e = 1e-3; let d = (gammp(200.0, 198.0) - gammp(200.0, 190.0)) - (0..8000).map(|i| { let t: f64 = 190.0 + (i as f64 + 0.5) * e; (-t + 199.0 * t.ln() - ln_gamma(200.0)).exp() * e }).sum::<f64>();\n    assert!(d.abs() < 1e-6, \"{d}\");",
  needs="a >= 100 and x below a - 1", breaks="the quadrature of the lower tail stops too early"),
 dict(id="N04", property="A03", edits=[("src/error.rs", "(-2f64 * (pp / 2f64).ln()).sqrt()", "(-2f64 * (pp / 2f64).max(f64::EPSILON.powi(8)).ln()).sqrt()")],
  demo="    for i in 1..290 { let p = 10f64.powi(-i); let x = inverfc(p); close(erfc(x), p, 1e-6); }",
  needs="an argument below 1e-126", breaks="the start value of inverfc is clamped, so two Halley steps are not enough in the far tail"),
 dict(id="N02", property="A12", edits=[("src/bessel.rs", "        let (y, nump, denp) = rat(x, &J1R, &J1S, 6);\n        x * nump", "        let (y, nump, denp) = rat(x, &J1R, &J1S, 6);\n        ax * nump")],
  demo="    for i in 1..70 { let x = i as f64 / 10.0; assert!(Jn(1, -x) == -Jn(1, x)); assert!(Jn(3, -x) == -Jn(3, x)); }",
  needs="order 1 and a negative argument above -8", breaks="J_1 loses its sign"),
 dict(id="N05", property="A14", edits=[("src/bessel.rs", "        let z = 1f64 - 15f64 / ax;\n        ax.exp() * poly(z, &I0PP, 4) / (ax.sqrt() * poly(z, &I0QQ, 5))", "        let z = 1f64 - 15f64 / ax.min(300.0);\n        ax.exp() * poly(z, &I0PP, 4) / (ax.sqrt() * poly(z, &I0QQ, 5))")],
  demo="    let r = 1.0 + 1.0 / 8.0 / 600.0 + 9.0 / 128.0 / 600.0 / 600.0; close(In(0, 600.0), (600f64 - 0.5 * (1200.0 * std::f64::consts::PI).ln()).exp() * r, 1e-7);",
  needs="order 0 and an argument above 300", breaks="the asymptotic rational function is evaluated at a clamped argument"),
 dict(id="N06", property="A19", edits=[("src/faddeeva.rs", "if yabs < 1e-8 * xabs && (", "if yabs < 1e-2 * xabs && (")],
  demo="    for x in [1.0f64, 2.0, 3.0] { let y = 0.0095 * x; let h = 1e-4; let (r, i) = faddeeva(x, y); let (a, _) = faddeeva(x, y + h); let (b, _) = faddeeva(x, y - h);\n    let zw_im = x * i + y * r; let rhs = 2.0 * (x * i + y * r) - 1.1283791670955126; let _ = zw_im; assert!(((a - b) / 2.0 / h - rhs).abs() < 1e-4, \"{} {}\", (a - b) / 2.0 / h, rhs); }",
  needs="an argument close to the real axis", breaks="the first-order formula is used where the second order matters"),
]
