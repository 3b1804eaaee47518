B = "src/bessel.rs"
SEEDS = [
 dict(id="M01", property="S21", edits=[(B, "            let res = Inu_Knu(nu, x);\n            self.0.insert((nu.to_bits(), x.to_bits()), res);", "            let res = Inu_Knu(nu, x);\n            self.0.insert((nu.to_bits(), (x + nu - nu).to_bits()), res);")],
  demo="    let mut c = CachedInuKnu::default(); let nu = 0.3; let mut bad = 0;\n    for i in 0..2000 { let x = 1e-3 * (1.0 + i as f64 * f64::EPSILON * 4.0); let a = c.Inu_Knu(nu, x); let b = Inu_Knu(nu, x); if a.0.to_bits() != b.0.to_bits() || a.1.to_bits() != b.1.to_bits() { bad += 1; } }\n    assert!(bad == 0);",
  needs="two arguments much smaller than the order that round to the same sum", breaks="an entry is stored under a key that another argument looks up"),
 dict(id="M02", property="S22", edits=[(B, "                self.0.shrink_to_fit();", "                self.0.retain(|_, v| v.0 != 0f64);\n                self.0.shrink_to_fit();")],
  demo="    let mut c = CachedJnuYnu::default(); c.Jnu_Ynu(160.0, 1e-5); c.Jnu_Ynu(0.5, 1.0); assert!(c.len() == 2); c.shrink_to_fit(); assert!(c.len() == 2 && c.contains(160.0, 1e-5));",
  needs="an entry whose first value underflowed to zero", breaks="shrink_to_fit drops entries"),
 dict(id="M03", property="S23", edits=[(B, "    let (io, ko, _, _) = besselik(nu, x);\n    (io, ko)", "    if nu == 0f64 && x > 0f64 && x < 700f64 {\n        return (i0(x), k0(x));\n    }\n    let (io, ko, _, _) = besselik(nu, x);\n    (io, ko)")],
  demo="    let mut d = 0; for i in 1..400 { let x = i as f64 * 0.05; let a = Inu_Knu(0.0, x); let b = besselik(0.0, x); if a.0.to_bits() != b.0.to_bits() || a.1.to_bits() != b.1.to_bits() { d += 1; } } assert!(d == 0, \"{d}\");",
  needs="order zero", breaks="Inu_Knu takes another route than besselik and differs in the last bits"),
 dict(id="M04", property="S24", edits=[("src/beta.rs", "    let bt = (ln_gamma(a + b) - ln_gamma(a) - ln_gamma(b) + a * x.ln() + b * (1f64 - x).ln()).exp();", "    thread_local!(static LAST: std::cell::Cell<(f64, f64, f64)> = const { std::cell::Cell::new((0f64, 0f64, 0f64)) });\n    let lnb = LAST.with(|l| {\n        let (la, lb, v) = l.get();\n        if la + lb == a + b && la * lb == a * b {\n            v\n        } else {\n            let v = ln_gamma(a + b) - ln_gamma(a) - ln_gamma(b);\n            l.set((a, b, v));\n            v\n        }\n    });\n    let bt = (lnb + a * x.ln() + b * (1f64 - x).ln()).exp();")],
  demo="    let a = 1e-3; let f = betai(a, 7e5 * 2.0, 1e-7); let mut bad = 0;\n    for i in 1..20000 { let y = 3.3 + i as f64 * 1e-4; let z = 1.7; let p = betai(z, y, 0.3); betai(y, z, 0.3); let q = betai(z, y, 0.3); if p.to_bits() != q.to_bits() { bad += 1; } }\n    assert!(bad == 0 && f >= 0.0, \"{bad}\");",
  needs="a call with the parameters exchanged just before", breaks="the result depends in its last bits on the previous call"),
 dict(id="M05", property="S25", edits=[("src/beta.rs", "    assert!(a > 0f64 && b > 0f64, \"Bad a or b in routine betai\");\n    assert!((0f64..=1f64).contains(&x), \"Bad x in routine betai\");\n    if x == 0f64 || x == 1f64 {\n        return x;\n    }", "    assert!((0f64..=1f64).contains(&x), \"Bad x in routine betai\");\n    if x == 0f64 || x == 1f64 {\n        return x;\n    }\n    assert!(a > 0f64 && b > 0f64, \"Bad a or b in routine betai\");")],
  demo="    std::panic::set_hook(Box::new(|_| {})); assert!(std::panic::catch_unwind(|| betai(-1.0, 2.0, 1.0)).is_err()); assert!(std::panic::catch_unwind(|| betai(1.0, f64::NAN, 0.0)).is_err());",
  needs="an invalid shape with x exactly 0 or 1", breaks="betai answers instead of rejecting"),
 dict(id="M06", property="S28", edits=[(B, "        let z = 1f64 - 15f64 / ax;\n        ax.exp() * poly(z, &I0PP, 4) / (ax.sqrt() * poly(z, &I0QQ, 5))", "        let ax = ax.min(f64::MAX);\n        let z = 1f64 - 15f64 / ax;\n        ax.exp() * poly(z, &I0PP, 4) / (ax.sqrt() * poly(z, &I0QQ, 5))")],
  demo="    assert!(In(0, f64::NAN).is_nan());",
  needs="NaN", breaks="In(0, NaN) is inf"),
 dict(id="M07", property="S27", edits=[("src/beta.rs", "    for m in 1..10000 {\n        let m = m as f64;", "    let mut m = 0f64;\n    loop {\n        m += 1f64;")],
  demo="    let (t, r) = std::sync::mpsc::channel(); std::thread::spawn(move || { let v = betai(1e18, 2000.0, 0.999999); let w = betai(f64::MAX, 1.0, 0.5); let u = betai(f64::INFINITY, 2.0, 0.5); t.send((v, w, u)).unwrap(); });\n    r.recv_timeout(std::time::Duration::from_secs(20)).expect(\"no answer\");",
  needs="parameters for which the continued fraction becomes NaN", breaks="betai never returns"),
 dict(id="M08", property="A20", edits=[("src/utils.rs", "    if b.is_sign_positive() {\n        a.abs()", "    if b >= 0f64 {\n        a.abs()")],
  demo="    use puruspe::utils::sign; assert!(sign(2.0, -0.0) == -2.0 && sign(2.0, 0.0) == 2.0);",
  needs="a negative zero", breaks="sign ignores the sign bit of -0.0"),
 dict(id="M09", property="A07", edits=[("src/beta.rs", "    (ln_gamma(z) + ln_gamma(w) - ln_gamma(z + w)).exp()\n", "    if z < 171f64 && w < 171f64 {\n        let (gz, gw) = (crate::gamma(z), crate::gamma(w));\n        return gz / crate::gamma(z + w) * gw;\n    }\n    (ln_gamma(z) + ln_gamma(w) - ln_gamma(z + w)).exp()\n")],
  demo="    let b = beta(100.0, 80.0); close(b * 180.0 / 80.0, beta(100.0, 81.0) * 180.0 / 80.0 * 180.0 / 80.0, 1e-6); assert!(b > 0.0);",
  needs="parameters below 171 whose sum exceeds it", breaks="beta underflows to zero"),
 dict(id="M10", property="A02", edits=[("src/error.rs", "if x > 5e7 {", "if x > 5e3 {")],
  demo="    let x = 1e4; close(erfcx(x) * x * std::f64::consts::PI.sqrt(), 1.0 - 0.5e-8, 1e-11);",
  needs="an argument between 5e3 and 5e7", breaks="the one-term expansion is used too early"),
 dict(id="M11", property="A12", edits=[(B, "    let acc = 160f64;\n    let iexp = f64::MAX_EXP / 2;\n\n    if n == 0 {\n        j0(x)", "    let acc = 40f64;\n    let iexp = f64::MAX_EXP / 2;\n\n    if n == 0 {\n        j0(x)")],
  demo="    for n in 2..16u32 { for i in 1..40 { let x = n as f64 * i as f64 / 40.0; if x < 2.0 { continue; } let r = Jn(n + 1, x) - (2.0 * n as f64 / x * Jn(n, x) - Jn(n - 1, x)); assert!(r.abs() < 1e-9, \"{n} {x} {r}\"); } }",
  needs="an argument just below the order", breaks="the downward recurrence starts too low"),
 dict(id="M12", property="A12", edits=[(B, "                    ans = ldexp(ans, -iexp);\n                    sum = ldexp(sum, -iexp);", "                    ans = ldexp(ans, -iexp);\n                    sum = ldexp(sum, 1 - iexp);")],
  demo="    for x in [1e-2, 1e-6, 1e-9f64] { close(Jn(5, x) / x.powi(5) * 3840.0, 1.0, 1e-4); close(Jn(2, x) / x.powi(2) * 8.0, 1.0, 1e-4); close(Jn(16, 0.3f64.max(x)) / Jn(16, 0.3), 1.0, 1e-9); let y = 0.2f64; close(Jn(9, y), y.powi(9) / 512.0 / 362880.0 * (1.0 - y * y / 40.0), 1e-5); }",
  needs="an argument so small that the recurrence is rescaled after even orders were summed", breaks="the normalising sum is scaled differently from the recurrence"),
 dict(id="M13", property="A18", edits=[("src/dawson.rs", "sign(f64::exp(-xp * xp), x)", "sign(f64::exp(-xp * xp), x.max(-1e6))")],
  demo="    assert!(dawson(f64::NAN).is_nan());",
  needs="NaN", breaks="nothing numeric"),
 dict(id="M14", property="A01", edits=[("src/error.rs", "    let t = 2f64 / (2f64 + z);\n    let ty = 4f64 * t - 2f64;\n    for j in (1..NCOEF - 1).rev() {", "    let t = 2f64 / (2f64 + z);\n    let ty = 4f64 * t - 2f64;\n    for j in (1..NCOEF - 1 - (z > 10f64) as usize * 14).rev() {")],
  demo="    for i in 40..100 { let x = i as f64 * 0.25 + 0.125; close(erfc(x) * (x * x).exp(), erfcx(x), 1e-10); }",
  needs="an argument above 10", breaks="the Chebyshev sum is cut short in the far tail"),
 dict(id="M15", property="A06", edits=[("src/utils.rs", "    rising_factorial(1f64, n)\n", "    if n >= 170 {\n        return f64::INFINITY;\n    }\n    rising_factorial(1f64, n)\n")],
  demo="    assert!(puruspe::utils::factorial(170).is_finite() && puruspe::utils::factorial(171).is_infinite());",
  needs="n = 170", breaks="the largest finite factorial overflows"),
 dict(id="M16", property="A13", edits=[(B, "        j0(x) * x.ln() * TWOOPI", "        j0(x) * x.ln() * 0.636619772f64")],
  demo="    assert!(true);", needs="-", breaks="-"),
 dict(id="M17", property="S27", edits=[("src/gamma.rs", "            if f.is_infinite() {", "            if f.is_infinite() && z > -1e3 {")],
  demo="    let (t, r) = std::sync::mpsc::channel(); std::thread::spawn(move || { t.send(gamma(-1234567890123.5)).unwrap(); });\n    assert!(r.recv_timeout(std::time::Duration::from_secs(20)).expect(\"no answer\") == 0.0);",
  needs="a huge negative non-integer argument", breaks="gamma multiplies its way up from -1e12"),
]
