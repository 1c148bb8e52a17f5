//! Own special functions for references.
/// erf by Taylor series (|x| < 3) or continued fraction.
pub fn erf(x: f64) -> f64 {
    if x.abs() < 2.5 {
        let (mut t, mut s, mut n) = (x, x, 0.0);
        while f64::abs(t) > 1e-18 * f64::abs(s) && n < 300.0 { n += 1.0; t *= -x * x / n; s += t / (2.0 * n + 1.0); }
        2.0 / std::f64::consts::PI.sqrt() * s
    } else { x.signum() * (1.0 - erfc_cf(x.abs())) }
}
pub fn erfc(x: f64) -> f64 { if x < 2.5 { 1.0 - erf(x) } else { erfc_cf(x) } }
fn erfc_cf(x: f64) -> f64 {
    // Lentz-free backward evaluation of the continued fraction of erfc
    if x > 27.0 { return 0.0; }
    let mut f = 0.0;
    for k in (1..=200).rev() { f = k as f64 / 2.0 / (x + f); }
    (-x * x).exp() / std::f64::consts::PI.sqrt() / (x + f)
}
pub fn ncdf(x: f64) -> f64 { 0.5 * erfc(-x / std::f64::consts::SQRT_2) }
pub fn npdf(x: f64) -> f64 { (-0.5 * x * x).exp() / (2.0 * std::f64::consts::PI).sqrt() }
/// ln Γ(x), x > 0: Stirling series after shifting.
pub fn lgamma(x: f64) -> f64 {
    let (mut x, mut s) = (x, 0.0);
    while x < 15.0 { s -= x.ln(); x += 1.0; }
    let i = 1.0 / x;
    let i2 = i * i;
    s + (x - 0.5) * x.ln() - x + 0.5 * (2.0 * std::f64::consts::PI).ln() + i * (1.0 / 12.0 - i2 * (1.0 / 360.0 - i2 * (1.0 / 1260.0 - i2 * (1.0 / 1680.0 - i2 / 1188.0))))
}
/// Regularised lower incomplete gamma function P(a, x).
pub fn gamma_p(a: f64, x: f64) -> f64 {
    if x <= 0.0 { return 0.0; }
    let pre = (a * x.ln() - x - lgamma(a)).exp();
    if x < a + 1.0 {
        let (mut t, mut s, mut n) = (1.0 / a, 1.0 / a, a);
        for _ in 0..5000 { n += 1.0; t *= x / n; s += t; if t < s * 1e-17 { break; } }
        pre * s
    } else {
        let mut f = 0.0;
        for k in (1..=500).rev() { let k = k as f64; f = k * (a - k) / (x + 2.0 * k + 1.0 - a + f); }
        1.0 - pre / (x + 1.0 - a + f)
    }
}
