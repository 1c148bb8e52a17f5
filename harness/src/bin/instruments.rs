//! I01..I08: currencies, closed-form option models, Greeks, implied volatility, payoffs, finite differences, simulation pricers.
use rqmc::*;
use time::{Date, Duration};
use RustQuant_instruments::options::finite_difference_pricer::FiniteDifferencePricer;
use RustQuant_instruments::options::*;
use RustQuant_instruments::*;
use RustQuant_stochastics::{StochasticProcess, StochasticProcessConfig, StochasticScheme};
use RustQuant_time::today;

#[path = "../refs/special.rs"]
#[allow(dead_code)]
mod special;
use special::*;

fn day(n: i64) -> Date { Date::from_calendar_date(2024, time::Month::March, 15).unwrap() + Duration::days(n) }
const FLAGS: [bool; 2] = [true, false];
fn fl(call: bool) -> TypeFlag { if call { TypeFlag::Call } else { TypeFlag::Put } }

// ---------------------------------------------------------------- I01 money and exchange
fn cur(i: usize) -> Currency { [USD, EUR, JPY, GBP, CHF][i] }
fn i01(ck: &Ck) {
    ck.assume("amounts and rates are finite or signed infinities; converting to the same currency without a recorded rate is refused by the code and the property leaves it open");
    let nc = ck.pick(4, 5);
    let rates = [1.25, 0.5];
    // alphabet: ordered pairs (self-pairs included) x two rates
    let mut al = vec![];
    for a in 0..nc { for b in 0..nc { for r in rates { if a != b || r == 1.25 { al.push((a, b, r)); } } } }
    let depth = ck.pick(4, 4);
    let k = al.len();
    let amounts = [0.0, 3.0, -7.5];
    ck.par(k * k, |w, i| {
        let pre = [i / k, i % k];
        words(k, depth - 2, &mut |rest| {
            let word: Vec<usize> = pre.iter().chain(rest).cloned().collect();
            let key = || word.iter().map(|&x| format!("{}>{}@{}", cur(al[x].0).code.alphabetic, cur(al[x].1).code.alphabetic, al[x].2)).collect::<Vec<_>>().join(",");
            w.case("rate-histories", key, |w| {
                let mut ex = Exchange::new();
                let mut tab = vec![None; nc * nc];
                for (step, &x) in word.iter().enumerate() {
                    let (a, b, r) = al[x];
                    // the rate value depends on the step, so that "latest" is distinguishable from any earlier one
                    let r = r + step as f64 / 16.0;
                    ex.add_rate(ExchangeRate::new(cur(a), cur(b), r));
                    tab[a * nc + b] = Some(r);
                    w.op();
                    if step + 1 < word.len() && word.len() - step > 2 { continue; }
                    for f in 0..nc { for t in 0..nc {
                        let got = ex.get_rate(&cur(f), &cur(t)).map(|r| (r.from_currency, r.to_currency, r.rate));
                        ensure!(got == tab[f * nc + t].map(|r| (cur(f), cur(t), r)), "rate {f}->{t}: {:?}, recorded {:?}", got.map(|x| x.2), tab[f * nc + t]);
                        let m = Money::new(cur(f), amounts[(f + t + step) % 3]);
                        match tab[f * nc + t] {
                            Some(r) => {
                                let c = ex.convert(m, cur(t));
                                ensure!(c.currency == cur(t) && c.amount == m.amount * r, "{} {} -> {:?}", m.amount, m.currency.code.alphabetic, c);
                            }
                            None => match refuses(|| ex.convert(m, cur(t))) {
                                Err(_) => {}
                                Ok(c) => ensure!(f == t && c == m, "converted without a rate: {c:?}"),
                            },
                        }
                    } }
                }
                w.state(h(&tab.iter().map(|x| x.map(f64::to_bits)).collect::<Vec<_>>()));
                Ok(())
            });
        });
    });
    // rates of every size and sign replace one another: two currencies, every history of assignments
    let sizes = [0.0, -0.5, 1.0, 1.0 + f64::EPSILON, 1e-9, 0.85, 1e12, -1e-300];
    ck.par(sizes.len() * 2, |w, i| {
        words(sizes.len() * 2, ck.pick(3, 4) - 1, &mut |rest| {
            let word: Vec<usize> = [i].iter().chain(rest).copied().collect();
            w.case("rate-sizes", || word.iter().map(|x| format!("{}{:e}", if x % 2 == 0 { "USD>EUR@" } else { "EUR>USD@" }, sizes[x / 2])).collect::<Vec<_>>().join(","), |w| {
                let mut ex = Exchange::new();
                let mut tab = [None; 2];
                let cs = [USD, EUR];
                for &x in &word {
                    ex.add_rate(ExchangeRate::new(cs[x % 2], cs[1 - x % 2], sizes[x / 2]));
                    tab[x % 2] = Some(sizes[x / 2]);
                    w.op();
                    for d in 0..2 {
                        let got = ex.get_rate(&cs[d], &cs[1 - d]).map(|r| r.rate);
                        ensure!(got.map(f64::to_bits) == tab[d].map(f64::to_bits), "rate {:?}, recorded {:?}", got, tab[d]);
                        if let Some(r) = tab[d] { for a in [3.0, -7.5, 0.0, 1e300] {
                            let c = ex.convert(Money::new(cs[d], a), cs[1 - d]);
                            ensure!(c.currency == cs[1 - d] && c.amount == a * r, "{a} at {r} -> {c:?}");
                        } }
                    }
                }
                w.state(h(&tab.iter().map(|x: &Option<f64>| x.map(f64::to_bits)).collect::<Vec<_>>()));
                Ok(())
            });
        });
    });
    // arithmetic
    let vals = [0.0, -0.0, 1.0, -1.0, 0.1, 0.2, 1e300, -1e300, 1e-300, 123456789.01, 1.0 / 3.0, f64::INFINITY, f64::NEG_INFINITY];
    let curs: Vec<Currency> = vec![USD, EUR, JPY, GBP, CHF, AUD, KWD];
    ck.par(curs.len() * curs.len(), |w, i| {
        let (ca, cb) = (curs[i / curs.len()], curs[i % curs.len()]);
        for &x in &vals { for &y in &vals {
            w.case("money-arithmetic", || format!("{} {x} and {} {y}", ca.code.alphabetic, cb.code.alphabetic), |w| {
                let (a, b) = (Money::new(ca, x), Money::new(cb, y));
                let ops: [(&str, fn(Money, Money) -> Money, f64); 4] = [("+", |a, b| a + b, x + y), ("-", |a, b| a - b, x - y), ("*", |a, b| a * b, x * y), ("/", |a, b| a / b, x / y)];
                for (n, f, want) in ops {
                    w.op();
                    let got = refuses(|| f(a, b));
                    if ca == cb {
                        match got {
                            Ok(m) => ensure!(m.currency == ca && (m.amount.to_bits() == want.to_bits() || m.amount.is_nan() && want.is_nan()), "{x} {n} {y} = {:?}, plain numbers {want}", m.amount),
                            Err(e) => return fail(format!("{x} {n} {y} in one currency: {e}")),
                        }
                    } else { ensure!(got.is_err(), "{n} across currencies accepted: {:?}", got); }
                }
                let same = ca == cb;
                ensure!((a == b) == (same && x == y), "equality");
                ensure!(a.partial_cmp(&b) == if same { x.partial_cmp(&y) } else { None }, "ordering {:?}", a.partial_cmp(&b));
                ensure!((a < b) == (same && x < y) && (a >= b) == (same && x >= y), "comparison operators");
                ensure!(a.currency() == ca && a.amount().to_bits() == x.to_bits(), "accessors");
                Ok(())
            });
        } }
    });
    // one table over every declared currency: filled in several orders, partly overwritten, all pairs looked up
    let all: Vec<Currency> = vec![AED, AFN, ALL, AMD, ANG, AOA, ARS, AUD, AWG, AZN, BAM, BBD, BDT, BGN, BHD, BIF, BMD, BND, BOB, BRL, BSD, BTN, BWP, BYN, BZD, CAD, CDF, CHF, CLP, COP, CRC, CUC, CUP, CVE, CZK, DJF, DKK, DOP, DZD, EGP, ERN, ETB, EUR, FJD, FKP, GBP, GEL, GHS, GIP, GMD, GNF, GTQ, GYD, HKD, HNL, HRK, HTG, HUF, IDR, ILS, INR, IQD, IRR, ISK, JMD, JOD, JPY, KES, KGS, KHR, KMF, KPW, KRW, KWD, KYD, KZT, LAK, LBP, LKR, LRD, LSL, LYD, MAD, MDL, MGA, MKD, MMK, MNT, MOP, MRO, MUR, MVR, MWK, MXN, MYR, MZN, NAD, NGN, NIO, NOK, NPR, NZD, OMR, PAB, PEN, PGK, PHP, PKR, PLN, PYG, QAR, RON, RSD, CNY, RUB, RWF, SAR, SBD, SCR, SDG, SEK, SGD, SHP, SLE, SLL, SOS, SRD, SSP, STN, SVC, SYP, SZL, THB, TJS, TMT, TND, TOP, TRY, TTD, TWD, TZS, UAH, UGX, USD, UYU, UZS, VES, VND, VUV, WST, XAF, XCD, XOF, XPF, YER, ZAR, ZMW, ZWL];
    let n = all.len();
    ck.par(6, |w, pat| {
        let mut ex = Exchange::new();
        let mut tab: Vec<Option<f64>> = vec![None; n * n];
        for round in 0..3usize {
            w.case("all-currencies", || format!("pattern {pat}, round {round}, {n} currencies"), |w| {
                for k in 0..n * n {
                    let x = match pat % 3 { 0 => k, 1 => n * n - 1 - k, _ => (k * 101 + 7) % (n * n) };
                    let put = match round { 0 => x % 3 != 0, 1 => x % 5 == 0, _ => pat < 3 };
                    if !put { continue; }
                    let r = 0.25 + (x % 1009) as f64 / 64.0 + round as f64 / 8.0;
                    ex.add_rate(ExchangeRate::new(all[x / n], all[x % n], r));
                    tab[x] = Some(r);
                    w.op();
                }
                for f in 0..n { for t in 0..n {
                    let got = ex.get_rate(&all[f], &all[t]).map(|r| (r.from_currency, r.to_currency, r.rate));
                    let want = tab[f * n + t].map(|r| (all[f], all[t], r));
                    ensure!(got == want, "rate {}->{} is {:?}, recorded {:?}", all[f].code.alphabetic, all[t].code.alphabetic, got.map(|x| x.2), want.map(|x| x.2));
                    if let Some(r) = tab[f * n + t] {
                        let c = ex.convert(Money::new(all[f], 3.0), all[t]);
                        ensure!(c.currency == all[t] && c.amount == 3.0 * r, "3 {} -> {c:?}", all[f].code.alphabetic);
                        w.op();
                    }
                    w.state(h(&(f, t, tab[f * n + t].map(f64::to_bits))));
                } }
                ensure!(ex.rates.len() == tab.iter().flatten().count(), "{} rates recorded", ex.rates.len());
                Ok(())
            });
        }
    });
    // a single rate converts only its own source currency
    ck.seq(|w| for f in 0..4 { for t in 0..4 { for m in 0..4 {
        w.case("rate-convert", || format!("{f}->{t} applied to {m}"), |w| {
            w.op();
            let r = ExchangeRate::new(cur(f), cur(t), 1.75);
            match refuses(|| r.convert(Money::new(cur(m), 12.0))) {
                Ok(x) => ensure!(m == f && x.currency == cur(t) && x.amount == 21.0, "{x:?}"),
                Err(e) => ensure!(m != f, "refused its own currency: {e}"),
            }
            Ok(())
        });
    } } });
}

// ---------------------------------------------------------------- reference prices as truncated Taylor polynomials
/// Bivariate Taylor polynomial of total degree <= 3.
#[derive(Clone, Copy, Debug)]
struct J([[f64; 4]; 4]);
impl J {
    fn c(x: f64) -> J { let mut a = [[0.0; 4]; 4]; a[0][0] = x; J(a) }
    fn x(v: f64) -> J { let mut j = J::c(v); j.0[1][0] = 1.0; j }
    fn y(v: f64) -> J { let mut j = J::c(v); j.0[0][1] = 1.0; j }
    fn map2(self, o: J, f: impl Fn(f64, f64) -> f64) -> J { let mut r = J::c(0.0); for i in 0..4 { for j in 0..4 { r.0[i][j] = f(self.0[i][j], o.0[i][j]); } } r }
    fn scale(self, s: f64) -> J { self.map2(self, |a, _| a * s) }
    /// f(self) given f and its first three derivatives at the constant term.
    fn lift(self, d: [f64; 4]) -> J {
        let mut u = self; u.0[0][0] = 0.0;
        let u2 = u * u;
        let u3 = u2 * u;
        J::c(d[0]) + u.scale(d[1]) + u2.scale(d[2] / 2.0) + u3.scale(d[3] / 6.0)
    }
    fn exp(self) -> J { let e = self.0[0][0].exp(); self.lift([e, e, e, e]) }
    fn ln(self) -> J { let x = self.0[0][0]; self.lift([x.ln(), 1.0 / x, -1.0 / (x * x), 2.0 / (x * x * x)]) }
    fn recip(self) -> J { let x = self.0[0][0]; self.lift([1.0 / x, -1.0 / (x * x), 2.0 / x.powi(3), -6.0 / x.powi(4)]) }
    fn sqrt(self) -> J { let x = self.0[0][0]; let s = x.sqrt(); self.lift([s, 0.5 / s, -0.25 / (s * x), 0.375 / (s * x * x)]) }
    fn ncdf(self) -> J { let x = self.0[0][0]; let p = npdf(x); self.lift([ncdf(x), p, -x * p, (x * x - 1.0) * p]) }
    fn d(&self, i: usize, j: usize) -> f64 { let f = [1.0, 1.0, 2.0, 6.0]; self.0[i][j] * f[i] * f[j] }
}
impl std::ops::Add for J { type Output = J; fn add(self, o: J) -> J { self.map2(o, |a, b| a + b) } }
impl std::ops::Sub for J { type Output = J; fn sub(self, o: J) -> J { self.map2(o, |a, b| a - b) } }
impl std::ops::Mul for J {
    type Output = J;
    fn mul(self, o: J) -> J {
        let mut r = J::c(0.0);
        for i in 0..4 { for j in 0..4 - i { for k in 0..4 - i - j { for l in 0..4 - i - j - k { r.0[i + k][j + l] += self.0[i][j] * o.0[k][l]; } } } }
        r
    }
}
/// European price: discounted expectation under lognormal S with carry b.
fn jprice(call: bool, s: J, k: J, t: J, r: J, b: J, v: J) -> J {
    let sd = v * t.sqrt();
    let d1 = ((s * k.recip()).ln() + b * t) * sd.recip() + sd.scale(0.5);
    let d2 = d1 - sd;
    let (ds, dk) = (s * ((b - r) * t).exp(), k * (r * t).scale(-1.0).exp());
    if call { ds * d1.ncdf() - dk * d2.ncdf() } else { dk * d2.scale(-1.0).ncdf() - ds * d1.scale(-1.0).ncdf() }
}
fn ref_price(call: bool, s: f64, k: f64, t: f64, r: f64, b: f64, v: f64) -> f64 {
    let sd = v * t.sqrt();
    let d1 = ((s / k).ln() + b * t) / sd + 0.5 * sd;
    let (ds, dk) = (s * ((b - r) * t).exp(), k * (-r * t).exp());
    if call { ds * ncdf(d1) - dk * ncdf(d1 - sd) } else { dk * ncdf(sd - d1) - ds * ncdf(-d1) }
}
/// All Greeks of the reference price; names as in the trait.
struct G { price: f64, delta: f64, gamma: f64, theta: f64, vega: f64, rho: f64, vanna: f64, charm: f64, zomma: f64, speed: f64, color: f64, vomma: f64, ultima: f64, vega_bleed: f64, phi: f64, kd: f64, kg: f64 }
fn greeks(call: bool, s: f64, k: f64, t: f64, r: f64, b: f64, v: f64, carry_moves: bool) -> G {
    let c = J::c;
    let sv = jprice(call, J::x(s), c(k), c(t), c(r), c(b), J::y(v));
    let st = jprice(call, J::x(s), c(k), J::y(t), c(r), c(b), c(v));
    let vt = jprice(call, c(s), c(k), J::y(t), c(r), c(b), J::x(v));
    let rq = { let rr = J::x(r); let bb = if carry_moves { rr + c(b - r) - (J::y(0.0)) } else { c(b) - J::y(0.0) }; jprice(call, c(s), c(k), c(t), rr, bb, c(v)) };
    let kk = jprice(call, c(s), J::x(k), c(t), c(r), c(b), c(v));
    G {
        price: sv.d(0, 0), delta: sv.d(1, 0), gamma: sv.d(2, 0), speed: sv.d(3, 0), vega: sv.d(0, 1), vomma: sv.d(0, 2), ultima: sv.d(0, 3), vanna: sv.d(1, 1), zomma: sv.d(2, 1),
        theta: -st.d(0, 1), charm: st.d(1, 1), color: -st.d(2, 1), vega_bleed: -vt.d(1, 1), rho: rq.d(1, 0), phi: rq.d(0, 1), kd: kk.d(1, 0), kg: kk.d(2, 0),
    }
}

const NM: usize = 5;
const MODELS: [&str; NM] = ["BlackScholes73", "Merton73", "Black76", "Asay82", "GarmanKohlhagen83"];
fn model(m: usize, s: f64, r: f64, q: f64, v: f64) -> Box<dyn GeneralisedBlackScholesMerton> {
    match m {
        0 => Box::new(BlackScholes73::new(s, r, v)), 1 => Box::new(Merton73::new(s, r, q, v)), 2 => Box::new(Black76::new(s, r, v)),
        3 => Box::new(Asay82::new(s, v)), _ => Box::new(GarmanKohlhagen83::new(s, r, q, v)),
    }
}
/// (r, b, carry moves with the rate) of a model
fn rb(m: usize, r: f64, q: f64) -> (f64, f64, bool) {
    match m { 0 => (r, r, true), 1 | 4 => (r, r - q, true), 2 => (r, 0.0, false), _ => (0.0, 0.0, false) }
}
#[derive(Clone, Copy, Debug)]
struct Pt { m: usize, s: f64, k: f64, t: f64, r: f64, q: f64, v: f64 }
struct Grid { s: Vec<f64>, k: Vec<f64>, t: Vec<f64>, r: Vec<f64>, q: Vec<f64>, v: Vec<f64> }
fn grid(ck: &Ck) -> Grid {
    let f = |n: i32, step: f64| (-n..=n).map(move |i| 100.0 * (i as f64 * step).exp());
    if ck.thorough() {
        Grid { s: f(24, 0.06).chain([1e-3, 1.0, 1e3, 1e5, 100.5]).collect(), k: vec![1e-3, 1.0, 50.0, 80.0, 95.0, 100.0, 102.5, 140.0, 1e3, 1e5], t: vec![0.004, 0.02, 0.05, 0.25, 0.5, 1.0, 2.0, 3.0, 10.0, 30.0, 60.0], r: vec![-0.05, -0.01, 0.0, 0.001, 0.02, 0.05, 0.12, 0.2], q: vec![-0.02, 0.0, 0.01, 0.03, 0.05, 0.08, 0.15], v: vec![0.01, 0.03, 0.05, 0.1, 0.15, 0.2, 0.25, 0.4, 0.6, 1.0, 1.5, 3.0] }
    } else {
        Grid { s: vec![1e-3, 1.0, 25.0, 40.0, 60.0, 75.0, 80.0, 90.0, 95.0, 98.0, 99.5, 100.0, 100.5, 102.5, 105.0, 110.0, 120.0, 130.0, 150.0, 250.0, 1e3, 1e5], k: vec![1e-3, 50.0, 90.0, 100.0, 102.5, 140.0, 1e5], t: vec![0.004, 0.05, 0.25, 0.5, 1.0, 2.0, 3.0, 10.0, 30.0, 60.0], r: vec![-0.05, -0.01, 0.0, 0.001, 0.02, 0.05, 0.2], q: vec![-0.02, 0.0, 0.02, 0.03, 0.05, 0.15], v: vec![0.01, 0.05, 0.1, 0.2, 0.25, 0.4, 0.6, 1.5, 3.0] }
    }
}
/// Model points grouped by (model, s); the inner closure walks k, t, r, q, v.
fn walk(ck: &Ck, f: impl Fn(&mut W, Pt) + Sync) {
    let g = grid(ck);
    ck.par(NM * g.s.len(), |w, i| {
        let (m, s) = (i / g.s.len(), g.s[i % g.s.len()]);
        for &k in &g.k { for &t in &g.t { for &r in &g.r { for &q in &g.q { for &v in &g.v {
            // parameters a model does not have are not varied
            if (m == 0 || m == 2 || m == 3) && q != g.q[0] { continue; }
            if m == 3 && r != g.r[0] { continue; }
            f(w, Pt { m, s, k, t, r, q, v });
        } } } } }
    });
}
fn bsm(p: &Pt, b: f64, r: f64, days: i64, call: bool) -> BlackScholesMerton { BlackScholesMerton::new(b, p.s, p.k, p.v, r, Some(day(0)), day(days), fl(call)) }

fn i02(ck: &Ck) {
    ck.assume("spot, strike, maturity and volatility are positive; maturities of dated options are whole days over 365.25");
    walk(ck, |w, p| {
        let (r, b, _) = rb(p.m, p.r, p.q);
        let mdl = model(p.m, p.s, p.r, p.q, p.v);
        w.case("closed-form", || format!("{} {p:?}", MODELS[p.m]), |w| {
            let (ds, dk) = (p.s * ((b - r) * p.t).exp(), p.k * (-r * p.t).exp());
            let sc = ds + dk;
            let sd = p.v * p.t.sqrt();
            let d1 = ((p.s / p.k).ln() + b * p.t) / sd + 0.5 * sd;
            ensure!(close(mdl.d1(p.k, p.t), d1, 1e-10, 1e-10) && close(mdl.d2(p.k, p.t), d1 - sd, 1e-10, 1e-10), "d1/d2 {} {}", mdl.d1(p.k, p.t), mdl.d2(p.k, p.t));
            let pr = FLAGS.map(|c| mdl.price(p.k, p.t, fl(c)));
            for c in 0..2 {
                w.op();
                let want = ref_price(FLAGS[c], p.s, p.k, p.t, r, b, p.v);
                ensure!(close(pr[c], want, 1e-13 * sc, 1e-9), "{} price {}, closed form {want}", if c == 0 { "call" } else { "put" }, pr[c]);
                // far out of the money the price is small but not lost: rounding is relative to the two legs
                let sg = if c == 0 { 1.0 } else { -1.0 };
                let legs = ds * ncdf(sg * d1) + dk * ncdf(sg * (d1 - sd));
                ensure!((pr[c] - want).abs() <= 1e-10 * legs + 1e-290, "{} price {}, closed form {want} (legs {legs})", if c == 0 { "call" } else { "put" }, pr[c]);
            }
            ensure!(close(pr[0] - pr[1], ds - dk, 1e-12 * sc, 0.0), "parity: {} - {} vs forward {}", pr[0], pr[1], ds - dk);
            let e = 1e-13 * sc;
            ensure!(pr[0] >= (ds - dk).max(0.0) - e && pr[0] <= ds + e && pr[1] >= (dk - ds).max(0.0) - e && pr[1] <= dk + e, "bounds {pr:?}");
            w.outcome(hf(&pr));
            w.state(hf(&[p.m as f64, p.s, p.k, p.t, p.r, p.q, p.v]));
            // strictly ordered in spot, strike and volatility
            for c in 0..2 {
                let up = model(p.m, p.s * 1.01, p.r, p.q, p.v).price(p.k, p.t, fl(FLAGS[c]));
                let kp = mdl.price(p.k * 1.01, p.t, fl(FLAGS[c]));
                let vp = model(p.m, p.s, p.r, p.q, p.v * 1.05).price(p.k, p.t, fl(FLAGS[c]));
                let sg = if c == 0 { 1.0 } else { -1.0 };
                ensure!(sg * (up - pr[c]) >= -e && sg * (pr[c] - kp) >= -e && vp >= pr[c] - e, "monotonicity: base {} spot up {up} strike up {kp} vol up {vp}", pr[c]);
                // convex in the strike
                let kpp = mdl.price(p.k * 1.02, p.t, fl(FLAGS[c]));
                ensure!(pr[c] + kpp - 2.0 * kp >= -4.0 * e, "butterfly {}", pr[c] + kpp - 2.0 * kp);
                // homogeneous of degree one in spot and strike
                let hh = model(p.m, p.s * 7.0, p.r, p.q, p.v).price(p.k * 7.0, p.t, fl(FLAGS[c]));
                ensure!(close(hh, 7.0 * pr[c], 1e-12 * sc, 1e-9), "scaling {hh} vs {}", 7.0 * pr[c]);
            }
            // special cases of the family
            let eq = |a: f64, b: f64| close(a, b, 1e-12 * sc, 1e-10);
            for c in FLAGS {
                let f = fl(c);
                let base = mdl.price(p.k, p.t, f);
                match p.m {
                    0 => {
                        ensure!(eq(base, model(1, p.s, p.r, 0.0, p.v).price(p.k, p.t, f)) && eq(base, model(4, p.s, p.r, 0.0, p.v).price(p.k, p.t, f)), "no dividend");
                        ensure!(eq(base, model(2, p.s * (p.r * p.t).exp(), p.r, 0.0, p.v).price(p.k, p.t, f)), "priced on the forward");
                    }
                    1 => ensure!(eq(base, model(4, p.s, p.r, p.q, p.v).price(p.k, p.t, f)), "Merton = Garman-Kohlhagen"),
                    2 => { let u = model(3, p.s, 0.0, 0.0, p.v).price(p.k, p.t, f) * (-p.r * p.t).exp(); ensure!(eq(base, u), "Black = discounted Asay") }
                    _ => {}
                }
            }
            Ok(())
        });
    });
    // dated options: generalised model and the analytic pricer
    let g = grid(ck);
    let days = [1i64, 30, 365, 1000, 3653];
    ck.par(NM * g.s.len(), |w, i| {
        let (m, s) = (i / g.s.len(), g.s[i % g.s.len()]);
        for &k in &g.k { for &n in &days { for &r in &g.r { for &v in &g.v { for q in [0.0, 0.03] {
            if q != 0.0 && (m == 0 || m == 2 || m == 3) { continue; }
            let p = Pt { m, s, k, t: n as f64 / 365.25, r, q, v };
            let (rr, b, _) = rb(m, r, q);
            w.case("dated", || format!("{} {p:?} {n} days", MODELS[m]), |w| {
                for c in FLAGS {
                    w.op();
                    let want = ref_price(c, s, k, p.t, rr, b, v);
                    let sc = s * ((b - rr) * p.t).exp() + k * (-rr * p.t).exp();
                    let x = bsm(&p, b, rr, n, c);
                    ensure!(close(x.year_fraction(), p.t, 1e-14, 1e-12), "year fraction {}", x.year_fraction());
                    ensure!(close(x.price(), want, 1e-13 * sc, 1e-9), "BlackScholesMerton {} vs {want}", x.price());
                    ensure!(Instrument::price(&x) == x.price() && x.valuation_date() == day(0) && Instrument::error(&x).is_none(), "instrument view");
                    let y = on_today(|d0| {
                        let o = EuropeanVanillaOption::new(k, d0 + Duration::days(n), fl(c));
                        analytic(m, o, s, r, q, v)[0]
                    });
                    ensure!(close(y, want, 1e-13 * sc, 1e-9), "AnalyticOptionPricer {y} vs {want}");
                    if n == 30 && v == g.v[0] {
                        let z = on_today(|d0| { let x = BlackScholesMerton::new(b, s, k, v, rr, None, d0 + Duration::days(n), fl(c)); if x.valuation_date() == d0 { x.price() } else { f64::NAN } });
                        ensure!(close(z, want, 1e-13 * sc, 1e-9), "undated evaluation {z} vs {want}");
                    }
                }
                Ok(())
            });
        } } } } }
    });
    // the analytic pricer prices its current option under its current model, whatever was replaced before
    let depth = ck.pick(4, 6);
    ck.par(7, |w, m| {
        macro_rules! hist { ($models:expr) => {{
            let models = $models;
            for l in 1..=depth { words(5, l, &mut |word| {
                w.case("pricer-histories", || format!("{m}: model {word:?} (0-2: set option, 3-4: set model)"), |w| {
                    let d0 = day(40000);
                    let opts = [EuropeanVanillaOption::new(95.0, d0, TypeFlag::Call), EuropeanVanillaOption::new(95.0, d0, TypeFlag::Put), EuropeanVanillaOption::new(110.0, d0 + Duration::days(400), TypeFlag::Call)];
                    let (mut o, mut md) = (0usize, 0usize);
                    let mut p = AnalyticOptionPricer::new(opts[0].clone(), models[0].clone());
                    for &x in word {
                        w.op();
                        if x < 3 { o = x; p.set_option(opts[o].clone()); } else { md = x - 3; p.set_model(models[md].clone()); }
                        ensure!(format!("{:?}", p.option()) == format!("{:?}", opts[o]), "option {:?}", p.option());
                        ensure!(format!("{:?}", p.model()) == format!("{:?}", models[md]), "model {:?}", p.model());
                        let (a, b) = on_today(|_| (p.price(), AnalyticOptionPricer::new(opts[o].clone(), models[md].clone()).price()));
                        ensure!(a.to_bits() == b.to_bits(), "price {a}, a fresh pricer gives {b}");
                    }
                    w.outcome(hf(&[o as f64, md as f64]));
                    Ok(())
                });
            }); }
        }} }
        match m {
            0 => hist!([BlackScholes73::new(100.0, 0.05, 0.2), BlackScholes73::new(90.0, 0.05, 0.2)]),
            1 => hist!([Merton73::new(100.0, 0.05, 0.02, 0.2), Merton73::new(100.0, 0.05, 0.0, 0.2)]),
            2 => hist!([Black76::new(100.0, 0.05, 0.2), Black76::new(100.0, 0.01, 0.2)]),
            3 => hist!([Asay82::new(100.0, 0.2), Asay82::new(100.0, 0.3)]),
            4 => hist!([GarmanKohlhagen83::new(100.0, 0.05, 0.02, 0.2), GarmanKohlhagen83::new(100.0, 0.02, 0.05, 0.2)]),
            5 => hist!([Bachelier::new(100.0, 0.05, 20.0), Bachelier::new(100.0, 0.05, 10.0)]),
            _ => hist!([Heston93::new(100.0, 0.04, 0.05, 0.02, -0.5, 2.0, 0.04, 0.3), Heston93::new(100.0, 0.09, 0.05, 0.02, -0.5, 2.0, 0.04, 0.3)]),
        }
    });
}
/// Runs `f(today)` so that the date does not change while it runs.
fn on_today<T>(f: impl Fn(Date) -> T) -> T {
    loop { let d = today(); let r = f(d); if today() == d { return r; } }
}
/// price, delta, gamma, theta, vega, rho, vanna, charm, lambda, zomma, speed, color, vomma, ultima
fn analytic(m: usize, o: EuropeanVanillaOption, s: f64, r: f64, q: f64, v: f64) -> [f64; 14] {
    macro_rules! all { ($p:expr) => {{ let p = $p; [p.price(), p.delta(), p.gamma(), p.theta(), p.vega(), p.rho(), p.vanna(), p.charm(), p.lambda(), p.zomma(), p.speed(), p.color(), p.vomma(), p.ultima()] }} }
    match m {
        0 => all!(AnalyticOptionPricer::new(o, BlackScholes73::new(s, r, v))),
        1 => all!(AnalyticOptionPricer::new(o, Merton73::new(s, r, q, v))),
        2 => all!(AnalyticOptionPricer::new(o, Black76::new(s, r, v))),
        3 => all!(AnalyticOptionPricer::new(o, Asay82::new(s, v))),
        _ => all!(AnalyticOptionPricer::new(o, GarmanKohlhagen83::new(s, r, q, v))),
    }
}
const GN: [&str; 14] = ["price", "delta", "gamma", "theta", "vega", "rho", "vanna", "charm", "lambda", "zomma", "speed", "color", "vomma", "ultima"];
fn gvec(m: &dyn GeneralisedBlackScholesMerton, k: f64, t: f64, f: TypeFlag) -> [f64; 14] {
    [m.price(k, t, f), m.delta(k, t, f), m.gamma(k, t, f), m.theta(k, t, f), m.vega(k, t, f), m.rho(k, t, f), m.vanna(k, t, f), m.charm(k, t, f), m.lambda(k, t, f), m.zomma(k, t, f), m.speed(k, t, f), m.color(k, t, f), m.vomma(k, t, f), m.ultima(k, t, f)]
}
/// Reference Greeks with the absolute scale on which each is compared.
fn gref(g: &G, s: f64, k: f64, t: f64, r: f64, b: f64, v: f64) -> [(f64, f64); 14] {
    let sc = s * ((b - r) * t).exp() + k * (-r * t).exp();
    let sd = v * t.sqrt();
    // natural size of each derivative, used only for the absolute tolerance
    let d = ((s / k).ln() + b * t).abs() / sd + sd + 1.0;
    let (ds, dv, dt) = (d / (s * sd), d * d / v, (d * d / t) + r.abs() + b.abs());
    [(g.price, sc), (g.delta, sc / s), (g.gamma, sc / s * ds), (g.theta, sc * dt), (g.vega, sc * dv), (g.rho, sc * t), (g.vanna, sc / s * dv), (g.charm, sc / s * dt), (g.delta * s / g.price, sc / g.price),
     (g.zomma, sc / s * ds * dv), (g.speed, sc / s * ds * ds), (g.color, sc / s * ds * dt), (g.vomma, sc * dv * dv), (g.ultima, sc * dv * dv * dv)]
}
/// Far out of the money delta and elasticity are small or large but not lost.
fn wing(c: bool, s: f64, k: f64, t: f64, r: f64, b: f64, v: f64, delta: f64, lambda: f64, price: f64) -> Res {
    let sd = v * t.sqrt();
    let d1 = ((s / k).ln() + b * t) / sd + 0.5 * sd;
    let sg = if c { 1.0 } else { -1.0 };
    let want = sg * ((b - r) * t).exp() * ncdf(sg * d1);
    ensure!(close(delta, want, 1e-290, 1e-9), "{} delta {delta}, closed form {want}", if c { "call" } else { "put" });
    // the elasticity of the very price the library reports
    if price > 1e-280 && want.abs() > 1e-280 { ensure!(close(lambda, delta * s / price, 0.0, 1e-9), "{} elasticity {lambda} with delta {delta}, spot {s} and price {price}", if c { "call" } else { "put" }); }
    Ok(())
}
fn i03(ck: &Ck) {
    ck.assume("sign conventions of the code base: theta, colour and vega bleed are derivatives with respect to the passing of time, charm with respect to time to expiry; rho moves the carry with the rate except for models quoted on futures; the dated generalised model with zero carry may take either reading of rho");
    ck.assume("elasticity is compared only where the price exceeds 1e-6 of spot plus strike");
    let tol_r = 1e-8;
    let tol_a = 1e-12;
    walk(ck, |w, p| {
        let (r, b, cm) = rb(p.m, p.r, p.q);
        let mdl = model(p.m, p.s, p.r, p.q, p.v);
        w.case("trait-greeks", || format!("{} {p:?}", MODELS[p.m]), |w| {
            for c in FLAGS {
                let g = greeks(c, p.s, p.k, p.t, r, b, p.v, cm);
                let want = gref(&g, p.s, p.k, p.t, r, b, p.v);
                let got = gvec(&*mdl, p.k, p.t, fl(c));
                let sc = want[0].1;
                for i in 0..14 {
                    if i == 8 && g.price < 1e-6 * sc { continue; }
                    w.op();
                    ensure!(close(got[i], want[i].0, tol_a * want[i].1, tol_r), "{} {} = {}, derivative {} (scale {})", if c { "call" } else { "put" }, GN[i], got[i], want[i].0, want[i].1);
                }
                wing(c, p.s, p.k, p.t, r, b, p.v, got[1], got[8], got[0])?;
                w.outcome(hf(&got));
            }
            w.state(hf(&[p.m as f64, p.s, p.k, p.t, p.r, p.q, p.v]));
            Ok(())
        });
    });
    let g = grid(ck);
    let days = [1i64, 30, 365, 1000, 3653];
    ck.par(NM * g.s.len(), |w, i| {
        let (m, s) = (i / g.s.len(), g.s[i % g.s.len()]);
        for &k in &g.k { for &n in &days { for &r in &g.r { for &v in &g.v { for q in [0.0, 0.03] {
            if q != 0.0 && (m == 0 || m == 2 || m == 3) { continue; }
            let p = Pt { m, s, k, t: n as f64 / 365.25, r, q, v };
            let (rr, b, cm) = rb(m, r, q);
            w.case("dated-greeks", || format!("{} {p:?} {n} days", MODELS[m]), |w| {
                for c in FLAGS {
                    let g = greeks(c, s, k, p.t, rr, b, v, cm);
                    let want = gref(&g, s, k, p.t, rr, b, v);
                    let sc = want[0].1;
                    let got = on_today(|d0| analytic(m, EuropeanVanillaOption::new(k, d0 + Duration::days(n), fl(c)), s, r, q, v));
                    wing(c, s, k, p.t, rr, b, v, got[1], got[8], got[0])?;
                    for i in 0..14 {
                        if i == 8 && g.price < 1e-6 * sc { continue; }
                        w.op();
                        ensure!(close(got[i], want[i].0, tol_a * want[i].1, tol_r), "pricer {} = {}, derivative {}", GN[i], got[i], want[i].0);
                    }
                    let x = bsm(&p, b, rr, n, c);
                    let rho2 = greeks(c, s, k, p.t, rr, b, v, !cm).rho;
                    let (sdl, sv) = (want[1].1, want[4].1);
                    let dt = want[3].1 / sc;
                    let xs: Vec<(&str, f64, f64, f64)> = vec![
                        ("delta", x.delta(), g.delta, want[1].1), ("gamma", x.gamma(), g.gamma, want[2].1), ("gamma_percent", x.gamma_percent(), g.gamma * s / 100.0, want[2].1 * s), ("theta", x.theta(), g.theta, want[3].1),
                        ("vega", x.vega(), g.vega, want[4].1), ("rho", x.rho(), if b == 0.0 && !close(x.rho(), g.rho, tol_a * want[5].1, tol_r) { rho2 } else { g.rho }, want[5].1), ("vanna", x.vanna(), g.vanna, want[6].1), ("charm", x.charm(), g.charm, want[7].1),
                        ("zomma", x.zomma(), g.zomma, want[9].1), ("zomma_percent", x.zomma_percent(), g.zomma * s / 100.0, want[9].1 * s), ("speed", x.speed(), g.speed, want[10].1), ("colour", x.colour(), g.color, want[11].1), ("vomma", x.vomma(), g.vomma, want[12].1), ("ultima", x.ultima(), g.ultima, want[13].1),
                        ("vega_bleed", x.vega_bleed(), g.vega_bleed, sv * dt), ("phi", x.phi(), g.phi, sc * p.t), ("strike_delta", x.strike_delta(), g.kd, sc / k), ("strike_gamma", x.strike_gamma(), g.kg, sdl * s / k * want[2].1 / want[1].1 * s / k),
                        ("zeta", x.zeta(), (g.kd * (rr * p.t).exp()).abs(), sc / k * (rr * p.t).exp()),
                    ];
                    for (nm, got, want, scale) in xs { w.op(); ensure!(close(got, want, tol_a * scale, tol_r), "BlackScholesMerton {nm} = {got}, derivative {want}"); }
                    wing(c, s, k, p.t, rr, b, v, x.delta(), x.lambda(), x.price())?;
                    if g.price > 1e-6 * sc { ensure!(close(x.lambda(), g.delta * s / g.price, tol_a * sc / g.price, 1e-6), "elasticity {}", x.lambda()); }
                }
                Ok(())
            });
        } } } } }
    });
    // prices and Greeks in other units of money: exact multiples for powers of two, whatever the size of spot and strike
    const UNIT: [i32; 14] = [1, 0, -1, 1, 1, 1, 0, 0, 0, -1, -2, -1, 1, 1];
    ck.par(NM * g.s.len(), |w, i| {
        let (m, s) = (i / g.s.len(), g.s[i % g.s.len()]);
        for &k in &g.k { for t in [0.003, 0.25, 1.0, 7.0] { for &r in &g.r { for &v in &g.v { for e in ck.pick(vec![-40, -14, -7, 3, 7, 14, 27, 40], vec![-100, -40, -27, -20, -14, -10, -7, -3, -1, 1, 3, 5, 7, 10, 14, 17, 20, 27, 40, 100]) {
            let q = if m == 0 || m == 2 || m == 3 { 0.0 } else { 0.03 };
            w.case("units", || format!("{} S={s} K={k} T={t} r={r} q={q} v={v} in units of 2^{}", MODELS[m], -e), |w| {
                let z = (e as f64).exp2();
                let (x, y) = (model(m, s, r, q, v), model(m, s * z, r, q, v));
                let (rr, b, cm) = rb(m, r, q);
                for c in FLAGS {
                    let want = gref(&greeks(c, s, k, t, rr, b, v, cm), s, k, t, rr, b, v);
                    let (a, b) = (gvec(&*x, k, t, fl(c)), gvec(&*y, k * z, t, fl(c)));
                    for i in 0..14 {
                        if i == 8 && a[0] < 1e-6 * want[0].1 { continue; }
                        w.op();
                        let bi = b[i] / (e as f64 * UNIT[i] as f64).exp2();
                        ensure!(close(a[i], bi, 1e-12 * want[i].1, 1e-9), "{} {} = {}, in the other unit {bi}", if c { "call" } else { "put" }, GN[i], a[i]);
                    }
                }
                Ok(())
            });
        } } } } }
    });
}

// ---------------------------------------------------------------- I04 implied volatility
/// phi(y) * (R(y) - R(y + h)) with the Mills ratio R: the out-of-the-money price per unit of the nearer leg,
/// as phi(y) times the integral of 1 - u R(u); relatively exact however small.
fn otm(y: f64, h: f64) -> f64 {
    // 1 - u R(u): R by its continued fraction, or by the normal distribution near zero
    let g = |u: f64| {
        if u < 3.0 { return 1.0 - u * ncdf(-u) / npdf(u); }
        // R(u) = 1 / (u + 1 / (u + 2 / (u + 3 / ...))), so 1 - u R = q / (u + q), q = 1 / (u + 2 / (u + ...))
        let mut f = u;
        for k in (2..=120).rev() { f = u + k as f64 / f; }
        let q = 1.0 / f;
        q / (u + q)
    };
    // composite Gauss-Legendre with 5 points
    let (x, wt) = ([0.0, 0.538_469_310_105_683_1, 0.906_179_845_938_664], [0.568_888_888_888_888_9, 0.478_628_670_499_366_5, 0.236_926_885_056_189_1]);
    let n = 1 + (h / 0.05) as usize;
    let d = h / n as f64;
    let mut sum = 0.0;
    for i in 0..n {
        let m = y + (i as f64 + 0.5) * d;
        sum += 0.5 * d * (wt[0] * g(m) + wt[1] * (g(m + 0.5 * d * x[1]) + g(m - 0.5 * d * x[1])) + wt[2] * (g(m + 0.5 * d * x[2]) + g(m - 0.5 * d * x[2])));
    }
    npdf(y) * sum
}
fn i04(ck: &Ck) {
    ck.assume("the price handed over is the reference price in double precision; where it carries no volatility information (time value below 1e-13 of spot plus strike) only repricing is required");
    let (n, dv) = ck.pick((100, 0.0125), (200, 0.005));
    let mut ss: Vec<f64> = (-n..=n).map(|i| 100.0 * (i as f64 * 2.0 / n as f64).exp()).collect();
    ss.extend([1.0, 10.0, 1000.0, 10000.0]);
    let (ts, rs) = (ck.pick(vec![0.002, 0.01, 0.1, 0.5, 1.0, 2.0, 10.0, 40.0], vec![0.002, 0.005, 0.01, 0.05, 0.1, 0.25, 0.5, 1.0, 2.0, 5.0, 10.0, 40.0]), [-0.05, -0.01, 0.0, 0.01, 0.05, 0.2]);
    let mut vs: Vec<f64> = (1..=(1.0 / dv) as i32).map(|i| i as f64 * dv).collect();
    vs.extend([0.001, 0.005, 0.01, 1.5, 2.0, 3.0, 5.0]);
    let check = |w: &mut W, c: bool, s: f64, k: f64, t: f64, r: f64, b: f64, v: f64, iv: &dyn Fn(f64) -> f64| -> Res {
        w.op();
        let price = ref_price(c, s, k, t, r, b, v);
        let (ds, dk) = (s * ((b - r) * t).exp(), k * (-r * t).exp());
        let sc = ds + dk;
        let intr = if c { ds - dk } else { dk - ds }.max(0.0);
        let max = if c { ds } else { dk };
        // prices that rounding puts on or beyond the bounds are a matter of the sections on bounds
        if price <= intr + 2e-14 * sc || price >= max - 2e-14 * sc { return Ok(()); }
        let got = iv(price);
        ensure!(got.is_finite() && got > 0.0, "implied volatility {got} of the attainable price {price}");
        let back = ref_price(c, s, k, t, r, b, got);
        ensure!(close(back, price, 2e-13 * sc, 1e-9), "reprices to {back}, given {price} (implied {got}, original {v})");
        let vega = greeks(c, s, k, t, r, b, v, true).vega;
        if vega > 0.0 && 1e-13 * sc / vega < 1e-3 * v { ensure!(close(got, v, 1e-12 + 1e-13 * sc / vega * 4.0, 1e-9), "implied {got}, original {v} (vega {vega})"); }
        w.outcome(hf(&[got]));
        Ok(())
    };
    ck.par(ss.len() * ts.len(), |w, i| {
        let (s, t) = (ss[i / ts.len()], ts[i % ts.len()]);
        for &r in &rs { for &v in &vs { for c in FLAGS {
            w.case("inversion", || format!("{} S={s} K=100 T={t} r={r} v={v}", if c { "call" } else { "put" }), |w| {
                w.state(hf(&[s, t, r, v, c as u8 as f64]));
                check(w, c, s, 100.0, t, r, r, v, &|p| implied_volatility(p, s, 100.0, t, r, fl(c)))?;
                check(w, c, s, 100.0, t, r, r, v, &|p| iv(p, s, 100.0, t, r, fl(c)))
            });
            for b in [0.0, -0.03, 0.05] {
                let n = ((t * 365.25).round() as i64).max(1);
                let tt = n as f64 / 365.25;
                w.case("generalised-inversion", || format!("{} S={s} K=100 days={n} r={r} b={b} v={v}", if c { "call" } else { "put" }), |w| {
                    // the stored volatility is irrelevant to the inversion
                    let x = bsm(&Pt { m: 0, s, k: 100.0, t: tt, r, q: 0.0, v: 0.37 }, b, r, n, c);
                    check(w, c, s, 100.0, tt, r, b, v, &|p| x.implied_volatility(p))
                });
            }
        } } }
    });
    // far out of the money the price is tiny but carries the volatility to full relative precision: the whole range of doubles
    ck.par(ss.len() * ts.len(), |w, i| {
        let (s, t) = (ss[i / ts.len()], ts[i % ts.len()]);
        for &r in &rs { for &v in &vs {
            let ds = s;
            let dk = 100.0 * (-r * t).exp();
            let c = ds < dk;
            let sd = v * t.sqrt();
            // the larger of the two normal arguments, from above
            let (near, far) = if c { (ds, dk) } else { (dk, ds) };
            let y = (far / near).ln() / sd - 0.5 * sd;
            if !(0.5..=36.0).contains(&y) { continue; }
            let price = near * otm(y, sd);
            if price < 1e-290 { continue; }
            w.case("far-out-of-the-money", || format!("{} S={s} K=100 T={t} r={r} v={v}", if c { "call" } else { "put" }), |w| {
                w.ops(2);
                let got = implied_volatility(price, s, 100.0, t, r, fl(c));
                // relative conditioning: d ln(price) / d ln(v), and the rounding of the moneyness
                ensure!(close(got, v, 0.0, 1e-9 + 1e-14 * (1.0 + y) / sd), "implied {got} from the price {price:e}, original {v}");
                w.outcome(hf(&[got]));
                Ok(())
            });
        } }
    });
    // the unit of the prices does not matter
    ck.par(ss.len(), |w, i| {
        let s = ss[i];
        for &t in &ts { for &r in &rs { for &v in vs.iter().step_by(7) { for c in FLAGS { for e in [-300, -60, -20, 10, 40, 300] {
            let m = (e as f64).exp2();
            w.case("units", || format!("{} S={s} K=100 T={t} r={r} v={v} in units of 2^{}", if c { "call" } else { "put" }, -e), |w| {
                w.ops(2);
                let price = ref_price(c, s, 100.0, t, r, r, v);
                if price * m.min(1.0) < 1e-290 { return Ok(()); }
                let (x, y) = (implied_volatility(price, s, 100.0, t, r, fl(c)), implied_volatility(price * m, s * m, 100.0 * m, t, r, fl(c)));
                ensure!(x == y || close(x, y, 0.0, 1e-12), "implied {x}, in the other unit {y}");
                Ok(())
            });
        } } } } }
    });
    ck.par(ss.len(), |w, i| {
        let s = ss[i];
        for &t in &ts { for &r in &rs { for c in FLAGS { for f in [1e-9, 1e-6, 0.01, 0.5, 3.0] {
            w.case("outside-bounds", || format!("{} S={s} T={t} r={r} by {f}", if c { "call" } else { "put" }), |w| {
                let (ds, dk) = (s, 100.0 * (-r * t).exp());
                let intr = if c { ds - dk } else { dk - ds }.max(0.0);
                let max = if c { ds } else { dk };
                w.ops(3);
                let hi = implied_volatility(max * (1.0 + f), s, 100.0, t, r, fl(c));
                ensure!(hi == f64::INFINITY, "price {} above the maximum {max}: {hi}", max * (1.0 + f));
                if intr > 0.0 {
                    let p = intr - f * (ds + dk);
                    let lo = implied_volatility(p, s, 100.0, t, r, fl(c));
                    ensure!(lo == f64::NEG_INFINITY, "price {p} below intrinsic {intr}: {lo}");
                }
                let lo = implied_volatility(-f, s, 100.0, t, r, fl(c));
                ensure!(lo == f64::NEG_INFINITY, "negative price {}: {lo}", -f);
                Ok(())
            });
        } } } }
    });
}

// ---------------------------------------------------------------- I05 payoffs
fn contract(c: bool, strike: Option<StrikeFlag>) -> OptionContract {
    OptionContract { type_flag: fl(c), exercise_flag: ExerciseFlag::European { expiry: day(365) }, strike_flag: strike, settlement_flag: None }
}
fn i05(ck: &Ck) {
    ck.assume("the path is not empty, and positive where a geometric average is taken; an Asian or lookback contract with fixed strike carries a strike; continuous averaging and an unset strike convention may be refused");
    ck.assume("a barrier is touched when the path reaches or crosses it; a rebate is paid at expiry when the barrier event cancels the option or never activates it");
    let al = [60.0, 80.0, 99.5, 100.0, 120.0, 150.0];
    let len = ck.pick(8, 9);
    let na = 6;
    let strikes = [80.0, 100.0, 101.0];
    let run = |w: &mut W, p: &[f64], k: f64| -> Res {
        let n = p.len() as f64;
        let last = p[p.len() - 1];
        let (mx, mn) = (p.iter().cloned().fold(f64::MIN, f64::max), p.iter().cloned().fold(f64::MAX, f64::min));
        let am = p.iter().sum::<f64>() / n;
        let gm = mn * (p.iter().map(|x| (x / mn).ln()).sum::<f64>() / n).exp();
        let pos = |x: f64| if x > 0.0 { x } else { 0.0 };
        for (meth, avg, cont) in [(AveragingMethod::ArithmeticDiscrete, am, false), (AveragingMethod::GeometricDiscrete, gm, false), (AveragingMethod::ArithmeticContinuous, am, true), (AveragingMethod::GeometricContinuous, gm, true)] {
            for c in FLAGS { for sf in [Some(StrikeFlag::Fixed), Some(StrikeFlag::Floating), None] {
                let (cn, none) = (cont, sf.is_none());
                if cont && p.len() > 2 { continue; }
                let want = match sf { Some(StrikeFlag::Fixed) => if c { avg - k } else { k - avg }, _ => if c { last - avg } else { avg - last } };
                w.op();
                let o = AsianOption::new(contract(c, sf), meth, Some(k));
                match refuses(|| o.payoff(p.to_vec())) {
                    Ok(x) if cn => ensure!(x.is_finite() && x >= 0.0, "continuous average payoff {x}"),
                    Ok(x) => ensure!(close(x, pos(want), 1e-10 * (avg + k), 0.0), "asian {meth:?} {sf:?} call={c}: {x}, definition {}", pos(want)),
                    Err(e) => ensure!(cn || none, "asian {meth:?} {sf:?}: {e}"),
                }
            } }
        }
        for c in FLAGS {
            for sf in [Some(StrikeFlag::Fixed), Some(StrikeFlag::Floating), None] {
                w.op();
                let want = match sf { Some(StrikeFlag::Fixed) => if c { mx - k } else { k - mn }, _ => if c { last - mn } else { mx - last } };
                let o = LookbackOption { contract: contract(c, sf), strike: Some(k) };
                match refuses(|| o.payoff(p.to_vec())) {
                    Ok(x) => ensure!(close(x, pos(want), 1e-12 * k, 0.0), "lookback {sf:?} call={c}: {x}, definition {}", pos(want)),
                    Err(e) => ensure!(sf.is_none(), "lookback {sf:?}: {e}"),
                }
            }
            let vanilla = pos(if c { last - k } else { k - last });
            for b in [80.0, 100.0, 110.0, 120.0] { for rebate in [None, Some(0.0), Some(3.25)] {
                let rb = rebate.unwrap_or(0.0);
                let (up, dn) = (mx >= b, mn <= b);
                let mut got = vec![];
                for (bt, active) in [(BarrierType::UpAndOut, !up), (BarrierType::UpAndIn, up), (BarrierType::DownAndOut, !dn), (BarrierType::DownAndIn, dn)] {
                    w.op();
                    let x = BarrierOption { contract: contract(c, None), barrier_type: bt, barrier: b, strike: k, rebate }.payoff(p.to_vec());
                    let want = if active { vanilla } else { rb };
                    ensure!(close(x, want, 1e-12 * k, 0.0), "{bt:?} barrier {b} rebate {rebate:?} call={c}: {x}, definition {want}");
                    got.push(x);
                }
                ensure!(close(got[0] + got[1], vanilla + rb, 1e-11 * k, 0.0) && close(got[2] + got[3], vanilla + rb, 1e-11 * k, 0.0), "in + out {got:?} vs vanilla {vanilla} + rebate {rb}");
            } }
        }
        Ok(())
    };
    for l in 1..=len {
        let heads = if l > 2 { na * na } else { 1 };
        ck.par(heads, |w, i| {
            let pre: Vec<usize> = if l > 2 { vec![i / na, i % na] } else { vec![] };
            words(na, l - pre.len(), &mut |rest| {
                let p: Vec<f64> = pre.iter().chain(rest).map(|&x| al[x]).collect();
                let ks: &[f64] = if l <= 5 { &strikes } else { &strikes[1..2] };
                for &k in ks {
                    w.case("paths", || format!("{p:?} K={k}"), |w| { w.state(hf(&p)); w.outcome(hf(&[k, p[p.len() - 1]])); run(w, &p, k) });
                }
            });
        });
    }
    // prices of normal models may be zero or negative: everything but the geometric average is defined there too
    let al = [-20.0, -1.0, 0.0, 5.0, 100.0];
    let nl = ck.pick(5, 7);
    for l in 1..=nl {
        ck.par(al.len(), |w, i| {
            words(al.len(), l - 1, &mut |rest| {
                let p: Vec<f64> = std::iter::once(&i).chain(rest).map(|&x| al[x]).collect();
                for k in [-10.0, 0.0, 50.0] {
                    w.case("real-paths", || format!("{p:?} K={k}"), |w| {
                        w.state(hf(&p));
                        let last = p[p.len() - 1];
                        let (mx, mn) = (p.iter().cloned().fold(f64::MIN, f64::max), p.iter().cloned().fold(f64::MAX, f64::min));
                        let am = p.iter().sum::<f64>() / p.len() as f64;
                        let pos = |x: f64| if x > 0.0 { x } else { 0.0 };
                        for c in FLAGS {
                            w.ops(5);
                            for (sf, want, lb) in [(StrikeFlag::Fixed, if c { am - k } else { k - am }, if c { mx - k } else { k - mn }), (StrikeFlag::Floating, if c { last - am } else { am - last }, if c { last - mn } else { mx - last })] {
                                let x = AsianOption::new(contract(c, Some(sf)), AveragingMethod::ArithmeticDiscrete, Some(k)).payoff(p.clone());
                                ensure!(close(x, pos(want), 1e-10, 0.0), "asian {sf:?} call={c}: {x}, definition {}", pos(want));
                                let x = LookbackOption { contract: contract(c, Some(sf)), strike: Some(k) }.payoff(p.clone());
                                ensure!(close(x, pos(lb), 1e-10, 0.0), "lookback {sf:?} call={c}: {x}, definition {}", pos(lb));
                            }
                            let vanilla = EuropeanVanillaOption::new(k, day(3), fl(c)).payoff(last);
                            ensure!(vanilla == pos(if c { last - k } else { k - last }), "vanilla {vanilla}");
                            for b in [-20.0, -1.0, 0.0, 50.0] {
                                let (up, dn) = (mx >= b, mn <= b);
                                for (bt, active) in [(BarrierType::UpAndOut, !up), (BarrierType::UpAndIn, up), (BarrierType::DownAndOut, !dn), (BarrierType::DownAndIn, dn)] {
                                    let x = BarrierOption { contract: contract(c, None), barrier_type: bt, barrier: b, strike: k, rebate: Some(1.5) }.payoff(p.clone());
                                    let want = if active { vanilla } else { 1.5 };
                                    ensure!(close(x, want, 1e-12, 0.0), "{bt:?} barrier {b} call={c}: {x}, definition {want}");
                                }
                            }
                            let hit = if c { last > k } else { last < k };
                            if last != k { let x = BinaryOption { contract: contract(c, None), strike: k, binary_type: BinaryType::AssetOrNothing }.payoff(last); ensure!(x == if hit { last } else { 0.0 }, "asset-or-nothing call={c}: {x}"); }
                        }
                        w.outcome(hf(&[k, last]));
                        Ok(())
                    });
                }
            });
        });
    }
    // long paths: an extremum at every position of a long flat path, and average accuracy
    let longs = ck.pick(vec![100usize, 1000, 5000], vec![100, 1000, 10_000, 100_000]);
    ck.par(longs.len() * 7 * 3, |w, i| {
        let (n, pos, shape) = (longs[i / 21], i / 3 % 7, i % 3);
        let at = [0, 1, n / 3, n / 2, n - 3, n - 2, n - 1][pos];
        w.case("long-paths", || format!("{n} points, shape {shape}, extremum at {at}"), |w| {
            let mut p: Vec<f64> = (0..n).map(|j| match shape { 0 => 100.0, 1 => 100.0 + (j % 3) as f64, _ => 5000.0 + j as f64 * 0.001 }).collect();
            p[at] = p[at] * 1.5;
            run(w, &p, 100.0)?;
            p[at] = p[at] / 4.0;
            run(w, &p, 100.0)
        });
    });
    // terminal-value contracts
    let us: Vec<f64> = { let mut v = vec![1e-6, 0.5, 1.0, 2.0, 9.999999, 10.0, 10.000001, 11.0, 12.0, 12.000001, 20.0, 99.0, 100.0, 101.0, 1e4]; if ck.thorough() { v.extend((1..400).map(|i| i as f64 * 0.35)); } v };
    let ks2 = [0.5, 1.0, 10.0, 100.0];
    ck.par(us.len(), |w, i| {
        let u = us[i];
        for &k in &ks2 {
            w.case("terminal", || format!("underlying {u} strike {k}"), |w| {
                let pos = |x: f64| if x > 0.0 { x } else { 0.0 };
                w.state(hf(&[u, k]));
                let mut cp = vec![];
                for c in FLAGS {
                    let v = EuropeanVanillaOption::new(k, day(3), fl(c)).payoff(u);
                    ensure!(v == pos(if c { u - k } else { k - u }), "vanilla {v}");
                    cp.push(v);
                    let hit = if c { u > k } else { u < k };
                    for (bt, amt) in [(BinaryType::CashOrNothing, k), (BinaryType::AssetOrNothing, u)] {
                        w.op();
                        let x = BinaryOption { contract: contract(c, None), strike: k, binary_type: bt }.payoff(u);
                        // exactly at the strike either convention of a digital is accepted, for that amount only
                        if u == k { ensure!(x == 0.0 || x == amt, "binary at the strike {x}"); } else { ensure!(x == if hit { amt } else { 0.0 }, "{bt:?} call={c}: {x}"); }
                    }
                    for pw in [0.5, 1.0, 2.0, 3.0] {
                        w.ops(3);
                        let raw = if c { u.powf(pw) - k } else { k - u.powf(pw) };
                        let x = PowerOption::new(contract(c, None), k, pw).payoff(u);
                        ensure!(close(x, pos(raw), 1e-12 * (k + u.powf(pw)), 0.0), "power option {x} vs {raw}");
                        for cap in [0.0, 0.25, 5.0, 1e9] {
                            let y = CappedPowerOption::new(contract(c, None), k, pw, cap).payoff(u);
                            ensure!(close(y, pos(raw).min(cap), 1e-12 * (k + u.powf(pw)), 0.0), "capped power {y}, cap {cap}, raw {raw}");
                        }
                        let z = PoweredOption::new(contract(c, None), k, pw).payoff(u);
                        let wz = pos(if c { u - k } else { k - u }).powf(pw);
                        ensure!(close(z, wz, 0.0, 1e-12), "powered option {z} vs {wz}");
                    }
                    let l = LogOption { contract: contract(c, None), strike: k }.payoff(u);
                    // the log option is defined for calls; a put may be the mirrored payoff
                    let lw = pos((u / k).ln());
                    ensure!(close(l, lw, 1e-13, 1e-12) || !c && close(l, pos(-(u / k).ln()), 1e-13, 1e-12), "log option {l}");
                    ensure!(close(LogMoneynessContract { contract: contract(c, None), strike: k }.payoff(u), (u / k).ln(), 1e-13, 1e-12), "log moneyness");
                    ensure!(close(LogUnderlyingContract { contract: contract(c, None), strike: k }.payoff(u), u.ln(), 1e-13, 1e-12), "log contract");
                }
                ensure!(close(cp[0] - cp[1], u - k, 1e-13 * (u + k), 0.0), "call minus put");
                for pw in [0.5, 1.0, 2.0, 3.0] { ensure!(close(PowerContract::new(k, pw).payoff(u), (u / k).powf(pw), 0.0, 1e-12), "power contract"); }
                for k2 in [k, k * 1.2, k * 50.0] {
                    w.op();
                    let x = SupershareOption { contract: contract(true, None), strike_1: k, strike_2: k2 }.payoff(u);
                    let inside = u / k;
                    if u > k && u < k2 || u == k && k < k2 { ensure!(close(x, inside, 0.0, 1e-13), "supershare {x}"); }
                    else if u == k2 { ensure!(x == 0.0 || close(x, inside, 0.0, 1e-13), "supershare at the upper strike {x}"); }
                    else { ensure!(x == 0.0, "supershare outside {x}"); }
                }
                w.outcome(hf(&cp));
                Ok(())
            });
        }
    });
    // contract expiries
    ck.seq(|w| for n in 1..6i64 {
        w.case("expiry", || format!("{n} dates"), |w| {
            w.op();
            ensure!(ExerciseFlag::European { expiry: day(n) }.expiry() == day(n), "european");
            ensure!(ExerciseFlag::American { start: day(0), end: day(n) }.expiry() == day(n), "american");
            ensure!(ExerciseFlag::Bermudan { exercise_dates: (1..=n).map(day).collect() }.expiry() == day(n), "bermudan");
            Ok(())
        });
    });
}

// ---------------------------------------------------------------- I06 finite differences
/// When the holder may exercise before expiry: during a window, or on given days (taken on the last step not after them).
enum Ex { Window(f64, f64), On(Vec<f64>) }
/// Value with early exercise on a Cox-Ross-Rubinstein lattice (mean of n and n+1 steps).
fn lattice(call: bool, s: f64, k: f64, t: f64, r: f64, v: f64, when: &Ex, n: usize) -> f64 {
    let one = |n: usize| {
        let dt = t / n as f64;
        let u = (v * dt.sqrt()).exp();
        let (p, df) = ((((r * dt).exp()) - 1.0 / u) / (u - 1.0 / u), (-r * dt).exp());
        let pay = |x: f64| if call { x - k } else { k - x }.max(0.0);
        let mut x: Vec<f64> = (0..=n).map(|j| pay(s * u.powi(2 * j as i32 - n as i32))).collect();
        for i in (0..n).rev() {
            let ti = i as f64 * dt;
            let ex = match when { Ex::Window(a, b) => ti >= a - 1e-9 && ti <= b + 1e-9, Ex::On(x) => x.iter().any(|&d| ti <= d + 1e-9 && d < ti + dt - 1e-9) };
            let mut sp = s * u.powi(-(i as i32));
            for j in 0..=i {
                let c = df * (p * x[j + 1] + (1.0 - p) * x[j]);
                x[j] = if ex { c.max(pay(sp)) } else { c };
                sp *= u * u;
            }
        }
        x[0]
    };
    0.5 * (one(n) + one(n + 1))
}
#[derive(Clone, Copy, Debug)]
struct Fd { s: f64, k: f64, r: f64, v: f64, days: i64, nt: u32, nx: u32, c: bool }
fn fd(p: Fd, ex: ExerciseFlag) -> [f64; 3] {
    let o = FiniteDifferencePricer::new(p.s, p.k, p.r, p.v, Some(day(0)), day(p.days), p.nt, p.nx, fl(p.c), ex);
    [o.explicit(), o.implicit(), o.crank_nicolson()]
}
const SCH: [&str; 3] = ["explicit", "implicit", "crank-nicolson"];
fn i06(ck: &Ck) {
    ck.assume("rate and volatility positive as the constructor demands; drift over the life below one standard deviation, so that the forward lies well inside the grid of five standard deviations; at least four price steps; the explicit scheme only where 1 - 2x >= 0 and x >= |y|");
    ck.assume("error bounds are first order in the time step and second order in the price step, scaled by strike; the grid error constants are fixed in the harness");
    let (ss, rs, vs, ds, ns): (Vec<f64>, Vec<f64>, Vec<f64>, Vec<i64>, Vec<(u32, u32)>) = if ck.thorough() {
        (vec![70.0, 80.0, 90.0, 97.0, 100.0, 104.0, 110.0, 120.0, 140.0], vec![0.005, 0.02, 0.05, 0.1, 0.15, 0.35, 0.6], vec![0.1, 0.2, 0.3, 0.5], vec![30, 91, 365, 730, 1461], vec![(50, 40), (100, 60), (200, 101), (400, 100), (800, 150), (1500, 201)])
    } else {
        (vec![80.0, 95.0, 100.0, 104.0, 125.0], vec![0.01, 0.05, 0.1, 0.35], vec![0.15, 0.3, 0.5], vec![91, 365, 1096], vec![(60, 40), (200, 61), (400, 100)])
    };
    let mut pts = vec![];
    for &s in &ss { for &r in &rs { for &v in &vs { for &days in &ds {
        let t = days as f64 / 365.25;
        if r * t > v * t.sqrt() { continue; }
        pts.push((s, r, v, days));
    } } } }
    let k = 100.0;
    ck.par(pts.len(), |w, i| {
        let (s, r, v, days) = pts[i];
        let t = days as f64 / 365.25;
        for c in FLAGS {
            let eu = ref_price(c, s, k, t, r, r, v);
            let am = lattice(c, s, k, t, r, v, &Ex::Window(0.0, t), ck.pick(800, 2000));
            let intrinsic = if c { s - k } else { k - s }.max(0.0);
            for &(nt, nx) in &ns {
                let p = Fd { s, k, r, v, days, nt, nx, c };
                let (dt, dx) = (t / nt as f64, 10.0 * v * t.sqrt() / nx as f64);
                let (x, y) = (0.5 * dt * v * v / dx / dx, dt * (r - 0.5 * v * v) / (2.0 * dx));
                let stable = 1.0 - 2.0 * x >= 0.0 && x >= y.abs();
                // price-step error relative to one standard deviation, time-step error relative to maturity
                let tol = [0.0, 0.0, 0.0].map(|_: f64| 0.5 * k * (v * t.sqrt() * (1.2 * (dx / (v * t.sqrt())).powi(2)) + 0.35 * v * t.sqrt() / nt as f64 + 0.6 * r * t / nt as f64));
                w.case("european", || format!("{p:?}"), |w| {
                    let got = fd(p, ExerciseFlag::European { expiry: day(days) });
                    w.state(hf(&[s, r, v, t, c as u8 as f64]));
                    for m in 0..3 {
                        if m == 0 && !stable { continue; }
                        w.op();
                        ensure!((got[m] - eu).abs() <= tol[m], "{} {} vs closed form {eu}, allowed {}", SCH[m], got[m], tol[m]);
                    }
                    w.outcome(hf(&got));
                    Ok(())
                });
                w.case("american", || format!("{p:?}"), |w| {
                    let e = fd(p, ExerciseFlag::European { expiry: day(days) });
                    let got = fd(p, ExerciseFlag::American { start: day(0), end: day(days) });
                    for m in 0..3 {
                        if m == 0 && !stable { continue; }
                        w.op();
                        ensure!(got[m] >= e[m] - 1e-9 * k, "{} American {} below European {}", SCH[m], got[m], e[m]);
                        // an odd number of price steps averages the two nodes around the spot
                        let odd = if nx % 2 == 1 { tol[m] } else { 0.0 };
                        ensure!(got[m] >= intrinsic - odd - 1e-9 * k, "{} American {} below immediate exercise {intrinsic}", SCH[m], got[m]);
                        ensure!((got[m] - am).abs() <= tol[m] + 2e-4 * k * v * t.sqrt(), "{} American {} vs lattice {am}, allowed {}", SCH[m], got[m], tol[m]);
                    }
                    Ok(())
                });
            }
            let p = Fd { s, k, r, v, days, nt: 200, nx: 100, c };
            let dx = 0.1 * v * t.sqrt();
            let tol = k * (v * t.sqrt() * 0.03 + 0.01 * r * t) + k * 0.001 + dx * 0.0;
            // an exercise window opening or closing inside the life
            for (a, b) in [(0.5, 1.0), (0.9, 1.0), (0.0, 0.25), (1.0, 1.0)] {
                let (da, db) = ((a * days as f64) as i64, (b * days as f64) as i64);
                w.case("exercise-window", || format!("{p:?} exercisable from day {da} to {db}"), |w| {
                    let want = lattice(c, s, k, t, r, v, &Ex::Window(da as f64 / 365.25, db as f64 / 365.25), 400);
                    let got = fd(p, ExerciseFlag::American { start: day(da), end: day(db) });
                    for m in 1..3 {
                        w.op();
                        ensure!((got[m] - want).abs() <= tol, "{} {} vs lattice {want}", SCH[m], got[m]);
                    }
                    Ok(())
                });
            }
            for m in [1i64, 3, 10] {
                w.case("bermudan", || format!("{p:?} exercisable at {m} equally spaced dates"), |w| {
                    let days_on: Vec<i64> = (1..=m).map(|j| days * j / (m + 1)).chain([days]).collect();
                    let want = lattice(c, s, k, t, r, v, &Ex::On(days_on.iter().map(|&d| d as f64 / 365.25).collect()), 400);
                    let got = fd(p, ExerciseFlag::Bermudan { exercise_dates: days_on.iter().map(|&d| day(d)).collect() });
                    let e = fd(p, ExerciseFlag::European { expiry: day(days) });
                    for m in 1..3 {
                        w.op();
                        ensure!(got[m] >= e[m] - 1e-9 * k, "{} Bermudan {} below European {}", SCH[m], got[m], e[m]);
                        ensure!((got[m] - want).abs() <= tol, "{} {} vs lattice {want}", SCH[m], got[m]);
                    }
                    Ok(())
                });
            }
        }
    });
    // fine grids: hundreds of price steps over few or many time steps (the implicit schemes are stable for all of them)
    let fine: Vec<(u32, u32)> = ck.pick(vec![(10, 150), (60, 200), (20, 255), (50, 300), (300, 301), (20, 400)], vec![(1, 150), (10, 150), (60, 200), (2000, 200), (20, 255), (50, 256), (50, 300), (300, 301), (20, 400), (100, 500), (20, 601), (60, 800)]);
    ck.par(fine.len() * 4, |w, i| {
        let ((nt, nx), (s, v)) = (fine[i / 4], [(95.0, 0.2), (110.0, 0.2), (95.0, 0.5), (110.0, 0.5)][i % 4]);
        let (k, r, days) = (100.0, 0.05, 365);
        let t = days as f64 / 365.25;
        for c in FLAGS {
            w.case("fine-grids", || format!("{nt} x {nx} call={c} spot {s} volatility {v}"), |w| {
                let p = Fd { s, k, r, v, days, nt, nx, c };
                let o = |ex| { let o = FiniteDifferencePricer::new(p.s, p.k, p.r, p.v, Some(day(0)), day(p.days), p.nt, p.nx, fl(p.c), ex); [o.implicit(), o.crank_nicolson()] };
                let (e, a) = (o(ExerciseFlag::European { expiry: day(days) }), o(ExerciseFlag::American { start: day(0), end: day(days) }));
                let (eu, am) = (ref_price(c, s, k, t, r, r, v), lattice(c, s, k, t, r, v, &Ex::Window(0.0, t), 800));
                // Crank-Nicolson with long time steps leaves oscillations round the strike
                let dt = 1.0 / nt as f64;
                let tol = k * (v * t.sqrt() * 0.01 + 0.35 * v * t.sqrt() * dt + 0.6 * r * t * dt);
                for m in 0..2 {
                    w.op();
                    ensure!((e[m] - eu).abs() <= tol, "{} European {} vs closed form {eu}, allowed {tol}", SCH[m + 1], e[m]);
                    ensure!((a[m] - am).abs() <= tol && a[m] >= e[m] - 1e-9 * k, "{} American {} vs lattice {am} (European {}), allowed {tol}", SCH[m + 1], a[m], e[m]);
                }
                w.outcome(hf(&[e[0], e[1], a[0], a[1]]));
                w.state(hf(&[nt as f64, nx as f64, s, v]));
                Ok(())
            });
        }
    });
    // exercise dates lying exactly on the time steps: a window is the same contract as the list of the steps in it,
    // more dates are never worth less, and a date between two steps is worth something between the two
    let steps: Vec<(u32, i64)> = ck.pick(vec![(6, 20), (5, 73), (7, 365)], vec![(6, 20), (5, 73), (7, 365), (9, 30), (10, 41), (8, 1)]);
    ck.par(steps.len() * 4, |w, i| {
        let ((nt, len), (s, r)) = (steps[i / 4], [(90.0, 0.12), (100.0, 0.05), (100.0, 0.3), (115.0, 0.2)][i % 4]);
        let days = nt as i64 * len;
        for c in FLAGS {
            let p = Fd { s, k: 100.0, r, v: 0.35, days, nt, nx: 40, c };
            let o = |ex| { let o = FiniteDifferencePricer::new(p.s, p.k, p.r, p.v, Some(day(0)), day(p.days), p.nt, p.nx, fl(p.c), ex); [o.implicit(), o.crank_nicolson()] };
            let on = |m: u32| ExerciseFlag::Bermudan { exercise_dates: (0..=nt as i64).filter(|j| m >> j & 1 == 1).map(|j| day(j * len)).collect() };
            let all: Vec<[f64; 2]> = (0..1u32 << (nt + 1)).map(|m| o(on(m))).collect();
            w.state(hf(&[nt as f64, len as f64, s, r, c as u8 as f64]));
            let same = |x: [f64; 2], y: [f64; 2]| (0..2).all(|m| (x[m] - y[m]).abs() <= 1e-9 * p.k);
            w.case("exercise-steps", || format!("{p:?} no exercise dates"), |w| {
                let e = o(ExerciseFlag::European { expiry: day(days) });
                w.op();
                ensure!(same(all[0], e), "without dates {:?}, European {e:?}", all[0]);
                ensure!(same(all[1 << nt], e), "exercisable at expiry only {:?}, European {e:?}", all[1 << nt]);
                Ok(())
            });
            for a in 0..=nt { for b in a..=nt {
                w.case("exercise-steps", || format!("{p:?} window from step {a} to step {b}"), |w| {
                    let got = o(ExerciseFlag::American { start: day(a as i64 * len), end: day(b as i64 * len) });
                    let m = ((1u32 << (b + 1)) - 1) & !((1u32 << a) - 1);
                    w.op();
                    ensure!(same(got, all[m as usize]), "window {got:?}, the same steps as a list of dates {:?}", all[m as usize]);
                    Ok(())
                });
            } }
            for m in 0..1u32 << (nt + 1) { for j in 0..=nt { if m >> j & 1 == 0 {
                w.case("exercise-steps", || format!("{p:?} dates {m:b} and one more, {j}"), |w| {
                    let (x, y) = (all[m as usize], all[(m | 1 << j) as usize]);
                    w.op();
                    ensure!((0..2).all(|q| y[q] >= x[q] - 1e-9 * p.k), "with the date {y:?}, without {x:?}");
                    Ok(())
                });
            } } }
            // the last exercise date on its own: the option is exercised there or never
            for j in 0..nt { for off in [1, len / 2, len - 1] {
                if off <= 0 || off >= len { continue; }
                w.case("exercise-steps", || format!("{p:?} exercisable {off} days after step {j}"), |w| {
                    let got = o(ExerciseFlag::Bermudan { exercise_dates: vec![day(j as i64 * len + off)] });
                    let (x, y) = (all[1 << j], all[1 << (j + 1)]);
                    w.op();
                    ensure!((0..2).all(|q| got[q] >= x[q].min(y[q]) - 1e-9 * p.k && got[q] <= x[q].max(y[q]) + 1e-9 * p.k), "{got:?}, on the steps around it {x:?} and {y:?}");
                    Ok(())
                });
            } }
            // dates outside the life of the option, repeated and unordered dates
            w.case("exercise-steps", || format!("{p:?} dates outside the life, repeated, unordered"), |w| {
                let m = (1usize << 1) | (1 << 3) | (1 << (nt - 1));
                let mut d: Vec<_> = [nt as i64 - 1, 3, 1, 3].iter().map(|j| day(j * len)).collect();
                w.op();
                let got = o(ExerciseFlag::Bermudan { exercise_dates: d.clone() });
                ensure!(same(got, all[m]), "unordered {got:?}, ordered {:?}", all[m]);
                d.push(day(days + 1)); d.push(day(days + 400));
                let got = o(ExerciseFlag::Bermudan { exercise_dates: d });
                ensure!(same(got, all[m]), "with dates after expiry {got:?}, without {:?}", all[m]);
                let got = o(ExerciseFlag::American { start: day(-30), end: day(days + 30) });
                ensure!(same(got, all[(1 << (nt + 1)) - 1]), "window wider than the life {got:?}, all steps {:?}", all[(1 << (nt + 1)) - 1]);
                Ok(())
            });
        }
    });
    // small grids
    ck.par(40, |w, i| {
        let nx = i as u32 / 4 + 1;
        let nt = [1u32, 2, 3, 10][i % 4];
        for c in FLAGS { for am in [false, true] {
            w.case("small-grids", || format!("{nt} x {nx} call={c} american={am}"), |w| {
                w.op();
                let p = Fd { s: 95.0, k: 100.0, r: 0.05, v: 0.2, days: 91, nt, nx, c };
                let ex = if am { ExerciseFlag::American { start: day(0), end: day(91) } } else { ExerciseFlag::European { expiry: day(91) } };
                match refuses(|| fd(p, ex)) {
                    Ok(x) => for m in 1..3 { ensure!(x[m].is_finite() && x[m] >= -25.0 && x[m] <= 125.0, "{} {}", SCH[m], x[m]); },
                    Err(e) => ensure!(nx < 4, "refused: {e}"),
                }
                Ok(())
            });
        } }
    });
}

// ---------------------------------------------------------------- I07 simulation pricers
/// A process with enumerated coefficients: drift a + b x + c t, diffusion d + e x.
struct Lin([f64; 5]);
impl StochasticProcess for Lin {
    fn drift(&self, x: f64, t: f64) -> f64 { self.0[0] + self.0[1] * x + self.0[2] * t }
    fn diffusion(&self, x: f64, _t: f64) -> f64 { self.0[3] + self.0[4] * x }
    fn jump(&self, _x: f64, _t: f64) -> Option<f64> { None }
}
enum C { V(EuropeanVanillaOption), A(AsianOption), B(BinaryOption), Pc(PowerContract), Po(PowerOption), S(SupershareOption), Ba(BarrierOption), Cp(CappedPowerOption), Pd(PoweredOption), Lm(LogMoneynessContract), Lu(LogUnderlyingContract), Lo(LogOption) }
impl C {
    fn mc(&self, p: &Lin, c: &StochasticProcessConfig, r: f64) -> f64 {
        match self { C::V(o) => o.price_monte_carlo(p, c, r), C::A(o) => o.price_monte_carlo(p, c, r), C::B(o) => o.price_monte_carlo(p, c, r), C::Pc(o) => o.price_monte_carlo(p, c, r), C::Po(o) => o.price_monte_carlo(p, c, r), C::S(o) => o.price_monte_carlo(p, c, r), C::Ba(o) => o.price_monte_carlo(p, c, r), C::Cp(o) => o.price_monte_carlo(p, c, r), C::Pd(o) => o.price_monte_carlo(p, c, r), C::Lm(o) => o.price_monte_carlo(p, c, r), C::Lu(o) => o.price_monte_carlo(p, c, r), C::Lo(o) => o.price_monte_carlo(p, c, r) }
    }
    fn pay(&self, p: &[f64]) -> f64 {
        let l = p[p.len() - 1];
        match self { C::V(o) => o.payoff(l), C::A(o) => o.payoff(p.to_vec()), C::B(o) => o.payoff(l), C::Pc(o) => o.payoff(l), C::Po(o) => o.payoff(l), C::S(o) => o.payoff(l), C::Ba(o) => o.payoff(p.to_vec()), C::Cp(o) => o.payoff(l), C::Pd(o) => o.payoff(l), C::Lm(o) => o.payoff(l), C::Lu(o) => o.payoff(l), C::Lo(o) => o.payoff(l) }
    }
}
fn contracts() -> Vec<(String, C)> {
    let mut v: Vec<(String, C)> = vec![];
    for c in FLAGS {
        let n = if c { "call" } else { "put" };
        v.push((format!("vanilla {n}"), C::V(EuropeanVanillaOption::new(10.0, day(365), fl(c)))));
        for (m, mn) in [(AveragingMethod::ArithmeticDiscrete, "arithmetic"), (AveragingMethod::GeometricDiscrete, "geometric")] { for s in [StrikeFlag::Fixed, StrikeFlag::Floating] {
            v.push((format!("asian {mn} {s:?} {n}"), C::A(AsianOption::new(contract(c, Some(s)), m, Some(10.0)))));
        } }
        for b in [BinaryType::AssetOrNothing, BinaryType::CashOrNothing] { v.push((format!("binary {b:?} {n}"), C::B(BinaryOption { contract: contract(c, None), strike: 10.0, binary_type: b }))); }
        v.push((format!("power {n}"), C::Po(PowerOption::new(contract(c, None), 90.0, 2.0))));
        v.push((format!("capped {n}"), C::Cp(CappedPowerOption::new(contract(c, None), 90.0, 2.0, 15.0))));
        v.push((format!("powered {n}"), C::Pd(PoweredOption::new(contract(c, None), 10.0, 2.0))));
        for bt in [BarrierType::UpAndOut, BarrierType::UpAndIn, BarrierType::DownAndOut, BarrierType::DownAndIn] {
            v.push((format!("barrier {bt:?} {n}"), C::Ba(BarrierOption { contract: contract(c, None), barrier_type: bt, barrier: if matches!(bt, BarrierType::UpAndIn | BarrierType::UpAndOut) { 11.5 } else { 9.0 }, strike: 10.0, rebate: Some(0.4) })));
        }
    }
    v.push(("supershare".into(), C::S(SupershareOption { contract: contract(true, None), strike_1: 9.0, strike_2: 11.0 })));
    v.push(("power contract".into(), C::Pc(PowerContract::new(10.0, 2.0))));
    v.push(("log moneyness".into(), C::Lm(LogMoneynessContract { contract: contract(true, None), strike: 10.0 })));
    v.push(("log contract".into(), C::Lu(LogUnderlyingContract { contract: contract(true, None), strike: 10.0 })));
    v.push(("log option".into(), C::Lo(LogOption { contract: contract(true, None), strike: 10.0 })));
    v
}
fn i07(ck: &Ck) {
    ck.assume("a configured seed determines the simulated paths (decided by S02); statistical comparisons of the regression pricer use fixed seeds and six standard errors, so that the verdict does not depend on the run");
    let procs = [[0.0, 0.05, 0.0, 0.0, 0.2], [0.3, 0.0, -0.2, 0.0, 0.0], [0.0, 0.1, 0.0, 0.5, 0.0], [1.0, -0.1, 0.0, 0.1, 0.05]];
    let cons = contracts();
    let seeds: Vec<u64> = (0..ck.pick(2, 12)).map(|i| i * 7919 + 3).collect();
    let shapes: Vec<(usize, usize)> = ck.pick(vec![(1, 1), (1, 7), (4, 2), (12, 40)], vec![(1, 1), (1, 2), (1, 7), (2, 3), (4, 2), (12, 40), (50, 200)]);
    let spans = [(0.0, 1.0), (0.5, 1.0), (0.0, 0.25), (1.0, 3.0)];
    ck.par(procs.len() * spans.len(), |w, i| {
        let (pr, (t0, tn)) = (procs[i / spans.len()], spans[i % spans.len()]);
        for &(n, m) in &shapes { for &seed in &seeds { for par in [false, true] { for rate in [-0.03, 0.0, 0.07] { for (name, con) in &cons {
            if rate != 0.07 && (n, m) != shapes[2] { continue; }
            w.case("monte-carlo", || format!("{name} process {pr:?} on [{t0},{tn}] {n} steps {m} paths seed {seed} parallel {par} rate {rate}"), |w| {
                w.op();
                let cfg = StochasticProcessConfig::new(10.0, t0, tn, n, StochasticScheme::EulerMaruyama, m, par, Some(seed));
                let p = Lin(pr);
                let paths = p.generate(&cfg).paths;
                ensure!(paths.len() == m, "{} paths", paths.len());
                let want = (-rate * (tn - t0)).exp() * paths.iter().map(|x| con.pay(x)).sum::<f64>() / m as f64;
                let got = con.mc(&p, &cfg, rate);
                ensure!(close(got, want, 1e-12, 1e-10), "price {got}, discounted mean payoff {want}");
                w.outcome(hf(&[got]));
                if pr[3] == 0.0 && pr[4] == 0.0 {
                    // a deterministic process: the path is known in closed form of the recursion
                    let dt = (tn - t0) / n as f64;
                    let mut x = vec![10.0];
                    for j in 0..n { let l = x[j]; x.push(l + (pr[0] + pr[1] * l + pr[2] * (t0 + j as f64 * dt)) * dt); }
                    let want = (-rate * (tn - t0)).exp() * con.pay(&x);
                    ensure!(close(got, want, 1e-9, 1e-9), "price {got}, deterministic path gives {want}");
                }
                Ok(())
            });
        } } } } }
    });
    // regression-based American pricer
    let (sims, nts): (u64, Vec<u32>) = ck.pick((1500, vec![1, 2, 5, 20]), (6000, vec![1, 2, 3, 5, 10, 25, 50]));
    let cases: Vec<(f64, f64, f64, i64)> = ck.pick(
        vec![(36.0, 0.06, 0.2, 365), (40.0, 0.06, 0.4, 365), (44.0, 0.03, 0.3, 730), (38.0, 0.1, 0.2, 730)],
        vec![(34.0, 0.06, 0.2, 365), (36.0, 0.06, 0.2, 365), (36.0, 0.06, 0.4, 730), (40.0, 0.06, 0.4, 365), (40.0, 0.15, 0.2, 365), (44.0, 0.03, 0.3, 730), (44.0, 0.06, 0.2, 91), (38.0, 0.1, 0.2, 730), (38.0, 0.1, 0.1, 1461)]);
    let k = 40.0;
    let lseeds: Vec<u64> = (0..ck.pick(2, 6)).map(|i| i * 1000 + 11).collect();
    ck.par(cases.len() * lseeds.len(), |w, i| {
        let ((s, r, v, days), seed) = (cases[i / lseeds.len()], lseeds[i % lseeds.len()]);
        let t = days as f64 / 365.25;
        for c in FLAGS { for &nt in &nts {
            w.case("longstaff-schwartz", || format!("S={s} K={k} r={r} v={v} {days} days call={c} steps={nt} seed={seed}"), |w| {
                w.ops(2);
                let o = |nt: u32, seed: u64| LongstaffScwhartzPricer::new(s, k, r, v, Some(day(0)), day(days), nt, fl(c), sims, Some(seed)).generate_price();
                let got = o(nt, seed);
                ensure!(got.to_bits() == o(nt, seed).to_bits(), "not reproducible for a seed");
                ensure!(got.to_bits() != o(nt, seed + 1).to_bits(), "independent of the seed");
                // standard error of the discounted European payoff bounds that of any stopping rule to within a factor
                let eu = ref_price(c, s, k, t, r, r, v);
                let m2 = { // second moment of the discounted payoff by quadrature over the terminal law
                    let mut a = 0.0;
                    for j in -800..=800 { let z = j as f64 * 0.01; let x = s * ((r - v * v / 2.0) * t + v * t.sqrt() * z).exp(); let p = if c { x - k } else { k - x }.max(0.0) * (-r * t).exp(); a += p * p * npdf(z) * 0.01; }
                    a
                };
                let se = ((m2 - eu * eu).max(0.0) / sims as f64).sqrt();
                if nt == 1 { ensure!((got - eu).abs() <= 6.0 * se, "one exercise date: {got}, European {eu}, standard error {se}"); }
                let dt = t / nt as f64;
                let berm = bermudan_ref(c, s, k, t, r, v, nt as usize);
                if std::env::var("LSSTAT").is_ok() { println!("LS {c} {nt} got {got} berm {berm} eu {eu} z {} dt {dt}", (got - berm) / se); }
                ensure!(got <= berm + 6.0 * se + 0.01 * berm, "above the exact value of exercising on these dates {berm}: {got} (standard error {se})");
                ensure!(got >= eu - 6.0 * se, "below the value of never exercising early {eu}: {got}");
                ensure!(got >= berm - 6.0 * se - 0.05 * berm, "far below the exact value of exercising on these dates {berm}: {got} (standard error {se})");
                w.outcome(hf(&[got]));
                Ok(())
            });
        } }
    });
    // an underlying that hardly moves but for its drift, out of the money until expiry: nothing is regressed, and
    // the price is the payoff at expiry discounted over the whole life, however many dates and paths there are
    let hot: Vec<(f64, f64, i64)> = ck.pick(vec![(30.0, 0.1, 1096), (38.0, 0.06, 365)], vec![(30.0, 0.1, 1096), (38.0, 0.06, 365), (20.0, 0.3, 1096), (39.9, 0.01, 365), (25.0, 0.5, 365)]);
    let counts: Vec<u64> = ck.pick(vec![1, 2, 7, 100], vec![1, 2, 3, 5, 6, 7, 20, 100, 500]);
    ck.par(hot.len() * counts.len(), |w, i| {
        let ((s, r, days), sims) = (hot[i / counts.len()], counts[i % counts.len()]);
        let t = days as f64 / 365.25;
        for nt in [1u32, 2, 3, 4, 10, 50] { for seed in [0u64, 1, 77, u64::MAX] {
            let kk = s * (r * t * (1.0 - 0.5 / nt as f64)).exp();
            w.case("longstaff-schwartz-unregressed", || format!("S={s} K={kk} r={r} v=1e-9 {days} days steps={nt} paths={sims} seed={seed}"), |w| {
                w.ops(1);
                let got = LongstaffScwhartzPricer::new(s, kk, r, 1e-9, Some(day(0)), day(days), nt, TypeFlag::Call, sims, Some(seed)).generate_price();
                let want = s - kk * (-r * t).exp();
                w.outcome(hf(&[want]));
                ensure!(close(got, want, 1e-6, 1e-6), "price {got}, want {want}");
                Ok(())
            });
        } }
    });
    // the unit in which prices are quoted does not matter: multiplying spot and strike by a power of two (which is
    // exact) multiplies the price by it, with every scheme
    let us: Vec<i32> = ck.pick(vec![-20, -7, 5, 10, 17, 27], vec![-40, -30, -20, -14, -7, -3, 3, 5, 7, 10, 12, 14, 17, 20, 27, 34]);
    let ucases: Vec<(f64, f64, f64, i64, u32, u64)> = ck.pick(vec![(40.0, 0.06, 0.3, 366, 50, 1000), (44.0, 0.03, 0.3, 730, 12, 200)], vec![(40.0, 0.06, 0.3, 366, 50, 1000), (44.0, 0.03, 0.3, 730, 12, 200), (36.0, 0.06, 0.2, 365, 50, 2000), (38.0, 0.1, 0.1, 1461, 24, 500), (40.0, 0.15, 0.4, 91, 10, 3000)]);
    ck.par(us.len() * ucases.len() * 2, |w, i| {
        let c = i % 2 == 0;
        let (e, (s, r, v, days, nt, sims)) = (us[i / 2 % us.len()], ucases[i / 2 / us.len()]);
        let m = (e as f64).exp2();
        w.case("longstaff-schwartz-units", || format!("S={s} K=40 r={r} v={v} {days} days call={c} steps={nt} paths={sims}, in units of 2^{}", -e), |w| {
            w.ops(2);
            let o = |m: f64| LongstaffScwhartzPricer::new(s * m, 40.0 * m, r, v, Some(day(0)), day(days), nt, fl(c), sims, Some(9)).generate_price();
            let (a, b) = (o(1.0), o(m) / m);
            w.outcome(hf(&[a]));
            ensure!(close(a, b, 0.0, 2e-3), "price {a}, in the other unit {b}");
            Ok(())
        });
        w.case("grid-units", || format!("S={s} K=40 r={r} v={v} {days} days call={c}, in units of 2^{}", -e), |w| {
            w.ops(6);
            let o = |m: f64| { let p = FiniteDifferencePricer::new(s * m, 40.0 * m, r, v, Some(day(0)), day(days), 400, 60, fl(c), ExerciseFlag::American { start: day(0), end: day(days) }); [p.explicit(), p.implicit(), p.crank_nicolson()] };
            let (a, b) = (o(1.0), o(m));
            for j in 0..3 { ensure!(close(a[j], b[j] / m, 0.0, 1e-9), "scheme {j}: {}, in the other unit {}", a[j], b[j] / m); }
            Ok(())
        });
    });
    // with one exercise date the price is the discounted mean of the terminal law: a large sample pins it
    let big = ck.pick(400_000u64, 4_000_000);
    ck.par(8, |w, i| {
        let c = i % 2 == 0;
        let (s, k, r, v, days) = [(36.0, 40.0, 0.06, 0.2, 365i64), (44.0, 40.0, 0.03, 0.3, 730), (38.0, 40.0, 0.1, 0.1, 1461), (40.0, 40.0, 0.15, 0.4, 91)][i / 2];
        let t = days as f64 / 365.25;
        w.case("longstaff-schwartz-one-date", || format!("S={s} K={k} r={r} v={v} {days} days call={c} paths={big}"), |w| {
            w.ops(1);
            let got = LongstaffScwhartzPricer::new(s, k, r, v, Some(day(0)), day(days), 1, fl(c), big, Some(5)).generate_price();
            let eu = ref_price(c, s, k, t, r, r, v);
            let mut a = 0.0;
            for j in -800..=800 { let z = j as f64 * 0.01; let x = s * ((r - v * v / 2.0) * t + v * t.sqrt() * z).exp(); let p = if c { x - k } else { k - x }.max(0.0) * (-r * t).exp(); a += p * p * npdf(z) * 0.01; }
            let se = ((a - eu * eu).max(0.0) / big as f64).sqrt();
            w.outcome(hf(&[eu]));
            ensure!((got - eu).abs() <= 6.0 * se, "price {got}, European {eu}, standard error {se}");
            Ok(())
        });
    });
}
/// Exact-to-lattice value of an option exercisable at j*t/n, j = 1..n.
fn bermudan_ref(call: bool, s: f64, k: f64, t: f64, r: f64, v: f64, n: usize) -> f64 {
    let one = |m: usize| {
        let per = m.div_ceil(n);
        let m = per * n;
        let dt = t / m as f64;
        let u = (v * dt.sqrt()).exp();
        let (p, df) = (((r * dt).exp() - 1.0 / u) / (u - 1.0 / u), (-r * dt).exp());
        let pay = |x: f64| if call { x - k } else { k - x }.max(0.0);
        let mut x: Vec<f64> = (0..=m).map(|j| pay(s * u.powi(2 * j as i32 - m as i32))).collect();
        for i in (0..m).rev() {
            let ex = i % per == 0 && i > 0;
            let mut sp = s * u.powi(-(i as i32));
            for j in 0..=i { let c = df * (p * x[j + 1] + (1.0 - p) * x[j]); x[j] = if ex { c.max(pay(sp)) } else { c }; sp *= u * u; }
        }
        x[0]
    };
    0.5 * (one(400) + one(401))
}

// ---------------------------------------------------------------- I08 Bachelier, Heston, SABR
use num::Complex;
use RustQuant_math::integrate;
fn heston_ref(s: f64, v0: f64, k: f64, t: f64, r: f64, q: f64, rho: f64, kappa: f64, theta: f64, sigma: f64, exact: bool) -> (f64, f64, f64) {
    let i = Complex::<f64>::i();
    // characteristic function of ln S_T in the numerically stable form
    let cf = |u: Complex<f64>| -> Complex<f64> {
        let a = kappa - rho * sigma * i * u;
        let d = (a * a + sigma * sigma * (i * u + u * u)).sqrt();
        let g = (a - d) / (a + d);
        let e = (-d * t).exp();
        let c = i * u * (s.ln() + (r - q) * t) + kappa * theta / (sigma * sigma) * ((a - d) * t - 2.0 * ((1.0 - g * e) / (1.0 - g)).ln());
        let dd = (a - d) / (sigma * sigma) * ((1.0 - e) / (1.0 - g * e));
        (c + dd * v0).exp()
    };
    let fwd = s * ((r - q) * t).exp();
    let f1 = |x: f64| ((-i * x * k.ln()).exp() * cf(Complex::new(x, -1.0)) / (i * x * fwd)).re;
    let f2 = |x: f64| ((-i * x * k.ln()).exp() * cf(Complex::new(x, 0.0)) / (i * x)).re;
    let fg = |x: f64| ((-i * x * k.ln()).exp() * cf(Complex::new(x, -1.0)) / fwd).re;
    let gl = |f: &dyn Fn(f64) -> f64| -> f64 {
        // the library's own rule over the library's own range, for recognising its truncation and discretisation
        if !exact { return integrate(f, 0.00001, 50.0); }
        // composite five-point Gauss-Legendre, panels growing from the origin, to where the integrand has died out
        let (xs, ws) = ([0.0, 0.538_469_310_105_683, 0.906_179_845_938_664], [0.568_888_888_888_889, 0.478_628_670_499_366, 0.236_926_885_056_189]);
        let (mut lo, mut h, mut sum, mut small) = (0.0, 1e-4, 0.0, 0);
        while lo < 3000.0 && small < 20 {
            let m = lo + 0.5 * h;
            let mut a = ws[0] * f(m);
            for l in 1..3 { a += ws[l] * (f(m + xs[l] * h / 2.0) + f(m - xs[l] * h / 2.0)); }
            sum += a * h / 2.0;
            small = if lo > 1.0 && (0..=4).all(|q| cf(Complex::new(lo + h * q as f64 / 4.0, -1.0)).norm() < 1e-10 * fwd) { small + 1 } else { 0 };
            lo += h;
            h = (h * 1.1).min(0.25);
        }
        sum
    };
    let pi = std::f64::consts::PI;
    (0.5 + gl(&f1) / pi, 0.5 + gl(&f2) / pi, gl(&fg) / pi)
}
fn i08(ck: &Ck) {
    ck.assume("Bachelier: Greeks are those of the undiscounted premium and the implied volatility takes the undiscounted premium, as the code base defines them");
    ck.assume("Heston: the market price of volatility risk is zero; prices to 1e-4 of spot plus strike, or what the library's quadrature rule makes of an independently written integrand (reported as a known finding where that is further off)");
    // Bachelier
    let th = ck.thorough();
    let fs: Vec<f64> = if th { (-30..=30).map(|i| 100.0 + 2.5 * i as f64).chain([-20.0, 0.0, 0.5]).collect() } else { vec![-5.0, 0.0, 60.0, 85.0, 95.0, 99.0, 100.0, 101.0, 105.0, 120.0, 150.0] };
    let vs = [1.0, 5.0, 10.0, 25.0, 60.0];
    let ts = [0.02, 0.25, 1.0, 3.0, 10.0];
    ck.par(fs.len() * ts.len(), |w, i| {
        let (f, t) = (fs[i / ts.len()], ts[i % ts.len()]);
        let k = 100.0;
        for v in vs { for r in [-0.02, 0.0, 0.05] { for c in FLAGS {
            w.case("bachelier", || format!("f={f} k={k} t={t} r={r} v={v} call={c}"), |w| {
                w.ops(7);
                let b = Bachelier::new(f, r, v);
                let sd = v * f64::sqrt(t);
                let d = (f - k) / sd;
                let sg = if c { 1.0 } else { -1.0 };
                let und = sg * (f - k) * ncdf(sg * d) + sd * npdf(d);
                let ty = fl(c);
                let tol = 1e-11 * (sd + k);
                ensure!(close(b.price(k, t, ty), und * (-r * t).exp(), tol, 1e-9), "price {} vs {}", b.price(k, t, ty), und * (-r * t).exp());
                ensure!(close(b.delta(k, t, ty), sg * ncdf(sg * d), 1e-290, 1e-9), "delta {}, expected {}", b.delta(k, t, ty), sg * ncdf(sg * d));
                ensure!((b.price(k, t, ty) - und * (-r * t).exp()).abs() <= 1e-10 * ((f - k).abs() * ncdf(sg * d) + sd * npdf(d)) * (-r * t).exp() + 1e-290, "price {} vs {}", b.price(k, t, ty), und * (-r * t).exp());
                ensure!(close(b.gamma(k, t, ty), npdf(d) / sd, 1e-14, 1e-10), "gamma {}", b.gamma(k, t, ty));
                ensure!(close(b.vega(k, t, ty), t.sqrt() * npdf(d), 1e-13, 1e-10), "vega {}", b.vega(k, t, ty));
                ensure!(close(b.theta(k, t, ty), -v * npdf(d) / (2.0 * t.sqrt()), 1e-12, 1e-10), "theta {}", b.theta(k, t, ty));
                ensure!(close(b.atm_price(t), v * (t / (2.0 * std::f64::consts::PI)).sqrt(), 0.0, 1e-12), "atm price");
                ensure!(close(b.atm_vol(b.atm_price(t), t), v, 0.0, 1e-12), "atm vol");
                // inversion where the premium carries volatility information
                if d.abs() < 4.5 {
                    let got = b.iv(und, k, t, ty);
                    let vega = t.sqrt() * npdf(d);
                    ensure!(close(got, v, 4e-14 * (und + (f - k).abs() + sd) / vega, 2e-8), "implied volatility {got} of the premium at {v}");
                    let o = EuropeanVanillaOption::new(k, day(0), ty);
                    let n = (t * 365.25).round() as i64;
                    let tt = n as f64 / 365.25;
                    let sdd = v * tt.sqrt();
                    let dd = (f - k) / sdd;
                    let p2 = sg * (f - k) * ncdf(sg * dd) + sdd * npdf(dd);
                    let g = on_today(|d0| { let p = AnalyticOptionPricer::new(EuropeanVanillaOption { expiry: d0 + Duration::days(n), ..o }, Bachelier::new(f, r, v)); [p.price(), p.delta(), p.gamma(), p.vega(), p.theta(), p.atm_price(), p.atm_vol(1.0), p.iv(p2)] });
                    let want = [p2 * (-r * tt).exp(), sg * ncdf(sg * dd), npdf(dd) / sdd, tt.sqrt() * npdf(dd), -v * npdf(dd) / (2.0 * tt.sqrt()), v * (tt / (2.0 * std::f64::consts::PI)).sqrt(), (2.0 * std::f64::consts::PI / tt).sqrt(), v];
                    let tols = [tol, 1e-12, 1e-14, 1e-13, 1e-12, 1e-12, 1e-12, 4e-14 * (p2 + (f - k).abs() + sdd) / want[3] + 2e-8 * v];
                    for j in 0..8 { ensure!(close(g[j], want[j], tols[j], 1e-9), "pricer output {j}: {} vs {}", g[j], want[j]); }
                }
                w.state(hf(&[f, t, v, r]));
                w.outcome(hf(&[und]));
                Ok(())
            });
        } } }
    });
    // Heston
    let (rhos, sigs, vths, hts, ks): (Vec<f64>, Vec<f64>, Vec<(f64, f64)>, Vec<f64>, Vec<f64>) = if th {
        (vec![-0.95, -0.7, -0.3, 0.0, 0.3, 0.8], vec![0.1, 0.3, 0.6, 1.0], vec![(0.04, 0.04), (0.09, 0.04), (0.02, 0.16), (0.25, 0.25)], vec![0.1, 0.25, 0.5, 1.0, 2.0, 5.0, 10.0, 20.0], vec![60.0, 80.0, 95.0, 100.0, 105.0, 125.0, 160.0])
    } else {
        (vec![-0.7, 0.0, 0.5], vec![0.1, 0.3, 0.8], vec![(0.04, 0.04), (0.09, 0.05), (0.05, 0.16)], vec![0.25, 1.0, 3.0, 10.0], vec![80.0, 100.0, 120.0])
    };
    ck.par(rhos.len() * sigs.len() * hts.len(), |w, i| {
        let (rho, sig, t) = (rhos[i % rhos.len()], sigs[i / rhos.len() % sigs.len()], hts[i / rhos.len() / sigs.len()]);
        for &(v0, th) in &vths { for kappa in [0.5, 1.5, 4.0] { for &k in &ks { for (r, q) in [(0.0, 0.0), (0.05, 0.02)] {
            w.case("heston", || format!("s=100 k={k} t={t} r={r} q={q} rho={rho} kappa={kappa} theta={th} sigma={sig} v0={v0}"), |w| {
                let s = 100.0;
                let m = Heston93::new(s, v0, r, q, rho, kappa, th, sig);
                let exact = heston_ref(s, v0, k, t, r, q, rho, kappa, th, sig, true);
                let rule = heston_ref(s, v0, k, t, r, q, rho, kappa, th, sig, false);
                let (ds, dk) = (s * (-q * t).exp(), k * (-r * t).exp());
                let all = |p: (f64, f64, f64)| {
                    let call = ds * p.0 - dk * p.1;
                    [call, call - ds + dk, (-q * t).exp() * p.0, (-q * t).exp() * (p.0 - 1.0), (-q * t).exp() * p.2 / s, (-q * t).exp() * p.2 / s, k * t * (-r * t).exp() * p.1, k * t * (-r * t).exp() * (p.1 - 1.0)]
                };
                let (we, wt) = (all(exact), all(rule));
                let names = ["price", "price", "delta", "delta", "gamma", "gamma", "rho", "rho"];
                let got = [m.price(k, t, TypeFlag::Call), m.price(k, t, TypeFlag::Put), m.delta(k, t, TypeFlag::Call), m.delta(k, t, TypeFlag::Put), m.gamma(k, t, TypeFlag::Call), m.gamma(k, t, TypeFlag::Put), m.rho(k, t, TypeFlag::Call), m.rho(k, t, TypeFlag::Put)];
                // the integrals P1, P2 (and the one of gamma) to 1e-4, or exactly what the library's rule makes of the model's integrand
                let scale = [ds + dk, ds + dk, 1.0, 1.0, 0.05, 0.05, k * t, k * t];
                for j in 0..8 {
                    w.op();
                    if close(got[j], wt[j], 1e-7 * scale[j], 0.0) {
                        if !close(got[j], we[j], 1e-4 * scale[j], 0.0) { w.known("heston-quadrature-too-coarse", || format!("{} {} {} vs {}", if j % 2 == 0 { "call" } else { "put" }, names[j], got[j], we[j]))?; }
                        continue;
                    }
                    ensure!(close(got[j], we[j], 1e-4 * scale[j], 0.0), "{} {} = {}, model {}, library's rule on the model's integrand {}", if j % 2 == 0 { "call" } else { "put" }, names[j], got[j], we[j], wt[j]);
                }
                ensure!(close(got[0] - got[1], ds - dk, 1e-10 * (ds + dk), 0.0), "parity");
                let n = (t * 365.25).round() as i64;
                let tt = n as f64 / 365.25;
                let a = on_today(|d0| { let p = AnalyticOptionPricer::new(EuropeanVanillaOption::new(k, d0 + Duration::days(n), TypeFlag::Put), Heston93::new(s, v0, r, q, rho, kappa, th, sig)); [p.price(), p.delta(), p.gamma(), p.rho()] });
                let b = [m.price(k, tt, TypeFlag::Put), m.delta(k, tt, TypeFlag::Put), m.gamma(k, tt, TypeFlag::Put), m.rho(k, tt, TypeFlag::Put)];
                for j in 0..4 { ensure!(close(a[j], b[j], 1e-10, 1e-8), "pricer {j}: {} vs model {}", a[j], b[j]); }
                w.state(hf(&[rho, sig, t, v0, th, kappa, k, r]));
                w.outcome(hf(&got));
                Ok(())
            });
        } } } }
    });
    // SABR
    let betas = [0.0, 0.3, 0.5, 0.8, 1.0];
    ck.par(betas.len() * 5, |w, i| {
        let (beta, rho) = (betas[i / 5], [-0.8, -0.3, 0.0, 0.4, 0.9][i % 5]);
        for f in [0.03, 1.0, 100.0] { for m in [0.5, 0.8, 0.99, 1.0, 1.000_000_1, 1.01, 1.3, 2.0] { for atm in [0.1, 0.3] { for nu in [0.05, 0.4, 1.0] { for t in [0.25, 1.0, 5.0] {
            let k = f * m;
            let alpha = atm * f64::powf(f, 1.0 - beta);
            w.case("sabr", || format!("f={f} k={k} t={t} alpha={alpha} beta={beta} rho={rho} nu={nu}"), |w| {
                w.op();
                let got = Sabr02::new(f, alpha, beta, rho, nu).volatility(k, t);
                // Hagan, Kumar, Lesniewski and Woodward (2002), equation 2.17
                let l = f64::ln(f / k);
                let fk = f64::powf(f * k, (1.0 - beta) / 2.0);
                let z = nu / alpha * fk * l;
                let ob = 1.0 - beta;
                let ratio = if z.abs() < 1e-6 { 1.0 - 0.5 * rho * z } else { z / (((1.0 - 2.0 * rho * z + z * z).sqrt() + z - rho) / (1.0 - rho)).ln() };
                let want = alpha / (fk * (1.0 + ob * ob / 24.0 * l * l + ob.powi(4) / 1920.0 * l.powi(4))) * ratio
                    * (1.0 + (ob * ob / 24.0 * alpha * alpha / (fk * fk) + rho * beta * nu * alpha / (4.0 * fk) + (2.0 - 3.0 * rho * rho) / 24.0 * nu * nu) * t);
                ensure!(close(got, want, 0.0, 1e-7), "volatility {got}, formula {want}");
                w.state(hf(&[f, k, alpha, beta, rho, nu, t]));
                w.outcome(hf(&[got]));
                Ok(())
            });
        } } } } }
    });
}
fn main() {
    Ck::main(|ck| match ck.prop.as_str() { "I01" => i01(ck), "I02" => i02(ck), "I03" => i03(ck), "I04" => i04(ck), "I05" => i05(ck), "I06" => i06(ck), "I07" => i07(ck), "I08" => i08(ck), p => panic!("unknown property {p}") })
}
