//! M01..M07: interpolation, distributions, root finding, quadrature and sequences, statistics, gradient descent, FFT.
use num::Complex;
use rqmc::*;
use rust_decimal::prelude::{FromPrimitive, ToPrimitive};
use rust_decimal::Decimal;
use std::cell::{Cell, RefCell};
use time::{Date, Duration, OffsetDateTime};
use RustQuant_autodiff::Variable;
use RustQuant_math::{fft::*, integration::*, interpolation::*, optimization::*, rootfinding::rootfinder::*, rootfinding::*, sequences::*, statistic::*};
use RustQuant_math::{Bernoulli, Binomial, ChiSquared, Distribution, DistributionClass, Exponential, Gamma, Gaussian, Poisson, Uniform};

#[path = "../refs/special.rs"]
#[allow(dead_code)]
mod special;
use special::*;

// ---------------------------------------------------------------- M01 interpolation
/// Piecewise linear / log-linear reference on sorted knots.
fn interp_ref(pts: &[(f64, f64)], x: f64, expo: bool) -> Option<f64> {
    if x < pts[0].0 || x > pts[pts.len() - 1].0 { return None; }
    for p in pts { if p.0 == x { return Some(p.1); } }
    for w in pts.windows(2) {
        if w[0].0 < x && x < w[1].0 {
            let t = (x - w[0].0) / (w[1].0 - w[0].0);
            return Some(if expo { ((1.0 - t) * w[0].1.ln() + t * w[1].1.ln()).exp() } else { (1.0 - t) * w[0].1 + t * w[1].1 });
        }
    }
    None
}
/// de Boor's triangular algorithm; `None` outside [knots[p], knots[n]].
fn de_boor(knots: &[f64], c: &[f64], p: usize, x: f64) -> Option<f64> {
    let n = c.len();
    let (lo, hi) = (knots[p], knots[n]);
    if x < lo || x > hi { return None; }
    let mut s = p;
    for i in p..n { if knots[i] < knots[i + 1] && knots[i] <= x { s = i; } }
    let mut d: Vec<f64> = (0..=p).map(|j| c[j + s - p]).collect();
    for r in 1..=p {
        for j in (r..=p).rev() {
            let (a, b) = (knots[j + s - p], knots[j + 1 + s - r]);
            let al = if b > a { (x - a) / (b - a) } else { 0.0 };
            d[j] = (1.0 - al) * d[j - 1] + al * d[j];
        }
    }
    Some(d[p])
}
fn queries(xs: &[f64]) -> Vec<f64> {
    let mut q = vec![xs[0] - 0.5, xs[xs.len() - 1] + 0.5, xs[0] - 1e-9, xs[xs.len() - 1] + 1e-9];
    for w in xs.windows(2) { for f in [0.0, 0.25, 0.5, 0.9] { q.push(w[0] + f * (w[1] - w[0])); } }
    q.push(xs[xs.len() - 1]);
    q
}
fn m01(ck: &Ck) {
    ck.assume("knots are pairwise distinct and at least one is given; the fitted flag has no observable effect; integer index types (truncating division) are outside the property");
    ck.assume("at an interior upper end of a B-spline domain of multiplicity above the degree the spline is discontinuous and either side is accepted");
    let grid = [-1.5, 0.0, 0.25, 1.0, 3.0, 10.0, 11.0];
    let ng = 7;
    let mut subsets: Vec<Vec<f64>> = vec![];
    for m in 1u32..(1 << ng) {
        let v: Vec<f64> = (0..ng).filter(|i| m >> i & 1 == 1).map(|i| grid[i]).collect();
        if v.len() <= ck.pick(5, 6) { subsets.push(v); }
    }
    let base = Date::from_calendar_date(2024, time::Month::January, 31).unwrap();
    let ob = base.midnight().assume_utc();
    ck.par(subsets.len(), |w, si| {
        let xs = &subsets[si];
        let n = xs.len();
        for expo in [false, true] {
            let al: &[f64] = if expo { &[0.5, 1.0, 3.0] } else { &[-2.0, 0.0, 1.5] };
            let perms = permutations(n);
            words(al.len(), n, &mut |yw| {
                let pts: Vec<(f64, f64)> = (0..n).map(|i| (xs[i], al[yw[i]])).collect();
                for (pi, perm) in perms.iter().enumerate() {
                    // full permutation histories for one value word in nine, two histories otherwise
                    if n == 5 && pi % 17 != yw[0] { continue; }
                    for split in 1..=n {
                        w.case(if expo { "exponential-histories" } else { "linear-histories" }, || format!("points {pts:?} inserted in order {perm:?}, first {split} at construction"), |w| {
                            let order: Vec<(f64, f64)> = perm.iter().map(|&i| pts[i]).collect();
                            let (a, b): (Vec<f64>, Vec<f64>) = order[..split].iter().cloned().unzip();
                            let mut lin; let mut ex;
                            let it: &mut dyn Interpolator<f64, f64> = if expo { ex = ExponentialInterpolator::new(a, b).map_err(|e| e.to_string())?; &mut ex } else { lin = LinearInterpolator::new(a, b).map_err(|e| e.to_string())?; &mut lin };
                            if pi % 2 == 0 { it.fit().map_err(|e| e.to_string())?; }
                            let mut cur: Vec<(f64, f64)> = order[..split].to_vec();
                            for k in split..=n {
                                cur.sort_by(|a, b| a.0.total_cmp(&b.0));
                                let cx: Vec<f64> = cur.iter().map(|p| p.0).collect();
                                w.state(hf(&cur.iter().flat_map(|p| [p.0, p.1]).collect::<Vec<_>>()));
                                ensure!(it.range() == (cx[0], cx[cx.len() - 1]), "range {:?} for knots {cx:?}", it.range());
                                for x in queries(&cx) {
                                    w.op();
                                    let got = it.interpolate(x);
                                    match interp_ref(&cur, x, expo) {
                                        None => ensure!(got.is_err(), "query {x} outside {cx:?} answered {got:?}"),
                                        Some(v) => { let g = match got { Ok(g) => g, Err(e) => return fail(format!("query {x} inside {cx:?} refused: {e}")) };
                                            ensure!(close(g, v, 1e-12, 1e-12), "query {x} on {cur:?}: {g}, expected {v}"); w.outcome(g.to_bits()); }
                                    }
                                }
                                if k < n { it.add_point(order[k]); cur.push(order[k]); }
                            }
                            Ok(())
                        });
                    }
                }
                // other index types, same knots in days / tenths
                w.case("index-types", || format!("{} {pts:?} as dates, times and decimals", if expo { "exponential" } else { "linear" }), |w| {
                    let day = |x: f64| base + Duration::days((x * 8.0) as i64);
                    let (rx, ys): (Vec<f64>, Vec<f64>) = pts.iter().rev().cloned().unzip();
                    macro_rules! mk { ($xs:expr) => { if expo { Box::new(ExponentialInterpolator::new($xs, ys.clone()).map_err(|e| e.to_string())?) as Box<dyn Interpolator<_, f64>> } else { Box::new(LinearInterpolator::new($xs, ys.clone()).map_err(|e| e.to_string())?) } } }
                    let dts = mk!(rx.iter().map(|&x| day(x)).collect::<Vec<Date>>());
                    let odt = mk!(rx.iter().map(|&x| ob + Duration::hours((x * 8.0) as i64)).collect::<Vec<OffsetDateTime>>());
                    let (lo, hi) = ((xs[0] * 8.0) as i64, (xs[n - 1] * 8.0) as i64);
                    let ip: Vec<(f64, f64)> = pts.iter().map(|p| (p.0 * 8.0, p.1)).collect();
                    for d in lo - 1..=hi + 1 {
                        let e = interp_ref(&ip, d as f64, expo);
                        for (nm, got) in [("date", dts.interpolate(base + Duration::days(d))), ("time", odt.interpolate(ob + Duration::hours(d)))] {
                            w.op();
                            match (e, got) {
                                (None, Err(_)) => {}
                                (Some(v), Ok(g)) if close(v, g, 1e-12, 1e-12) => {}
                                (e, g) => return fail(format!("{nm} index {d}: {g:?}, expected {e:?}")),
                            }
                        }
                    }
                    if !expo {
                        let dec = |x: f64| Decimal::from_f64(x).unwrap();
                        let di = LinearInterpolator::new(rx.iter().map(|&x| dec(x)).collect(), ys.iter().map(|&y| dec(y)).collect()).map_err(|e| e.to_string())?;
                        for x in queries(xs) {
                            w.op();
                            match (interp_ref(&pts, x, false), di.interpolate(dec(x))) {
                                (None, Err(_)) => {}
                                (Some(v), Ok(g)) if close(v, g.to_f64().unwrap(), 1e-12, 1e-12) => {}
                                (e, g) => return fail(format!("decimal index {x}: {g:?}, expected {e:?}")),
                            }
                        }
                    }
                    Ok(())
                });
            });
        }
    });
    ck.seq(|w| {
        for a in 0..4usize { for b in 0..4usize { if a != b {
            w.case("length-mismatch", || format!("{a} indices, {b} values"), |w| {
                w.ops(2);
                ensure!(LinearInterpolator::new(vec![0.0; a], vec![1.0; b]).is_err(), "linear accepted");
                ensure!(ExponentialInterpolator::new(vec![0.0; a], vec![1.0; b]).is_err(), "exponential accepted");
                Ok(())
            });
        } } }
        for deg in 0..4usize { for nc in 1..5usize { for nk in 1..10usize { if nk != nc + deg + 1 {
            w.case("length-mismatch", || format!("B-spline degree {deg}, {nc} control points, {nk} knots"), |w| {
                w.op();
                ensure!(BSplineInterpolator::new((0..nk).map(|i| i as f64).collect(), vec![1.0; nc], deg).is_err(), "accepted");
                Ok(())
            });
        } } } }
    });
    // B-splines: all knot multisets over {0,1,2,4} and control points over a basis and a mixed word
    let kv = [0.0, 1.0, 2.0, 4.0, 4.5];
    let nk = 5;
    let mut jobs: Vec<(usize, Vec<f64>)> = vec![];
    for p in 0..4usize {
        for nc in p + 1..=p + ck.pick(4, 5) {
            let len = nc + p + 1;
            if len > ck.pick(9, 10) { continue; }
            fn rec(cur: &mut Vec<f64>, from: usize, kv: &[f64], len: usize, out: &mut Vec<Vec<f64>>) {
                if cur.len() == len { out.push(cur.clone()); return; }
                for i in from..kv.len() { cur.push(kv[i]); rec(cur, i, kv, len, out); cur.pop(); }
            }
            let mut o = vec![];
            rec(&mut vec![], 0, &kv[..nk], len, &mut o);
            for k in o { if k[p] < k[len - p - 1] { jobs.push((p, k)); } }
        }
    }
    ck.par(jobs.len(), |w, ji| {
        let (p, knots) = &jobs[ji];
        let nc = knots.len() - p - 1;
        let mut words_c: Vec<Vec<f64>> = (0..nc).map(|i| (0..nc).map(|j| (i == j) as i32 as f64).collect()).collect();
        words_c.push((0..nc).map(|j| [-1.0, 2.0, 0.5, -3.0, 1.0, 4.0, -2.5, 0.25][j % 8]).collect());
        for c in words_c {
            for hist in 0..3 {
                w.case("b-spline", || format!("degree {p}, knots {knots:?}, control points {c:?}, history {hist}"), |w| {
                    // history 0: constructed; 1: knots reversed; 2: last knot and control point added afterwards
                    let it = match hist {
                        0 => BSplineInterpolator::new(knots.clone(), c.clone(), *p),
                        1 => BSplineInterpolator::new(knots.iter().rev().cloned().collect(), c.clone(), *p),
                        _ => {
                            if nc < 2 { return Ok(()); }
                            let mut k = knots.clone();
                            let at = ji % k.len();
                            let t = k.remove(at);
                            let mut it = BSplineInterpolator::new(k, c[..nc - 1].to_vec(), *p).map_err(|e| e.to_string())?;
                            it.add_point((t, c[nc - 1]));
                            Ok(it)
                        }
                    };
                    let it = it.map_err(|e| e.to_string())?;
                    w.state(h(&(ji as u64, hist, hf(&c))));
                    let (lo, hi) = (knots[*p], knots[nc]);
                    ensure!(it.range() == (lo, hi), "range {:?}, evaluable on {:?}", it.range(), (lo, hi));
                    let mut q = vec![lo - 0.25, hi + 0.25];
                    let mut x = lo;
                    while x < hi { q.push(x); x += 0.25; }
                    let mult = knots.iter().filter(|k| **k == hi).count();
                    if mult <= *p || hi == knots[knots.len() - 1] { q.push(hi); }
                    for x in q {
                        w.op();
                        match (de_boor(knots, &c, *p, x), it.interpolate(x)) {
                            (None, Err(_)) => {}
                            (Some(v), Ok(g)) if close(v, g, 1e-11, 1e-11) => w.outcome(g.to_bits()),
                            (e, g) => return fail(format!("at {x}: {g:?}, expected {e:?}")),
                        }
                    }
                    Ok(())
                });
            }
        }
    });
    // units: abscissae and values rescaled by powers of two rescale the answers exactly
    let exps: Vec<(i32, i32)> = { let e: Vec<i32> = ck.pick(vec![-60, -31, -10, -1, 0, 1, 10, 31, 60], (-20..=20).map(|k| 5 * k).collect()); e.iter().flat_map(|a| e.iter().map(move |b| (*a, *b))).collect() };
    ck.par(exps.len(), |w, ei| {
        let (ex, ey) = exps[ei];
        let (sx, sy) = (2f64.powi(ex), 2f64.powi(ey));
        for set in 0..4usize { for kind in 0..5usize {
            w.case("units", || format!("knot set {set}, {}, abscissae times 2^{ex}, values times 2^{ey}", ["linear", "exponential", "B-spline degree 1", "B-spline degree 2", "B-spline degree 3"][kind]), |w| {
                let xs: Vec<f64> = [vec![0.0, 1.0, 2.5, 4.0, 4.125, 7.0, 9.0, 9.5, 12.0], vec![-8.0, -3.0, -2.75, 0.0, 0.0625, 1.0, 2.0, 5.0, 6.0], vec![1.0, 1.0, 1.0, 1.0, 2.0, 3.0, 3.0, 3.0, 3.0], vec![-5.0, -4.0, -3.0, -2.0, -1.0, 0.0, 1.0, 2.0, 3.0]][set].clone();
                if kind < 2 && set == 2 { return Ok(()); }
                let deg = if kind < 2 { 0 } else { kind - 1 };
                let m = if kind < 2 { xs.len() } else { xs.len() - deg - 1 };
                let ys: Vec<f64> = (0..m).map(|k| ((k * k * 5 + 3 * k) % 11) as f64 * 0.5 - if kind == 1 { -0.25 } else { 2.0 }).collect();
                let mk = |sx: f64, sy: f64| -> Result<Box<dyn Interpolator<f64, f64>>, Fail> {
                    let (a, b) = (xs.iter().map(|x| x * sx).collect(), ys.iter().map(|y| y * sy).collect());
                    Ok(match kind { 0 => Box::new(LinearInterpolator::new(a, b).map_err(|e| e.to_string())?), 1 => Box::new(ExponentialInterpolator::new(a, b).map_err(|e| e.to_string())?), _ => Box::new(BSplineInterpolator::new(a, b, deg).map_err(|e| e.to_string())?) })
                };
                let (one, two) = (mk(1.0, 1.0)?, mk(sx, sy)?);
                let scale = ys.iter().fold(0.0, |a: f64, y| a.max(y.abs()));
                let mut x = xs[0] - 0.5;
                while x <= xs[xs.len() - 1] + 0.5 {
                    w.ops(2);
                    match (one.interpolate(x), two.interpolate(x * sx)) {
                        (Err(_), Err(_)) => {}
                        (Ok(a), Ok(b)) if (a * sy - b).abs() <= 1e-12 * scale * sy => w.outcome(b.to_bits()),
                        (a, b) => return fail(format!("at {x}: {a:?} in the original units, {b:?} in the others")),
                    }
                    x += 0.15625;
                }
                Ok(())
            });
        } }
    });
    // every date and time type as an index, over spans from nanoseconds to millennia
    let spans: Vec<Duration> = ck.pick(vec![1, 100], vec![1, 3, 17, 100]).into_iter().flat_map(|k| [Duration::nanoseconds(8 * k), Duration::microseconds(8 * k), Duration::milliseconds(8 * k), Duration::seconds(8 * k), Duration::minutes(8 * k), Duration::days(8 * k), Duration::days(365 * 8 * k)]).collect();
    ck.par(spans.len(), |w, si| {
        let sp = spans[si];
        for kind in 0..4usize { for ty in 0..4usize { for shape in 0..3usize {
            w.case("time-indices", || format!("{} {} with knots over {sp}, shape {shape}", ["linear", "exponential", "B-spline degree 1", "B-spline degree 2"][kind], ["date", "time of day", "date and time", "date, time and offset"][ty]), |w| {
                let eighths: Vec<i32> = if kind == 3 { [vec![0, 1, 2, 3, 6, 7, 8], vec![0, 0, 0, 4, 8, 8, 8], vec![0, 1, 3, 4, 5, 6, 8]][shape].clone() } else { [vec![0, 1, 3, 6, 8], vec![0, 2, 4, 6, 8], vec![0, 5, 6, 7, 8]][shape].clone() };
                let deg = if kind < 2 { 0 } else { kind - 1 };
                let m = if kind < 2 { 5 } else { eighths.len() - 1 - deg };
                let ys: Vec<f64> = [1.5, 4.0, 0.5, 2.25, 3.0][..m].to_vec();
                let xs: Vec<f64> = eighths.iter().map(|e| *e as f64).collect();
                if ty == 0 && sp < Duration::days(8) || ty == 1 && sp > Duration::hours(12) { return Ok(()); }
                macro_rules! run { ($of:expr) => {{
                    let of = $of;
                    let k: Vec<_> = eighths.iter().rev().map(|e| of(*e)).collect();
                    let rev: Vec<f64> = if kind < 2 { ys.iter().rev().cloned().collect() } else { ys.clone() };
                    let it: Box<dyn Interpolator<_, f64>> = match kind { 0 => Box::new(LinearInterpolator::new(k, rev).map_err(|e| e.to_string())?), 1 => Box::new(ExponentialInterpolator::new(k, rev).map_err(|e| e.to_string())?), _ => Box::new(BSplineInterpolator::new(k, rev, deg).map_err(|e| e.to_string())?) };
                    for e in -1..=9i32 {
                        w.op();
                        let want = if kind < 2 { interp_ref(&xs.iter().cloned().zip(ys.iter().cloned()).collect::<Vec<_>>(), e as f64, kind == 1) } else { de_boor(&xs, &ys, deg, e as f64) };
                        match (want, it.interpolate(of(e))) {
                            (None, Err(_)) => {}
                            (Some(v), Ok(g)) if close(v, g, 1e-11, 1e-11) => w.outcome(g.to_bits()),
                            (e0, g) => return fail(format!("at {e}/8 of the span: {g:?}, expected {e0:?}")),
                        }
                    }
                }} }
                let at = base.with_hms_nano(6, 7, 8, 9).unwrap();
                match ty {
                    0 => run!(|e: i32| base + sp / 8 * e),
                    1 => run!(|e: i32| at.time() + (sp / 8) * e),
                    2 => run!(|e: i32| at + sp / 8 * e),
                    _ => run!(|e: i32| OffsetDateTime::to_offset(at.assume_utc() + (sp / 8) * e, time::UtcOffset::from_hms(e as i8, 0, 0).unwrap())),
                }
                Ok(())
            });
        } } }
    });
    // many knots: every size up to a bound in several spacings, magnitudes and orders of insertion
    let sizes: Vec<usize> = ck.pick((1..=48).chain([63, 64, 65, 127, 128, 129, 500]).collect(), (1..=160).chain([255, 256, 257, 511, 512, 513, 1000, 2000]).collect());
    ck.par(sizes.len(), |w, si| {
        let n = sizes[si];
        for expo in [false, true] { for gap in 0..4usize { for order in 0..4usize { for ysc in [1.0, 1e-9, 1e12] {
            w.case("many-knots", || format!("{} {n} knots, spacing {gap}, order {order}, values of {ysc:e}", if expo { "exponential" } else { "linear" }), |w| {
                let mut xs: Vec<f64> = (0..n).map(|k| { let k = k as f64; match gap { 0 => k, 1 => -1e6 + 3.5 * k, 2 => 1e-6 * 1.05f64.powf(k), _ => k * 0.01 + ((k as u64 * 7) % 5) as f64 * 1e-3 - 0.2 } }).collect();
                xs.dedup();
                let pts: Vec<(f64, f64)> = xs.iter().enumerate().map(|(k, x)| (*x, ysc * (1.5 + ((k * k + 3 * k) % 17) as f64 * 0.25 - if expo { 0.0 } else { 3.0 }))).collect();
                let mut o: Vec<usize> = (0..n).collect();
                match order { 1 => o.reverse(), 2 => o.sort_by_key(|k| (k % 3, *k)), 3 => o.sort_by_key(|k| ((*k as i64 - n as i64 / 2).abs(), *k)), _ => {} }
                let ord: Vec<(f64, f64)> = o.iter().map(|&k| pts[k]).collect();
                let at = if order == 3 { 1 } else { n - n / 3 };
                let (a, b): (Vec<f64>, Vec<f64>) = ord[..at].iter().cloned().unzip();
                let mut lin; let mut ex;
                let it: &mut dyn Interpolator<f64, f64> = if expo { ex = ExponentialInterpolator::new(a, b).map_err(|e| e.to_string())?; &mut ex } else { lin = LinearInterpolator::new(a, b).map_err(|e| e.to_string())?; &mut lin };
                for p in &ord[at..] { w.op(); it.add_point(*p); }
                it.fit().map_err(|e| e.to_string())?;
                ensure!(it.range() == (xs[0], xs[n - 1]), "range {:?}", it.range());
                for k in 0..n {
                    let mut q = vec![(xs[k], Some(pts[k].1))];
                    if k + 1 < n { for f in [0.25, 0.5, 0.9] {
                        let x = xs[k] + f * (xs[k + 1] - xs[k]);
                        let u = (x - xs[k]) / (xs[k + 1] - xs[k]);
                        let (l, r) = (pts[k].1, pts[k + 1].1);
                        q.push((x, Some(if expo { ((1.0 - u) * l.ln() + u * r.ln()).exp() } else { l + u * (r - l) })));
                    } }
                    if k == 0 { q.push((xs[0] - (1.0 + xs[0].abs()) * 1e-9, None)); }
                    if k == n - 1 { q.push((xs[k] + (1.0 + xs[k].abs()) * 1e-9, None)); }
                    for (x, want) in q {
                        w.op();
                        match (want, it.interpolate(x)) {
                            (None, Err(_)) => {}
                            (Some(v), Ok(g)) if close(v, g, 1e-12 * ysc, 1e-10) => {}
                            (e, g) => return fail(format!("at {x}: {g:?}, expected {e:?}")),
                        }
                    }
                }
                w.outcome(h(&(n, gap, order)));
                Ok(())
            });
        } } } }
        // B-splines of many control points and of higher degree
        for p in 0..=8usize { if n > p { for clamped in [false, true] {
            w.case("many-control-points", || format!("degree {p}, {n} control points, clamped {clamped}"), |w| {
                let m = n + p + 1;
                let knots: Vec<f64> = (0..m).map(|k| if clamped { (k.clamp(p, n) - p) as f64 * 0.5 } else { 0.25 * k as f64 + ((k * 3) % 4) as f64 * 0.05 }).collect();
                let c: Vec<f64> = (0..n).map(|k| ((k * k + 5 * k) % 13) as f64 - 6.0).collect();
                let it = BSplineInterpolator::new(knots.clone(), c.clone(), p).map_err(|e| e.to_string())?;
                let (lo, hi) = (knots[p], knots[n]);
                ensure!(it.range() == (lo, hi), "range {:?}, evaluable on {:?}", it.range(), (lo, hi));
                let steps = 2 * n.min(200) + 1;
                for k in 0..=steps {
                    let x = if k == steps { hi } else { lo + (hi - lo) * k as f64 / steps as f64 };
                    w.op();
                    match (de_boor(&knots, &c, p, x), it.interpolate(x)) {
                        (None, Err(_)) => {}
                        (Some(v), Ok(g)) if close(v, g, 1e-10, 1e-10) => {}
                        (e, g) => return fail(format!("at {x}: {g:?}, expected {e:?}")),
                    }
                }
                Ok(())
            });
        } } }
    });
}

// ---------------------------------------------------------------- M02 distributions
type D = Box<dyn Distribution>;
#[derive(Clone, Copy, Debug)]
enum Law { Bern(f64), Bin(usize, f64), Poi(f64), UniD(i32, i32), Exp(f64), Chi(usize), Gam(f64, f64), Gau(f64, f64), UniC(f64, f64) }
use Law::*;
impl Law {
    fn make(self) -> D {
        match self {
            Bern(p) => Box::new(Bernoulli::new(p)), Bin(n, p) => Box::new(Binomial::new(n, p)), Poi(l) => Box::new(Poisson::new(l)),
            UniD(a, b) => Box::new(Uniform::new(a as f64, b as f64, DistributionClass::Discrete)), Exp(l) => Box::new(Exponential::new(l)),
            Chi(k) => Box::new(ChiSquared::new(k)), Gam(a, b) => Box::new(Gamma::new(a, b)), Gau(m, v) => Box::new(Gaussian::new(m, v)),
            UniC(a, b) => Box::new(Uniform::new(a, b, DistributionClass::Continuous)),
        }
    }
    fn discrete(self) -> bool { matches!(self, Bern(_) | Bin(..) | Poi(_) | UniD(..)) }
    /// Mass table over the (truncated) support.
    fn table(self) -> Vec<(f64, f64)> {
        match self {
            Bern(p) => vec![(0.0, 1.0 - p), (1.0, p)],
            Bin(n, p) => {
                // convolution of n Bernoulli variables
                let mut t = vec![1.0];
                for _ in 0..n { let mut u = vec![0.0; t.len() + 1]; for (i, x) in t.iter().enumerate() { u[i] += x * (1.0 - p); u[i + 1] += x * p; } t = u; }
                t.into_iter().enumerate().map(|(i, x)| (i as f64, x)).collect()
            }
            Poi(l) => (0..(l + 60.0 + 12.0 * l.sqrt()) as usize).map(|k| (k as f64, (k as f64 * l.ln() - l - lgamma(k as f64 + 1.0)).exp())).collect(),
            UniD(a, b) => (a..=b).map(|k| (k as f64, 1.0 / (b - a + 1) as f64)).collect(),
            _ => vec![],
        }
    }
    /// density, distribution function, raw moments 1..4, mgf, cf of a continuous law
    fn pdf(self, x: f64) -> f64 {
        match self {
            Exp(l) => l * (-l * x).exp(),
            Chi(k) => { let a = k as f64 / 2.0; ((a - 1.0) * x.ln() - x / 2.0 - a * 2f64.ln() - lgamma(a)).exp() }
            Gam(a, b) => (a * b.ln() + (a - 1.0) * x.ln() - b * x - lgamma(a)).exp(),
            Gau(m, v) => npdf((x - m) / v.sqrt()) / v.sqrt(),
            UniC(a, b) => if a <= x && x <= b { 1.0 / (b - a) } else { 0.0 },
            _ => unreachable!(),
        }
    }
    fn cdf(self, x: f64) -> f64 {
        match self {
            Exp(l) => -(-l * x).exp_m1(), Chi(k) => gamma_p(k as f64 / 2.0, x / 2.0), Gam(a, b) => gamma_p(a, b * x),
            Gau(m, v) => ncdf((x - m) / v.sqrt()), UniC(a, b) => ((x - a) / (b - a)).clamp(0.0, 1.0), _ => unreachable!(),
        }
    }
    fn raw(self) -> [f64; 4] {
        let gam = |a: f64, b: f64| { let m1 = a / b; let m2 = m1 * (a + 1.0) / b; let m3 = m2 * (a + 2.0) / b; [m1, m2, m3, m3 * (a + 3.0) / b] };
        match self {
            Exp(l) => gam(1.0, l), Chi(k) => gam(k as f64 / 2.0, 0.5), Gam(a, b) => gam(a, b),
            Gau(m, v) => [m, m * m + v, m * m * m + 3.0 * m * v, m.powi(4) + 6.0 * m * m * v + 3.0 * v * v],
            UniC(a, b) => { let r = |n: i32| (b.powi(n + 1) - a.powi(n + 1)) / ((n + 1) as f64 * (b - a)); [r(1), r(2), r(3), r(4)] }
            d => { let t = d.table(); let r = |n: i32| t.iter().map(|(x, p)| p * x.powi(n)).sum(); [r(1), r(2), r(3), r(4)] }
        }
    }
    fn mgf(self, t: f64) -> Option<f64> {
        let gam = |a: f64, b: f64| if t < b { Some((-a * (1.0 - t / b).ln()).exp()) } else { None };
        match self {
            Exp(l) => gam(1.0, l), Chi(k) => gam(k as f64 / 2.0, 0.5), Gam(a, b) => gam(a, b), Gau(m, v) => Some((m * t).exp() * (v * t * t / 2.0).exp()),
            UniC(a, b) => Some(if t == 0.0 { 1.0 } else { ((t * b).exp() - (t * a).exp()) / (t * (b - a)) }),
            Poi(l) => Some((l * t.exp_m1()).exp()),
            Bin(n, p) => Some((1.0 - p + p * t.exp()).powi(n as i32)),
            d => Some(d.table().iter().map(|(x, p)| p * (t * x).exp()).sum()),
        }
    }
    fn cf(self, t: f64) -> (f64, f64) {
        let pol = |r: f64, th: f64| (r * th.cos(), r * th.sin());
        let gam = |a: f64, b: f64| { let z = t / b; pol((1.0 + z * z).powf(-a / 2.0), a * z.atan()) };
        match self {
            Exp(l) => gam(1.0, l), Chi(k) => gam(k as f64 / 2.0, 0.5), Gam(a, b) => gam(a, b), Gau(m, v) => pol((-v * t * t / 2.0).exp(), m * t),
            UniC(a, b) => { let hw = (b - a) / 2.0; pol(if t == 0.0 { 1.0 } else { (t * hw).sin() / (t * hw) }, t * (a + b) / 2.0) }
            d => d.table().iter().fold((0.0, 0.0), |(c, s), (x, p)| (c + p * (t * x).cos(), s + p * (t * x).sin())),
        }
    }
    fn lower(self) -> f64 { match self { Exp(_) | Chi(_) | Gam(..) => 0.0, UniC(a, _) => a, _ => f64::NEG_INFINITY } }
    /// -∫ f ln f by the midpoint rule after x = lower + exp(s) (or a plain grid)
    fn entropy(self) -> f64 {
        match self {
            UniC(a, b) => (b - a).ln(),
            Exp(_) | Chi(_) | Gam(..) => {
                let n = 40000; let (lo, hi) = (-80.0, 8.0); let ds = (hi - lo) / n as f64;
                (0..n).map(|i| { let s: f64 = lo + (i as f64 + 0.5) * ds; let x = s.exp(); let f = self.pdf(x); if f > 0.0 { -f * f.ln() * x * ds } else { 0.0 } }).sum()
            }
            Gau(m, v) => { let sd = v.sqrt(); let n = 4000; let ds = 24.0 / n as f64; (0..n).map(|i| { let z = -12.0 + (i as f64 + 0.5) * ds; let f = self.pdf(m + z * sd); if f > 0.0 { -f * f.ln() * sd * ds } else { 0.0 } }).sum() }
            d => d.table().iter().map(|(_, p)| if *p > 0.0 { -p * p.ln() } else { 0.0 }).sum(),
        }
    }
}
fn laws(full: bool) -> Vec<Law> {
    let mut v = vec![];
    let ps: &[f64] = if full { &[0.0, 0.01, 0.1, 0.25, 0.3, 0.5, 0.6, 0.75, 0.9, 0.99, 1.0] } else { &[0.0, 0.1, 0.3, 0.5, 0.75, 1.0] };
    for &p in ps {
        v.push(Bern(p));
        for n in if full { (1..=40).chain([50, 60]).collect::<Vec<_>>() } else { vec![1, 2, 3, 5, 12, 13, 20, 34] } { v.push(Bin(n, p)); }
    }
    let ls: &[f64] = if full { &[0.01, 0.02, 0.05, 0.1, 0.3, 0.5, 0.7, 0.99, 1.0, 1.5, 2.0, 3.3, 4.2, 7.0, 10.0, 21.0, 25.5, 60.0, 100.0] } else { &[0.01, 0.3, 0.7, 1.0, 2.5, 4.2, 25.5, 60.0] };
    for &l in ls { v.push(Poi(l)); }
    if full { for l in [200.0, 900.0] { v.push(Poi(l)); } for n in [150, 1200] { for p in [0.02, 0.5, 0.97] { v.push(Bin(n, p)); } } for a in [1.1, 1.2, 1.49] { v.push(Gam(a, 2.0)); } for k in [300, 400, 1000] { v.push(Chi(k)); } for a in [150.0, 200.0, 600.0] { v.push(Gam(a, 2.0)); } }
    for &l in &[0.05, 0.5, 1.0, 2.5, 20.0] { v.push(Exp(l)); }
    for k in if full { (1..=30).chain([60, 100]).collect::<Vec<_>>() } else { vec![1, 2, 3, 4, 7, 20] } { v.push(Chi(k)); }
    for &a in if full { &[0.01, 0.05, 0.3, 0.5, 0.9, 1.0, 1.5, 2.0, 3.7, 10.0, 40.0][..] } else { &[0.5, 1.0, 1.5, 3.7, 10.0][..] } { for &b in if full { &[0.2, 0.5, 1.0, 2.0, 4.0][..] } else { &[0.5, 1.0, 4.0][..] } { v.push(Gam(a, b)); } }
    for m in [-3.0, 0.0, 0.7, 10.0] { for s in [0.04, 1.0, 2.5, 9.0] { v.push(Gau(m, s)); } }
    for (a, b) in [(0.0, 1.0), (-2.0, 3.0), (0.5, 1.0), (-7.0, -6.5), (10.0, 1000.0)] { v.push(UniC(a, b)); }
    for (a, b) in [(0, 1), (-3, 2), (1, 6), (5, 5), (-4, -1), (0, 30)] { v.push(UniD(a, b)); }
    v
}
/// value of a functional, `None` if the library refuses (panics)
fn off<T>(f: impl FnOnce() -> T) -> Option<T> { refuses(f).ok() }
fn m02(ck: &Ck) {
    ck.assume("arguments of discrete mass functions are integers; functions documented as unimplemented (Gamma quantile/median/entropy, Poisson entropy, discrete Uniform quantile/mode) may refuse; ChiSquared median and Binomial entropy are documented approximations and checked with an error bound");
    ck.assume("moments and entropy of degenerate laws (p = 0, p = 1, single-point uniform) are not judged where the quotient is 0/0; samplers draw from the OS generator and are only checked for support membership and length");
    let ls = laws(true);
    ck.par(ls.len(), |w, li| {
        let l = ls[li];
        let d = l.make();
        let raw = l.raw();
        let (mu, var) = (raw[0], raw[1] - raw[0] * raw[0]);
        let sd = var.max(0.0).sqrt();
        let degenerate = sd < 1e-9;
        let scale = 1.0 + mu.abs() + var;
        w.case("moments", || format!("{l:?}"), |w| {
            w.state(li as u64); w.ops(5);
            ensure!(close(d.mean(), mu, 1e-9 * scale, 1e-9), "mean {} expected {mu}", d.mean());
            ensure!(close(d.variance(), var, 1e-9 * scale, 1e-8), "variance {} expected {var}", d.variance());
            if degenerate { return Ok(()); }
            // central moments by formula on the raw moments are cancellation-prone: use the exact ones where the law is standard
            let (sk, ku) = match l {
                Gau(..) => (0.0, 0.0),
                UniC(..) => (0.0, -1.2),
                Exp(_) => (2.0, 6.0),
                Chi(k) => ((8.0 / k as f64).sqrt(), 12.0 / k as f64),
                Gam(a, _) => (2.0 / a.sqrt(), 6.0 / a),
                _ => { let t = l.table(); let c = |n: i32| -> f64 { t.iter().map(|(x, p)| p * ((x - mu) / sd).powi(n)).sum() }; (c(3), c(4) - 3.0) }
            };
            ensure!(close(d.skewness(), sk, 1e-8, 1e-7), "skewness {} expected {sk}", d.skewness());
            ensure!(close(d.kurtosis(), ku, 1e-8, 1e-7), "excess kurtosis {} expected {ku}", d.kurtosis());
            if let Some(e) = off(|| d.entropy()) {
                let r = l.entropy();
                let tol = if let Bin(..) = l { 0.02 + 0.12 / var } else { 1e-6 * (1.0 + r.abs()) };
                ensure!((e - r).abs() <= tol, "entropy {e} expected {r} (tolerance {tol})");
            } else { ensure!(matches!(l, Poi(_) | Gam(..)), "entropy refused"); }
            Ok(())
        });
        w.case("median-mode", || format!("{l:?}"), |w| {
            w.ops(2);
            if let Some(m) = off(|| d.median()) {
                if l.discrete() {
                    let t = l.table();
                    let le: f64 = t.iter().filter(|(x, _)| *x <= m + 1e-9).map(|x| x.1).sum();
                    let ge: f64 = t.iter().filter(|(x, _)| *x >= m - 1e-9).map(|x| x.1).sum();
                    ensure!(le >= 0.5 - 1e-9 && ge >= 0.5 - 1e-9, "median {m}: P(X<=m)={le}, P(X>=m)={ge}");
                } else {
                    let approx = if let Chi(k) = l { let k = k as f64; close(m, k * (1.0 - 2.0 / (9.0 * k)).powi(3), 1e-12, 1e-12) } else { false };
                    ensure!(approx || (l.cdf(m) - 0.5).abs() <= 1e-9, "median {m} has cdf {}", l.cdf(m));
                }
            } else { ensure!(matches!(l, Gam(..)), "median refused"); }
            if let Some(m) = off(|| d.mode()) {
                if l.discrete() {
                    let t = l.table();
                    let mx = t.iter().fold(0.0, |a: f64, x| a.max(x.1));
                    let pm = t.iter().find(|x| x.0 == m).map(|x| x.1);
                    ensure!(pm.is_some_and(|p| p >= mx * (1.0 - 1e-9)), "mode {m} has mass {pm:?}, maximum {mx}");
                } else {
                    let e = match l { Exp(_) => 0.0, Chi(k) => (k as f64 - 2.0).max(0.0), Gam(a, b) => ((a - 1.0) / b).max(0.0), Gau(x, _) => x, _ => m };
                    ensure!(close(m, e, 1e-12, 1e-12), "mode {m} expected {e}");
                    if let UniC(a, b) = l { ensure!(m >= a && m <= b, "mode {m} outside the support"); }
                }
            } else { ensure!(matches!(l, UniD(..)), "mode refused"); }
            Ok(())
        });
        for t in [-2.0, -1.0, -0.5, -0.1, 0.0, 0.1, 0.4, 0.5, 0.9, 1.5, 3.0] {
            w.case("generating-functions", || format!("{l:?} at t={t}"), |w| {
                w.ops(2);
                match (l.mgf(t), off(|| d.mgf(t))) {
                    (None, None) => {}
                    (Some(e), Some(g)) => ensure!(close(g, e, 1e-10, 1e-9) || e > 1e250, "mgf {g} expected {e}"),
                    (e, g) => return fail(format!("mgf {g:?} expected {e:?}")),
                }
                let c = d.cf(t);
                let e = l.cf(t);
                ensure!(close(c.re, e.0, 1e-9, 0.0) && close(c.im, e.1, 1e-9, 0.0), "characteristic function {c} expected {e:?}");
                Ok(())
            });
        }
        if l.discrete() {
            let t = l.table();
            let mut acc = 0.0;
            let mut prev = 0.0;
            for &(x, p) in &t {
                let below = acc;
                acc += p;
                w.case("mass-and-distribution", || format!("{l:?} at {x}"), |w| {
                    w.ops(3);
                    let (g, f) = (d.pmf(x), d.pdf(x));
                    ensure!(close(g, p, 1e-13, 1e-9), "pmf {g} expected {p}");
                    ensure!(f.to_bits() == g.to_bits(), "pdf {f} differs from pmf {g}");
                    let c = d.cdf(x);
                    if !close(c, acc, 1e-10, 0.0) {
                        if let Poi(lam) = l {
                            let _ = lam;
                            if close(c, 1.0 - (1.0 - acc) / acc, 1e-7, 1e-6) || (c.is_nan() && x > 165.0) { return w.known("poisson-cdf", || format!("{l:?} cdf({x}) = {c}, expected {acc}")); }
                        }
                        return fail(format!("cdf {c} expected {acc}"));
                    }
                    ensure!(c >= prev - 1e-12, "cdf decreases to {c} from {prev}");
                    prev = c;
                    w.outcome(g.to_bits());
                    Ok(())
                });
                if !matches!(l, Poi(_)) {
                    for dx in [0.25, 0.5, 0.999] {
                        w.case("cdf-between-atoms", || format!("{l:?} at {}", x + dx), |w| {
                            w.op();
                            let c = d.cdf(x + dx);
                            ensure!(close(c, acc, 1e-10, 0.0), "cdf {c} expected {acc}");
                            Ok(())
                        });
                    }
                }
                // quantile: the smallest atom whose cumulated mass reaches q
                if p > 1e-9 {
                    for q in [below + 0.5 * p, below + 1e-3 * p, acc - 1e-3 * p] {
                        if q > 0.999_999 || q < 1e-6 { continue; }
                        w.case("quantile", || format!("{l:?} quantile of {q}"), |w| {
                            w.op();
                            match off(|| d.inv_cdf(q)) {
                                Some(g) => ensure!(g == x, "{g} expected {x}"),
                                None => ensure!(matches!(l, UniD(..)), "quantile refused"),
                            }
                            Ok(())
                        });
                    }
                }
            }
            // the far upper tail: an atom whose cumulated mass is the probability up to rounding
            if !matches!(l, UniD(..) | Bern(_)) { for q in [1e-6, 1e-9, 1e-12, 1e-14, 4e-15, 1e-15, 5e-16, f64::EPSILON].map(|e| 1.0 - e) {
                w.case("upper-tail-quantile", || format!("{l:?} quantile of {q:e}"), |w| {
                    w.op();
                    let g = d.inv_cdf(q);
                    let (le, lt) = t.iter().fold((0.0, 0.0), |a, &(x, p)| (a.0 + if x <= g { p } else { 0.0 }, a.1 + if x < g { p } else { 0.0 }));
                    ensure!(g.is_finite() && le >= q - 1e-12 && (lt <= q + 1e-12), "{g}: P(X <= {g}) = {le}, P(X < {g}) = {lt}");
                    ensure!(t.iter().any(|x| x.0 == g && x.1 > 0.0) || g > t[t.len() - 1].0, "{g} is not an atom");
                    Ok(())
                });
            } }
            w.case("support-edges", || format!("{l:?}"), |w| {
                w.ops(6);
                let (lo, hi) = (t[0].0, t[t.len() - 1].0);
                for x in [lo - 1.0, lo - 3.0] {
                    if let Some(p) = off(|| d.pmf(x)) { ensure!(p == 0.0, "pmf({x}) = {p} below the support"); }
                    if matches!(l, Poi(_)) { continue; }
                    if let Some(p) = off(|| d.cdf(x)) { ensure!(p == 0.0, "cdf({x}) = {p} below the support"); }
                }
                if matches!(l, Bern(_) | UniD(..)) { ensure!(d.cdf(lo - 0.5) == 0.0, "cdf({}) = {} below the support", lo - 0.5, d.cdf(lo - 0.5)); }
                if !matches!(l, Poi(_)) {
                    for x in [hi, hi + 1.0, hi + 0.5, hi + 10.0] {
                        if let Some(p) = off(|| d.cdf(x)) { ensure!(close(p, 1.0, 1e-12, 0.0), "cdf({x}) = {p} above the support"); }
                        if x > hi && x.fract() == 0.0 { if let Some(p) = off(|| d.pmf(x)) { ensure!(p == 0.0, "pmf({x}) = {p} above the support"); } }
                    }
                }
                if let UniD(a, b) = l {
                    let x = a as f64 + 0.5;
                    if x < b as f64 {
                        let p = d.pmf(x);
                        if p != 0.0 {
                            ensure!(close(p, 1.0 / (b - a + 1) as f64, 1e-12, 0.0), "pmf({x}) = {p}");
                            w.known("discrete-uniform-noninteger-pmf", || format!("{l:?} pmf({x}) = {p}, not an atom"))?;
                        }
                    }
                }
                // the upper end: the largest atom, and nothing outside [0, 1]
                match (l, off(|| d.inv_cdf(1.0))) {
                    (UniD(..), None) | (Bern(0.0 | 1.0), _) => {}
                    (Poi(_), q) => ensure!(q == Some(f64::INFINITY), "quantile of 1 is {q:?}"),
                    (_, q) => { let top = t.iter().rev().find(|x| x.1 > 0.0).map(|x| x.0); let eps = t.iter().rev().find(|x| x.1 > 1e-12).map(|x| x.0);
                        ensure!(q.is_some_and(|q| Some(q) <= top && Some(q) >= eps), "quantile of 1 is {q:?}, the largest atom {top:?}") }
                }
                if let Some(q) = off(|| d.inv_cdf(0.0)) { ensure!(q == lo || t.iter().find(|x| x.1 > 0.0).is_some_and(|x| x.0 == q), "quantile of 0 is {q}, support starts at {lo}") }
                Ok(())
            });
        } else {
            let grid: Vec<f64> = match l {
                Gau(..) => (-24..=24).map(|i| mu + sd * i as f64 * 0.25).collect(),
                UniC(a, b) => (-4..=14).map(|i| a + (b - a) * i as f64 / 10.0).collect(),
                _ => (1..=60).map(|i| mu * (i as f64 / 12.0).powi(2) / 2.0).collect(),
            };
            let mut prev = 0.0;
            for &x in &grid {
                w.case("density-and-distribution", || format!("{l:?} at {x}"), |w| {
                    w.ops(3);
                    let (p, c) = (d.pdf(x), d.cdf(x));
                    ensure!(close(p, l.pdf(x), 1e-12, 1e-9), "pdf {p} expected {}", l.pdf(x));
                    ensure!(close(d.pmf(x), p, 0.0, 0.0), "pmf {} differs from pdf {p}", d.pmf(x));
                    ensure!(close(c, l.cdf(x), 1e-10, 1e-9), "cdf {c} expected {}", l.cdf(x));
                    ensure!(c >= prev - 1e-12 && (-1e-12..=1.0 + 1e-12).contains(&c), "cdf {c} after {prev}");
                    prev = c;
                    w.outcome(c.to_bits());
                    Ok(())
                });
            }
            for i in 0..=ck.pick(4000, 40_000) {
                let n = ck.pick(4000.0, 40_000.0);
                for q in [i as f64 / n] {
                    w.case("quantile", || format!("{l:?} quantile of {q}"), |w| {
                        w.op();
                        let Some(x) = off(|| d.inv_cdf(q)) else { ensure!(matches!(l, Gam(..)), "quantile refused"); return Ok(()) };
                        if q == 0.0 { ensure!(x == l.lower() || (x - l.lower()).abs() < 1e-9, "quantile of 0 is {x}, support starts at {}", l.lower()); return Ok(()); }
                        if q == 1.0 { if let UniC(_, b) = l { ensure!(close(x, b, 1e-12, 1e-12), "quantile of 1 is {x}"); } else { ensure!(x == f64::INFINITY, "quantile of 1 is {x}"); } return Ok(()); }
                        ensure!((l.cdf(x) - q).abs() <= 1e-8, "quantile {x} has cdf {}", l.cdf(x));
                        Ok(())
                    });
                }
            }
            for q in [1e-12, 1e-6, 1e-3, 0.999, 0.999_999] {
                w.case("quantile-tails", || format!("{l:?} quantile of {q}"), |w| {
                    w.op();
                    let Some(x) = off(|| d.inv_cdf(q)) else { ensure!(matches!(l, Gam(..)), "quantile refused"); return Ok(()) };
                    // either close in probability or the neighbouring doubles of the quantile straddle q
                    ensure!(close(l.cdf(x), q, 1e-8, 1e-6) || (l.cdf((x - 1e-12).max(l.lower())) <= q && l.cdf(x + 1e-12) >= q), "quantile {x} has cdf {}", l.cdf(x));
                    Ok(())
                });
            }
            // the lower tail down to the smallest doubles: the quantile is right relative to the probability
            for k in 7..=300 {
                let q = 10f64.powi(-k);
                w.case("quantile-deep-tails", || format!("{l:?} quantile of {q}"), |w| {
                    w.op();
                    let Some(x) = off(|| d.inv_cdf(q)) else { ensure!(matches!(l, Gam(..)), "quantile refused"); return Ok(()) };
                    match l {
                        // closed forms, to the last bits of a small probability
                        Exp(r) => ensure!(close(x, q / r, 0.0, 1e-6), "quantile {x} expected {}", q / r),
                        UniC(a, b) => ensure!(close(x, a + q * (b - a), 4.0 * f64::EPSILON * a.abs(), 1e-6), "quantile {x} expected {}", a + q * (b - a)),
                        // the leading term of the lower tail: q = (x/2)^(k/2) / gamma(k/2 + 1)
                        Chi(k) if (q.ln() + lgamma(k as f64 / 2.0 + 1.0)) / (k as f64 / 2.0) < -16.0 => {
                            let e = (q.ln() + lgamma(k as f64 / 2.0 + 1.0)) / (k as f64 / 2.0) + 2f64.ln();
                            if e > -690.0 { ensure!(close(x.ln(), e, 1e-6, 0.0), "quantile {x} expected {}", e.exp()); } else { ensure!((0.0..=1e-290).contains(&x), "quantile {x} expected {}", e.exp()); }
                        }
                        _ => ensure!(close(l.cdf(x), q, 0.0, 1e-6) || (l.cdf((x - 1e-12).max(l.lower())) <= q && l.cdf(x + 1e-12) >= q), "quantile {x} has cdf {}", l.cdf(x)),
                    }
                    w.outcome(x.to_bits());
                    Ok(())
                });
            }
            // the distribution function next to the lower end of the support, relative to its value, and at infinity
            if let Exp(_) | Chi(_) | Gam(..) = l {
                for k in (0..=300).step_by(ck.pick(3, 1)) {
                    for m in [1.0, 2.5, 7.0] {
                        let x = m * 10f64.powi(-k);
                        w.case("lower-end", || format!("{l:?} at {x:e}"), |w| {
                            w.op();
                            let c = d.cdf(x);
                            let e = match l { Exp(r) => -(-r * x).exp_m1(), Chi(k) => gamma_p(k as f64 / 2.0, x / 2.0), Gam(a, b) => gamma_p(a, b * x), _ => c };
                            ensure!(close(c, e, 1e-300, 1e-8), "cdf {c:e} expected {e:e}");
                            w.outcome(c.to_bits());
                            Ok(())
                        });
                    }
                }
            }
            w.case("infinity", || format!("{l:?}"), |w| {
                w.ops(2);
                ensure!(d.cdf(f64::INFINITY) == 1.0, "the distribution function at infinity is {}", d.cdf(f64::INFINITY));
                if let Gau(..) | UniC(..) = l { ensure!(d.cdf(f64::NEG_INFINITY) == 0.0, "the distribution function at -infinity is {}", d.cdf(f64::NEG_INFINITY)); }
                for q in [0.0, 1.0] { if let Some(x) = off(|| d.inv_cdf(q)) { if x > 0.0 || !matches!(l, Chi(1)) { if x != 0.0 || !matches!(l, Gam(..)) { let c = d.cdf(x); ensure!(c == q, "the distribution function of the quantile {x} of {q} is {c}"); } } } }
                Ok(())
            });
            w.case("support-edges", || format!("{l:?}"), |w| {
                w.ops(5);
                // the closed end of the support
                if let Exp(_) | UniC(..) = l {
                    let x = l.lower();
                    ensure!(close(d.pdf(x), l.pdf(x), 1e-12, 1e-12) && d.cdf(x) == 0.0, "at the end {x} of the support: density {} and distribution {}", d.pdf(x), d.cdf(x));
                }
                if let Chi(k) = l { if k >= 2 {
                    let e = if k == 2 { 0.5 } else { 0.0 };
                    ensure!(close(d.pdf(0.0), e, 1e-12, 0.0) && d.cdf(0.0) == 0.0, "at 0: density {} and distribution {}", d.pdf(0.0), d.cdf(0.0));
                } }
                if let UniC(_, b) = l { ensure!(d.cdf(b) == 1.0 && d.cdf(b + 1e-6) == 1.0 && d.pdf(b + 1e-6) == 0.0 && d.cdf(b + 1e6) == 1.0, "beyond the upper end {b}"); }
                if l.lower() > f64::NEG_INFINITY {
                    for x in [l.lower() - 1e-6, l.lower() - 5.0] {
                        if let Some(p) = off(|| d.pdf(x)) { ensure!(p == 0.0, "pdf({x}) = {p} outside the support"); }
                        if let Some(p) = off(|| d.cdf(x)) { ensure!(p == 0.0, "cdf({x}) = {p} outside the support"); }
                    }
                }
                Ok(())
            });
        }
        w.case("samples", || format!("{l:?}"), |w| {
            w.ops(3);
            ensure!(off(|| d.sample(0)).is_none_or(|r| r.is_err() || r.is_ok_and(|v| v.is_empty())), "sample(0) returned values");
            for n in [1usize, 256] {
                let s = match off(|| d.sample(n)) { Some(Ok(s)) => s, _ => return fail("sample refused") };
                ensure!(s.len() == n, "{} values instead of {n}", s.len());
                let bad = s.iter().find(|x| match l {
                    UniC(a, b) => **x < a || **x > b, Gau(..) => !x.is_finite(), Exp(_) | Chi(_) | Gam(..) => **x < 0.0 || !x.is_finite(),
                    Poi(_) => **x < 0.0 || x.fract() != 0.0,
                    _ => !l.table().iter().any(|(a, p)| a == *x && *p > 0.0),
                });
                ensure!(bad.is_none(), "sampled {bad:?}");
                if n == 256 && !l.discrete() { ensure!(s.iter().any(|x| x.fract() != 0.0), "every draw of a continuous law is an integer"); }
                if n == 256 { if let UniD(a, b) = l { if b - a < 3 { for k in a..=b { ensure!(s.contains(&(k as f64)), "value {k} never drawn"); } } } }
            }
            Ok(())
        });
    });
    // large parameters: thousands to hundreds of thousands of trials, events or degrees of freedom
    let large = [Poi(250.0), Poi(5e3), Poi(7e4), Poi(3e5), Bin(200, 0.5), Bin(1500, 0.3), Bin(5000, 0.999), Bin(70_000, 0.4), Bin(300_000, 0.001), Chi(300), Chi(5000), Chi(40_000), Chi(70_001), Chi(300_000), Gam(500.0, 3.0), Gam(2e4, 0.1), Gam(1.5e5, 40.0)];
    ck.par(large.len(), |w, i| {
        let l = large[i];
        let d = l.make();
        let (mu, var, sk, ku) = match l {
            Poi(l) => (l, l, 1.0 / l.sqrt(), 1.0 / l),
            Bin(n, p) => { let v = n as f64 * p * (1.0 - p); (n as f64 * p, v, (1.0 - 2.0 * p) / v.sqrt(), (1.0 - 6.0 * p * (1.0 - p)) / v) }
            Chi(k) => { let k = k as f64; (k, 2.0 * k, (8.0 / k).sqrt(), 12.0 / k) }
            Gam(a, b) => (a / b, a / (b * b), 2.0 / a.sqrt(), 6.0 / a),
            _ => unreachable!(),
        };
        let lpmf = |x: f64| match l { Poi(r) => x * r.ln() - r - lgamma(x + 1.0), Bin(n, p) => { let n = n as f64; lgamma(n + 1.0) - lgamma(x + 1.0) - lgamma(n - x + 1.0) + x * p.ln() + (n - x) * (-p).ln_1p() } _ => l.pdf(x).ln() };
        w.case("large-moments", || format!("{l:?}"), |w| {
            w.ops(5);
            for (what, got, want) in [("mean", d.mean(), mu), ("variance", d.variance(), var), ("skewness", d.skewness(), sk), ("excess kurtosis", d.kurtosis(), ku)] { ensure!(close(got, want, 0.0, 1e-9), "{what} {got}, expected {want}"); }
            if let Some(m) = off(|| d.mode()) { let m1 = lpmf(m); for e in [-1.0, 1.0] { ensure!(lpmf(m + e) <= m1 + 1e-6 * (1.0 + 1.0 / var), "mode {m} has less mass than {}", m + e); } }
            Ok(())
        });
        for z in -12..=12 {
            let x = mu + z as f64 * var.sqrt() / 2.0;
            let x = if l.discrete() { x.round() } else { x };
            if x <= 0.0 || matches!(l, Bin(n, _) if x > n as f64) { continue; }
            w.case("large-density", || format!("{l:?} at {x}"), |w| {
                w.op();
                let (got, want) = (if l.discrete() { d.pmf(x) } else { d.pdf(x) }, lpmf(x).exp());
                ensure!(close(got, want, 1e-300, 1e-6), "{got}, expected {want}");
                w.state(h(&(i, x.to_bits())));
                Ok(())
            });
            if matches!(l, Poi(_)) { continue; }
            w.case("large-distribution", || format!("{l:?} at {x}"), |w| {
                w.op();
                let got = d.cdf(x);
                let want = match l { Bin(..) => { let mut s = 0.0; let mut k = x; while k >= 0.0 && k > x - 60.0 * var.sqrt() - 60.0 { s += lpmf(k).exp(); k -= 1.0; } s } _ => l.cdf(x) };
                ensure!(close(got, want, 1e-7, 1e-6), "distribution function {got}, expected {want}");
                Ok(())
            });
        }
        if let Chi(_) = l { for q in [1e-9, 0.001, 0.25, 0.5, 0.9, 0.999_999] {
            w.case("large-quantile", || format!("{l:?} quantile of {q}"), |w| {
                w.op();
                let x = d.inv_cdf(q);
                ensure!(close(l.cdf(x), q, 1e-8, 1e-5), "quantile {x} has cdf {}", l.cdf(x));
                Ok(())
            });
        } }
    });
    // the median of a Poisson law over a fine grid of rates
    ck.par(2400, |w, i| {
        let lam = (i + 1) as f64 / 80.0;
        w.case("poisson-median", || format!("rate {lam}"), |w| {
            w.op();
            let (m, t) = (Poisson::new(lam).median(), Poi(lam).table());
            let le: f64 = t.iter().filter(|(x, _)| *x <= m + 1e-9).map(|x| x.1).sum();
            let ge: f64 = t.iter().filter(|(x, _)| *x >= m - 1e-9).map(|x| x.1).sum();
            ensure!(le >= 0.5 - 1e-9 && ge >= 0.5 - 1e-9, "median {m}: P(X<=m)={le}, P(X>=m)={ge}");
            w.outcome(m.to_bits());
            Ok(())
        });
    });
    ck.seq(|w| {
        let defaults: [(&str, D, D); 5] = [
            ("Bernoulli", Box::new(Bernoulli::default()), Box::new(Bernoulli::new(0.5))), ("Binomial", Box::new(Binomial::default()), Box::new(Binomial::new(1, 0.5))),
            ("ChiSquared", Box::new(ChiSquared::default()), Box::new(ChiSquared::new(1))), ("Gaussian", Box::new(Gaussian::default()), Box::new(Gaussian::new(0.0, 1.0))),
            ("the constant N", Box::new(RustQuant_math::N), Box::new(Gaussian::new(0.0, 1.0)))];
        for (n, a, b) in &defaults {
            w.case("defaults", || n.to_string(), |w| {
                w.ops(4);
                ensure!(a.mean() == b.mean() && a.variance() == b.variance() && a.pdf(1.0) == b.pdf(1.0) && a.cdf(1.0) == b.cdf(1.0), "mean {} variance {}", a.mean(), a.variance());
                Ok(())
            });
        }
        for (n, f) in [
            ("Bernoulli(-0.1)", Box::new(|| { let _ = Bernoulli::new(-0.1); }) as Box<dyn Fn()>), ("Bernoulli(1.1)", Box::new(|| { let _ = Bernoulli::new(1.1); })), ("Binomial(2,1.5)", Box::new(|| { let _ = Binomial::new(2, 1.5); })),
            ("Binomial(2,-0.5)", Box::new(|| { let _ = Binomial::new(2, -0.5); })), ("Poisson(0)", Box::new(|| { let _ = Poisson::new(0.0); })), ("Poisson(-1)", Box::new(|| { let _ = Poisson::new(-1.0); })),
            ("Exponential(0)", Box::new(|| { let _ = Exponential::new(0.0); })), ("ChiSquared(0)", Box::new(|| { let _ = ChiSquared::new(0); })), ("Gamma(0,1)", Box::new(|| { let _ = Gamma::new(0.0, 1.0); })),
            ("Gamma(1,-1)", Box::new(|| { let _ = Gamma::new(1.0, -1.0); })), ("Gaussian(0,0)", Box::new(|| { let _ = Gaussian::new(0.0, 0.0); })), ("Gaussian(0,-1)", Box::new(|| { let _ = Gaussian::new(0.0, -1.0); })),
            ("Uniform(2,1)", Box::new(|| { let _ = Uniform::new(2.0, 1.0, DistributionClass::Continuous); })),
        ] {
            w.case("invalid-parameters", || n.to_string(), |w| { w.op(); ensure!(refuses(&f).is_err(), "accepted"); Ok(()) });
        }
    });
}

// ---------------------------------------------------------------- M03 root finding
const FNS: usize = 9;
/// strictly increasing test functions with the single root `r`
fn fval(k: usize, r: f64, x: f64) -> f64 {
    let d = x - r;
    match k { 0 => d, 1 => d * d * d + d, 2 => x.exp() - r.exp(), 3 => d.tanh(), 4 => d.atan(), 5 => d.sinh(), 6 => d + 0.5 * d.sin(), 7 => d * d * d, _ => if d > 0.0 { 3.0 * d } else { 0.2 * d } }
}
fn fder(k: usize, r: f64, x: f64) -> f64 {
    let d = x - r;
    match k { 0 => 1.0, 1 => 3.0 * d * d + 1.0, 2 => x.exp(), 3 => 1.0 / d.cosh().powi(2), 4 => 1.0 / (1.0 + d * d), 5 => d.cosh(), 6 => 1.0 + 0.5 * d.cos(), 7 => 3.0 * d * d, _ => if d > 0.0 { 3.0 } else { 0.2 } }
}
fn m03(ck: &Ck) {
    ck.assume("functions are continuous with a sign change that the documented bracket expansion (factor 1.6 from the guess) can reach; overflow-prone functions are kept to |x| where they are finite");
    let roots = ck.pick((-60..=60).map(|k| k as f64 * 0.17).collect::<Vec<_>>(), (-400..=400).map(|k| k as f64 * 0.0255).collect());
    let guesses = ck.pick(vec![-15.0, -10.0, -4.0, -2.5, -1.0, -0.3, 0.0, 0.1, 0.5, 1.0, 3.0, 5.0, 12.0], vec![-15.0, -10.0, -7.0, -4.0, -2.5, -1.7, -1.0, -0.3, 0.0, 0.1, 0.5, 1.0, 2.0, 3.0, 5.0, 8.0, 12.0]);
    let steps = vec![1e-6, 1e-3, 0.1, 0.5, 2.0, 10.0];
    let accs = vec![1e-2f64, 1e-4, 1e-6, 1e-9, 1e-12, 1e-300];
    let bounds = [None, Some((-6.0, 6.0)), Some((-20.0, 20.0))];
    ck.par(FNS * roots.len(), |w, j| {
        let (k, r) = (j % FNS, roots[j / FNS]);
        for sgn in [1.0, -1.0] { for amp in [1.0, 1e-3, 250.0] { for &g in &guesses { for &st in &steps { for &acc in &accs { for b in &bounds { for alg in 0..3 {
            if let Some((lo, hi)) = b { if g < *lo || g > *hi || r < *lo || r > *hi { continue; } }
            // unbounded searches on growing functions may overflow far away: keep them near
            if b.is_none() && matches!(k, 2 | 5) && st > 1.0 { continue; }
            // a triple root cannot be located more finely than its function values resolve
            w.case(["bisection", "brent", "newton-raphson"][alg], || format!("f{k} root {r} sign {sgn} amplitude {amp}, guess {g}, step {st}, accuracy {acc:e}, bounds {b:?}"), |w| {
                let evals = RefCell::new((0u64, f64::INFINITY, f64::NEG_INFINITY));
                let f = |x: f64| { let mut e = evals.borrow_mut(); e.0 += 1; e.1 = e.1.min(x); e.2 = e.2.max(x); sgn * amp * fval(k, r, x) };
                let df = |x: f64| sgn * amp * fder(k, r, x);
                let data = match b { Some((lo, hi)) => RootfinderData::new(acc, st, *lo, *hi, true), None => { let mut d = RootfinderData::default(); d.accuracy = acc; d.stepsize = st; d } };
                let got = match alg {
                    0 => { let mut s = bisection::Bisection::new(f, g, data); let a = s.solve(); let b2 = s.solve(); if a != b2 && (a - b2).abs() > 1e-3 { return fail(format!("solving again gives {b2} after {a}")); } a }
                    1 => { let mut s = brent::Brent::new(f, g, data); let a = s.solve(); let b2 = s.solve(); if (a - b2).abs() > 1e-3 { return fail(format!("solving again gives {b2} after {a}")); } a }
                    _ => { let mut s = newton_raphson::NewtonRaphson::new(f, df, g, data); let a = s.solve(); let b2 = s.solve(); if (a - b2).abs() > 1e-3 { return fail(format!("solving again gives {b2} after {a}")); } a }
                };
                let e = *evals.borrow();
                w.ops(e.0);
                w.state(h(&(j, got.to_bits())));
                w.outcome(got.to_bits());
                let eff = acc.max(f64::EPSILON);
                                let tol = match alg { 2 => 4.0 * eff, _ => 2.0 * eff } + 8.0 * f64::EPSILON * (1.0 + r.abs().max(got.abs()));
                ensure!((got - r).abs() <= tol || sgn * amp * fval(k, r, got) == 0.0, "returned {got}, root {r}, tolerance {tol:e}");
                if let Some((lo, hi)) = b { ensure!(e.1 >= *lo && e.2 <= *hi, "evaluated outside the enforced interval: [{}, {}]", e.1, e.2); ensure!(got >= *lo && got <= *hi, "root {got} outside the interval"); }
                ensure!(e.0 <= 5000, "{} evaluations", e.0);
                Ok(())
            });
        } } } } } } }
    });
    // roots of every magnitude, down to the resolution of the numbers
    let es: Vec<i32> = (-9..=9).collect();
    ck.par(es.len() * 4, |w, j| {
        let (fam, base) = (j % 4, 10f64.powi(es[j / 4]) * 1.234_567_891_234_5);
        for r in [base, -base] { for acc in [1e-4 * base, 1e-4, 1.5e-8, 1e-12, 1e-300] { for g in [0.9 * r, 0.0, r.signum(), 3.0 * r] { for st in [1e-3 * base, 0.5 * base, 1e-6] { for alg in 0..3 {
            // a step or an accuracy beyond the scale on which the exponential varies is no Newton step
            if st < 16.0 * f64::EPSILON * g.abs() || fam == 3 && (g / r > 600.0 || st > base || acc > 1e-3 * base) { continue; }
            w.case("magnitudes", || format!("family {fam} root {r:e}, algorithm {alg}, guess {g:e}, step {st:e}, accuracy {acc:e}"), |w| {
                let cnt = Cell::new(0u64);
                let f = |x: f64| { cnt.set(cnt.get() + 1); match fam { 0 => x - r, 1 => x * x * x - r * r * r, 2 => ((x - r) / r).atan(), _ => (x / r).exp() - 1f64.exp() } };
                let df = |x: f64| match fam { 0 => 1.0, 1 => 3.0 * x * x, 2 => 1.0 / r / (1.0 + ((x - r) / r).powi(2)), _ => (x / r).exp() / r };
                let d = RootfinderData::new(acc, st, -600.0 * base.max(2.0), 600.0 * base.max(2.0), true);
                let got = match alg { 0 => bisection::Bisection::new(f, g, d).solve(), 1 => brent::Brent::new(f, g, d).solve(), _ => newton_raphson::NewtonRaphson::new(f, df, g, d).solve() };
                w.ops(cnt.get());
                w.outcome(got.to_bits());
                let tol = 4.0 * acc.max(f64::EPSILON) + 64.0 * f64::EPSILON * base;
                let at = match fam { 0 => got - r, 1 => got * got * got - r * r * r, 2 => ((got - r) / r).atan(), _ => (got / r).exp() - 1f64.exp() };
                ensure!((got - r).abs() <= tol || at == 0.0, "returned {got:e} after {} evaluations", cnt.get());
                Ok(())
            });
        } } } } }
    });
    // units: functions whose values are small or large everywhere have the same roots
    let ex: Vec<i32> = ck.pick(vec![-330, -200, -100, -60, -20, 20, 60, 100, 200, 330], (-33..=33).map(|k| 10 * k).collect());
    ck.par(FNS * ex.len(), |w, j| {
        let (k, e) = (j % FNS, ex[j / FNS]);
        let sc = 2f64.powi(e);
        for r in ck.pick(vec![-3.7, 0.3, 2.0], vec![-5.0, -3.7, -0.01, 0.0, 0.3, 1.0, 2.0, 5.5]) { for g in [-2.5, 0.0, 0.5, 3.0] { for st in [1e-3, 0.1, 1.0] { for acc in [1e-4, 1e-9, 1e-300] { for alg in 0..3 {
            w.case("units", || format!("f{k} root {r} times 2^{e}, algorithm {alg}, guess {g}, step {st}, accuracy {acc:e}"), |w| {
                let solve = |sc: f64| {
                    let d = RootfinderData::new(acc, st, -6.0, 6.0, true);
                    let (f, df) = (|x: f64| sc * fval(k, r, x), |x: f64| sc * fder(k, r, x));
                    match alg { 0 => bisection::Bisection::new(f, g, d).solve(), 1 => brent::Brent::new(f, g, d).solve(), _ => newton_raphson::NewtonRaphson::new(f, df, g, d).solve() }
                };
                w.ops(2);
                let (one, two) = (solve(1.0), solve(sc));
                w.outcome(two.to_bits());
                ensure!((one - two).abs() <= 4.0 * acc.max(f64::EPSILON) * (1.0 + r.abs()) + 8.0 * f64::EPSILON, "root {one} of the function, {two} of its multiple");
                Ok(())
            });
        } } } } }
    });
    // several roots: whatever is returned must be one of them
    ck.seq(|w| {
        let fam: Vec<(&str, Box<dyn Fn(f64) -> f64>, Box<dyn Fn(f64) -> f64>, Vec<f64>)> = vec![
            ("(x+1)(x-2)(x-4)", Box::new(|x| (x + 1.0) * (x - 2.0) * (x - 4.0)), Box::new(|x| (x - 2.0) * (x - 4.0) + (x + 1.0) * (x - 4.0) + (x + 1.0) * (x - 2.0)), vec![-1.0, 2.0, 4.0]),
            ("x^2-2", Box::new(|x| x * x - 2.0), Box::new(|x| 2.0 * x), vec![-std::f64::consts::SQRT_2, std::f64::consts::SQRT_2]),
            ("sin x", Box::new(|x: f64| x.sin()), Box::new(|x: f64| x.cos()), (-10..=10).map(|k| k as f64 * std::f64::consts::PI).collect()),
            ("x exp(-x) - 0.2", Box::new(|x: f64| x * (-x).exp() - 0.2), Box::new(|x: f64| (1.0 - x) * (-x).exp()), vec![0.259_171_101_819_073_7, 2.542_641_357_773_526_4]),
        ];
        for (n, f, df, rs) in &fam { for gi in -8..=8 { let g = gi as f64 * 0.7; for st in [1e-3, 0.1, 1.0] { for alg in 0..3 {
            w.case("several-roots", || format!("{n} algorithm {alg} guess {g} step {st}"), |w| {
                // a sign change inside the bounds is guaranteed; the expansion may still miss an even number of roots
                let data = RootfinderData::new(1e-9, st, -8.0, 8.0, true);
                let cnt = Cell::new(0u64);
                let out = Cell::new(f64::NAN);
                let ff = |x: f64| { cnt.set(cnt.get() + 1); if !(-8.0..=8.0).contains(&x) { out.set(x); } f(x) };
                let got = match alg { 0 => bisection::Bisection::new(ff, g, data).solve(), 1 => brent::Brent::new(ff, g, data).solve(), _ => newton_raphson::NewtonRaphson::new(ff, df, g, data).solve() };
                w.ops(cnt.get());
                w.outcome(got.to_bits());
                ensure!(out.get().is_nan(), "evaluated at {} outside the enforced interval", out.get());
                if rs.iter().any(|r| (got - r).abs() < 1e-7) { return Ok(()); }
                ensure!(got == 0.0, "returned {got} after {} evaluations, roots {rs:?}", cnt.get());
                w.known("no-root-reported-as-zero", || format!("{n} algorithm {alg} guess {g} step {st}: 0.0 returned although no bracket was found"))
            });
        } } } }
        // the default data, untouched: accuracy sqrt(machine epsilon), no bounds
        for alg in 0..3 { for r in [-7.25, -0.3, 0.0, 0.1, 2.5, 11.0] { for g in [-3.0, 0.0, 0.5, 4.0] {
            w.case("default-data", || format!("x^3 + x - c with root {r}, algorithm {alg}, guess {g}"), |w| {
                let c = r * r * r + r;
                let cnt = Cell::new(0u64);
                let f = |x: f64| { cnt.set(cnt.get() + 1); x * x * x + x - c };
                let d = RootfinderData::default();
                let got = match alg { 0 => bisection::Bisection::new(f, g, d).solve(), 1 => brent::Brent::new(f, g, d).solve(), _ => newton_raphson::NewtonRaphson::new(f, |x| 3.0 * x * x + 1.0, g, d).solve() };
                w.ops(cnt.get());
                ensure!((got - r).abs() <= 4.0 * f64::EPSILON.sqrt(), "returned {got}");
                Ok(())
            });
        } } }
        for alg in 0..3 {
            for (n, f) in [("x^2+1", (|x: f64| x * x + 1.0) as fn(f64) -> f64), ("-x^2-1", |x| -x * x - 1.0), ("exp(x)+1", |x| x.exp() + 1.0), ("constant 2", |_| 2.0), ("constant -1", |_| -1.0), ("2 + cos x", |x| 2.0 + x.cos()), ("(x-1)^2+1e-3", |x| (x - 1.0) * (x - 1.0) + 1e-3)] {
                for gi in -20..=20 { let g = gi as f64 * 0.25;
                    w.case("no-root", || format!("{n} algorithm {alg} guess {g}"), |w| {
                        w.op();
                        let data = RootfinderData::new(1e-9, 0.1, -5.0, 5.0, true);
                        let df = |x: f64| (f(x + 1e-6) - f(x - 1e-6)) / 2e-6;
                        let out = Cell::new(f64::NAN);
                        let f = |x: f64| { if !(-5.0..=5.0).contains(&x) { out.set(x); } f(x) };
                        let got = off(|| match alg { 0 => bisection::Bisection::new(f, g, data).solve(), 1 => brent::Brent::new(f, g, data).solve(), _ => newton_raphson::NewtonRaphson::new(f, df, g, data).solve() });
                        ensure!(out.get().is_nan(), "evaluated at {} outside the enforced interval", out.get());
                        match got {
                            None => Ok(()),
                            Some(x) if x.is_nan() => Ok(()),
                            Some(x) => { ensure!(x == 0.0, "returned {x} for a function without a root"); w.known("no-root-reported-as-zero", || format!("{n} algorithm {alg} guess {g}")) }
                        }
                    });
                }
            }
            for acc in [0.0, -1e-3] {
                w.case("invalid-accuracy", || format!("algorithm {alg} accuracy {acc}"), |w| {
                    w.op();
                    let mut data = RootfinderData::default();
                    data.accuracy = acc;
                    let f = |x: f64| x - 1.0;
                    ensure!(refuses(|| match alg { 0 => bisection::Bisection::new(f, 0.0, data).solve(), 1 => brent::Brent::new(f, 0.0, data).solve(), _ => newton_raphson::NewtonRaphson::new(f, |_| 1.0, 0.0, data).solve() }).is_err(), "accepted");
                    Ok(())
                });
            }
        }
    });
}

// ---------------------------------------------------------------- M04 quadrature and sequences
fn m04(ck: &Ck) {
    ck.assume("integrands are smooth on the closed interval or have an integrable algebraic/logarithmic end-point singularity, and no complex singularity closer to the interval than a third of its length (the rule has a fixed number of points); tolerance 1e-9 relative to the scale of the integrand");
    let ends: Vec<f64> = ck.pick(vec![-10.0, -3.0, -2.0, -1.0, -0.5, 0.0, 0.25, 0.7, 1.0, 2.0, 3.5, 5.0, 12.0], (-24..=24).map(|k| k as f64 * 0.125).collect());
    let coef: &[f64] = &[-1.0, 0.0, 0.5, 2.0];
    let deg = ck.pick(6, 6);
    let mut ws = vec![];
    words(coef.len(), deg + 1, &mut |w| ws.push(w.to_vec()));
    ck.par(ws.len(), |w, i| {
        let c: Vec<f64> = ws[i].iter().map(|&k| coef[k]).collect();
        let f = |x: f64| c.iter().rev().fold(0.0, |s, a| s * x + a);
        let prim = |x: f64| c.iter().enumerate().rev().fold(0.0, |s, (k, a)| (s + a / (k + 1) as f64) * if k == 0 { x } else { x });
        // primitive by explicit powers (the fold above is Horner for sum a_k x^{k+1}/(k+1))
        let prim2 = |x: f64| c.iter().enumerate().map(|(k, a)| a * x.powi(k as i32 + 1) / (k + 1) as f64).sum::<f64>();
        let mag = |a: f64, b: f64| c.iter().enumerate().map(|(k, q)| q.abs() * a.abs().max(b.abs()).powi(k as i32)).sum::<f64>() * (b - a).abs();
        let _ = prim;
        for &a in &ends { for &b in &ends {
            w.case("polynomials", || format!("coefficients {c:?} on [{a}, {b}]"), |w| {
                w.ops(1); w.state(h(&(i, a.to_bits(), b.to_bits())));
                let (g, e) = (integrate(f, a, b), prim2(b) - prim2(a));
                w.outcome(g.to_bits());
                ensure!(close(g, e, 1e-11 + 1e-9 * mag(a, b), 0.0), "{g} expected {e}");
                Ok(())
            });
        } }
    });
    type F = (&'static str, fn(f64) -> f64, fn(f64) -> f64, f64);
    let fam: Vec<F> = vec![
        ("exp", |x| x.exp(), |x| x.exp(), f64::NEG_INFINITY), ("exp(-x)", |x| (-x).exp(), |x| -(-x).exp(), f64::NEG_INFINITY), ("sin", |x| x.sin(), |x| -x.cos(), f64::NEG_INFINITY), ("cos 2x", |x| (2.0 * x).cos(), |x| (2.0 * x).sin() / 2.0, f64::NEG_INFINITY),
        ("1/(1+x^2)", |x| 1.0 / (1.0 + x * x), |x| x.atan(), f64::NEG_INFINITY), ("x exp x", |x| x * x.exp(), |x| (x - 1.0) * x.exp(), f64::NEG_INFINITY), ("normal density", npdf, ncdf, f64::NEG_INFINITY),
        ("sqrt", |x| x.sqrt(), |x| 2.0 / 3.0 * x.powf(1.5), 0.0), ("ln", |x| x.ln(), |x| if x == 0.0 { 0.0 } else { x * x.ln() - x }, 0.0),
    ];
    ck.par(fam.len(), |w, i| {
        let (n, f, p, lo) = fam[i];
        for &a in &ends { for &b in &ends {
            if a.min(b) < lo || (b - a).abs() > if n == "1/(1+x^2)" { 2.5 } else { 10.0 } { continue; }
            w.case("elementary", || format!("{n} on [{a}, {b}]"), |w| {
                w.ops(2);
                let (g, e) = (integrate(f, a, b), p(b) - p(a));
                let mx = (0..=20).map(|k| f(a + (b - a) * k as f64 / 20.0).abs()).filter(|v| v.is_finite()).fold(1.0, f64::max) * (1.0 + (b - a).abs());
                w.outcome(g.to_bits());
                ensure!(close(g, e, 1e-8 * mx, 0.0), "{g} expected {e}");
                ensure!(close(integrate(f, b, a), -g, 1e-12 * mx, 0.0), "swapping the limits does not change the sign");
                Ok(())
            });
            for k in [-300, -100, -40, 40, 100, 300] {
                w.case("integrand-units", || format!("{n} times 2^{k} on [{a}, {b}]"), |w| {
                    w.ops(2);
                    let u = 2f64.powi(k);
                    let (e, g) = (integrate(f, a, b), integrate(|x| u * f(x), a, b) / u);
                    let mx = (0..=20).map(|k| f(a + (b - a) * k as f64 / 20.0).abs()).filter(|v| v.is_finite()).fold(1.0, f64::max) * (1.0 + (b - a).abs());
                    ensure!(close(g, e, 1e-12 * mx, 0.0), "{g}, not scaled {e}");
                    Ok(())
                });
                w.case("argument-units", || format!("{n} on [{a}, {b}], the argument in units of 2^{k}"), |w| {
                    w.ops(2);
                    let u = 2f64.powi(k);
                    let (e, g) = (integrate(f, a, b), integrate(|x| f(x / u), a * u, b * u) / u);
                    let mx = (0..=20).map(|k| f(a + (b - a) * k as f64 / 20.0).abs()).filter(|v| v.is_finite()).fold(1.0, f64::max) * (1.0 + (b - a).abs());
                    ensure!(close(g, e, 1e-12 * mx, 0.0), "{g}, not scaled {e}");
                    Ok(())
                });
            }
            for &m in &ends { if m > a && m < b {
                w.case("additivity", || format!("{n} on [{a}, {m}] and [{m}, {b}]"), |w| {
                    w.ops(3);
                    let (s, t) = (integrate(f, a, m) + integrate(f, m, b), integrate(f, a, b));
                    let mx = (0..=20).map(|k| f(a + (b - a) * k as f64 / 20.0).abs()).filter(|v| v.is_finite()).fold(1.0, f64::max) * (1.0 + (b - a).abs());
                    ensure!(close(s, t, 2e-8 * mx, 0.0), "{s} against {t}");
                    Ok(())
                });
            } }
        } }
    });
    // the rule samples the integrand inside the interval only (rounding of the end points aside)
    let some: Vec<f64> = ends.iter().copied().chain([1e-9, 1e6, -1e6, 0.1, 0.3]).collect();
    ck.par(some.len(), |w, i| {
        let a = some[i];
        for &b in &some {
            w.case("evaluation-points", || format!("[{a}, {b}]"), |w| {
                let seen = Cell::new((0u64, f64::INFINITY, f64::NEG_INFINITY));
                let g = integrate(|x| { let s = seen.get(); seen.set((s.0 + 1, s.1.min(x), s.2.max(x))); 1.0 }, a, b);
                let (n, lo, hi) = seen.get();
                w.ops(n);
                let slack = 4.0 * f64::EPSILON * a.abs().max(b.abs());
                ensure!(lo >= a.min(b) - slack && hi <= a.max(b) + slack, "evaluated in [{lo}, {hi}]");
                ensure!(close(g, b - a, 1e-10 * (1.0 + (b - a).abs()), 0.0), "the integral of 1 is {g}");
                if a == b { ensure!(g == 0.0, "empty interval: {g}"); }
                Ok(())
            });
        }
    });
    ck.seq(|w| {
        let nmax = ck.pick(2000, 6000);
        for (a, b) in [(0.0, 1.0), (-2.0, 3.0), (1.0, 1.5), (-1e3, 1e3), (-5.0, -1.0), (0.1, 0.7)] { for n in 2..=nmax {
            w.case("linspace", || format!("{a}..{b} in {n}"), |w| {
                w.op();
                let v = f64::linspace(a, b, n);
                ensure!(v.len() == n, "{} elements", v.len());
                for (i, x) in v.iter().enumerate() { let e = (a * (n - 1 - i) as f64 + b * i as f64) / (n - 1) as f64; ensure!(close(*x, e, 1e-12 * (a.abs() + b.abs()), 0.0), "element {i} is {x}, expected {e}"); }
                Ok(())
            });
        } }
        for (a, b, n) in [(1.0, 1.0, 5), (2.0, 1.0, 5), (0.0, 1.0, 0)] { w.case("linspace-refusals", || format!("{a}..{b} in {n}"), |w| { w.op(); ensure!(refuses(|| f64::linspace(a, b, n)).is_err(), "accepted"); Ok(()) }); }
        for a in -6i64..=6 { for b in a..=a + 20 { for s in 1..=7i64 {
            w.case("seq", || format!("{a} to {b} by {s}"), |w| {
                w.ops(3);
                let e: Vec<i64> = (0..).map(|k| a + k * s).take_while(|x| *x <= b).collect();
                ensure!(<i64 as Sequence<i64>>::seq(a, b, s) == e, "integers");
                let f: Vec<f64> = f64::seq(a as f64 / 8.0, b as f64 / 8.0, s as f64 / 8.0);
                ensure!(f == e.iter().map(|x| *x as f64 / 8.0).collect::<Vec<_>>(), "floats {f:?}");
                if a >= 0 { ensure!(<usize as Sequence<usize>>::seq(a as usize, b as usize, s as usize) == e.iter().map(|x| *x as usize).collect::<Vec<_>>(), "unsigned"); }
                Ok(())
            });
        } } }
        for (a, b, s) in [(0i64, 999, 1), (0, 1000, 1), (-3, 5000, 2), (0, 70_000, 1), (-40_000, 40_000, 3), (0, 1_000_000, 7), (1i64 << 40, (1 << 40) + 3000, 1)] {
            w.case("seq-long", || format!("{a} to {b} by {s}"), |w| {
                w.ops(2);
                let n = (b - a) / s + 1;
                let v = <i64 as Sequence<i64>>::seq(a, b, s);
                ensure!(v.len() as i64 == n && v.iter().enumerate().all(|(k, x)| *x == a + k as i64 * s), "{} integers, expected {n}", v.len());
                let v: Vec<f64> = f64::seq(a as f64 / 8.0, b as f64 / 8.0, s as f64 / 8.0);
                ensure!(v.len() as i64 == n && v.iter().enumerate().all(|(k, x)| *x == (a + k as i64 * s) as f64 / 8.0), "{} floats, expected {n}", v.len());
                let c = <i64 as Sequence<i64>>::cumsum(&(0..n).collect::<Vec<_>>());
                ensure!(c.len() as i64 == n && c.iter().enumerate().all(|(k, x)| *x == k as i64 * (k as i64 + 1) / 2), "cumulative sums of 0..{n}");
                ensure!(f64::rep(2.5, n as usize) == vec![2.5; n as usize], "repetitions");
                Ok(())
            });
        }
        for (a, b) in [(0.0, 1.0), (-2.0, 3.0), (0.1, 0.7), (1e6, 1e6 + 1.0)] { for n in [5001usize, 65_537, 100_001, 1_000_000] {
            w.case("linspace-long", || format!("{a}..{b} in {n}"), |w| {
                w.op();
                let v = f64::linspace(a, b, n);
                ensure!(v.len() == n, "{} elements", v.len());
                for (i, x) in v.iter().enumerate() { let e = a + (b - a) * (i as f64 / (n - 1) as f64); ensure!(close(*x, e, 4e-15 * (f64::abs(a) + f64::abs(b)), 0.0), "element {i} is {x}, expected {e}"); }
                Ok(())
            });
        } }
        for n in 0..=40 { w.case("rep", || format!("{n}"), |w| { w.op(); ensure!(f64::rep(1.5, n) == vec![1.5; n] && <i32 as Sequence<i32>>::rep(-3, n) == vec![-3; n], "wrong"); Ok(()) }); }
        for n in 0..=ck.pick(9, 10) { words(4, n, &mut |k| {
            w.case("cumsum", || format!("{k:?}"), |w| {
                w.op();
                let v: Vec<i64> = k.iter().map(|i| [-2, 0, 3, 7][*i]).collect();
                let got = <i64 as Sequence<i64>>::cumsum(&v);
                let e: Vec<i64> = (0..v.len()).map(|i| v[..=i].iter().sum()).collect();
                ensure!(got == e, "{got:?} expected {e:?}");
                let fv: Vec<f64> = v.iter().map(|x| *x as f64 / 4.0).collect();
                ensure!(f64::cumsum(&fv) == e.iter().map(|x| *x as f64 / 4.0).collect::<Vec<_>>(), "floats");
                Ok(())
            });
        }); }
    });
}

// ---------------------------------------------------------------- M05 statistics
struct St { n: f64, m: f64, pv: f64, m3: f64, m4: f64 }
fn st(v: &[f64]) -> St {
    let n = v.len() as f64;
    let m = v.iter().sum::<f64>() / n;
    // pairwise-difference form of the variance, central sums for the higher moments
    let mut pv = 0.0;
    for i in 0..v.len() { for j in 0..i { pv += (v[i] - v[j]) * (v[i] - v[j]); } }
    St { n, m, pv: pv / (n * n), m3: v.iter().map(|x| (x - m) * (x - m) * (x - m)).sum::<f64>() / n, m4: v.iter().map(|x| (x - m) * (x - m) * (x - m) * (x - m)).sum::<f64>() / n }
}
fn quant(s: &[f64], q: f64) -> f64 { let p = q * (s.len() - 1) as f64; let k = p as usize; if k + 1 >= s.len() { s[s.len() - 1] } else { s[k] + (p - k as f64) * (s[k + 1] - s[k]) } }
/// Every statistic of one sample against its definition.
fn one_sample(w: &mut W, v: &Vec<f64>) -> Res {
    let mut s = v.clone();
    s.sort_by(f64::total_cmp);
    w.state(hf(&s));
    w.ops(18);
    let r = st(&v);
    let n = v.len();
    let (big, dev) = (v.iter().fold(0.0f64, |a, x| a.max(x.abs())), v.iter().fold(0.0f64, |a, x| a.max((x - r.m).abs())));
    // a two-pass formula loses about an ulp of the largest value per deviation
    let rel = 1e-10 + 1e-13 * big / dev.max(1e-300).min(big.max(1e-300));
    let rel = if dev > 0.0 { rel } else { 1e-10 };
    let eq = |a: f64, b: f64| close(a, b, 1e-12 * big, 1e-10);
    let eqc = |a: f64, b: f64, deg: i32| close(a, b, 1e-11 * dev.powi(deg) + if dev < 1e-12 * big { (1e-14 * big).powi(deg) } else { 0.0 }, rel);
    ensure!(eq(v.mean(), r.m) && eq(v.arithmetic_mean(), r.m), "mean {} / {} expected {}", v.mean(), v.arithmetic_mean(), r.m);
    ensure!(eqc(v.population_variance(), r.pv, 2), "population variance {} expected {}", v.population_variance(), r.pv);
    ensure!(v.min() == s[0] && v.max() == s[n - 1] && eq(v.range(), s[n - 1] - s[0]), "min/max/range");
    let med = if n % 2 == 1 { s[n / 2] } else { (s[n / 2 - 1] + s[n / 2]) / 2.0 };
    ensure!(eq(v.median(), med), "median {} expected {med}", v.median());
    for k in 0..=20 { let q = k as f64 / 20.0; let e = quant(&s, q); ensure!(eq(v.quantile(q), e) && eq(v.percentile(q), e), "quantile {q}: {} / {} expected {e}", v.quantile(q), v.percentile(q)); }
    let iqr = v.interquartile_range();
    // the usual conventions put the quartile positions (from zero) within [(n-3)/4, n/4] and [3(n-1)/4, 3n/4]
    let (a, b) = (n.saturating_sub(3) / 4, n.div_ceil(4).min(n - 1));
    let (c, d) = (3 * (n - 1) / 4, (3 * n).div_ceil(4).min(n - 1));
    ensure!(iqr >= (s[c] - s[b]).max(0.0) - 1e-12 * big && iqr <= s[d] - s[a] + 1e-12 * big, "interquartile range {iqr} of {s:?}");
    if s[0] > 0.0 {
        let g = (v.iter().map(|x| x.ln()).sum::<f64>() / r.n).exp();
        ensure!(eq(v.geometric_mean(), g), "geometric mean {} expected {g}", v.geometric_mean());
    }
    if s[0] == 0.0 {
        // the product of the values is zero, and so is the reciprocal of an infinite sum of reciprocals
        let g = off(|| (v.geometric_mean(), v.harmonic_mean()));
        ensure!(g.is_none_or(|g| g.0.abs() <= 1e-12 * big && g.1.abs() <= 1e-12 * big), "geometric and harmonic means {g:?} of non-negative values with a zero");
    }
    if v.iter().all(|x| *x != 0.0) {
        let inv = v.iter().map(|x| 1.0 / x).sum::<f64>();
        if inv.abs() > 1e-9 * v.iter().map(|x| 1.0 / x.abs()).sum::<f64>() { ensure!(eq(v.harmonic_mean(), r.n / inv), "harmonic mean {}", v.harmonic_mean()); }
    }
    if n >= 2 {
        let sv = r.pv * r.n / (r.n - 1.0);
        ensure!(eqc(v.variance(), sv, 2) && eqc(v.sample_variance(), sv, 2), "sample variance {} expected {sv}", v.variance());
        ensure!(eqc(v.standard_deviation(), sv.sqrt(), 1) && eqc(v.sample_standard_deviation(), sv.sqrt(), 1) && eqc(v.population_standard_deviation(), r.pv.sqrt(), 1), "standard deviations");
    } else { ensure!(refuses(|| v.standard_deviation()).is_err(), "standard deviation of one value"); }
    if r.pv > 1e-12 * big * big || r.pv > 0.0 && dev > 1e-9 * big {
        if n >= 3 { let g = r.m3 / r.pv.powf(1.5) * (r.n * (r.n - 1.0)).sqrt() / (r.n - 2.0); ensure!(close(v.skewness(), g, 1e-11 + 10.0 * rel, 1e-10), "skewness {} expected {g}", v.skewness()); }
        if n >= 4 { let g2 = r.m4 / (r.pv * r.pv) - 3.0; let e = (r.n - 1.0) / ((r.n - 2.0) * (r.n - 3.0)) * ((r.n + 1.0) * g2 + 6.0); ensure!(close(v.kurtosis(), e, 1e-11 + 10.0 * rel, 1e-10 + 10.0 * rel), "kurtosis {} expected {e}", v.kurtosis()); }
    }
    if n < 3 { ensure!(refuses(|| v.skewness()).is_err(), "skewness of {n} values"); }
    if n < 4 { ensure!(refuses(|| v.kurtosis()).is_err(), "kurtosis of {n} values"); }
    w.outcome(v.mean().to_bits());
    Ok(())
}
fn one_unit(w: &mut W, v: &Vec<f64>, f: f64) -> Res {
    w.ops(12);
    let a: Vec<f64> = v.iter().map(|x| x * f).collect();
    let big = v.iter().fold(0.0f64, |a, x| a.max(x.abs()));
    let spread = st(v).pv > 1e-12 * big * big;
    type F = fn(&Vec<f64>) -> f64;
    let fs: [(&str, i32, usize, F); 13] = [("mean", 1, 1, |v| v.mean()), ("population variance", 2, 1, |v| v.population_variance()), ("variance", 2, 2, |v| v.variance()), ("standard deviation", 1, 2, |v| v.standard_deviation()), ("skewness", 0, 3, |v| v.skewness()), ("kurtosis", 0, 4, |v| v.kurtosis()),
        ("minimum", 1, 1, |v| v.min()), ("maximum", 1, 1, |v| v.max()), ("median", 1, 1, |v| v.median()), ("quantile", 1, 1, |v| v.quantile(0.3)), ("range", 1, 1, |v| v.range()), ("interquartile range", 1, 1, |v| v.interquartile_range()), ("harmonic mean", 1, 1, |v| if v.iter().all(|x| *x > 0.0) { v.harmonic_mean() } else { 0.0 })];
    for (name, deg, least, g) in fs {
        if v.len() < least || deg == 0 && !spread { continue; }
        let (e, r) = (g(v), g(&a) / f.powi(deg));
        ensure!(close(r, e, 1e-12 * big.powi(deg), 1e-11), "{name} {e}, in the other unit {r}");
    }
    Ok(())
}
fn m05(ck: &Ck) {
    ck.assume("values are finite; the interquartile range has many conventions, any difference of order statistics adjacent to the quarter positions is accepted; skewness and kurtosis are the bias-corrected (G1, G2) sample coefficients; risk_reward::PortfolioMeasures has no public constructor");
    let al: Vec<f64> = vec![-2.0, -0.5, 0.0, 1.0, 1.5, 3.0, 100.0];
    let nmax = ck.pick(7, 8);
    let mut ws: Vec<Vec<usize>> = vec![];
    for n in 1..=nmax { words(al.len(), n, &mut |w| ws.push(w.to_vec())); }
    for n in nmax + 1..=ck.pick(12, 13) { words(3, n, &mut |w| ws.push(w.iter().map(|x| 2 * x + 1).collect())); }
    let chunk = 256;
    ck.par(ws.len().div_ceil(chunk), |w, c| for wd in &ws[c * chunk..((c + 1) * chunk).min(ws.len())] {
        let v: Vec<f64> = wd.iter().map(|&i| al[i]).collect();
        w.case("univariate", || format!("{v:?}"), |w| one_sample(w, &v));
    });
    // longer samples of every size up to a bound, in several shapes, magnitudes and offsets
    let sizes: Vec<usize> = ck.pick((1..=70).chain([99, 100, 101, 255, 256, 257, 1000]).collect(), (1..=300).chain([511, 512, 513, 1000, 1001, 1002, 1003, 3000]).collect());
    let shape = |n: usize, k: usize, s: usize| -> f64 { match s { 0 => k as f64, 1 => (n - k) as f64 * 0.5, 2 => ((k * k * 7 + 3 * k) % 101) as f64, 3 => if k == n / 3 { 50.0 } else { 1.0 }, 4 => if k % 2 == 0 { -1.0 - (k % 5) as f64 } else { 2.0 }, _ => (k as f64 * 0.7).sin() } };
    ck.par(sizes.len() * 6, |w, i| {
        let (n, sh) = (sizes[i / 6], i % 6);
        for sc in [1.0, 1e-9, 1e9] { for offs in [0.0, 1.0, -3.0, 1e6, -1e7] {
            let v: Vec<f64> = (0..n).map(|k| sc * (shape(n, k, sh) + offs)).collect();
            w.case("univariate-long", || format!("{n} values, shape {sh}, scale {sc:e}, offset {offs}"), |w| {
                one_sample(w, &v)?;
                let mut s = v.clone();
                s.sort_by(f64::total_cmp);
                for k in 0..n { for e in [0.0, 1e-9, -1e-9] {
                    let q = if n == 1 { 0.5 } else { (k as f64 / (n - 1) as f64 + e).clamp(0.0, 1.0) };
                    // continuous in the probability, so that rounding of the position does not matter
                    if k > 40 && k + 40 < n { continue; }
                    ensure!(close(v.quantile(q), quant(&s, q), 1e-11 * s[0].abs().max(s[n - 1].abs()), 1e-10), "quantile {q} is {}, expected {}", v.quantile(q), quant(&s, q));
                } }
                Ok(())
            });
        } }
        // pairs of long samples
        for sh2 in 0..6 { for offs in [0.0, 1e5] { for sc in [1.0, 1e-7] { if n >= 2 {
            let x: Vec<f64> = (0..n).map(|k| shape(n, k, sh) + offs).collect();
            let y: Vec<f64> = (0..n).map(|k| sc * (shape(n, (k * 3 + 1) % n, sh2) - offs)).collect();
            w.case("bivariate-long", || format!("{n} pairs, shapes {sh} and {sh2}, offset {offs}, scale {sc:e}"), |w| {
                w.ops(2);
                let nf = n as f64;
                let mut c = 0.0;
                for a in 0..n { for b in 0..a { c += (x[a] - x[b]) * (y[a] - y[b]); } }
                let cov = c / (nf * (nf - 1.0));
                let (vx, vy) = (st(&x).pv * nf / (nf - 1.0), st(&y).pv * nf / (nf - 1.0));
                let tol = 1e-9 * (vx * vy).sqrt() + 1e-13 * (vx.sqrt() + 1e-10 * offs) * sc * offs + 1e-20;
                ensure!(close(x.covariance(&y), cov, tol, 1e-10), "covariance {} expected {cov}", x.covariance(&y));
                if vx > 1e-6 && vy > 1e-6 * sc * sc { let e = cov / (vx * vy).sqrt(); ensure!(close(x.correlation(&y), e, 1e-8, 1e-8), "correlation {} expected {e}", x.correlation(&y)); }
                Ok(())
            });
        } } } }
    });
    // pairs
    let pal = 4;
    let mut ps: Vec<Vec<usize>> = vec![];
    for n in 2..=ck.pick(6, 7) { words(pal, n, &mut |w| ps.push(w.to_vec())); }
    let pv = [-2.0, 0.5, 3.0, 1.0];
    ck.par(ps.len(), |w, i| for j in 0..ps.len() {
        if ps[j].len() != ps[i].len() { continue; }
        let (x, y): (Vec<f64>, Vec<f64>) = (ps[i].iter().map(|k| pv[*k]).collect(), ps[j].iter().map(|k| pv[*k] * 1.5 - 1.0).collect());
        w.case("bivariate", || format!("{x:?} {y:?}"), |w| {
            w.ops(2);
            let n = x.len() as f64;
            let mut c = 0.0;
            for a in 0..x.len() { for b in 0..a { c += (x[a] - x[b]) * (y[a] - y[b]); } }
            let cov = c / (n * (n - 1.0));
            ensure!(close(x.covariance(&y), cov, 1e-11, 1e-10), "covariance {} expected {cov}", x.covariance(&y));
            let (vx, vy) = (st(&x).pv * n / (n - 1.0), st(&y).pv * n / (n - 1.0));
            if vx > 1e-12 && vy > 1e-12 { let e = cov / (vx * vy).sqrt(); ensure!(close(x.correlation(&y), e, 1e-10, 1e-10), "correlation {} expected {e}", x.correlation(&y)); }
            else { ensure!(off(|| x.correlation(&y)).is_none_or(|r| !(r.abs() > 1e-6)), "correlation with a constant"); }
            Ok(())
        });
    });
    // every statistic scales with the unit of the values, exactly so for powers of two; the shape statistics do not change
    ck.par(ps.len(), |w, i| for j in 0..ps.len() {
        if ps[j].len() != ps[i].len() || ps[i].len() > 4 { continue; }
        let (x, y): (Vec<f64>, Vec<f64>) = (ps[i].iter().map(|k| pv[*k]).collect(), ps[j].iter().map(|k| pv[*k] * 1.5 - 1.0).collect());
        for (u, q) in [(-60i32, 0i32), (0, -60), (-60, -60), (60, -60), (60, 60), (-100, 100)] {
            w.case("units", || format!("{x:?} in units of 2^{u}, {y:?} in units of 2^{q}"), |w| {
                w.ops(2);
                let (f, g) = (2f64.powi(u), 2f64.powi(q));
                let (a, b): (Vec<f64>, Vec<f64>) = (x.iter().map(|v| v * f).collect(), y.iter().map(|v| v * g).collect());
                ensure!(close(a.covariance(&b) / f / g, x.covariance(&y), 1e-12, 1e-12), "covariance {} from {}", a.covariance(&b), x.covariance(&y));
                let c = (off(|| x.correlation(&y)), off(|| a.correlation(&b)));
                if st(&x).pv > 1e-12 && st(&y).pv > 1e-12 { ensure!(matches!(c, (Some(p), Some(q)) if close(p, q, 1e-12, 1e-12)), "correlation {c:?}"); }
                if j == 0 { one_unit(w, &x, f)?; }
                Ok(())
            });
        }
    });
    for n in ck.pick(vec![5usize, 30, 64], vec![3, 4, 5, 30, 31, 64, 255, 1000]) { for sh in 0..6 { for u in [-100, -60, -30, 30, 60, 100] {
        let v: Vec<f64> = (0..n).map(|k| shape(n, k, sh)).collect();
        ck.seq(|w| w.case("units-long", || format!("{n} values, shape {sh}, in units of 2^{u}"), |w| one_unit(w, &v, 2f64.powi(u))));
    } } }
    ck.seq(|w| {
        let e: Vec<f64> = vec![];
        for (i, f) in [|v: &Vec<f64>| v.mean(), |v: &Vec<f64>| v.arithmetic_mean(), |v: &Vec<f64>| v.geometric_mean(), |v: &Vec<f64>| v.harmonic_mean(), |v: &Vec<f64>| v.variance(), |v: &Vec<f64>| v.population_variance(), |v: &Vec<f64>| v.standard_deviation(), |v: &Vec<f64>| v.min(), |v: &Vec<f64>| v.max(), |v: &Vec<f64>| v.median(), |v: &Vec<f64>| v.quantile(0.5), |v: &Vec<f64>| v.percentile(0.5), |v: &Vec<f64>| v.interquartile_range(), |v: &Vec<f64>| v.range(), |v: &Vec<f64>| v.skewness(), |v: &Vec<f64>| v.kurtosis()].iter().enumerate() {
            w.case("empty-sample", || format!("statistic {i}"), |w| { w.op(); ensure!(refuses(|| f(&e)).is_err(), "accepted"); Ok(()) });
        }
        for q in [-0.01, 1.01, f64::NAN] { w.case("bad-quantile", || format!("{q}"), |w| { w.ops(2); ensure!(refuses(|| vec![1.0, 2.0].quantile(q)).is_err() && refuses(|| vec![1.0, 2.0].percentile(q)).is_err(), "accepted"); Ok(()) }); }
        for a in 0..5 { for b in 0..5 { if a != b { w.case("length-mismatch", || format!("{a} {b}"), |w| { w.op(); ensure!(refuses(|| vec![1.0; a].covariance(&vec![1.0; b])).is_err(), "accepted"); Ok(()) }); } } }
    });
}

// ---------------------------------------------------------------- M06 gradient descent
fn m06(ck: &Ck) {
    ck.assume("objectives are quadratics and quartics whose gradients are known in closed form; runs that leave |x| < 1e12 are not judged; iterations within a relative 1e-7 of the stopping threshold are not judged");
    let al = [0.5, 2.0];
    let cs = [-1.0, 0.0, 1.5];
    let lrs: Vec<f64> = vec![0.001, 0.05, 0.2, 0.3, 0.45];
    let caps: Vec<usize> = ck.pick(vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 20, 50, 99, 100, 101, 200, 1000, 5000], (0..=120).chain([199, 200, 201, 999, 1000, 1001, 5000, 20_000]).collect());
    let tols = [None, Some(1e-2), Some(1e-6), Some(10.0)];
    let mut jobs = vec![];
    for a in al { for b in al { for c in cs { for d in cs { for e in [0.0, 0.4] { for q in [0.0, 0.1] { jobs.push((a, b, c, d, e, q)); } } } } } }
    ck.par(jobs.len(), |w, ji| {
        let (a, b, c, d, e, q) = jobs[ji];
        for x0 in [-1.0, 0.0, 1.5, 4.0] { for y0 in [-1.0, 0.0, 1.5] { for &lr in &lrs { for &cap in &caps { for tol in tols { for dim in 1..=2usize {
            if dim == 1 && (b != al[0] || d != cs[0] || e != 0.0 || y0 != 0.0) { continue; }
            w.case("descent", || format!("{dim}-dimensional a={a} b={b} c={c} d={d} e={e} q={q} start ({x0},{y0}) rate {lr} cap {cap} tolerance {tol:?}"), |w| {
                let val = |x: f64, y: f64| a * (x - c) * (x - c) + q * x * x * x * x + if dim == 2 { b * (y - d) * (y - d) + e * x * y } else { 0.0 };
                let grad = |x: f64, y: f64| (2.0 * a * (x - c) + 4.0 * q * x * x * x + if dim == 2 { e * y } else { 0.0 }, if dim == 2 { 2.0 * b * (y - d) + e * x } else { 0.0 });
                let t = tol.unwrap_or(f64::EPSILON.sqrt());
                let (mut x, mut y, mut it) = (x0, y0, 0);
                for k in 0..cap {
                    it = k + 1;
                    let (gx, gy) = grad(x, y);
                    let n = (gx * gx + gy * gy).sqrt();
                    if (n - t).abs() < 1e-7 * t + 1e-11 || x.abs() > 1e12 { return Ok(()); }
                    if n < t { break; }
                    x -= lr * gx; y -= lr * gy;
                }
                if !(x.abs() < 1e12 && y.abs() < 1e12) { return Ok(()); }
                fn f2<'v>(v: &[Variable<'v>], p: (f64, f64, f64, f64, f64, f64)) -> Variable<'v> {
                    let (a, b, c, d, e, q) = p;
                    let (u, s) = (v[0] - c, v[0] * v[0]);
                    let r = u * u * a + s * s * q;
                    if v.len() == 2 { let z = v[1] - d; r + z * z * b + v[0] * v[1] * e } else { r }
                }
                let p = (a, b, c, d, e, q);
                let start: Vec<f64> = if dim == 2 { vec![x0, y0] } else { vec![x0] };
                let r = GradientDescent::new(lr, cap, tol).optimize(|v| f2(v, p), &start, false);
                w.ops(it as u64 + 1);
                w.state(h(&(ji, it, x.to_bits())));
                w.outcome(r.minimum.to_bits());
                ensure!(r.minimizer.len() == dim, "minimizer {:?}", r.minimizer);
                ensure!(close(r.minimizer[0], x, 1e-7, 1e-7) && (dim == 1 || close(r.minimizer[1], y, 1e-7, 1e-7)), "minimizer {:?}, steepest descent reaches ({x}, {y})", r.minimizer);
                ensure!(r.iterations == it, "{} iterations, expected {it}", r.iterations);
                ensure!(r.iterations <= cap, "{} iterations over the cap {cap}", r.iterations);
                let m = val(r.minimizer[0], if dim == 2 { r.minimizer[1] } else { 0.0 });
                ensure!(close(r.minimum, m, 1e-9, 1e-9), "minimum {} but the objective at the minimizer is {m}", r.minimum);
                Ok(())
            });
        } } } } } }
    });
    // more dimensions: a chain of coupled quadratics, the whole gradient decides when to stop
    let dims: Vec<usize> = ck.pick(vec![3, 4, 5, 8, 9, 16, 17, 40], (3..=20).chain([32, 33, 64, 65, 150]).collect());
    ck.par(dims.len(), |w, di| {
        let dim = dims[di];
        for only in [usize::MAX, 0, dim / 2, dim - 1] { for &lr in &[0.01, 0.1, 0.2] { for cap in [0usize, 1, 2, 5, 37, 300] { for tol in [None, Some(1e-2), Some(0.3), Some(1e-6)] { for e in [0.0, 0.3] {
            w.case("many-dimensions", || format!("{dim} dimensions, coordinate off its optimum {} rate {lr} cap {cap} tolerance {tol:?} coupling {e}", if only == usize::MAX { "all".into() } else { only.to_string() }), |w| {
                let (a, c): (Vec<f64>, Vec<f64>) = (0..dim).map(|k| (0.5 + (k % 4) as f64 * 0.5, (k % 5) as f64 - 2.0)).unzip();
                let start: Vec<f64> = (0..dim).map(|k| if only == usize::MAX { (k % 3) as f64 - 0.5 } else if k == only { c[k] + 1.0 } else { c[k] }).collect();
                let val = |x: &[f64]| (0..dim).map(|k| a[k] * (x[k] - c[k]) * (x[k] - c[k]) + if k > 0 { e * (x[k] - c[k]) * (x[k - 1] - c[k - 1]) } else { 0.0 }).sum::<f64>();
                let grad = |x: &[f64]| -> Vec<f64> { (0..dim).map(|k| 2.0 * a[k] * (x[k] - c[k]) + if k > 0 { e * (x[k - 1] - c[k - 1]) } else { 0.0 } + if k + 1 < dim { e * (x[k + 1] - c[k + 1]) } else { 0.0 }).collect() };
                let t = tol.unwrap_or(f64::EPSILON.sqrt());
                let (mut x, mut it) = (start.clone(), 0);
                for k in 0..cap {
                    it = k + 1;
                    let g = grad(&x);
                    let n = g.iter().map(|g| g * g).sum::<f64>().sqrt();
                    if (n - t).abs() < 1e-7 * t + 1e-11 { return Ok(()); }
                    if n < t { break; }
                    for (x, g) in x.iter_mut().zip(&g) { *x -= lr * g; }
                }
                let (aa, cc) = (&a, &c);
                fn obj<'v>(v: &[Variable<'v>], a: &[f64], c: &[f64], e: f64) -> Variable<'v> {
                    let d: Vec<Variable<'v>> = v.iter().zip(c).map(|(v, c)| *v - *c).collect();
                    let mut r = d[0] * d[0] * a[0];
                    for k in 1..d.len() { r = r + d[k] * d[k] * a[k] + d[k] * d[k - 1] * e; }
                    r
                }
                let r = GradientDescent::new(lr, cap, tol).optimize(|v| obj(v, aa, cc, e), &start, false);
                w.ops(it as u64 + 1);
                w.state(h(&(dim, it, x[0].to_bits())));
                ensure!(r.minimizer.len() == dim && r.minimizer.iter().zip(&x).all(|(a, b)| close(*a, *b, 1e-9, 1e-9)), "minimizer {:?}, steepest descent reaches {x:?}", r.minimizer);
                ensure!(r.iterations == it, "{} iterations, expected {it}", r.iterations);
                ensure!(close(r.minimum, val(&r.minimizer), 1e-9, 1e-9), "minimum {} but the objective at the minimizer is {}", r.minimum, val(&r.minimizer));
                Ok(())
            });
        } } } } }
    });
    ck.seq(|w| for t in [0.0, -1.0] { w.case("invalid-tolerance", || format!("{t}"), |w| { w.op(); ensure!(refuses(|| GradientDescent::new(0.1, 10, Some(t))).is_err(), "accepted"); Ok(()) }); });
}

// ---------------------------------------------------------------- M07 FFT
fn dft(x: &[Complex<f64>]) -> Vec<Complex<f64>> {
    let n = x.len();
    (0..n).map(|k| (0..n).map(|j| { let th = -2.0 * std::f64::consts::PI * ((j * k) % n) as f64 / n as f64; x[j] * Complex::new(th.cos(), th.sin()) }).sum()).collect()
}
fn fft_case(w: &mut W, x: &[Complex<f64>]) -> Res {
    let n = x.len();
    let e = dft(x);
    // relative to the largest entry: the transform is homogeneous, so no amplitude is special
    let tol = 1e-12 * n as f64 * x.iter().map(|z| z.norm()).fold(0.0, f64::max);
    w.ops(4);
    let g = fft_complex(x);
    ensure!(g.len() == n, "length {}", g.len());
    for k in 0..n { ensure!((g[k] - e[k]).norm() <= tol, "coefficient {k}: {} expected {}", g[k], e[k]); }
    let mut y = x.to_vec();
    fft_complex_inplace(&mut y);
    ensure!(y.iter().zip(&g).all(|(a, b)| (a - b).norm() <= tol), "in-place result differs");
    w.outcome(hf(&g.iter().flat_map(|z| [z.re, z.im]).collect::<Vec<_>>()));
    if x.iter().all(|z| z.im == 0.0) {
        let r: Vec<f64> = x.iter().map(|z| z.re).collect();
        let m = fft_real(&r);
        ensure!(m.len() == n, "length {}", m.len());
        for k in 0..n { ensure!((m[k] - e[k].norm()).abs() <= tol, "modulus {k}: {} expected {}", m[k], e[k].norm()); }
        let mut y = r.clone();
        fft_real_inplace(&mut y);
        ensure!(y.iter().zip(&m).all(|(a, b)| (a - b).abs() <= tol), "real in-place result differs");
    }
    Ok(())
}
fn m07(ck: &Ck) {
    ck.assume("the real transform returns the moduli of the Fourier coefficients, as its test vectors show");
    let al = [Complex::new(0.0, 0.0), Complex::new(1.0, 0.0), Complex::new(-2.0, 0.0), Complex::new(0.0, 1.0), Complex::new(0.5, -1.5)];
    for (n, k) in [(1usize, 5usize), (2, 5), (4, 5), (8, 4)] {
        let mut ws = vec![];
        words(k, n, &mut |w| ws.push(w.to_vec()));
        ck.par(ws.len(), |w, i| {
            let x: Vec<Complex<f64>> = ws[i].iter().map(|&j| al[if k < 5 && j == 2 { 3 } else { j }]).collect();
            w.case("all-words", || format!("length {n} word {:?}", ws[i]), |w| { w.state(h(&(n, &ws[i]))); fft_case(w, &x) });
        });
    }
    let mut words_r = vec![];
    words(3, 8, &mut |w| words_r.push(w.to_vec()));
    ck.par(words_r.len(), |w, i| {
        let x: Vec<Complex<f64>> = words_r[i].iter().map(|&j| al[j]).collect();
        w.case("all-real-words", || format!("{:?}", words_r[i]), |w| { w.state(h(&(99, &words_r[i]))); fft_case(w, &x) });
    });
    // the transform is linear: impulses and pairs of impulses of every position decide larger lengths
    let big: Vec<usize> = ck.pick(vec![16, 32, 64, 128, 256, 512], vec![16, 32, 64, 128, 256, 512, 1024, 2048]);
    for n in big {
        let pairs = if n <= ck.pick(64, 128) { n } else { 1 };
        ck.par(n, |w, i| for d in 0..pairs { for z in [Complex::new(1.0, 0.0), Complex::new(0.0, -2.0)] {
            w.case("impulses", || format!("length {n} impulses at {i} and {} by {z}", (i + d) % n), |w| {
                w.state(h(&(n, i, d)));
                let mut x = vec![Complex::new(0.0, 0.0); n];
                x[i] = Complex::new(1.0, 0.0);
                x[(i + d) % n] += z;
                fft_case(w, &x)
            });
        } });
    }
    // every word again at amplitudes from 1e-100 to 1e100, on the whole signal or on every other entry
    for (n, k) in [(2usize, 5usize), (4, 5), (8, 3)] {
        let mut ws = vec![];
        words(k, n, &mut |w| ws.push(w.to_vec()));
        ck.par(ws.len(), |w, i| for a in [1e-100, 1e-30, 1e-16, 1e-12, 1e-9, 1e-8, 1e-6, 1e-3, 1e6, 1e12, 1e100] { for part in 0..4usize {
            // the whole signal, its even entries, its first half, its last entry
            let at = |j: usize| match part { 0 => true, 1 => j % 2 == 0, 2 => j < n / 2, _ => j == n - 1 };
            w.case("amplitudes", || format!("length {n} word {:?} times {a:e} on part {part}", ws[i]), |w| {
                w.state(h(&(n, &ws[i], part)));
                let x: Vec<Complex<f64>> = ws[i].iter().enumerate().map(|(j, &c)| al[c] * if at(j) { a } else { 1.0 }).collect();
                fft_case(w, &x)
            });
        } });
    }
    for n in [16usize, 64, 256] {
        ck.par(n, |w, i| for a in [1e-100f64, 1e-16, 1e-9, 1e-4, 1e9, 1e100] {
            w.case("amplitudes", || format!("length {n} impulse of {a:e} at {i}"), |w| {
                w.state(h(&(n, i, a.to_bits())));
                let mut x = vec![Complex::new(0.0, 0.0); n];
                x[i] = Complex::new(a, -a);
                fft_case(w, &x)?;
                x[i] = Complex::new(a, 0.0);
                x[(i + 1) % n] = Complex::new(-a, 0.0);
                fft_case(w, &x)
            });
        });
    }
    ck.seq(|w| for n in 0..=ck.pick(1100usize, 4200) {
        w.case("lengths", || format!("{n}"), |w| {
            w.ops(3);
            let ok = n.is_power_of_two();
            ensure!(is_valid_length(&vec![0u8; n]) == ok, "is_valid_length({n}) is {}", !ok);
            if !ok {
                ensure!(refuses(|| fft_complex(&vec![Complex::new(1.0, 0.0); n])).is_err(), "complex transform of length {n} accepted");
                ensure!(refuses(|| fft_real(&vec![1.0; n])).is_err(), "real transform of length {n} accepted");
            }
            Ok(())
        });
    });
    ck.seq(|w| for k in 11..=30usize { for d in -1i64..=1 {
        let n = ((1i64 << k) + d) as usize;
        w.case("lengths-large", || format!("{n}"), |w| { w.op(); ensure!(is_valid_length(&vec![(); n]) == (d == 0), "is_valid_length({n})"); Ok(()) });
    } });
}

fn main() {
    Ck::main(|ck| match ck.prop.as_str() { "M01" => m01(ck), "M02" => m02(ck), "M03" => m03(ck), "M04" => m04(ck), "M05" => m05(ck), "M06" => m06(ck), "M07" => m07(ck), p => panic!("unknown property {p}") })
}
