//! C01-C04: curves, cashflows, quotes and portfolios.  Every operation history up to a bound runs on the
//! real object and on a plain reference model; every answer is compared after every operation.
use rqmc::{close, ensure, h, hf, refuses, words, Ck, Res};
use std::collections::{BTreeMap, HashMap};
use time::{Date, Duration, Month};
use RustQuant_cashflows::{Cashflow, Leg, Quote, SimpleQuote};
use RustQuant_data::{Curve, CurveType, InterpolationMethod};
use RustQuant_instruments::fx::currency::{Currency, EUR, USD};
use RustQuant_instruments::Instrument;
use RustQuant_portfolios::{Portfolio, Position};

// ---------------------------------------------------------------- C01
/// Node dates: uneven gaps, a leap day and the end of a year among them.
fn day(k: usize) -> Date { Date::from_calendar_date(2024, Month::February, 25).unwrap() + Duration::days([0, 1, 4, 5, 36, 311, 1000][k]) }
fn queries() -> Vec<Date> {
    let d = |n: i64| day(0) + Duration::days(n);
    vec![d(-400), d(-1), d(0), d(1), d(2), d(3), d(4), d(5), d(20), d(36), d(173), d(310), d(311), d(312), d(655), d(1000), d(1001), d(5000)]
}
type Nodes = BTreeMap<Date, f64>;
fn lookup(n: &Nodes, m: InterpolationMethod, d: Date) -> Option<f64> {
    if let Some(v) = n.get(&d) { return Some(*v); }
    let (l, r) = (n.range(..d).next_back()?, n.range(d..).next()?);
    let u = (d - *l.0).whole_days() as f64 / (*r.0 - *l.0).whole_days() as f64;
    Some(match m { InterpolationMethod::Linear => (1.0 - u) * l.1 + u * r.1, _ => (u * r.1.ln() + (1.0 - u) * l.1.ln()).exp() })
}
#[derive(Clone, Copy, Debug)]
enum CO { Set(usize, f64), SetMany(usize), Shift(f64), Insert(usize), InsertMany(usize) }
const MANY: [&[(usize, f64)]; 3] = [&[], &[(1, 0.02), (1, 0.06)], &[(6, 0.07), (0, 0.012)]];
const BATCH: [&[usize]; 3] = [&[], &[3, 8, 3], &[17, 14, 4]];
fn agree(c: &Curve, n: &Nodes, m: InterpolationMethod, qs: &[Date]) -> Res {
    let want: Vec<Option<f64>> = qs.iter().map(|d| lookup(n, m, *d)).collect();
    let eq = |a: Option<f64>, b: Option<f64>| match (a, b) { (None, None) => true, (Some(a), Some(b)) => close(a, b, 1e-14, 1e-11), _ => false };
    for (d, want) in qs.iter().zip(&want) {
        let got = c.get_rate(*d);
        ensure!(eq(got, *want), "the rate at {d} is {got:?}, the current nodes {n:?} give {want:?}");
    }
    let all = c.get_rates(qs.to_vec());
    ensure!(all.len() == qs.len() && all.iter().zip(&want).all(|(a, b)| eq(*a, *b)), "get_rates gives {all:?}, expected {want:?}");
    ensure!(c.len() == n.len() && c.is_empty() == n.is_empty(), "len {} of {} nodes", c.len(), n.len());
    ensure!(c.dates() == n.keys().copied().collect::<Vec<_>>(), "dates {:?}", c.dates());
    let r = c.rates();
    ensure!(r.len() == n.len() && r.iter().zip(n.values()).all(|(a, b)| close(*a, *b, 1e-14, 1e-11)), "rates {r:?} of {n:?}");
    ensure!(c.first_date().copied() == n.keys().next().copied() && c.last_date().copied() == n.keys().next_back().copied(), "first {:?} last {:?}", c.first_date(), c.last_date());
    ensure!(eq(c.first_rate().copied(), n.values().next().copied()) && eq(c.last_rate().copied(), n.values().next_back().copied()), "first rate {:?} last rate {:?}", c.first_rate(), c.last_rate());
    ensure!(c.interpolation_method() == m, "method");
    if let (Some(f), Some(l)) = (n.keys().next(), n.keys().next_back()) {
        for d in qs {
            let (a, b) = c.get_brackets(*d);
            if d <= f { ensure!((a, b) == (*f, *f), "brackets {a} {b} of {d} before {f}"); continue; }
            if d >= l { ensure!((a, b) == (*l, *l), "brackets {a} {b} of {d} after {l}"); continue; }
            ensure!(n.contains_key(&a) && n.contains_key(&b) && a <= *d && *d <= b, "brackets {a} {b} of {d} in {:?}", c.dates());
            ensure!(n.range(a..=b).count() <= 2 && (a < b || a == *d), "brackets {a} {b} of {d} are not neighbours in {:?}", c.dates());
        }
    }
    Ok(())
}
fn c01(ck: &Ck) {
    ck.assume("curves with linear or exponential interpolation (the other two methods are todo!() in the code), rates of either sign for linear and positive rates for exponential interpolation; between nodes the interpolant may differ in the last digits (relative 1e-11)");
    ck.assume("the bracket of an interior date is any pair of neighbouring nodes enclosing it; Curve::plot (opens a browser) and the private particle-swarm fit are not exercised");
    let qs = queries();
    let mut starts: Vec<Vec<(usize, f64)>> = vec![vec![], vec![(2, 0.04)], vec![(5, 0.02), (1, 0.03)], vec![(0, 0.01), (6, 0.09)], vec![(4, 0.05), (0, 0.02), (5, 0.01)], vec![(6, 0.03), (3, 0.01), (1, 0.08), (0, 0.02)]];
    if ck.thorough() { for s in [vec![(1, 0.03), (2, 0.05), (3, 0.01)], vec![(0, 0.011), (1, 0.012), (2, 0.05), (3, 0.02), (4, 0.03), (5, 0.01), (6, 0.04)], vec![(6, 0.2), (0, 0.1)]] { starts.push(s); } }
    let mut ops: Vec<CO> = vec![];
    for k in [0, 1, 3, 4, 5, 6] { for r in [0.03, 0.05, 0.01] { ops.push(CO::Set(k, r)); } }
    for k in 0..MANY.len() { ops.push(CO::SetMany(k)); }
    for s in [0.004, -0.001, 1e-7, 0.0] { ops.push(CO::Shift(s)); }
    for q in [4, 6, 8, 10, 14, 0, 17] { ops.push(CO::Insert(q)); }
    for k in 0..BATCH.len() { ops.push(CO::InsertMany(k)); }
    let types = [CurveType::Spot, CurveType::Flat, CurveType::Forward, CurveType::Discount];
    let methods = [InterpolationMethod::Linear, InterpolationMethod::Exponential];
    // a linear curve takes rates that are not positive too
    let alphabet = |m: InterpolationMethod| -> Vec<CO> { ops.iter().map(|o| match (m, *o) { (InterpolationMethod::Linear, CO::Set(k, 0.05)) => CO::Set(k, 0.0), (InterpolationMethod::Linear, CO::Set(k, 0.01)) => CO::Set(k, -0.02), (InterpolationMethod::Linear, CO::Shift(0.004)) => CO::Shift(-0.05), (_, o) => o }).collect() };
    let alphabets = methods.map(alphabet);
    let depth = ck.pick(3, 4);
    ck.par(starts.len() * 2 * ops.len(), |w, i| {
        let ops = &alphabets[i / ops.len() % 2];
        let (s, m, first) = (&starts[i / (2 * ops.len())], methods[i / ops.len() % 2], i % ops.len());
        words(ops.len(), depth - 1, &mut |rest| {
            let word: Vec<CO> = std::iter::once(first).chain(rest.iter().copied()).map(|k| ops[k]).collect();
            // every construction in turn: as given, reversed, from a map
            let how = rest.iter().sum::<usize>() % 3;
            w.case("histories", || format!("{m:?} from {s:?} by {} then {word:?}", ["new", "new reversed", "from_nodes"][how]), |w| {
                let mut n: Nodes = s.iter().map(|&(k, r)| (day(k), r)).collect();
                let mut v: Vec<(Date, f64)> = s.iter().map(|&(k, r)| (day(k), r)).collect();
                if how == 1 { v.reverse(); }
                let t = types[(first + rest.len()) % 4];
                let mut c = if how == 2 { Curve::from_nodes(n.clone(), t, m) } else { Curve::new(v.iter().map(|x| x.0).collect(), v.iter().map(|x| x.1).collect(), t, m) }.unwrap();
                agree(&c, &n, m, &qs)?;
                let (orig, orig_n) = (c.clone(), n.clone());
                for op in &word {
                    w.op();
                    match *op {
                        CO::Set(k, r) => { c.set_rate(day(k), r); n.insert(day(k), r); }
                        CO::SetMany(k) => { c.set_rates(MANY[k].iter().map(|&(k, r)| (day(k), r)).collect()); for &(k, r) in MANY[k] { n.insert(day(k), r); } }
                        CO::Shift(s) => { c.shift(s); for v in n.values_mut() { *v += s; } }
                        CO::Insert(q) => {
                            let (got, want) = (c.get_rate_and_insert(qs[q]), lookup(&n, m, qs[q]));
                            ensure!(got.is_some() == want.is_some() && close(got.unwrap_or(0.0), want.unwrap_or(0.0), 1e-14, 1e-11), "inserting query at {} gives {got:?}, expected {want:?}", qs[q]);
                            if let Some(r) = want { n.insert(qs[q], r); }
                        }
                        CO::InsertMany(k) => {
                            let got = c.get_rates_and_insert(BATCH[k].iter().map(|&q| qs[q]).collect());
                            for (q, got) in BATCH[k].iter().zip(got.iter()) {
                                let want = lookup(&n, m, qs[*q]);
                                ensure!(got.is_some() == want.is_some() && close(got.unwrap_or(0.0), want.unwrap_or(0.0), 1e-14, 1e-11), "inserting query at {} gives {got:?}, expected {want:?}", qs[*q]);
                                if let Some(r) = want { n.insert(qs[*q], r); }
                            }
                            ensure!(got.len() == BATCH[k].len(), "{} answers to {} queries", got.len(), BATCH[k].len());
                        }
                    }
                    agree(&c, &n, m, &qs)?;
                }
                agree(&orig, &orig_n, m, &qs)?;
                w.state(h(&n.iter().map(|(d, r)| (d.to_julian_day(), r.to_bits())).collect::<Vec<_>>()));
                w.outcome(hf(&[c.get_rate(qs[8]).unwrap_or(-1.0), c.get_rate(qs[10]).unwrap_or(-1.0)]));
                Ok(())
            });
        });
    });
    // dates given more than once at construction: the last rate counts, for the nodes and between them; lists of different length are refused
    ck.par(2 * 4, |w, i| {
        let (m, n) = (methods[i % 2], i / 2 + 1);
        words(9, n, &mut |word| {
            w.case("repeated-dates", || format!("{m:?} from (date, rate) pairs {word:?}"), |w| {
                let v: Vec<(Date, f64)> = word.iter().map(|k| (day([0, 3, 6][k / 3]), [0.03, 0.05, 0.01][k % 3])).collect();
                let mut nodes: Nodes = v.iter().copied().collect();
                let (ds, rs): (Vec<Date>, Vec<f64>) = v.iter().copied().unzip();
                let mut c = Curve::new(ds.clone(), rs.clone(), CurveType::Spot, m).unwrap();
                w.op();
                agree(&c, &nodes, m, &qs)?;
                w.state(hf(&nodes.iter().flat_map(|(d, r)| [f64::from(d.to_julian_day()), *r]).collect::<Vec<_>>()));
                c.set_rate(day(4), 0.07);
                nodes.insert(day(4), 0.07);
                agree(&c, &nodes, m, &qs)?;
                ensure!(Curve::new(ds[1..].to_vec(), rs.clone(), CurveType::Spot, m).is_err() && Curve::new(ds, rs[1..].to_vec(), CurveType::Spot, m).is_err(), "lists of different lengths accepted");
                Ok(())
            });
        });
    });
    // negative rates under linear interpolation, through zero
    ck.par(7, |w, a| for b in 0..7 { for (ra, rb) in [(-0.01, 0.02), (0.0, 0.0), (-0.03, -0.001), (1e9, -1e9), (0.0, 5.0)] {
        if a == b { continue; }
        w.case("signs", || format!("nodes {a} and {b} of {ra} and {rb}"), |w| {
            w.op();
            let c = Curve::new(vec![day(a), day(b)], vec![ra, rb], CurveType::Spot, InterpolationMethod::Linear).unwrap();
            let n: Nodes = [(day(a), ra), (day(b), rb)].into_iter().collect();
            for d in &qs {
                let (got, want) = (c.get_rate(*d), lookup(&n, InterpolationMethod::Linear, *d));
                ensure!(got.is_some() == want.is_some() && close(got.unwrap_or(0.0), want.unwrap_or(0.0), 1e-12 * (ra.abs() + rb.abs() + 1e-6), 1e-11), "rate {got:?} at {d}, expected {want:?}");
            }
            Ok(())
        });
    } });
    // curves of many nodes: every size up to a bound, every date in and around the curve queried, then shifted and refined
    let sizes: Vec<usize> = ck.pick((1..=40).chain([64, 65, 127, 128, 129, 300]).collect(), (1..=130).chain([255, 256, 257, 500, 1000]).collect());
    ck.par(sizes.len() * 3 * 2, |w, i| {
        let (n, gap, m) = (sizes[i / 6], i / 2 % 3, methods[i % 2]);
        for era in [2024, 1899, 2099, 1] { for (build, shape) in [(0, 0), (1, 1), (2, 2), (3, 3), (4, 1), (3, 0)] {
            w.case("many-nodes", || format!("{m:?} {n} nodes from {era}, gaps {}, shape {shape}, {}", ["of a day", "growing", "irregular"][gap], ["in order", "reversed", "evens then odds", "set one by one from the middle", "from a map"][build]), |w| {
                let d0 = Date::from_calendar_date(era, Month::February, 26).unwrap();
                let mut at = 0i64;
                let v: Vec<(Date, f64)> = (0..n).map(|k| {
                    let d = d0 + Duration::days(at);
                    at += match gap { 0 => 1, 1 => 1 + k as i64 % 11, _ => [1, 30, 2, 7, 3][k * k % 5] };
                    let kf = k as f64;
                    (d, match shape { 0 => 0.01 + 0.001 * kf, 1 => if k % 2 == 0 { 0.02 } else { 0.05 }, 2 => 1.0 / (1.0 + kf), _ => 0.5 + 0.4 * (kf * 0.7).sin() })
                }).collect();
                let mut o: Vec<usize> = (0..n).collect();
                match build { 1 => o.reverse(), 2 => o.sort_by_key(|k| (k % 2, *k)), 3 => o.sort_by_key(|k| ((*k as i64 - n as i64 / 2).abs(), *k)), _ => {} }
                let mut nodes: Nodes = v.iter().copied().collect();
                let t = types[n % 4];
                let mut c = if build == 4 { Curve::from_nodes(nodes.clone(), t, m).unwrap() }
                    else if build == 3 { let mut c = Curve::new(vec![], vec![], t, m).unwrap(); for &k in &o { w.op(); c.set_rate(v[k].0, v[k].1); } c }
                    else { Curve::new(o.iter().map(|&k| v[k].0).collect(), o.iter().map(|&k| v[k].1).collect(), t, m).unwrap() };
                let all: Vec<Date> = (-3..at + 3).map(|x| d0 + Duration::days(x)).collect();
                agree(&c, &nodes, m, &all)?;
                w.op();
                c.shift(0.003);
                for x in nodes.values_mut() { *x += 0.003; }
                agree(&c, &nodes, m, &all)?;
                for x in (1..at).step_by(7) {
                    let d = d0 + Duration::days(x);
                    let (got, want) = (c.get_rate_and_insert(d), lookup(&nodes, m, d));
                    ensure!(got.is_some() == want.is_some() && close(got.unwrap_or(0.0), want.unwrap_or(0.0), 1e-14, 1e-11), "inserting query at {d} gives {got:?}, expected {want:?}");
                    if let Some(r) = want { nodes.insert(d, r); }
                }
                agree(&c, &nodes, m, &all)?;
                w.outcome(hf(&[n as f64, at as f64]));
                Ok(())
            });
        } }
    });
    ck.seq(|w| for (a, b) in [(0, 1), (1, 0), (3, 2), (2, 3)] { for m in methods {
        w.case("unequal-lengths", || format!("{a} dates, {b} rates, {m:?}"), |w| {
            w.op();
            ensure!(Curve::new((0..a).map(day).collect(), vec![0.1; b], CurveType::Spot, m).is_err(), "a curve of {a} dates and {b} rates was built");
            Ok(())
        });
    } });
    objective(ck);
}

/// The objective that curve fitting minimises: the mean log-cosh of model minus node, with the model's function of the curve's type.
fn objective(ck: &Ck) {
    use argmin::core::CostFunction;
    use RustQuant_stochastics::{CurveModel, NelsonSiegelSvensson};
    let future = [1i64, 30, 400, 1826, 5000];
    let params = [[1.5, 0.5, -1.0, 2.0, 0.7, 2.5], [0.03, -0.01, 0.02, -0.04, 2.0, 1.0], [0.0, 0.0, 0.0, 0.0, 1.0, 1.0], [4.0, -3.0, 1.0, 0.5, 5.0, 0.3]];
    ck.par(31, |w, i| {
        let ks: Vec<usize> = (0..5).filter(|k| (i + 1) >> k & 1 == 1).collect();
        for t in [CurveType::Spot, CurveType::Forward, CurveType::Discount] { for m in [InterpolationMethod::Linear, InterpolationMethod::Exponential] { for p in &params { for lvl in [0.01, 0.9, 3.0] {
            w.case("fit-objective", || format!("{t:?} {m:?} nodes {ks:?} level {lvl} parameters {p:?}"), |w| {
                w.op();
                loop {
                    let d0 = RustQuant_time::today();
                    let ds: Vec<Date> = ks.iter().map(|&k| d0 + Duration::days(future[k])).collect();
                    let rs: Vec<f64> = ks.iter().map(|&k| lvl * (1.0 + 0.1 * k as f64)).collect();
                    let c = Curve::new(ds.clone(), rs.clone(), t, m).unwrap();
                    let nss = NelsonSiegelSvensson::new(p[0], p[1], p[2], p[3], p[4], p[5]);
                    let want = ds.iter().zip(&rs).map(|(d, r)| {
                        let v = match t { CurveType::Spot => nss.spot_rate(*d), CurveType::Forward => nss.forward_rate(*d), _ => nss.discount_factor(*d) };
                        (v - r).abs() + (-2.0 * (v - r).abs()).exp().ln_1p() - std::f64::consts::LN_2
                    }).sum::<f64>() / ds.len() as f64;
                    let got = c.cost(&p.to_vec());
                    if RustQuant_time::today() != d0 { continue; }
                    match got {
                        Ok(g) => { ensure!(close(g, want, 1e-12, 1e-10), "objective {g}, mean log-cosh of the differences {want}"); w.outcome(hf(&[g])); }
                        Err(e) => ensure!(false, "refused: {e}"),
                    }
                    return Ok(());
                }
            });
        } } } }
    });
}

// ---------------------------------------------------------------- C02
fn c02(ck: &Ck) {
    let amounts = [0.0, 1.0, -2.5, 100.25, 1e-9, -7e12];
    let days = [0usize, 1, 2, 6];
    let factors = [1.0, 0.0, 0.5, -2.0, 0.97, 1.0 + f64::EPSILON, 1.04, 1e-9, 1e7];
    ck.par(amounts.len() * days.len(), |w, i| {
        let (x, d) = (amounts[i / days.len()], day(days[i % days.len()]));
        for &y in &amounts { for &e in &days {
            w.case("cashflow-arithmetic", || format!("{x} on {d} and {y} on {}", day(e)), |w| {
                let (a, b) = (Cashflow::new(x, d), Cashflow::new(y, day(e)));
                ensure!(a.amount() == x && a.date() == d && a.amount == x && a.date == d, "new");
                let ops: [(&str, fn(Cashflow, Cashflow) -> Cashflow, f64); 4] = [
                    ("+", |a, b| a + b, x + y), ("-", |a, b| a - b, x - y),
                    ("+=", |mut a, b| { a += b; a }, x + y), ("-=", |mut a, b| { a -= b; a }, x - y)];
                for (o, f, want) in ops {
                    w.op();
                    match refuses(|| f(a, b)) {
                        Ok(c) => { ensure!(d == day(e), "flows of different dates combined by {o}"); ensure!(c.amount() == want && c.date() == d, "{x} {o} {y} gives {} on {}", c.amount(), c.date()); }
                        Err(_) => ensure!(d != day(e), "flows of one date refused by {o}"),
                    }
                }
                ensure!((a == b) == (x == y && d == day(e)), "equality");
                Ok(())
            });
        } }
        for &k in &factors {
            w.case("cashflow-scaling", || format!("{x} on {d} by {k}"), |w| {
                w.ops(8);
                let a = Cashflow::new(x, d);
                let (mut m, mut q) = (a, a);
                m *= k;
                q /= k;
                let same = |c: Cashflow, want: f64, what: &str| -> Res { ensure!((c.amount() == want || c.amount().is_nan() && want.is_nan()) && c.date() == d, "{what} gives {c}, expected {want}"); Ok(()) };
                same(a * k, x * k, "*")?; same(m, x * k, "*=")?; same(a / k, x / k, "/")?; same(q, x / k, "/=")?;
                same(-a, -x, "negation")?; same(-&a, -x, "negation of a reference")?; let mut b = a; same(-&mut b, -x, "negation of a mutable reference")?; same(b, x, "operand after negation")?;
                ensure!(a.npv(k) == x * k, "present value {} of {x} at {k}", a.npv(k));
                w.outcome(hf(&[x * k]));
                Ok(())
            });
        }
    });
    // legs: every list of up to n flows, built at once or one by one
    let n = ck.pick(8, 9);
    let flows: Vec<(f64, usize)> = vec![(1.0, 0), (-2.5, 1), (100.25, 6), (0.0, 2), (7.0, 1)];
    ck.par(n + 1, |w, len| words(flows.len(), len, &mut |word| {
        w.case("legs", || format!("{:?}", word.iter().map(|&k| flows[k]).collect::<Vec<_>>()), |w| {
            let v: Vec<Cashflow> = word.iter().map(|&k| Cashflow::new(flows[k].0, day(flows[k].1))).collect();
            for split in 0..=v.len() {
                w.ops(1 + (v.len() - split) as u64);
                let mut leg = Leg::new(v[..split].to_vec());
                for k in split..v.len() {
                    leg.add_cashflow(v[k]);
                    ensure!(leg.size() == k + 1, "size {} after {} flows", leg.size(), k + 1);
                }
                ensure!(leg.cashflows() == &v[..], "flows {:?}", leg.cashflows());
                let (first, last) = (v.iter().map(|c| c.date).min(), v.iter().map(|c| c.date).max());
                ensure!(leg.start_date() == first && leg.end_date() == last, "from {:?} to {:?}, flows from {first:?} to {last:?}", leg.start_date(), leg.end_date());
                for off in [-1i64, 0, 1, 2, 4, 5, 311, 999, 1000, 1001] {
                    let d = day(0) + Duration::days(off);
                    let want = first.is_some_and(|f| f <= d) && last.is_some_and(|l| d <= l);
                    ensure!(leg.is_active(d) == want, "active on {d}: {}", leg.is_active(d));
                }
                for &k in &factors {
                    let want: f64 = v.iter().map(|c| c.amount * k).sum();
                    ensure!(close(leg.npv(k), want, 1e-12, 1e-12), "present value {} at {k}, expected {want}", leg.npv(k));
                }
                w.outcome(hf(&[leg.npv(1.0)]));
            }
            Ok(())
        });
    }));
    // legs of many flows, with the earliest and the latest flow at every position
    let sizes: Vec<usize> = ck.pick((2..=24).chain([64, 100]).collect(), (2..=64).chain([100, 256, 300]).collect());
    ck.par(sizes.len(), |w, i| {
        let n = sizes[i];
        for lo in 0..n { for hi in 0..n {
            if lo == hi || n > 40 && lo % 7 != 0 && hi % 7 != 0 { continue; }
            w.case("many-flows", || format!("{n} flows, earliest at {lo}, latest at {hi}"), |w| {
                let d = |k: usize| day(0) + Duration::days(if k == lo { -40000 } else if k == hi { 90000 } else { (k * 37 % 101) as i64 });
                let v: Vec<Cashflow> = (0..n).map(|k| Cashflow::new((k as f64 - 3.0) * 1.25, d(k))).collect();
                let half = v.len() / 2;
                let mut leg = Leg::new(v[..half].to_vec());
                for c in &v[half..] { w.op(); leg.add_cashflow(*c); }
                ensure!(leg.size() == n && leg.cashflows() == &v[..], "flows {:?}", leg.cashflows());
                ensure!(leg.start_date() == Some(d(lo)) && leg.end_date() == Some(d(hi)), "from {:?} to {:?}", leg.start_date(), leg.end_date());
                for (off, want) in [(-40001, false), (-40000, true), (0, true), (90000, true), (90001, false)] { ensure!(leg.is_active(day(0) + Duration::days(off)) == want, "active {off} days on: {}", !want); }
                for k in [1.0, -2.0, 0.97] {
                    let want: f64 = v.iter().map(|c| c.amount * k).sum();
                    ensure!(close(leg.npv(k), want, 1e-9, 1e-12), "present value {} at {k}, expected {want}", leg.npv(k));
                }
                Ok(())
            });
        } }
    });
    ck.seq(|w| w.case("legs", || "default".into(), |_| { let l = Leg::default(); ensure!(l.size() == 0 && l.npv(0.5) == 0.0 && l.start_date().is_none() && l.end_date().is_none() && !l.is_active(day(0)), "the default leg is not empty"); Ok(()) }));
}

// ---------------------------------------------------------------- C03
fn c03(ck: &Ck) {
    let vals = [None, Some(0.0), Some(1.0), Some(2.5), Some(-3.0), Some(1e300), Some(5e-324)];
    let k = vals.len() + 1;
    let depth = ck.pick(8, 9);
    // wider values in shorter histories
    let wide: Vec<Option<f64>> = std::iter::once(None).chain([0.0, -0.0, 1e-300, 1e-9, 0.01, 0.99, 1.0, 100.0, 12345.678, 1e6, 3e9, 1e18, 1e300].iter().flat_map(|v| [Some(*v), Some(-*v)])).collect();
    ck.par(wide.len(), |w, i| words(wide.len(), ck.pick(3, 4) - 1, &mut |rest| {
        w.case("values", || format!("{:?}", std::iter::once(&i).chain(rest).map(|&o| wide[o]).collect::<Vec<_>>()), |w| {
            let mut q = SimpleQuote::new(wide[i]);
            let mut m = wide[i];
            for &o in rest {
                w.op();
                let got = q.set_value(wide[o]);
                let want = match (m, wide[o]) { (Some(a), Some(b)) => b - a, (None, Some(b)) => b, _ => 0.0 };
                ensure!(got == want, "assigning {:?} over {m:?} reports a change of {got}, expected {want}", wide[o]);
                m = wide[o];
                ensure!(q.value().map(f64::to_bits) == m.map(f64::to_bits) && q.is_valid() == m.is_some(), "value {:?} after the last assignment of {m:?}", q.value());
            }
            Ok(())
        });
    }));
    ck.par(vals.len() * k, |w, i| words(k, depth - 1, &mut |rest| {
        let start = vals[i / k];
        w.case("histories", || format!("from {start:?}: {:?}", std::iter::once(&(i % k)).chain(rest).map(|&o| if o < vals.len() { format!("{:?}", vals[o]) } else { "reset".into() }).collect::<Vec<_>>()), |w| {
            let mut q = SimpleQuote::new(start);
            let mut m = start;
            ensure!(q.value() == m && q.is_valid() == m.is_some(), "new quote has value {:?}", q.value());
            for &o in std::iter::once(&(i % k)).chain(rest) {
                w.op();
                if o < vals.len() {
                    let got = q.set_value(vals[o]);
                    let want = match (m, vals[o]) { (Some(a), Some(b)) => b - a, (None, Some(b)) => b, _ => 0.0 };
                    ensure!(got == want, "assigning {:?} over {m:?} reports a change of {got}, expected {want}", vals[o]);
                    m = vals[o];
                } else { q.reset(); m = None; }
                ensure!(q.value() == m, "value {:?} after the last assignment of {m:?}", q.value());
                ensure!(q.is_valid() == m.is_some(), "valid: {} with value {m:?}", q.is_valid());
            }
            w.state(m.map_or(1, |x| x.to_bits()));
            Ok(())
        });
    }));
}

// ---------------------------------------------------------------- C04
struct Asset(f64);
impl Instrument for Asset {
    fn price(&self) -> f64 { self.0 }
    fn error(&self) -> Option<f64> { None }
    fn valuation_date(&self) -> Date { day(0) }
    fn instrument_type(&self) -> &'static str { "asset" }
}
#[derive(Clone, Copy, PartialEq)]
struct Row { q: u64, cost: f64, price: f64 }
fn check_portfolio(p: &Portfolio<Asset>, m: &BTreeMap<&str, Row>) -> Res {
    let value: f64 = m.values().map(|r| r.q as f64 * r.price).sum();
    let cost: f64 = m.values().map(|r| r.q as f64 * r.cost).sum();
    ensure!(close(p.value(), value, 1e-9, 1e-12), "value {} expected {value}", p.value());
    ensure!(close(p.cost(), cost, 1e-9, 1e-12), "cost {} expected {cost}", p.cost());
    ensure!(close(p.profit(), value - cost, 1e-9 * (1.0 + value.abs() + cost.abs()), 1e-12), "profit {} expected {}", p.profit(), value - cost);
    ensure!(p.positions.len() == m.len(), "{} positions, expected {}", p.positions.len(), m.len());
    for (k, r) in m {
        let Some(x) = p.positions.get(*k) else { return rqmc::fail(format!("{k} is missing")) };
        ensure!(x.quantity == r.q && x.purchase_price == r.cost && x.current_price == r.price, "{k} holds {} at {} bought at {}", x.quantity, x.current_price, x.purchase_price);
        ensure!(close(x.value(), r.q as f64 * r.price, 0.0, 1e-14), "value {} of {k}", x.value());
        ensure!(close(x.profit(), r.q as f64 * (r.price - r.cost), 1e-12 * (1.0 + r.q as f64 * (r.price.abs() + r.cost.abs())), 1e-12), "profit {} of {k}", x.profit());
    }
    let gross: f64 = m.values().map(|r| r.q as f64 * r.price.abs()).sum();
    if value.abs() > 1e-9 * gross {
        let ws = p.position_weights();
        ensure!(ws.len() == m.len(), "{} weights", ws.len());
        for (k, r) in m {
            let want = r.q as f64 * r.price / value;
            ensure!(ws.get(*k).is_some_and(|x| close(*x as f64, want, 1e-6 * (gross / value.abs()), 1e-5)), "weight {:?} of {k}, expected {want}", ws.get(*k));
        }
        let sum: f32 = ws.values().sum();
        ensure!(((sum - 1.0).abs() as f64) < 1e-5 * (gross / value.abs()), "weights sum to {sum}");
    }
    Ok(())
}
fn c04(ck: &Ck) {
    ck.assume("prices may be negative; weights are single precision (1e-5 of the gross value) and only defined for a portfolio whose value is not zero");
    const NAMES: [&str; 3] = ["A", "B", "a long name"];
    let rows: Vec<Option<Row>> = {
        let mut v = vec![None];
        for q in [0u64, 1, 7, 10_000_000_000] { for cost in [0.0, -2.5, 12.5] { for price in [0.0, 10.0, -37.63] { v.push(Some(Row { q, cost, price })); } } }
        v
    };
    let build = |m: &BTreeMap<&str, Row>| -> Portfolio<Asset> {
        let cur: [Option<Currency>; 3] = [None, Some(USD), Some(EUR)];
        Portfolio::new(m.iter().enumerate().map(|(i, (k, r))| (k.to_string(), Position::new(Asset(99.0), r.q, r.cost, r.price, cur[i % 3]))).collect::<HashMap<_, _>>())
    };
    // every portfolio of up to three positions
    ck.par(rows.len(), |w, i| for j in 0..rows.len() { for k in 0..ck.pick(1, rows.len()) {
        let k = if ck.thorough() { k } else { (i * 5 + j * 3) % rows.len() };
        w.case("portfolios", || format!("rows {i} {j} {k}"), |w| {
            w.op();
            let m: BTreeMap<&str, Row> = NAMES.iter().zip([i, j, k]).filter_map(|(n, x)| rows[x].map(|r| (*n, r))).collect();
            let p = build(&m);
            w.state(h(&[i, j, k]));
            w.outcome(hf(&[p.value(), p.cost()]));
            check_portfolio(&p, &m)
        });
    } });
    // portfolios of many positions, one of them updated
    ck.par(ck.pick(60, 400), |w, i| {
        let n = i + 1;
        let names: Vec<String> = (0..n).map(|k| format!("P{k}")).collect();
        for at in [0, n / 2, n - 1] { for shape in 0..3u64 {
            w.case("many-positions", || format!("{n} positions, shape {shape}, update of position {at}"), |w| {
                w.ops(2);
                let mut m: BTreeMap<&str, Row> = names.iter().enumerate().map(|(k, s)| (s.as_str(), match shape { 0 => Row { q: 1, cost: 1.0, price: 1.0 }, 1 => Row { q: k as u64 * 13 % 7, cost: 2.5, price: k as f64 * 0.5 }, _ => Row { q: 1 + k as u64, cost: 100.0 - (k % 9) as f64, price: 90.0 + (k * k % 23) as f64 } })).collect();
                let mut p = build(&m);
                check_portfolio(&p, &m)?;
                p.update_price(&names[at], 123.25);
                p.update_quantity(&names[at], 11);
                let r = m.get_mut(names[at].as_str()).unwrap();
                r.price = 123.25;
                r.q = 11;
                w.outcome(hf(&[p.value(), p.cost()]));
                check_portfolio(&p, &m)
            });
        } }
    });
    // update histories
    #[derive(Clone, Copy, Debug)]
    enum PO { Price(usize, f64), Qty(usize, u64), Remove(usize), Add(usize, u64, f64, f64) }
    let mut ops = vec![];
    for n in 0..3 { for x in [0.0, 3.5, -40.0] { ops.push(PO::Price(n, x)); } for q in [0, 2, 5_000_000_003] { ops.push(PO::Qty(n, q)); } ops.push(PO::Remove(n)); ops.push(PO::Add(n, 5, 2.0, 3.0)); }
    let depth = ck.pick(4, 5);
    let starts: [&[(usize, u64, f64, f64)]; 4] = [&[], &[(0, 3, 10.0, 11.0)], &[(0, 3, 10.0, 11.0), (1, 0, 5.0, 4.0)], &[(0, 1, 0.0, 0.1), (1, 10, 100.0, 101.5), (2, 2, 7.0, 0.0)]];
    ck.par(starts.len() * ops.len(), |w, i| words(ops.len(), depth - 1, &mut |rest| {
        let word: Vec<PO> = std::iter::once(i % ops.len()).chain(rest.iter().copied()).map(|k| ops[k]).collect();
        let s = starts[i / ops.len()];
        w.case("histories", || format!("from {s:?}: {word:?}"), |w| {
            let mut m: BTreeMap<&str, Row> = s.iter().map(|&(n, q, cost, price)| (NAMES[n], Row { q, cost, price })).collect();
            let mut p = build(&m);
            for op in &word {
                w.op();
                match *op {
                    PO::Price(n, x) => {
                        let known = m.contains_key(NAMES[n]);
                        let r = refuses(|| p.update_price(NAMES[n], x));
                        ensure!(r.is_ok() == known, "updating the price of {} {}", NAMES[n], if known { "was refused" } else { "which is not held was accepted" });
                        if let Some(r) = m.get_mut(NAMES[n]) { r.price = x; }
                    }
                    PO::Qty(n, x) => {
                        let known = m.contains_key(NAMES[n]);
                        let r = refuses(|| p.update_quantity(NAMES[n], x));
                        ensure!(r.is_ok() == known, "updating the quantity of {} {}", NAMES[n], if known { "was refused" } else { "which is not held was accepted" });
                        if let Some(r) = m.get_mut(NAMES[n]) { r.q = x; }
                    }
                    PO::Remove(n) => { p.positions.remove(NAMES[n]); m.remove(NAMES[n]); }
                    PO::Add(n, q, cost, price) => { p.positions.insert(NAMES[n].into(), Position::new(Asset(1.0), q, cost, price, None)); m.insert(NAMES[n], Row { q, cost, price }); }
                }
                check_portfolio(&p, &m)?;
            }
            w.state(h(&m.iter().map(|(k, r)| (*k, r.q, r.cost.to_bits(), r.price.to_bits())).collect::<Vec<_>>()));
            w.outcome(hf(&[p.value(), p.cost()]));
            Ok(())
        });
    }));
}
fn main() {
    Ck::main(|ck| match ck.prop.as_str() { "C01" => c01(ck), "C02" => c02(ck), "C03" => c03(ck), "C04" => c04(ck), p => panic!("unknown property {p}") })
}
