//! S01-S05: stochastic processes and their simulation.
use rqmc::{close, ensure, fail, h, hf, refuses, Ck, Res, W};
use rayon::ThreadPoolBuilder;
use std::sync::{Condvar, Mutex};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::thread::ThreadId;
use std::time::{Duration as Wall, Instant};
use time::{Date, Duration};
use RustQuant_stochastics::*;
use RustQuant_time::today;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Sch { Euler, Milstein, Strang }
const SCHEMES: [Sch; 3] = [Sch::Euler, Sch::Milstein, Sch::Strang];
fn sch(s: Sch) -> StochasticScheme { match s { Sch::Euler => StochasticScheme::EulerMaruyama, Sch::Milstein => StochasticScheme::Milstein, Sch::Strang => StochasticScheme::StrangSplitting } }
#[derive(Clone, Copy, Debug)]
struct Cfg { x0: f64, t0: f64, tn: f64, n: usize, m: usize, par: bool, seed: u64, s: Sch }
impl Cfg {
    fn mk(&self) -> StochasticProcessConfig { StochasticProcessConfig::new(self.x0, self.t0, self.tn, self.n, sch(self.s), self.m, self.par, Some(self.seed)) }
    fn dt(&self) -> f64 { (self.tn - self.t0) / self.n as f64 }
}

/// Enumerated coefficient functions; the diffusion comes with its exact derivative in x.
fn drift(k: usize, x: f64, t: f64) -> f64 {
    match k { 0 => 0.0, 1 => 0.3, 2 => -0.5 * x, 3 => 0.2 + 0.7 * t, 4 => 0.4 * x * t, 5 => x.sin() - t, _ => (1.0 - x) * (1.0 + t) }
}
fn diffusion(k: usize, x: f64, t: f64) -> (f64, f64) {
    match k { 0 => (0.0, 0.0), 1 => (1.0, 0.0), 2 => (0.4 * x, 0.4), 3 => (0.3 + 0.6 * t, 0.0), 4 => ((1.0 + x * x).sqrt(), x / (1.0 + x * x).sqrt()), 5 => (0.5 * x * t, 0.5 * t), _ => (0.4 + 0.3 * x.cos(), -0.3 * x.sin()) }
}
const NF: usize = 7;
struct Fun(usize, usize);
impl StochasticProcess for Fun {
    fn drift(&self, x: f64, t: f64) -> f64 { drift(self.0, x, t) }
    fn diffusion(&self, x: f64, t: f64) -> f64 { diffusion(self.1, x, t).0 }
    fn jump(&self, _x: f64, _t: f64) -> Option<f64> { None }
}
/// The scheme's update from x at t with increment dw; also the magnitude against which rounding is judged.
fn step(s: Sch, a: &dyn Fn(f64, f64) -> f64, b: &dyn Fn(f64, f64) -> (f64, f64), x: f64, t: f64, dt: f64, dw: f64) -> (f64, f64) {
    match s {
        Sch::Euler => { let (ad, bd) = (a(x, t) * dt, b(x, t).0 * dw); (x + ad + bd, 1e-11 * (1.0 + x.abs() + ad.abs() + bd.abs())) }
        Sch::Milstein => {
            let (bb, db) = b(x, t);
            let (ad, bd, c) = (a(x, t) * dt, bb * dw, 0.5 * bb * db * (dw * dw - dt));
            (x + ad + bd + c, 1e-11 * (1.0 + x.abs() + ad.abs() + bd.abs()) + 1e-8 * bb * bb * (dw * dw + dt) + 1e-7 * c.abs())
        }
        Sch::Strang => {
            let x1 = x + 0.5 * a(x, t) * dt;
            let bd = b(x1, t + 0.5 * dt).0 * dw;
            let x2 = x1 + bd;
            let ad = 0.5 * a(x2, t + 0.5 * dt) * dt;
            (x2 + ad, 1e-11 * (1.0 + x.abs() + x1.abs() + bd.abs() + ad.abs()))
        }
    }
}
/// The increments dW a configuration draws, read off the process with drift 0 and diffusion 1.
fn increments(run: impl Fn(&StochasticProcessConfig) -> Trajectories, c: Cfg) -> Vec<Vec<f64>> {
    run(&Cfg { x0: 0.0, ..c }.mk()).paths.iter().map(|p| p.windows(2).map(|w| w[1] - w[0]).collect()).collect()
}
fn shape(c: &Cfg, tr: &Trajectories) -> Res {
    ensure!(tr.times.len() == c.n + 1, "{} times for {} steps", tr.times.len(), c.n);
    for (i, &t) in tr.times.iter().enumerate() {
        let want = c.t0 + (c.tn - c.t0) * i as f64 / c.n as f64;
        ensure!(close(t, want, 1e-12 * (c.tn.abs() + c.t0.abs()), 0.0), "time {i} is {t}, evenly spaced {want}");
    }
    ensure!(tr.paths.len() == c.m, "{} paths instead of {}", tr.paths.len(), c.m);
    for p in &tr.paths {
        ensure!(p.len() == c.n + 1, "a path of {} values for {} steps", p.len(), c.n);
        ensure!(p[0] == c.x0, "a path starts at {}", p[0]);
    }
    Ok(())
}
fn follow(c: &Cfg, tr: &Trajectories, dw: &[Vec<f64>], a: &dyn Fn(f64, f64) -> f64, b: &dyn Fn(f64, f64) -> (f64, f64)) -> Res {
    shape(c, tr)?;
    let dt = c.dt();
    for (i, p) in tr.paths.iter().enumerate() {
        for j in 0..c.n {
            let (want, tol) = step(c.s, a, b, p[j], tr.times[j], dt, dw[i][j]);
            // the increment itself is known to rounding of the sum it was read from
            let noise = 1e-13 * (1.0 + dw[i].iter().fold(0.0, |m: f64, x| m.max(x.abs()))) * (1.0 + b(p[j], tr.times[j]).0.abs()) * 10.0;
            // no step of differences suits a diffusion that oscillates far below the scale of the value; the units section covers the large values of the others
            if !want.is_finite() || c.s == Sch::Milstein && p[j].abs() > 1e4 { break; }
            ensure!(close(p[j + 1], want, tol + noise, 0.0), "path {i} step {j}: {} -> {}, the scheme gives {want}", p[j], p[j + 1]);
        }
    }
    Ok(())
}
const SPANS: [(f64, f64); 6] = [(0.0, 1.0), (0.0, 0.25), (1.0, 3.0), (-1.0, 0.5), (0.5, 0.501), (0.0, 30.0)];

fn s01(ck: &Ck) {
    ck.assume("the increments a configuration draws depend on the configuration (scheme, steps, horizon, paths, seed, parallel flag) and not on the process or the starting value, so they can be read off the process with drift 0 and diffusion 1 under the same configuration");
    ck.assume("the noise is judged Gaussian by its first four moments and its correlations within six standard errors, for fixed seeds");
    ck.assume("Milstein: the derivative of the diffusion may be approximated by differences to 1e-7");
    let ns = ck.pick(vec![1usize, 2, 3, 10, 50], vec![1, 2, 3, 4, 7, 10, 50, 200]);
    let seeds: Vec<u64> = ck.pick(vec![1, 20_240, u64::MAX], vec![0, 1, 2, 99, 20_240, 1 << 40, u64::MAX - 1, u64::MAX]);
    let x0s = ck.pick(vec![0.0, 1.0, -2.0, 10.0], vec![0.0, 1.0, -2.0, 0.5, 10.0, 100.0]);
    // one-step updates of every pair of coefficient functions
    ck.par(3 * SPANS.len() * ns.len(), |w, i| {
        let (s, (t0, tn), n) = (SCHEMES[i % 3], SPANS[i / 3 % SPANS.len()], ns[i / 3 / SPANS.len()]);
        for m in [1usize, 3] { for par in [false, true] { for &seed in &seeds {
            let base = Cfg { x0: 0.0, t0, tn, n, m, par, seed, s };
            let dw = increments(|c| Fun(0, 1).generate(c), base);
            for f in 0..NF { for g in 0..NF { for &x0 in &x0s {
                let c = Cfg { x0, ..base };
                w.case("one-step-updates", || format!("drift {f} diffusion {g} {c:?}"), |w| {
                    w.ops((n * m) as u64);
                    let tr = Fun(f, g).generate(&c.mk());
                    w.state(h(&(f, g, s as u8, n, x0.to_bits(), t0.to_bits(), tn.to_bits())));
                    w.outcome(hf(&[*tr.paths[m - 1].last().unwrap()]));
                    follow(&c, &tr, &dw, &|x, t| drift(f, x, t), &|x, t| diffusion(g, x, t))
                });
            } } }
        } } }
    });
    // long and wide runs
    let runs: Vec<(usize, usize)> = ck.pick(vec![(100, 1), (127, 3), (128, 3), (129, 3), (256, 2), (365, 5), (1000, 2), (2500, 1), (5, 64), (5, 65), (3, 500), (60, 130), (1, 1000)],
        vec![(100, 1), (127, 3), (128, 3), (129, 3), (255, 2), (256, 2), (257, 2), (365, 5), (1000, 20), (1024, 3), (4096, 2), (10_000, 2), (5, 64), (5, 65), (3, 500), (60, 130), (1, 1000), (7, 5000), (250, 400)]);
    ck.par(3 * runs.len(), |w, i| {
        let (s, (n, m)) = (SCHEMES[i % 3], runs[i / 3]);
        for par in [false, true] { for (t0, tn) in [(0.0, 1.0), (0.5, 4.0)] {
            let base = Cfg { x0: 0.0, t0, tn, n, m, par, seed: 77, s };
            let dw = increments(|c| Fun(0, 1).generate(c), base);
            for (f, g) in [(1, 1), (2, 2), (3, 3), (5, 6), (6, 3), (2, 6)] {
                let c = Cfg { x0: 1.0, ..base };
                w.case("long-and-wide", || format!("drift {f} diffusion {g} {c:?}"), |w| {
                    w.ops((n * m) as u64);
                    let tr = Fun(f, g).generate(&c.mk());
                    w.state(h(&(f, g, s as u8, n, m, par, t0.to_bits())));
                    follow(&c, &tr, &dw, &|x, t| drift(f, x, t), &|x, t| diffusion(g, x, t))?;
                    // no two paths share their noise
                    let mut seen: Vec<u64> = dw.iter().map(|d| hf(d)).collect();
                    seen.sort();
                    seen.dedup();
                    ensure!(seen.len() == m, "{m} paths with {} different noises", seen.len());
                    Ok(())
                });
            }
        } }
    });
    // the library's own processes, Gaussian and fractional noise
    type P = (&'static str, fn() -> Box<dyn Fn(&StochasticProcessConfig) -> Trajectories + Sync>, fn(f64, f64) -> f64, fn(f64, f64) -> (f64, f64), bool);
    let procs: Vec<P> = vec![
        ("arithmetic Brownian", || { let p = ArithmeticBrownianMotion::new(0.1, |t: f64| 0.2 + 0.1 * t * t); Box::new(move |c| p.generate(c)) }, |_, _| 0.1, |_, t| (0.2 + 0.1 * t * t, 0.0), false),
        ("geometric Brownian", || { let p = GeometricBrownianMotion::new(|t: f64| 0.1 * t, 0.3); Box::new(move |c| p.generate(c)) }, |x, t| 0.1 * t * x, |x, _| (0.3 * x, 0.3), false),
        ("Ornstein-Uhlenbeck", || { let p = OrnsteinUhlenbeck::new(0.15, 0.45, |t: f64| 0.5 + 0.2 * t); Box::new(move |c| p.generate(c)) }, |x, t| (0.5 + 0.2 * t) * (0.15 - x), |_, _| (0.45, 0.0), false),
        ("Cox-Ingersoll-Ross", || { let p = CoxIngersollRoss::new(5.0, 0.3, 0.8); Box::new(move |c| p.generate(c)) }, |x, _| 0.8 * (5.0 - x), |x, _| (0.3 * x.sqrt(), 0.15 / x.sqrt()), false),
        ("Hull-White", || { let p = HullWhite::new(0.4, 0.2, |t: f64| 1.0 + t); Box::new(move |c| p.generate(c)) }, |x, t| 1.0 + t - 0.4 * x, |_, _| (0.2, 0.0), false),
        ("Ho-Lee", || { let p = HoLee::new(0.2, |t: f64| 2.0 + t); Box::new(move |c| p.generate(c)) }, |_, t| 2.0 + t, |_, _| (0.2, 0.0), false),
        ("elasticity of variance", || { let p = ConstantElasticityOfVariance::new(0.05, 0.2, 0.7); Box::new(move |c| p.generate(c)) }, |x, _| 0.05 * x, |x, _| (0.2 * x.powf(0.7), 0.14 * x.powf(-0.3)), false),
        ("fractional Brownian", || { let p = FractionalBrownianMotion::new(0.7, FractionalProcessGeneratorMethod::CHOLESKY); Box::new(move |c| p.generate(c)) }, |_, _| 0.0, |_, _| (1.0, 0.0), true),
        ("fractional Ornstein-Uhlenbeck", || { let p = FractionalOrnsteinUhlenbeck::new(0.15, |t: f64| 0.45 + t.abs(), 0.5, 0.7, FractionalProcessGeneratorMethod::CHOLESKY); Box::new(move |c| p.generate(c)) }, |x, _| 0.5 * (0.15 - x), |_, t| (0.45 + t.abs(), 0.0), true),
        ("fractional Cox-Ingersoll-Ross", || { let p = FractionalCoxIngersollRoss::new(5.0, 0.3, 0.8, 0.7, FractionalProcessGeneratorMethod::CHOLESKY); Box::new(move |c| p.generate(c)) }, |x, _| 0.8 * (5.0 - x), |x, _| (0.3 * x.sqrt(), 0.15 / x.sqrt()), true),
    ];
    ck.par(procs.len() * 3, |w, i| {
        let (p, s) = (&procs[i / 3], SCHEMES[i % 3]);
        for (t0, tn) in [(0.0, 1.0), (0.0, 0.3), (0.5, 0.9), (1.0, 1.5)] { for &n in ns.iter().filter(|n| **n <= 50) { for m in [1usize, 4] { for par in [false, true] { for &seed in &seeds {
            let c = Cfg { x0: 5.0, t0, tn, n, m, par, seed, s };
            w.case("library-processes", || format!("{} {c:?}", p.0), |w| {
                w.ops((n * m) as u64);
                let dw = if p.4 { increments(|c| FractionalBrownianMotion::new(0.7, FractionalProcessGeneratorMethod::CHOLESKY).generate(c), c) } else { increments(|c| BrownianMotion::new().generate(c), c) };
                let tr = p.1()(&c.mk());
                w.outcome(hf(&[*tr.paths[m - 1].last().unwrap()]));
                follow(&c, &tr, &dw, &p.2, &p.3)
            });
        } } } } }
    });
    // the unit of the process does not matter: with parameters in units of 4^-e (exact in binary, as is the root) the
    // path is the same path in those units
    type U = (&'static str, fn(f64) -> Box<dyn Fn(&StochasticProcessConfig) -> Trajectories + Sync>);
    let units: Vec<U> = vec![
        ("arithmetic Brownian", |m| { let p = ArithmeticBrownianMotion::new(0.1 * m, 0.2 * m); Box::new(move |c| p.generate(c)) }),
        ("geometric Brownian", |_| { let p = GeometricBrownianMotion::new(0.1, 0.3); Box::new(move |c| p.generate(c)) }),
        ("Ornstein-Uhlenbeck", |m| { let p = OrnsteinUhlenbeck::new(4.0 * m, 0.45 * m, 0.5); Box::new(move |c| p.generate(c)) }),
        ("Cox-Ingersoll-Ross", |m| { let p = CoxIngersollRoss::new(5.0 * m, 0.3 * m.sqrt(), 0.8); Box::new(move |c| p.generate(c)) }),
        ("Hull-White", |m| { let p = HullWhite::new(0.4, 0.2 * m, 1.5 * m); Box::new(move |c| p.generate(c)) }),
        ("Ho-Lee", |m| { let p = HoLee::new(0.2 * m, 2.0 * m); Box::new(move |c| p.generate(c)) }),
        ("elasticity of variance", |m| { let p = ConstantElasticityOfVariance::new(0.05, 0.2 * m.sqrt(), 0.5); Box::new(move |c| p.generate(c)) }),
        ("fractional Ornstein-Uhlenbeck", |m| { let p = FractionalOrnsteinUhlenbeck::new(4.0 * m, 0.45 * m, 0.5, 0.7, FractionalProcessGeneratorMethod::CHOLESKY); Box::new(move |c| p.generate(c)) }),
        ("fractional Cox-Ingersoll-Ross", |m| { let p = FractionalCoxIngersollRoss::new(5.0 * m, 0.3 * m.sqrt(), 0.8, 0.7, FractionalProcessGeneratorMethod::CHOLESKY); Box::new(move |c| p.generate(c)) }),
    ];
    ck.par(units.len() * 3, |w, i| {
        let (p, s) = (&units[i / 3], SCHEMES[i % 3]);
        for e in ck.pick(vec![-6, -3, 3, 8, 14, 20], (-6..=25).collect()) { for (t0, tn) in [(0.0, 1.0), (0.5, 1.5)] { for &n in ns.iter().filter(|n| **n <= 50) { for &seed in &seeds {
            let m = 4f64.powi(e);
            w.case("units", || format!("{} {s:?} in units of 4^{} over {n} steps from {t0} to {tn} seed {seed}", p.0, -e), |w| {
                w.ops(n as u64);
                let c = Cfg { x0: 5.0, t0, tn, n, m: 1, par: false, seed, s };
                let (a, b) = (p.1(1.0)(&c.mk()), p.1(m)(&Cfg { x0: 5.0 * m, ..c }.mk()));
                for j in 0..=n {
                    let (x, y) = (a.paths[0][j], b.paths[0][j] / m);
                    if s == Sch::Milstein && !(x > 0.05) { break; }
                    ensure!(close(x, y, if s == Sch::Milstein { 1e-5 } else { 1e-10 }, 0.0), "step {j}: {x}, in the other unit {y}");
                }
                w.outcome(hf(&a.paths[0]));
                Ok(())
            });
        } } } }
    });
    // spectral generator
    ck.par(3, |w, i| {
        let s = SCHEMES[i];
        for hurst in [0.2, 0.5, 0.7, 0.9] { for (t0, tn) in [(0.0, 1.0), (0.5, 2.0)] { for n in [1usize, 2, 5, 16] { for &seed in &seeds {
            let c = Cfg { x0: 3.0, t0, tn, n, m: 3, par: false, seed, s };
            w.case("spectral-noise", || format!("hurst {hurst} {c:?}"), |w| {
                w.ops((n * 3) as u64);
                let dw = increments(|c| FractionalBrownianMotion::new(hurst, FractionalProcessGeneratorMethod::FFT).generate(c), c);
                let tr = FractionalOrnsteinUhlenbeck::new(0.15, 0.45, 0.5, hurst, FractionalProcessGeneratorMethod::FFT).generate(&c.mk());
                follow(&c, &tr, &dw, &|x, _| 0.5 * (0.15 - x), &|_, _| (0.45, 0.0))
            });
        } } } }
    });
    // jumps: times read off a process that only jumps, increments off one whose jumps are nil
    let tiny = 1e-300;
    ck.par(3 * 4, |w, i| {
        let (s, (t0, tn)) = (SCHEMES[i % 3], [(0.0, 1.0), (0.0, 0.25), (1.0, 3.0), (0.0, 10.0)][i / 3]);
        for lambda in [0.0, 0.001, 0.008, 0.05, 0.5, 2.0, 30.0] { for n in [1usize, 5, 60, 5000] { for m in [1usize, 3, 40, 6000] { for &seed in &seeds {
            if n == 5000 && m == 3 || n > 5 && m == 6000 { continue; }
            let c = Cfg { x0: 10.0, t0, tn, n, m, par: m == 3, seed, s };
            w.case("jumps", || format!("intensity {lambda} {c:?}"), |w| {
                w.ops((n * m) as u64);
                let jumps = MertonJumpDiffusion::new(0.0, 0.0, lambda, 1.0, tiny).generate(&Cfg { x0: 0.0, ..c }.mk());
                shape(&Cfg { x0: 0.0, ..c }, &jumps)?;
                let (mut total, mut none) = (0.0, 0u64);
                let mut at = vec![];
                for p in &jumps.paths {
                    let j: Vec<f64> = p.windows(2).map(|w| w[1] - w[0]).collect();
                    for &x in &j { ensure!(x >= 0.0 && x.fract() == 0.0, "jumps of size 1 add {x}"); total += x; none += u64::from(x == 0.0); }
                    at.push(j);
                }
                let (cnt, pr) = ((n * m) as f64, 1.0 - (-lambda * c.dt()).exp());
                let se = (cnt * pr * (1.0 - pr)).sqrt();
                // the number of arrivals and the number of steps without one, both within six standard errors of the Poisson law
                let small = 4.0 * f64::from(cnt * pr * (1.0 - pr) < 9.0) * f64::from(lambda > 0.0);
                ensure!((cnt - none as f64 - cnt * pr).abs() <= 6.0 * se + small, "{} of {cnt} steps jump, expected {}", cnt - none as f64, cnt * pr);
                let mean = cnt * lambda * c.dt();
                ensure!((total - mean).abs() <= 6.0 * mean.sqrt() + 4.0 * f64::from(mean < 9.0 && lambda > 0.0), "{total} jumps in {cnt} steps, expected {mean}");
                if cnt * pr > 30.0 && m > 3 && pr < 0.9 { ensure!(at.iter().any(|x| *x != at[0]), "all paths jump at the same times"); }
                // a diffusion x with nil jumps gives the increments
                let gb = MertonJumpDiffusion::new(0.0, 0.01, lambda, 0.0, tiny).generate(&Cfg { s: Sch::Euler, ..c }.mk());
                let dw: Vec<Vec<f64>> = gb.paths.iter().map(|p| p.windows(2).map(|w| (w[1] - w[0]) / (0.01 * w[0])).collect()).collect();
                let tr = MertonJumpDiffusion::new(0.05, 0.3, lambda, 2.5, tiny).generate(&c.mk());
                shape(&c, &tr)?;
                for (i, p) in tr.paths.iter().enumerate() { for j in 0..n {
                    let (want, tol) = step(c.s, &|x, _| 0.05 * x, &|x, _| (0.3 * x, 0.3), p[j], tr.times[j], c.dt(), dw[i][j]);
                    let want = want + 2.5 * at[i][j];
                    ensure!(close(p[j + 1], want, tol + 1e-10 * (1.0 + p[j].abs()), 0.0), "path {i} step {j}: {} -> {}, the scheme with jump {} gives {want}", p[j], p[j + 1], at[i][j]);
                } }
                w.outcome(hf(&[total]));
                Ok(())
            });
        } } } }
    });
    // the law of the increments
    ck.par(3 * 5, |w, i| {
        let (s, (t0, tn)) = (SCHEMES[i % 3], SPANS[i / 3]);
        for &seed in &seeds { for (n, m) in ck.pick(vec![(100usize, 100usize), (2, 4000), (4000, 2), (1000, 1000)], vec![(100, 100), (1, 20_000), (2, 4000), (3, 5000), (4000, 2), (300, 300), (2000, 3000)]) {
            let c = Cfg { x0: 0.0, t0, tn, n, m, par: true, seed, s };
            w.case("noise-law", || format!("{c:?}"), |w| {
                w.op();
                let sd = c.dt().sqrt();
                let z: Vec<Vec<f64>> = increments(|c| Fun(0, 1).generate(c), c).into_iter().map(|p| p.into_iter().map(|x| x / sd).collect()).collect();
                let all: Vec<f64> = z.iter().flatten().copied().collect();
                let nn = all.len() as f64;
                let mo = |k: i32| all.iter().map(|x| x.powi(k)).sum::<f64>() / nn;
                for (k, want, var) in [(1, 0.0, 1.0), (2, 1.0, 2.0), (3, 0.0, 15.0), (4, 3.0, 96.0)] {
                    ensure!((mo(k) - want).abs() <= 6.0 * f64::sqrt(var / nn), "moment {k} of the standardised increments is {}", mo(k));
                }
                let corr = |pairs: Vec<(f64, f64)>, what: &str| -> Res {
                    if pairs.len() < 100 { return Ok(()); }
                    let r = pairs.iter().map(|p| p.0 * p.1).sum::<f64>() / pairs.len() as f64;
                    ensure!(r.abs() <= 6.0 / (pairs.len() as f64).sqrt(), "correlation {r} of {what}");
                    Ok(())
                };
                for l in [1usize, 2, 3] { corr(z.iter().flat_map(|p| (l..p.len()).map(move |j| (p[j], p[j - l]))).collect(), "increments of one path")?; }
                for l in [0usize, 1] { corr((1..m).flat_map(|i| (l..n).map(move |j| (i, j))).map(|(i, j)| (z[i][j], z[i - 1][j - l])).collect(), "increments of neighbouring paths")?; }
                w.outcome(hf(&[mo(1), mo(2)]));
                Ok(())
            });
        } }
    });
    // two-factor processes: the returned coordinate follows its own equation when there is no noise
    ck.par(NF, |w, f| {
        for &n in &ns { for (t0, tn) in SPANS { for m in [1usize, 3] { for par in [false, true] { for &x0 in &x0s {
            w.case("two-factor", || format!("drift {f} [{t0},{tn}] {n} steps {m} paths parallel {par} from {x0}"), |w| {
                w.ops(n as u64);
                let c = Cfg { x0, t0, tn, n, m, par, seed: 0, s: Sch::Euler };
                let tr = Two(f).euler_maruyama(x0, 7.0, t0, tn, n, m, par);
                follow(&c, &tr, &vec![vec![0.0; n]; m], &|x, t| drift(f, x, t), &|_, _| (0.0, 0.0))
            });
        } } } } }
    });
    // with noise: the other coordinate is seen through its coefficient calls and gives the increments
    ck.par(NF, |w, f| {
        for g in 0..NF { for which in [1usize, 2] { for &n in ns.iter().filter(|n| **n > 1) { for (t0, tn) in SPANS { for m in [1usize, 3] { for &x0 in &x0s {
            w.case("two-factor-noise", || format!("coordinate {which} drift {f} diffusion {g} [{t0},{tn}] {n} steps {m} paths from {x0}"), |w| {
                w.ops((n * m) as u64);
                let p = Seen { f, g, which, x: Default::default(), y: Default::default() };
                let y0 = if which == 1 { 0.0 } else { x0 };
                let tr = p.euler_maruyama(if which == 1 { x0 } else { 0.0 }, y0, t0, tn, n, m, false);
                let c = Cfg { x0: if which == 1 { x0 } else { 0.0 }, t0, tn, n, m, par: false, seed: 0, s: Sch::Euler };
                shape(&c, &tr)?;
                let (px, py) = (p.x.into_inner().unwrap(), p.y.into_inner().unwrap());
                // a simulator that asks for its coefficients in another order hides the second coordinate
                if py.len() != n * m || px.len() != n * m || (0..m).any(|i| px[i * n..(i + 1) * n] != tr.paths[i][..n]) { return Ok(()); }
                for i in 0..m {
                    let y = &py[i * n..(i + 1) * n];
                    ensure!(y[0] == y0, "the second coordinate of path {i} starts at {}", y[0]);
                    // drive: the coordinate with drift 0 and diffusion 1; own: the one with the enumerated coefficients
                    let (drive, own) = if which == 1 { (y, &tr.paths[i][..n]) } else { (&tr.paths[i][..n], y) };
                    let top = drive.iter().fold(1.0, |m: f64, x| m.max(x.abs()));
                    for j in 0..n - 1 {
                        let (b, _) = diffusion(g, own[j], tr.times[j]);
                        let (want, tol) = step(Sch::Euler, &|x, t| drift(f, x, t), &|x, t| diffusion(g, x, t), own[j], tr.times[j], c.dt(), drive[j + 1] - drive[j]);
                        if !want.is_finite() { break; }
                        ensure!(close(own[j + 1], want, tol + 1e-12 * top * (1.0 + b.abs()), 0.0), "path {i} step {j}: {} -> {}, the scheme gives {want}", own[j], own[j + 1]);
                    }
                }
                if m > 1 { let p = if which == 1 { &py } else { &px }; ensure!(p[1] != p[n + 1], "two paths share their noise"); }
                Ok(())
            });
        } } } } } }
    });
    // the spread of those increments, which come from an unseeded generator: bounds eleven standard errors wide
    ck.par(3, |w, i| for (t0, tn) in SPANS {
        let (n, m) = [(1000usize, 100usize), (2, 50_000), (100_000, 1)][i];
        w.case("two-factor-law", || format!("[{t0},{tn}] {n} steps {m} paths"), |w| {
            w.ops((n * m) as u64);
            let p = Seen { f: 0, g: 1, which: 1, x: Default::default(), y: Default::default() };
            let tr = p.euler_maruyama(0.0, 0.0, t0, tn, n, m, false);
            let sd = ((tn - t0) / n as f64).sqrt();
            let z: Vec<f64> = tr.paths.iter().flat_map(|p| p.windows(2).map(|w| (w[1] - w[0]) / sd).collect::<Vec<_>>()).collect();
            let nn = z.len() as f64;
            let (m1, m2) = (z.iter().sum::<f64>() / nn, z.iter().map(|x| x * x).sum::<f64>() / nn);
            ensure!(m1.abs() < 11.0 / nn.sqrt() && (m2 - 1.0).abs() < 11.0 * (2.0 / nn).sqrt(), "standardised increments of mean {m1} and second moment {m2}");
            Ok(())
        });
    });
    ck.seq(|w| for (t0, tn) in [(0.0, 0.0), (1.0, 0.5), (2.0, -3.0)] { for s in SCHEMES {
        w.case("reversed-interval", || format!("[{t0},{tn}] {s:?}"), |w| {
            w.op();
            let c = Cfg { x0: 1.0, t0, tn, n: 3, m: 2, par: false, seed: 1, s };
            ensure!(refuses(|| Fun(1, 1).generate(&c.mk())).is_err(), "simulated over an empty or reversed interval");
            Ok(())
        });
    } });
}
/// Two coordinates of which one (`which`) has the enumerated coefficients and the other drift 0 and diffusion 1; every
/// value at which coefficients are evaluated is recorded.
struct Seen { f: usize, g: usize, which: usize, x: Mutex<Vec<f64>>, y: Mutex<Vec<f64>> }
impl StochasticVolatilityProcess for Seen {
    fn drift_1(&self, x: f64, t: f64) -> f64 { self.x.lock().unwrap().push(x); if self.which == 1 { drift(self.f, x, t) } else { 0.0 } }
    fn diffusion_1(&self, x: f64, t: f64) -> f64 { if self.which == 1 { diffusion(self.g, x, t).0 } else { 1.0 } }
    fn drift_2(&self, y: f64, t: f64) -> f64 { self.y.lock().unwrap().push(y); if self.which == 2 { drift(self.f, y, t) } else { 0.0 } }
    fn diffusion_2(&self, y: f64, t: f64) -> f64 { if self.which == 2 { diffusion(self.g, y, t).0 } else { 1.0 } }
}
struct Two(usize);
impl StochasticVolatilityProcess for Two {
    fn drift_1(&self, x: f64, t: f64) -> f64 { drift(self.0, x, t) }
    fn drift_2(&self, x: f64, _t: f64) -> f64 { 100.0 - x }
    fn diffusion_1(&self, _x: f64, _t: f64) -> f64 { 0.0 }
    fn diffusion_2(&self, x: f64, _t: f64) -> f64 { x }
}

// ---------------------------------------------------------------- S02
struct GState { slots: Vec<(ThreadId, usize)>, waiting: Vec<ThreadId>, grant: Option<ThreadId>, done: bool }
struct Gate { st: Mutex<GState>, cv: Condvar }
impl Gate {
    fn enter(&self) {
        let me = std::thread::current().id();
        let mut g = self.st.lock().unwrap();
        g.waiting.push(me);
        self.cv.notify_all();
        while g.grant != Some(me) { g = self.cv.wait(g).unwrap(); }
        g.grant = None;
        g.waiting.retain(|x| *x != me);
        self.cv.notify_all();
    }
}
/// A process whose coefficient callbacks wait for the scheduler.
struct Gated<'a> { gate: Option<&'a Gate>, calls: &'a AtomicUsize, both: bool, f: usize, g: usize }
impl StochasticProcess for Gated<'_> {
    fn drift(&self, x: f64, t: f64) -> f64 { self.calls.fetch_add(1, SeqCst); if let Some(g) = self.gate { g.enter(); } drift(self.f, x, t) }
    fn diffusion(&self, x: f64, t: f64) -> f64 { if self.both { self.calls.fetch_add(1, SeqCst); if let Some(g) = self.gate { g.enter(); } } diffusion(self.g, x, t).0 }
    fn jump(&self, _x: f64, _t: f64) -> Option<f64> { None }
}
/// Executes one schedule: at every step the prefix (then always 0) picks among the waiting paths.
/// Returns the result, the choices made, the number of alternatives at each, and whether concurrency was ever below full.
fn schedule(pool: &rayon::ThreadPool, c: Cfg, gates: usize, both: bool, f: usize, g: usize, prefix: &[usize]) -> (Vec<Vec<f64>>, Vec<usize>, Vec<usize>, bool) {
    let gate = Gate { st: Mutex::new(GState { slots: vec![], waiting: vec![], grant: None, done: false }), cv: Condvar::new() };
    let calls = AtomicUsize::new(0);
    let p = Gated { gate: Some(&gate), calls: &calls, both, f, g };
    let (mut choices, mut alts, mut reduced) = (vec![], vec![], false);
    let mut out = vec![];
    std::thread::scope(|s| {
        let run = s.spawn(|| {
            let r = pool.install(|| p.generate(&c.mk()).paths);
            gate.st.lock().unwrap().done = true;
            gate.cv.notify_all();
            r
        });
        let mut left = c.m;
        loop {
            let mut st = gate.st.lock().unwrap();
            let t = Instant::now();
            while !st.done && (st.grant.is_some() || st.waiting.is_empty() || st.waiting.len() < left) {
                if st.grant.is_none() && !st.waiting.is_empty() && t.elapsed() > Wall::from_millis(500) { reduced = true; break; }
                st = gate.cv.wait_timeout(st, Wall::from_millis(20)).unwrap().0;
            }
            if st.done { break; }
            // name newly seen paths in order of arrival
            let new: Vec<ThreadId> = st.waiting.iter().copied().filter(|x| !st.slots.iter().any(|s| s.0 == *x)).collect();
            for x in new { st.slots.push((x, 0)); }
            // paths that have not taken a step yet are interchangeable
            let mut opts: Vec<usize> = vec![];
            let mut fresh = false;
            for k in 0..st.slots.len() {
                let (id, prog) = st.slots[k];
                if !st.waiting.contains(&id) { continue; }
                if prog == 0 { if fresh { continue; } fresh = true; }
                opts.push(k);
            }
            let ch = prefix.get(choices.len()).copied().unwrap_or(0).min(opts.len() - 1);
            alts.push(opts.len());
            choices.push(ch);
            let k = opts[ch];
            let id = st.slots[k].0;
            st.slots[k].1 += 1;
            if st.slots[k].1 == gates { left = left.saturating_sub(1); st.slots.remove(k); }
            st.grant = Some(id);
            gate.cv.notify_all();
        }
        out = run.join().unwrap();
    });
    (out, choices, alts, reduced)
}
fn s02(ck: &Ck) {
    ck.assume("scheduling points are the calls of the process's drift and diffusion; between two of them a path's worker runs without interruption. Paths that have not taken a step are interchangeable for the scheduler");
    ck.assume("jump sizes of the Merton process are compared with their variance at zero, because the process draws them from an unseeded generator (a known finding)");
    // controlled schedules on the real simulation
    let cfgs: Vec<(usize, usize, bool)> = ck.pick(
        vec![(2, 1, true), (2, 2, true), (2, 3, true), (3, 1, true), (3, 2, false), (4, 1, false), (4, 1, true)],
        vec![(2, 1, true), (2, 2, true), (2, 3, true), (2, 4, true), (2, 6, false), (3, 1, true), (3, 2, false), (3, 3, false), (3, 2, true), (4, 1, false), (4, 1, true), (4, 2, false), (5, 1, false), (5, 1, true)]);
    ck.par(cfgs.len() * 3, |w, i| {
        let ((m, n, both), s) = (cfgs[i / 3], SCHEMES[i % 3]);
        // calls of the coefficients made by one path, measured on the code
        let per_path = |n: usize, both: bool| -> usize {
            let calls = AtomicUsize::new(0);
            Gated { gate: None, calls: &calls, both, f: 5, g: 4 }.generate(&Cfg { x0: 1.5, t0: 0.0, tn: 0.7, n, m: 1, par: false, seed: 77, s }.mk());
            calls.load(SeqCst)
        };
        // keep the number of schedules per configuration within reach
        let lim = ck.pick(3_000.0, 60_000.0);
        let count = |m: usize, g: usize| -> f64 { let mut x = 1.0f64; let mut tot = 0; for p in 0..m { for q in 1..=g { tot += 1; x *= tot as f64 / q as f64; } x /= (p + 1) as f64; } x };
        let (mut n, mut both) = (n, both);
        if count(m, per_path(n, both)) > lim { both = false; }
        while count(m, per_path(n, both)) > lim && n > 1 { n -= 1; }
        let gates = per_path(n, both);
        if count(m, gates) > lim || gates == 0 { ck.assume(&format!("{m} paths of {s:?} make too many calls to enumerate their schedules")); return; }
        let pool = ThreadPoolBuilder::new().num_threads(m).build().unwrap();
        let c = Cfg { x0: 1.5, t0: 0.0, tn: 0.7, n, m, par: true, seed: 77, s };
        let calls = AtomicUsize::new(0);
        let want = Gated { gate: None, calls: &calls, both, f: 5, g: 4 }.generate(&Cfg { par: false, ..c }.mk()).paths;
        let mut prefix: Vec<usize> = vec![];
        let mut lost = 0u64;
        loop {
            let mut next = None;
            // a replay names a schedule by its choices; enumeration order is the same in every run
            let key = format!("{c:?} gates at {} schedule {prefix:?}", if both { "drift and diffusion" } else { "drift" });
            let mut ran = None;
            w.case("schedules", || key.clone(), |w| {
                let (got, ch, alts, reduced) = schedule(&pool, c, gates, both, 5, 4, &prefix);
                w.ops(ch.len() as u64);
                w.outcome(h(&ch));
                ran = Some((ch.clone(), alts.clone(), reduced));
                for i in 0..m { for j in 0..=n {
                    ensure!(got[i][j].to_bits() == want[i][j].to_bits(), "path {i} value {j}: {} under schedule {ch:?}, {} sequentially", got[i][j], want[i][j]);
                } }
                Ok(())
            });
            let (ch, alts) = match ran { Some((c, a, r)) => { lost += r as u64; (c, a) } None => {
                // filtered out by a replay: still needed to walk the tree
                let (_, c2, a2, _) = schedule(&pool, c, gates, both, 5, 4, &prefix); (c2, a2)
            } };
            for k in (0..ch.len()).rev() {
                if ch[k] + 1 < alts[k] { let mut p = ch[..k].to_vec(); p.push(ch[k] + 1); next = Some(p); break; }
            }
            match next { Some(p) => prefix = p, None => break }
        }
        if lost > 0 { ck.assume(&format!("{lost} schedules of {m} paths ran with fewer paths in flight than asked for")); }
    });
    // pool sizes, path counts and processes
    type Gen = Box<dyn Fn(&StochasticProcessConfig) -> Trajectories + Send + Sync>;
    let procs: Vec<(&str, fn() -> Gen)> = vec![
        ("functions", || Box::new(|c| Fun(5, 4).generate(c))),
        ("Brownian", || Box::new(|c| BrownianMotion::new().generate(c))),
        ("geometric Brownian", || Box::new(|c| GeometricBrownianMotion::new(0.1, 0.2).generate(c))),
        ("Cox-Ingersoll-Ross", || Box::new(|c| CoxIngersollRoss::new(1.0, 0.1, 0.5).generate(c))),
        ("Ornstein-Uhlenbeck", || Box::new(|c| OrnsteinUhlenbeck::new(1.0, 0.1, 0.5).generate(c))),
        ("fractional Brownian, Cholesky", || Box::new(|c| FractionalBrownianMotion::new(0.7, FractionalProcessGeneratorMethod::CHOLESKY).generate(c))),
        ("fractional Brownian, FFT", || Box::new(|c| FractionalBrownianMotion::new(0.3, FractionalProcessGeneratorMethod::FFT).generate(c))),
        ("fractional Ornstein-Uhlenbeck", || Box::new(|c| FractionalOrnsteinUhlenbeck::new(1.0, 0.2, 0.3, 0.8, FractionalProcessGeneratorMethod::FFT).generate(c))),
        ("fractional Cox-Ingersoll-Ross", || Box::new(|c| FractionalCoxIngersollRoss::new(1.0, 0.1, 0.3, 0.6, FractionalProcessGeneratorMethod::CHOLESKY).generate(c))),
        ("Merton with jumps of one size", || Box::new(|c| MertonJumpDiffusion::new(0.1, 0.2, 3.0, 0.4, 1e-300).generate(c))),
    ];
    let pools: Vec<rayon::ThreadPool> = (1..=ck.pick(8, 16)).map(|k| ThreadPoolBuilder::new().num_threads(k).build().unwrap()).collect();
    let ms = ck.pick(vec![1usize, 2, 3, 4, 7, 8, 9, 16, 33, 65, 130, 300, 1030], (1..=66).chain([100, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1023, 1025, 2049, 4097, 10_001]).collect());
    ck.par(procs.len() * 3, |w, i| {
        let ((name, mk), s) = (procs[i / 3], SCHEMES[i % 3]);
        for &m in &ms { for (n, seed) in [(1usize, 5u64), (6, 0), (6, u64::MAX)] { for (t0, tn) in [(0.0, 1.0), (0.5, 0.8)] {
            if m > 64 && (n == 1) == (t0 == 0.0) { continue; }
            let c = Cfg { x0: 1.0, t0, tn, n, m, par: false, seed, s };
            let gen = mk();
            let want = gen(&c.mk());
            let same = |a: &Trajectories, what: &str| -> Res {
                ensure!(a.times == want.times, "times differ {what}");
                for i in 0..m { for j in 0..=n { ensure!(a.paths[i][j].to_bits() == want.paths[i][j].to_bits(), "path {i} value {j}: {} {what}, {} sequentially", a.paths[i][j], want.paths[i][j]); } }
                Ok(())
            };
            w.case("reproducible", || format!("{name} {c:?}"), |w| {
                w.ops(2);
                same(&gen(&c.mk()), "when run again")?;
                let other = gen(&Cfg { seed: seed ^ 0xABCD_EF00_0000, ..c }.mk());
                ensure!(other.paths.iter().any(|p| !want.paths.contains(p)), "another seed gives the same paths");
                let mut seen = std::collections::HashMap::new();
                for i in 0..m { if let Some(j) = seen.insert(want.paths[i].iter().map(|x| x.to_bits()).collect::<Vec<_>>(), i) { return fail(&format!("paths {j} and {i} are the same")); } }
                for i in 1..m { for j in 0..n {
                    let inc = |k: usize| want.paths[k][j + 1] - want.paths[k][j];
                    ensure!(j > 0 || inc(i).to_bits() != inc(0).to_bits() || want.paths[i][j] != want.paths[0][j], "paths 0 and {i} take the same step {j}");
                } }
                w.outcome(hf(&[want.paths[0][n]]));
                Ok(())
            });
            for (k, pool) in pools.iter().enumerate() {
                w.case("pool-sizes", || format!("{name} {c:?} on {} threads", k + 1), |w| {
                    w.op();
                    let got = pool.install(|| gen(&Cfg { par: true, ..c }.mk()));
                    same(&got, &format!("on {} threads", k + 1))?;
                    w.outcome(hf(&[got.paths[m - 1][n]]));
                    Ok(())
                });
            }
        } } }
    });
    ck.seq(|w| for par in [false, true] {
        w.case("jump-sizes", || format!("Merton, jump sizes of variance 0.3, parallel {par}"), |w| {
            w.ops(2);
            let c = Cfg { x0: 10.0, t0: 0.0, tn: 1.0, n: 20, m: 5, par, seed: 3, s: Sch::Euler };
            let p = MertonJumpDiffusion::new(0.1, 0.2, 10.0, 0.0, 0.3);
            if p.generate(&c.mk()).paths != p.generate(&c.mk()).paths { w.known("merton-jump-sizes-unseeded", || "two runs with the same seed differ in their jump sizes".into())?; }
            Ok(())
        });
    });
}

// ---------------------------------------------------------------- S03
type TF = fn(f64) -> f64;
/// Parameter functions with exact derivatives.
const TFS: [(&str, TF, TF); 6] = [
    ("0.3", |_| 0.3, |_| 0.0), ("0", |_| 0.0, |_| 0.0), ("1.7", |_| 1.7, |_| 0.0),
    ("0.2+0.5t", |t| 0.2 + 0.5 * t, |_| 0.5), ("exp(-t)", |t| (-t).exp(), |t| -(-t).exp()), ("2+sin t", |t| 2.0 + t.sin(), |t| t.cos()),
];
fn s03(ck: &Ck) {
    ck.assume("the documented equations of the source; the Heston process (todo!() in the code) has no coefficients to check; the Black-Derman-Toy process is that of the logarithm of the rate, its derivative of sigma may be approximated to 1e-6");
    ck.assume("negative volatilities are refused by the processes that say they do; the interest-rate processes without that check are only given non-negative ones");
    let mut xs = ck.pick(vec![1e-9, 1e-3, 0.01, 0.04, 0.2, 0.5, 1.0, 1.5, 3.0, 10.0, 100.0, 1e6], (-90..=60).map(|i| 10f64.powf(i as f64 / 10.0)).collect());
    let mut ts = ck.pick(vec![0.0, 1e-3, 0.1, 0.5, 1.0, 2.5, 4.0, 10.0], (0..=80).map(|i| i as f64 / 8.0).collect());
    // states at and below zero, and times just before the bridge's end
    xs.extend([0.0, -0.5, -1e-9, -1e3]);
    ts.extend([10.99, 10.999999, 11.0 - 1e-10]);
    type Spec = (&'static str, fn(&[TF]) -> Box<dyn StochasticProcess>, fn(&[f64], &[f64], f64, f64) -> (f64, f64), usize);
    use FractionalProcessGeneratorMethod::CHOLESKY;
    // name, constructor from parameter functions, (values, derivatives, x, t) -> (drift, diffusion), number of parameters
    let specs: Vec<Spec> = vec![
        ("arithmetic Brownian (mu, sigma)", |p| Box::new(ArithmeticBrownianMotion::new(p[0], p[1])), |v, _, _, _| (v[0], v[1]), 2),
        ("Brownian", |_| Box::new(BrownianMotion::new()), |_, _, _, _| (0.0, 1.0), 0),
        ("geometric Brownian (mu, sigma)", |p| Box::new(GeometricBrownianMotion::new(p[0], p[1])), |v, _, x, _| (v[0] * x, v[1] * x), 2),
        ("elasticity of variance (mu, sigma, 0.3)", |p| Box::new(ConstantElasticityOfVariance::new(p[0], p[1], 0.3)), |v, _, x, _| (v[0] * x, v[1] * x.powf(0.3)), 2),
        ("elasticity of variance (mu, sigma, 0.5+0.04t)", |p| Box::new(ConstantElasticityOfVariance::new(p[0], p[1], |t: f64| 0.5 + 0.04 * t)), |v, _, x, t| (v[0] * x, v[1] * x.powf(0.5 + 0.04 * t)), 2),
        ("Cox-Ingersoll-Ross (mu, sigma, theta)", |p| Box::new(CoxIngersollRoss::new(p[0], p[1], p[2])), |v, _, x, _| (v[2] * (v[0] - x), v[1] * x.sqrt()), 3),
        ("Ornstein-Uhlenbeck (mu, sigma, theta)", |p| Box::new(OrnsteinUhlenbeck::new(p[0], p[1], p[2])), |v, _, x, _| (v[2] * (v[0] - x), v[1]), 3),
        ("Hull-White (alpha, sigma, theta)", |p| Box::new(HullWhite::new(p[0], p[1], p[2])), |v, _, x, _| (v[2] - v[0] * x, v[1]), 3),
        ("extended Vasicek (alpha, sigma, theta)", |p| Box::new(ExtendedVasicek::new(p[0], p[1], p[2])), |v, _, x, _| (v[2] - v[0] * x, v[1]), 3),
        ("Ho-Lee (sigma, theta)", |p| Box::new(HoLee::new(p[0], p[1])), |v, _, _, _| (v[1], v[0]), 2),
        ("Black-Derman-Toy (sigma, theta)", |p| Box::new(BlackDermanToy::new(p[0], p[1])), |v, d, x, _| (v[1] + d[0] / v[0] * x, v[0]), 2),
        ("geometric bridge (mu, sigma) to 7 at 11", |p| Box::new(GeometricBrownianBridge::new(p[0], p[1], 7.0, 11.0)), |v, _, x, t| (v[0] * x + (7f64.ln() - x.ln()) / (11.0 - t) * x, v[1] * x), 2),
        ("fractional Brownian", |_| Box::new(FractionalBrownianMotion::new(0.7, CHOLESKY)), |_, _, _, _| (0.0, 1.0), 0),
        ("fractional Ornstein-Uhlenbeck (mu, sigma, theta)", |p| Box::new(FractionalOrnsteinUhlenbeck::new(p[0], p[1], p[2], 0.3, CHOLESKY)), |v, _, x, _| (v[2] * (v[0] - x), v[1]), 3),
        ("fractional Cox-Ingersoll-Ross (mu, sigma, theta)", |p| Box::new(FractionalCoxIngersollRoss::new(p[0], p[1], p[2], 0.3, CHOLESKY)), |v, _, x, _| (v[2] * (v[0] - x), v[1] * x.sqrt()), 3),
        ("Merton (mu, sigma, lambda)", |p| Box::new(MertonJumpDiffusion::new(p[0], p[1], p[2], 0.25, 1e-300)), |v, _, x, _| (v[0] * x, v[1] * x), 3),
    ];
    // constant parameters given as numbers rather than functions, over a grid of values including negative drifts
    ck.par(specs.len(), |w, i| {
        let (name, mk, co, np) = specs[i];
        let mut tf = vec![];
        rqmc::words(TFS.len(), np, &mut |v| tf.push(v.to_vec()));
        for word in &tf {
            let bdt = name.starts_with("Black-Derman");
            if bdt && TFS[word[0]].0 == "0" { continue; }
            let fs: Vec<TF> = word.iter().map(|&k| TFS[k].1).collect();
            let p = mk(&fs);
            for &t in &ts { for &x in &xs {
                w.case("coefficients", || format!("{name} with {:?} at x={x} t={t}", word.iter().map(|&k| TFS[k].0).collect::<Vec<_>>()), |w| {
                    w.ops(3);
                    let v: Vec<f64> = word.iter().map(|&k| TFS[k].1(t)).collect();
                    let d: Vec<f64> = word.iter().map(|&k| TFS[k].2(t)).collect();
                    let (a, b) = co(&v, &d, x, t);
                    let (ga, gb) = (p.drift(x, t), p.diffusion(x, t));
                    let prop = name.starts_with("geometric") || name.starts_with("elasticity") || name.starts_with("Merton");
                    let tol = if bdt { 1e-6 * (1.0 + x.abs() / v[0]) } else if prop { 1e-290 } else { 1e-12 * (1.0 + x.abs()) };
                    ensure!(close(ga, a, tol, 1e-12), "drift {ga}, equation {a}");
                    ensure!(close(gb, b, 1e-290, 1e-12), "diffusion {gb}, equation {b}");
                    match p.jump(x, t) {
                        None => ensure!(!name.starts_with("Merton"), "a jump process without jumps"),
                        Some(j) => ensure!(if name.starts_with("Merton") { j == 0.25 } else { j == 0.0 }, "jump {j}"),
                    }
                    w.state(hf(&[i as f64, x, t]));
                    w.outcome(hf(&[ga, gb]));
                    Ok(())
                });
            } }
            // the declared parameters at time zero, in the constructor's order
            w.case("parameters", || format!("{name} with {:?}", word.iter().map(|&k| TFS[k].0).collect::<Vec<_>>()), |w| {
                w.op();
                let mut want: Vec<f64> = word.iter().map(|&k| TFS[k].1(0.0)).collect();
                match name.split(' ').next().unwrap() { "fractional" => want.push(if np == 0 { 0.7 } else { 0.3 }), "elasticity" => want.push(if name.contains("0.04") { 0.5 } else { 0.3 }), "geometric" if name.contains("bridge") => want.extend([7.0, 11.0]), _ => {} }
                ensure!(p.parameters() == want, "parameters {:?} instead of {want:?}", p.parameters());
                if name.starts_with("geometric Brownian") || name.starts_with("geometric (") { let g = GeometricBrownianMotion::new(fs[0], fs[1]); ensure!(g.parameters() == want && g.unpack() == (want[0], want[1]), "own parameters {:?} and {:?} instead of {want:?}", g.parameters(), g.unpack()); }
                Ok(())
            });
        }
    });
    let cs = [-0.7, -0.05, 0.0, 0.05, 0.2, 1.0, 1.001, 4.0];
    ck.par(cs.len() * cs.len(), |w, i| {
        let (m, s) = (cs[i % cs.len()], cs[i / cs.len()]);
        for th in cs { for &x in &xs { for &t in &ts {
            w.case("constants", || format!("mu {m} sigma {s} theta {th} x={x} t={t}"), |w| {
                w.ops(20);
                let r = |name: &str, f: &dyn Fn() -> (f64, f64), a: f64, b: f64, may: bool| -> Res {
                    match refuses(f) {
                        Ok((ga, gb)) => { ensure!(!may, "{name}: a negative volatility (or drift that must not be negative) is accepted"); ensure!(close(ga, a, 1e-13 * (1.0 + x), 1e-12), "{name}: drift {ga}, equation {a}"); ensure!(close(gb, b, 1e-290, 1e-12), "{name}: diffusion {gb}, equation {b}"); }
                        Err(e) => ensure!(may, "{name} refused: {e}"),
                    }
                    Ok(())
                };
                let neg = s < 0.0;
                macro_rules! p { ($e:expr) => { &|| { let p = $e; (p.drift(x, t), p.diffusion(x, t)) } } }
                r("arithmetic", p!(ArithmeticBrownianMotion::new(m, s)), m, s, neg)?;
                r("geometric", p!(GeometricBrownianMotion::new(m, s)), m * x, s * x, neg)?;
                r("Ornstein-Uhlenbeck", p!(OrnsteinUhlenbeck::new(m, s, th)), th * (m - x), s, neg)?;
                r("Cox-Ingersoll-Ross", p!(CoxIngersollRoss::new(m, s, th)), th * (m - x), s * x.sqrt(), neg)?;
                r("bridge", p!(GeometricBrownianBridge::new(m, s, 2.0, 20.0)), m * x + (2f64.ln() - x.ln()) / (20.0 - t) * x, s * x, neg)?;
                r("Ho-Lee", p!(HoLee::new(s, th)), th, s, neg || th < 0.0)?;
                r("Merton", p!(MertonJumpDiffusion::new(m, s, 1.0, 0.0, 0.1)), m * x, s * x, neg)?;
                r("fractional Ornstein-Uhlenbeck", p!(FractionalOrnsteinUhlenbeck::new(m, s, th, 0.4, CHOLESKY)), th * (m - x), s, neg)?;
                r("elasticity", p!(ConstantElasticityOfVariance::new(m, s, th)), m * x, s * x.powf(th), neg || !(0.0..=1.0).contains(&th))?;
                if !neg {
                    r("Hull-White", p!(HullWhite::new(m, s, th)), th - m * x, s, false)?;
                    r("extended Vasicek", p!(ExtendedVasicek::new(m, s, th)), th - m * x, s, false)?;
                    r("fractional Cox-Ingersoll-Ross", p!(FractionalCoxIngersollRoss::new(m, s, th, 0.4, CHOLESKY)), th * (m - x), s * x.sqrt(), false)?;
                }
                Ok(())
            });
        } } }
    });
    ck.seq(|w| for hh in [-0.1, -1e-9, 0.0, 0.3, 1.0, 1.0 + 1e-9, 2.0] {
        w.case("hurst", || format!("hurst {hh}"), |w| {
            w.ops(3);
            let ok = (0.0..=1.0).contains(&hh);
            ensure!(refuses(|| FractionalBrownianMotion::new(hh, CHOLESKY)).is_ok() == ok, "fractional Brownian");
            ensure!(refuses(|| FractionalOrnsteinUhlenbeck::new(0.1, 0.1, 0.1, hh, CHOLESKY)).is_ok() == ok, "fractional Ornstein-Uhlenbeck");
            ensure!(refuses(|| FractionalCoxIngersollRoss::new(0.1, 0.1, 0.1, hh, CHOLESKY)).is_ok() == ok, "fractional Cox-Ingersoll-Ross");
            Ok(())
        });
    });
}

// ---------------------------------------------------------------- S04
/// Runs `f` so that the date does not change under it.
fn on_today<T>(f: impl Fn(Date) -> T) -> T {
    loop { let d = today(); let r = f(d); if today() == d { return r; } }
}
fn s04(ck: &Ck) {
    ck.assume("rates are in percent and time is days over 365.25 from today, as the code defines them; decay times are positive");
    let bs = [-3.0, 0.0, 1.5, 4.0];
    let ls = ck.pick(vec![0.05, 0.3, 0.7, 1.0, 2.5, 5.0, 8.0, 30.0, 1e4, 1e9], vec![0.01, 0.05, 0.1, 0.3, 0.5, 0.7, 1.0, 1.5, 2.0, 2.5, 4.0, 5.0, 8.0, 12.0, 30.0, 100.0, 1e4, 1e6, 1e9, 1e12]);
    let ds = ck.pick(vec![1i64, 2, 3, 7, 30, 90, 182, 365, 366, 730, 1096, 1826, 3652, 7305, 10_957, 21_915], (1..=1500i64).chain([1826, 3652, 7305, 10_957, 21_915]).collect());
    ck.par(256, |w, i| {
        let b: Vec<f64> = (0..4).map(|k| bs[(i >> (2 * k)) & 3]).collect();
        for &l1 in &ls { for &l2 in &ls {
            let m = NelsonSiegelSvensson::new(b[0], b[1], b[2], b[3], l1, l2);
            for &n in &ds {
                w.case("curve", || format!("{m:?} {n} days"), |w| {
                    w.ops(3);
                    let tau = n as f64 / 365.25;
                    let (f, s, d) = on_today(|t| { let x = t + Duration::days(n); (m.forward_rate(x), m.spot_rate(x), m.discount_factor(x)) });
                    let fw = |u: f64| b[0] + (b[1] + b[2] * u / l1) * (-u / l1).exp() + b[3] * u / l2 * (-u / l2).exp();
                    // the spot rate is the average of the forward rate: five-point Gauss-Legendre on fine panels
                    let (xs, ws) = ([0.0, 0.538_469_310_105_683, 0.906_179_845_938_664], [0.568_888_888_888_889, 0.478_628_670_499_366, 0.236_926_885_056_189]);
                    let np = ((tau / l1.min(l2)).ceil() as usize * 2).clamp(4, 4000);
                    let hh = tau / np as f64;
                    let int: f64 = (0..np).map(|k| { let c = (k as f64 + 0.5) * hh; let mut a = ws[0] * fw(c); for q in 1..3 { a += ws[q] * (fw(c + xs[q] * hh / 2.0) + fw(c - xs[q] * hh / 2.0)); } a * hh / 2.0 }).sum();
                    ensure!(close(f, fw(tau), 1e-11, 1e-11), "forward {f}, formula {}", fw(tau));
                    ensure!(close(s, int / tau, 2e-9, 1e-9), "spot {s}, average of the forward rate {}", int / tau);
                    ensure!(close(d, (-s * tau / 100.0).exp(), 1e-13, 1e-12), "discount {d} at spot {s}");
                    w.state(hf(&[i as f64, l1, l2, tau]));
                    w.outcome(hf(&[f, s]));
                    Ok(())
                });
            }
            for n in [0i64, -1, -400] {
                w.case("past", || format!("{m:?} {n} days"), |w| {
                    w.ops(3);
                    let r = on_today(|t| { let x = t + Duration::days(n); [refuses(|| m.forward_rate(x)).is_err(), refuses(|| m.spot_rate(x)).is_err(), refuses(|| m.discount_factor(x)).is_err() || n == 0] });
                    ensure!(r == [true; 3], "a date that is not in the future is accepted");
                    Ok(())
                });
            }
        } }
    });
}

// ---------------------------------------------------------------- S05
fn acf(hh: f64, k: usize) -> f64 {
    let k = k as f64;
    0.5 * ((k + 1.0).powf(2.0 * hh) - 2.0 * k.powf(2.0 * hh) + (k - 1.0).abs().powf(2.0 * hh))
}
/// Lower Cholesky factor of the Toeplitz covariance.
fn chol(hh: f64, n: usize) -> Vec<Vec<f64>> {
    let mut l = vec![vec![0.0; n]; n];
    for i in 0..n { for j in 0..=i {
        let s: f64 = (0..j).map(|k| l[i][k] * l[j][k]).sum();
        l[i][j] = if i == j { (acf(hh, 0) - s).sqrt() } else { (acf(hh, i - j) - s) / l[j][j] };
    } }
    l
}
fn s05(ck: &Ck) {
    ck.assume("fractional Gaussian noise over n steps of a horizon T: covariance (T/n)^2H times the autocovariance of unit fractional noise; statistical parts use all seeds of a fixed range and six standard errors");
    let hs = ck.pick(vec![0.05, 0.1, 0.3, 0.5, 0.7, 0.9, 0.97], vec![0.02, 0.05, 0.1, 0.2, 0.3, 0.4, 0.45, 0.5, 0.55, 0.6, 0.7, 0.75, 0.8, 0.9, 0.97, 0.99]);
    let ns = ck.pick(vec![1usize, 2, 3, 5, 16, 64, 130], vec![1, 2, 3, 4, 5, 8, 16, 31, 64, 65, 130, 200]);
    let tns = [0.01, 0.5, 1.0, 3.0, 40.0];
    // Cholesky method: an exact linear map of the seed's white noise
    ck.par(hs.len() * ns.len(), |w, i| {
        let (hh, n) = (hs[i % hs.len()], ns[i / hs.len()]);
        let l = chol(hh, n);
        for seed in 0..ck.pick(20u64, 100) { for tn in tns {
            w.case("cholesky", || format!("hurst {hh} {n} steps horizon {tn} seed {seed}"), |w| {
                w.op();
                let sd = (tn / n as f64).sqrt();
                let z: Vec<f64> = fgn_cholesky(0.5, n, tn, Some(seed)).iter().map(|x| x / sd).collect();
                let got = fgn_cholesky(hh, n, tn, Some(seed));
                ensure!(z.len() == n && got.len() == n, "{} values for {n} steps", got.len());
                let sc = (tn / n as f64).powf(hh);
                for j in 0..n {
                    let want = sc * (0..=j).map(|k| l[j][k] * z[k]).sum::<f64>();
                    ensure!(close(got[j], want, 1e-9 * sc, 1e-9), "value {j} is {}, the factor of the covariance gives {want}", got[j]);
                }
                w.outcome(hf(&got));
                Ok(())
            });
        } }
    });
    // whatever the persistence and the number of steps, the spectral noise is finite (its eigenvalues are rounded)
    let eh = [0.0, 1e-9, 0.01, 0.5, 0.9, 0.97, 0.99, 0.999, 0.99999, 1.0];
    let en: Vec<usize> = ck.pick(vec![1, 2, 3, 7, 64, 1000, 1 << 17], (1..=20).map(|k| 1usize << k).chain([3, 7, 1000, 99_999, 1_000_000]).collect());
    ck.par(eh.len() * en.len(), |w, i| {
        let (hh, n) = (eh[i % eh.len()], en[i / eh.len()]);
        w.case("spectral-finite", || format!("hurst {hh} {n} steps"), |w| {
            w.op();
            let v = fgn_fft(hh, n, 1.0, Some(3));
            ensure!(v.len() == n, "{} values for {n} steps", v.len());
            // the largest of n standard normal steps of size n^-H
            let bound = 8.0 * (n as f64).powf(-hh);
            for (j, x) in v.iter().enumerate() { ensure!(x.abs() <= bound, "value {j} is {x}, eight standard deviations are {bound}"); }
            w.outcome(hf(&v[..1]));
            Ok(())
        });
    });
    // spectral method: exact scaling in the horizon, covariance over all seeds of a range
    let ns2 = ck.pick(vec![1usize, 2, 3, 6], vec![1, 2, 3, 4, 6, 9, 16]);
    ck.par(hs.len() * ns2.len(), |w, i| {
        let (hh, n) = (hs[i % hs.len()], ns2[i / hs.len()]);
        for seed in 0..20u64 { for tn in tns {
            w.case("spectral-scaling", || format!("hurst {hh} {n} steps horizon {tn} seed {seed}"), |w| {
                w.op();
                let (a, b) = (fgn_fft(hh, n, 1.0, Some(seed)), fgn_fft(hh, n, tn, Some(seed)));
                ensure!(a.len() == n && b.len() == n, "{} values for {n} steps", b.len());
                for j in 0..n { ensure!(close(b[j], a[j] * tn.powf(hh), 1e-12, 1e-10), "value {j}: {} at horizon {tn}, {} at 1", b[j], a[j]); }
                Ok(())
            });
        } }
        for (method, gen) in [("spectral", fgn_fft as fn(f64, usize, f64, Option<u64>) -> Vec<f64>), ("Cholesky", fgn_cholesky)] {
            w.case("covariance", || format!("{method} hurst {hh} {n} steps"), |w| {
                let count = ck.pick(20_000u64, 200_000);
                let mut s = vec![vec![0.0; n]; n];
                let mut mean = vec![0.0; n];
                for seed in 0..count {
                    let x = gen(hh, n, n as f64, Some(seed));
                    for a in 0..n { mean[a] += x[a]; for b in 0..=a { s[a][b] += x[a] * x[b]; } }
                }
                w.ops(count);
                for a in 0..n {
                    let mn = mean[a] / count as f64;
                    ensure!(mn.abs() <= 6.0 / (count as f64).sqrt(), "mean {mn} of value {a}");
                    for b in 0..=a {
                        let (got, want) = (s[a][b] / count as f64, acf(hh, a - b));
                        let se = ((1.0 + want * want) / count as f64).sqrt();
                        ensure!((got - want).abs() <= 6.0 * se, "covariance of values {a} and {b} is {got}, fractional noise {want} (standard error {se})");
                    }
                }
                w.outcome(hf(&[s[0][0]]));
                Ok(())
            });
        }
    });
    // long noise: the covariance at every kind of lag, averaged along the path as well
    let nl = ck.pick(vec![64usize, 200], vec![32, 64, 100, 128, 200, 400]);
    ck.par(hs.len() * nl.len(), |w, i| {
        let (hh, n) = (hs[i % hs.len()], nl[i / hs.len()]);
        w.case("long-covariance", || format!("spectral hurst {hh} {n} steps"), |w| {
            let count = ck.pick(1500u64, 10_000);
            let lags: Vec<usize> = [0, 1, 2, 3, 5, 9, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 150, n - 2, n - 1].into_iter().filter(|k| *k < n).collect();
            let mut s = vec![0.0; lags.len()];
            for seed in 0..count {
                let x = fgn_fft(hh, n, n as f64, Some(seed));
                for (q, &k) in lags.iter().enumerate() { s[q] += (0..n - k).map(|j| x[j] * x[j + k]).sum::<f64>() / (n - k) as f64; }
            }
            w.ops(count);
            let g = |d: i64| acf(hh, d.unsigned_abs() as usize);
            for (q, &k) in lags.iter().enumerate() {
                let l = (n - k) as i64;
                let var = (1 - l..l).map(|d| (l - d.abs()) as f64 * (g(d) * g(d) + g(d + k as i64) * g(d - k as i64))).sum::<f64>() / (l * l) as f64;
                let (got, se) = (s[q] / count as f64, (var / count as f64).sqrt());
                ensure!((got - acf(hh, k)).abs() <= 6.0 * se, "covariance at lag {k} is {got}, fractional noise {} (standard error {se})", acf(hh, k));
            }
            w.outcome(hf(&s[..1]));
            Ok(())
        });
    });
    // the path of the process: covariance of the values of fractional Brownian motion
    ck.par(hs.len() * 2, |w, i| {
        let hh = hs[i % hs.len()];
        let fft = i >= hs.len();
        for (t0, tn) in [(0.0, 1.0), (0.0, 0.2), (2.0, 6.0)] { for s in SCHEMES {
            w.case("brownian-covariance", || format!("hurst {hh} spectral {fft} [{t0},{tn}] {s:?}"), |w| {
                let (n, m) = (4usize, ck.pick(20_000usize, 100_000));
                let c = Cfg { x0: 0.0, t0, tn, n, m, par: false, seed: 11, s };
                let method = if fft { FractionalProcessGeneratorMethod::FFT } else { FractionalProcessGeneratorMethod::CHOLESKY };
                let tr = FractionalBrownianMotion::new(hh, method).generate(&c.mk());
                shape(&c, &tr)?;
                w.ops((n * m) as u64);
                let u = |j: usize| (tn - t0) * j as f64 / n as f64;
                let cov = |a: usize, b: usize| 0.5 * (u(a).powf(2.0 * hh) + u(b).powf(2.0 * hh) - (u(a) - u(b)).abs().powf(2.0 * hh));
                for a in 1..=n { for b in 1..=a {
                    let got = tr.paths.iter().map(|p| p[a] * p[b]).sum::<f64>() / m as f64;
                    let se = ((cov(a, a) * cov(b, b) + cov(a, b).powi(2)) / m as f64).sqrt();
                    ensure!((got - cov(a, b)).abs() <= 6.0 * se, "covariance at times {} and {} is {got}, fractional Brownian motion {}", u(a), u(b), cov(a, b));
                } }
                // paths are independent
                let r = (1..m).map(|i| tr.paths[i][n] * tr.paths[i - 1][n]).sum::<f64>() / m as f64 / cov(n, n);
                ensure!(r.abs() <= 6.0 / (m as f64).sqrt(), "correlation {r} of neighbouring paths");
                Ok(())
            });
        } }
    });
    ck.seq(|w| for hh in [-0.5, -1e-9, 1.0 + 1e-9, 3.0] {
        w.case("bad-hurst", || format!("{hh}"), |w| { w.op(); if refuses(|| fgn_fft(hh, 4, 1.0, Some(1))).is_ok() { return fail("a Hurst parameter outside [0, 1] is accepted"); } Ok(()) });
    });
}
fn main() {
    let _: Option<W> = None;
    Ck::main(|ck| match ck.prop.as_str() { "S01" => s01(ck), "S02" => s02(ck), "S03" => s03(ck), "S04" => s04(ck), "S05" => s05(ck), p => panic!("unknown property {p}") })
}
