//! L01-L03: regressions against their optimality conditions, classifiers against their definitions, activations
//! against theirs, on every small integer data set.
use nalgebra::{DMatrix, DVector};
use rqmc::{close, ensure, h, hf, refuses, words, Ck, Res};
use RustQuant_autodiff::{Accumulate, Gradient, Graph};
use RustQuant_ml::*;
#[path = "../refs/special.rs"]
#[allow(dead_code)]
mod special;

/// Exact rank of a small integer matrix given by rows.
fn rank(rows: &[Vec<i64>]) -> usize {
    let mut m: Vec<Vec<i128>> = rows.iter().map(|r| r.iter().map(|&x| x as i128).collect()).collect();
    let (n, p) = (m.len(), m.first().map_or(0, |r| r.len()));
    let mut r = 0;
    for c in 0..p {
        let Some(k) = (r..n).find(|&k| m[k][c] != 0) else { continue };
        m.swap(r, k);
        for k in r + 1..n {
            let (a, b) = (m[r][c], m[k][c]);
            if b != 0 { for j in 0..p { m[k][j] = m[k][j] * a - m[r][j] * b; } }
        }
        r += 1;
    }
    r
}
fn mat(rows: &[Vec<i64>]) -> DMatrix<f64> { DMatrix::from_fn(rows.len(), rows[0].len(), |i, j| rows[i][j] as f64) }
fn vec_of(y: &[f64]) -> DVector<f64> { DVector::from_vec(y.to_vec()) }
fn with_one(rows: &[Vec<i64>]) -> Vec<Vec<i64>> { rows.iter().map(|r| std::iter::once(1).chain(r.iter().copied()).collect()).collect() }
/// All n x p matrices over an alphabet, as rows.
fn designs(al: &[i64], n: usize, p: usize, f: &mut dyn FnMut(Vec<Vec<i64>>)) {
    words(al.len(), n * p, &mut |w| f((0..n).map(|i| (0..p).map(|j| al[w[i * p + j]]).collect()).collect()));
}
/// Residual of the affine model given by an intercept and coefficients.
fn resid(rows: &[Vec<i64>], y: &[f64], b0: f64, b: &[f64]) -> Vec<f64> {
    rows.iter().zip(y).map(|(r, y)| y - b0 - r.iter().zip(b).map(|(x, b)| *x as f64 * b).sum::<f64>()).collect()
}
fn dotcol(rows: &[Vec<i64>], j: usize, e: &[f64]) -> f64 { rows.iter().zip(e).map(|(r, e)| r[j] as f64 * e).sum() }
/// predict(x) is the affine function of x on single and stacked rows.
fn predictions(pred: &dyn Fn(DMatrix<f64>) -> Vec<f64>, p: usize, b0: f64, b: &[f64]) -> Res {
    let pts: Vec<Vec<f64>> = vec![vec![0.0; p], vec![1.0; p], (0..p).map(|j| 0.5 - j as f64 * 3.0).collect(), (0..p).map(|j| (j as f64 + 1.0) * 10.0).collect()];
    let m = DMatrix::from_fn(pts.len(), p, |i, j| pts[i][j]);
    let all = pred(m);
    ensure!(all.len() == pts.len(), "{} predictions for {} rows", all.len(), pts.len());
    for (i, x) in pts.iter().enumerate() {
        let want = b0 + x.iter().zip(b).map(|(x, b)| x * b).sum::<f64>();
        let one = pred(DMatrix::from_fn(1, p, |_, j| x[j]));
        let tol = 1e-12 * (1.0 + b0.abs() + x.iter().zip(b).map(|(x, b)| (x * b).abs()).sum::<f64>());
        ensure!(close(all[i], want, tol, 0.0) && one.len() == 1 && close(one[0], want, tol, 0.0), "prediction {} (alone {one:?}) at {x:?}, the fitted function gives {want}", all[i]);
    }
    Ok(())
}

// ---------------------------------------------------------------- L01
fn l01(ck: &Ck) {
    ck.assume("integer data; the normal equations and the QR decomposition are only asked for designs of full column rank (decided exactly), the singular value decomposition for every design");
    ck.assume("lasso is run with 20000 sweeps and tolerance 1e-14, so that it has converged; its penalty is positive or the design has full column rank");
    let ys3: Vec<Vec<f64>> = { let mut v = vec![]; words(3, 3, &mut |w| v.push(w.iter().map(|&k| [-1.0, 0.0, 2.0][k]).collect())); v };
    let ys4: Vec<Vec<f64>> = { let mut v = vec![]; words(3, 4, &mut |w| if w[0] <= 1 { v.push(w.iter().map(|&k| [-1.0, 0.5, 3.0][k]).collect()) }); v };
    let mut cases: Vec<(Vec<Vec<i64>>, &[Vec<f64>])> = vec![];
    let mut add = |al: &[i64], n: usize, p: usize| designs(al, n, p, &mut |d| cases.push((d, if n == 3 { &ys3 } else { &ys4 })));
    add(&[-1, 0, 1, 3], 3, 1);
    add(&[-1, 0, 2], 3, 2);
    add(&[-2, 0, 1], 4, 1);
    let ys12: Vec<Vec<f64>> = vec![vec![-1.0], vec![0.0], vec![2.5]];
    let ys2: Vec<Vec<f64>> = vec![vec![-1.0, 2.0], vec![0.0, 0.0], vec![3.0, 3.0], vec![0.5, -4.0]];
    if ck.thorough() { add(&[-1, 0, 1, 3], 4, 2); add(&[-1, 0, 1], 4, 3);  add(&[-3, -1, 0, 2, 5], 4, 1); add(&[-2, -1, 0, 1, 4], 3, 2); } else { add(&[-1, 0, 1], 4, 2); add(&[0, 1], 4, 3); }
    // as many columns as rows, or more
    for p in 1..=3 { designs(&[-1, 0, 2], 1, p, &mut |d| cases.push((d, &ys12))); designs(if p == 3 { &[0, 1, 3] } else { &[-1, 0, 2] }, 2, p, &mut |d| cases.push((d, &ys2))); }
    // larger, structured: polynomial columns, dummies, wide ranges
    let long: Vec<Vec<Vec<i64>>> = vec![
        (0..12).map(|i| vec![i, i * i]).collect(), (0..20).map(|i| vec![i % 2, i % 3, i]).collect(),
        (0..9).map(|i| vec![i - 4, (i - 4) * (i - 4), (i - 4i64).pow(3)]).collect(), (0..15).map(|i| vec![1000 * i + 3, 7 - i % 5]).collect(),
        (0..10).map(|i| vec![i, 2 * i, 1]).collect(), vec![vec![0, 3], vec![3, -1], vec![0, 3], vec![3, -1]]];
    let longy: Vec<Vec<Vec<f64>>> = long.iter().map(|d| (0..3).map(|k| (0..d.len()).map(|i| ((i * i + 3 * k * i) % 11) as f64 - 0.25 * k as f64).collect()).collect()).collect();
    for (d, y) in long.iter().zip(&longy) { cases.push((d.clone(), y)); }
    let methods = [("normal equations", Decomposition::None), ("QR", Decomposition::QR), ("SVD", Decomposition::SVD)];
    // features in units far apart, from 2^-24 to 2^24 of one another
    let mut mixed: Vec<(usize, [i32; 3])> = vec![];
    let us: &[i32] = ck.pick(&[-24, -12, 0, 8], &[-24, -18, -12, -6, 0, 4, 8, 12]);
    for i in 0..cases.len() { if cases[i].0.len() > cases[i].0[0].len() && rank(&with_one(&cases[i].0)) == cases[i].0[0].len() + 1 && (ck.thorough() || i % 7 == 0 || cases[i].0.len() > 4) { for a in us { for b in us { for c in us {
        let p = cases[i].0[0].len();
        if p < 2 && b != &us[0] || p < 3 && c != &us[0] { continue; }
        if p == 3 && a.max(b).max(c) - a.min(b).min(c) > 24 || p == 2 && (a - b).abs() > 24 { continue; }
        mixed.push((i, [*a, *b, *c]));
    } } } } }
    ck.par(mixed.len(), |w, i| {
        let (d, ys, u) = (&cases[mixed[i].0].0, cases[mixed[i].0].1, mixed[i].1);
        let (n, p) = (d.len(), d[0].len());
        let scale = |j: usize| if j == 0 { 1.0 } else { 2f64.powi(u[j - 1]) };
        let top = (0..=p).map(|j| scale(j)).fold(0.0, f64::max) / (0..=p).map(|j| scale(j)).fold(1e300, f64::min);
        let d1 = with_one(d);
        for (k, y) in ys.iter().enumerate() { if k % ck.pick(9, 3) > 2 { continue; } for (name, m) in methods {
            if name == "normal equations" && top > 300.0 { continue; }
            w.case("least-squares-units", || format!("{name} {d:?} in units of 2^{:?}, responses {y:?}", &u[..p]), |w| {
                w.op();
                let x = DMatrix::from_fn(n, p, |i, j| d[i][j] as f64 * scale(j + 1));
                if name == "SVD" {
                    let x = x.clone().insert_column(0, 1.0);
                    let s = x.clone().svd(true, true);
                    let back = s.u.unwrap() * DMatrix::from_diagonal(&s.singular_values) * s.v_t.unwrap() - &x;
                    if (0..=p).any(|j| back.column(j).amax() > 1e-7 * x.column(j).amax()) { return w.known("svd-of-the-library-inaccurate", || format!("nalgebra's SVD of {d:?} in units of 2^{:?} does not multiply back to it", &u[..p])); }
                }
                let out = LinearRegressionInput::new(x, vec_of(y)).fit(m).map_err(|e| rqmc::Fail { known: None, msg: format!("no fit: {e}") })?;
                // back in the units of the integer data
                let c: Vec<f64> = out.coefficients.iter().enumerate().map(|(j, c)| c * scale(j)).collect();
                ensure!(c.iter().all(|x| x.is_finite()), "coefficients {c:?}");
                let e = resid(d, y, c[0], &c[1..]);
                let ysz: f64 = y.iter().map(|x| x * x).sum::<f64>().sqrt() + 1e-9;
                for j in 0..=p {
                    let sz: f64 = d1.iter().map(|r| (r[j] * r[j]) as f64).sum::<f64>().sqrt();
                    let g = dotcol(&d1, j, &e);
                    ensure!(g.abs() <= 1e-5 * sz * ysz, "the residual is not orthogonal to column {j}: {g} of {} with {c:?}", sz * ysz);
                }
                w.outcome(hf(&c));
                Ok(())
            });
        } }
    });
    // penalised fits do not depend on the units of the features and of the response: powers of two, so that nothing is rounded
    ck.par(cases.len(), |w, i| {
        let (d, ys) = (&cases[i].0, cases[i].1);
        if i % ck.pick(4, 1) != 0 && d.len() < 5 { return; }
        let (n, p) = (d.len(), d[0].len());
        for (k, y) in ys.iter().enumerate() { if k % ck.pick(5, 2) != 0 { continue; } for icpt in [true, false] { for lam in [0.1, 1.0] {
            let lasso = |u: f64, v: f64| LassoInput::new(mat(d) * u, vec_of(y) * v, lam * u * v, icpt, 20_000, 1e-14 * v / u).fit().map(|o| (o.intercept / v, o.coefficients.iter().skip(1).map(|c| c * u / v).collect::<Vec<f64>>()));
            let ridge = |u: f64, v: f64| RidgeRegressionInput::new(mat(d) * u, vec_of(y) * v, lam * u * u, icpt, 1000, 1e-9).fit().map(|o| (o.intercept / v, o.coefficients.iter().skip(1).map(|c| c * u / v).collect::<Vec<f64>>()));
            let (l0, r0) = (lasso(1.0, 1.0).unwrap(), ridge(1.0, 1.0).unwrap());
            for (eu, ev) in [(-40, 0), (-9, 9), (9, -9), (40, 0), (0, -60), (0, 60), (20, 20)] {
                w.case("penalised-units", || format!("lambda {lam} intercept {icpt} {d:?} in units of 2^{eu}, {y:?} in units of 2^{ev}"), |w| {
                    w.ops(2);
                    let (u, v) = (2f64.powi(eu), 2f64.powi(ev));
                    for (name, a, b) in [("lasso", &l0, lasso(u, v)), ("ridge", &r0, ridge(u, v))] {
                        let b = match b { Ok(b) => b, Err(e) => return rqmc::fail(format!("{name}: {e}")) };
                        let size = 1e-9 * (1e-3 + a.1.iter().fold(a.0.abs(), |s, c| s + c.abs()));
                        ensure!(close(a.0, b.0, size * (n + p) as f64, 0.0) && a.1.len() == b.1.len() && a.1.iter().zip(&b.1).all(|(x, y)| close(*x, *y, size, 0.0)), "{name} is {b:?} in these units and {a:?} in others");
                    }
                    Ok(())
                });
            }
        } } }
    });
    ck.par(cases.len(), |w, i| {
        let (d, ys) = (&cases[i].0, cases[i].1);
        let (n, p) = (d.len(), d[0].len());
        let d1 = with_one(d);
        let full = rank(&d1) == p + 1;
        let full0 = rank(d) == p;
        let size: f64 = d1.iter().flatten().map(|x| (x * x) as f64).sum();
        w.state(h(d));
        for y in ys {
            let ysz: f64 = 1.0 + y.iter().map(|x| x.abs()).sum::<f64>();
            for (name, m) in methods {
                if !full && name != "SVD" { continue; }
                w.case("least-squares", || format!("{name} {d:?} {y:?}"), |w| {
                    w.op();
                    let out = LinearRegressionInput::new(mat(d), vec_of(y)).fit(m).map_err(|e| rqmc::Fail { known: None, msg: format!("no fit: {e}") })?;
                    let c: Vec<f64> = out.coefficients.iter().copied().collect();
                    ensure!(c.len() == p + 1 && c[0] == out.intercept, "coefficients {c:?} with intercept {}", out.intercept);
                    if !full && name == "SVD" {
                        // the decomposition of the linear algebra library itself is wrong for some such matrices
                        let x = mat(&d1);
                        let s = x.clone().svd(true, true);
                        let back = s.u.unwrap() * DMatrix::from_diagonal(&s.singular_values) * s.v_t.unwrap();
                        if (back - &x).amax() > 1e-9 * x.amax() { return w.known("svd-of-the-library-inaccurate", || format!("nalgebra's SVD of the collinear design {d:?} does not multiply back to it; the fit is {c:?}")); }
                    }
                    ensure!(c.iter().all(|x| x.is_finite()), "coefficients {c:?}");
                    let e = resid(d, y, c[0], &c[1..]);
                    let csz = 1.0 + c.iter().map(|x| x.abs()).sum::<f64>();
                    for j in 0..=p {
                        let g = dotcol(&d1, j, &e);
                        ensure!(g.abs() <= 1e-9 * size * (ysz + csz * 1e-3), "the residual is not orthogonal to column {j}: {g} with {c:?}");
                    }
                    if !full {
                        // shortest solution: orthogonal to every null vector, i.e. in the row space
                        let mut basis: Vec<Vec<f64>> = vec![];
                        for r in &d1 {
                            let mut v: Vec<f64> = r.iter().map(|&x| x as f64).collect();
                            for _ in 0..2 { for b in &basis { let s: f64 = v.iter().zip(b).map(|(x, y)| x * y).sum(); for (x, y) in v.iter_mut().zip(b) { *x -= s * y; } } }
                            let l = v.iter().map(|x| x * x).sum::<f64>().sqrt();
                            if l > 1e-9 * (1.0 + r.iter().map(|x| x.abs()).max().unwrap() as f64) { basis.push(v.iter().map(|x| x / l).collect()); }
                        }
                        let mut v = c.clone();
                        for b in &basis { let s: f64 = c.iter().zip(b).map(|(x, y)| x * y).sum(); for (x, y) in v.iter_mut().zip(b) { *x -= s * y; } }
                        ensure!(v.iter().all(|x| x.abs() <= 1e-8 * csz), "{c:?} is not the shortest solution, off by {v:?}");
                    }
                    predictions(&|m| out.predict(m).unwrap().iter().copied().collect(), p, c[0], &c[1..])?;
                    w.outcome(hf(&c));
                    Ok(())
                });
            }
            for icpt in [true, false] { for lam in [0.0, 0.1, 1.0, 25.0] {
                if lam == 0.0 && !(if icpt { full } else { full0 }) { continue; }
                w.case("ridge", || format!("lambda {lam} intercept {icpt} {d:?} {y:?}"), |w| {
                    w.op();
                    let out = RidgeRegressionInput::new(mat(d), vec_of(y), lam, icpt, 1000, 1e-9).fit().map_err(|e| rqmc::Fail { known: None, msg: format!("no fit: {e}") })?;
                    let c: Vec<f64> = out.coefficients.iter().copied().collect();
                    ensure!(c.len() == p + 1 && c[0] == out.intercept && (icpt || c[0] == 0.0), "coefficients {c:?} with intercept {}", out.intercept);
                    let e = resid(d, y, c[0], &c[1..]);
                    let csz = 1.0 + c.iter().map(|x| x.abs()).sum::<f64>();
                    let tol = 1e-9 * size * (ysz + csz * 1e-3);
                    if icpt { let g: f64 = e.iter().sum(); ensure!(g.abs() <= tol, "the residuals sum to {g} with {c:?}"); }
                    for j in 0..p {
                        let g = dotcol(d, j, &e) - lam * c[j + 1];
                        ensure!(g.abs() <= tol, "gradient {g} of the penalised objective in coefficient {j} at {c:?}");
                    }
                    predictions(&|m| out.predict(m).unwrap().iter().copied().collect(), p, c[0], &c[1..])?;
                    w.outcome(hf(&c));
                    Ok(())
                });
            } }
            if size > 1e5 { continue; }
            for icpt in [true, false] { for lam in [0.0, 0.05, 0.5, 2.0] {
                if lam == 0.0 && !(if icpt { full } else { full0 }) { continue; }
                w.case("lasso", || format!("lambda {lam} intercept {icpt} {d:?} {y:?}"), |w| {
                    w.op();
                    let out = LassoInput::new(mat(d), vec_of(y), lam, icpt, 20_000, 1e-14).fit().map_err(|e| rqmc::Fail { known: None, msg: format!("no fit: {e}") })?;
                    let c: Vec<f64> = out.coefficients.iter().copied().collect();
                    ensure!(c.len() == p + 1 && c[0] == out.intercept && (icpt || c[0] == 0.0), "coefficients {c:?} with intercept {}", out.intercept);
                    let e = resid(d, y, c[0], &c[1..]);
                    let tol = 1e-9 * size * ysz / n as f64;
                    if icpt { let g: f64 = e.iter().sum(); ensure!(g.abs() <= tol * n as f64, "the residuals sum to {g} with {c:?}"); }
                    for j in 0..p {
                        let g = dotcol(d, j, &e) / n as f64;
                        if c[j + 1] != 0.0 { ensure!((g - lam * c[j + 1].signum()).abs() <= tol, "gradient {g} of the fit in coefficient {j} of {c:?}, the penalty has slope {lam}"); }
                        else { ensure!(g.abs() <= lam + tol, "gradient {g} of the fit in the zero coefficient {j} of {c:?} exceeds the penalty {lam}"); }
                    }
                    predictions(&|m| out.predict(m).unwrap().iter().copied().collect(), p, c[0], &c[1..])?;
                    w.outcome(hf(&c));
                    Ok(())
                });
            } }
        }
    });
    large(ck);
}
/// Full column rank, decided modulo a prime (full there implies full).
fn full_rank(rows: &[Vec<i64>]) -> bool {
    const P: i128 = 2_147_483_647;
    let mut m: Vec<Vec<i128>> = rows.iter().map(|r| r.iter().map(|&x| (x as i128).rem_euclid(P)).collect()).collect();
    let p = m[0].len();
    let mut r = 0;
    for c in 0..p {
        let Some(k) = (r..m.len()).find(|&k| m[k][c] != 0) else { return false };
        m.swap(r, k);
        let (mut inv, mut b, mut e) = (1i128, m[r][c], P - 2);
        while e > 0 { if e & 1 == 1 { inv = inv * b % P; } b = b * b % P; e >>= 1; }
        for k in r + 1..m.len() { let f = m[k][c] * inv % P; if f != 0 { for j in c..p { m[k][j] = (m[k][j] - f * m[r][j]).rem_euclid(P); } } }
        r += 1;
    }
    true
}
/// Designs of many rows and columns in several scales: the optimality conditions of each fit.
fn large(ck: &Ck) {
    let shapes: Vec<(usize, usize)> = ck.pick(
        vec![(5, 2), (6, 5), (8, 7), (12, 3), (16, 8), (17, 16), (30, 1), (33, 4), (64, 10), (100, 6), (6, 9), (4, 12)],
        (1..=24).flat_map(|p| [p + 1, p + 2, 2 * p + 3, 40 + p, 100].into_iter().map(move |n| (n, p))).chain([(500, 3), (300, 12), (6, 9), (4, 12), (10, 30)]).collect());
    ck.par(shapes.len() * 3, |w, i| {
        let ((n, p), sc) = (shapes[i / 3], [1.0, 1e-3, 250.0][i % 3]);
        let mut g = (n * 1009 + p * 31 + 7) as u64;
        let mut next = move || { g = g.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((g >> 33) % 13) as i64 - 6 };
        let d: Vec<Vec<i64>> = (0..n).map(|_| (0..p).map(|_| next()).collect()).collect();
        let x: Vec<Vec<f64>> = d.iter().map(|r| r.iter().map(|v| *v as f64 * sc).collect()).collect();
        let xm = DMatrix::from_fn(n, p, |i, j| x[i][j]);
        let full = full_rank(&with_one(&d));
        let size: f64 = x.iter().flatten().map(|v| v * v).sum::<f64>() + n as f64;
        let dot = |j: usize, e: &[f64]| x.iter().zip(e).map(|(r, e)| r[j] * e).sum::<f64>();
        let res = |y: &[f64], b0: f64, b: &[f64]| -> Vec<f64> { x.iter().zip(y).map(|(r, y)| y - b0 - r.iter().zip(b).map(|(x, b)| x * b).sum::<f64>()).collect() };
        for ysc in [1.0, 1e-4, 1e5] {
            let y: Vec<f64> = (0..n).map(|k| ysc * (((k * k * 5 + 3 * k) % 17) as f64 - 6.0 + if p > 0 { d[k][0] as f64 } else { 0.0 })).collect();
            let yn = y.iter().map(|v| v * v).sum::<f64>().sqrt();
            // a column's inner product with the residual, relative to what it is made of
            let scale = |j: Option<usize>, b0: f64, b: &[f64]| { let cn = j.map_or((n as f64).sqrt(), |j| x.iter().map(|r| r[j] * r[j]).sum::<f64>().sqrt()); cn * (yn + b0.abs() * (n as f64).sqrt() + b.iter().enumerate().map(|(k, b)| b.abs() * x.iter().map(|r| r[k] * r[k]).sum::<f64>().sqrt()).sum::<f64>()) };
            for (name, m) in [("normal equations", Decomposition::None), ("QR", Decomposition::QR), ("SVD", Decomposition::SVD)] {
                if !full { continue; }
                w.case("least-squares-large", || format!("{name} {n} x {p}, scale {sc}, responses of {ysc:e}"), |w| {
                    w.op();
                    let out = LinearRegressionInput::new(xm.clone(), vec_of(&y)).fit(m).map_err(|e| rqmc::Fail { known: None, msg: format!("no fit: {e}") })?;
                    let c: Vec<f64> = out.coefficients.iter().copied().collect();
                    ensure!(c.len() == p + 1 && c[0] == out.intercept, "coefficients {c:?} with intercept {}", out.intercept);
                    let e = res(&y, c[0], &c[1..]);
                    let tol = if name == "normal equations" { 1e-7 } else { 1e-9 };
                    if name == "SVD" && (e.iter().sum::<f64>().abs() > tol * scale(None, c[0], &c[1..]) || (0..p).any(|j| dot(j, &e).abs() > tol * scale(Some(j), c[0], &c[1..]))) {
                        // only where the library's own decomposition of this design is not one
                        let d1 = xm.clone().insert_column(0, 1.0);
                        let s = d1.clone().svd(true, true);
                        let back = s.u.unwrap() * DMatrix::from_diagonal(&s.singular_values) * s.v_t.unwrap();
                        if (back - &d1).amax() > 1e-12 * d1.amax() { return w.known("svd-of-the-library-inaccurate", || format!("nalgebra's SVD of a design of {n} x {p} does not multiply back to it")); }
                    }
                    ensure!(e.iter().sum::<f64>().abs() <= tol * scale(None, c[0], &c[1..]), "the residuals sum to {}", e.iter().sum::<f64>());
                    for j in 0..p { ensure!(dot(j, &e).abs() <= tol * scale(Some(j), c[0], &c[1..]), "the residual is not orthogonal to column {j}: {}", dot(j, &e)); }
                    predictions(&|m| out.predict(m).unwrap().iter().copied().collect(), p, c[0], &c[1..])?;
                    w.outcome(hf(&c));
                    Ok(())
                });
            }
            for icpt in [true, false] { for lam in [1e-6, 0.3, 10.0, 1e6] {
                w.case("ridge-large", || format!("lambda {lam} intercept {icpt} {n} x {p}, scale {sc}, responses of {ysc:e}"), |w| {
                    if lam < 0.1 && !full { return Ok(()); }
                    w.op();
                    let out = RidgeRegressionInput::new(xm.clone(), vec_of(&y), lam, icpt, 1000, 1e-9).fit().map_err(|e| rqmc::Fail { known: None, msg: format!("no fit: {e}") })?;
                    let c: Vec<f64> = out.coefficients.iter().copied().collect();
                    ensure!(c.len() == p + 1 && c[0] == out.intercept && (icpt || c[0] == 0.0), "coefficients {c:?} with intercept {}", out.intercept);
                    let e = res(&y, c[0], &c[1..]);
                    let extra = lam * c[1..].iter().map(|c| c.abs()).sum::<f64>();
                    if icpt { ensure!(e.iter().sum::<f64>().abs() <= 1e-7 * scale(None, c[0], &c[1..]), "the residuals sum to {}", e.iter().sum::<f64>()); }
                    for j in 0..p { let g = dot(j, &e) - lam * c[j + 1]; ensure!(g.abs() <= 1e-7 * (scale(Some(j), c[0], &c[1..]) + extra), "gradient {g} of the penalised objective in coefficient {j}"); }
                    predictions(&|m| out.predict(m).unwrap().iter().copied().collect(), p, c[0], &c[1..])?;
                    w.outcome(hf(&c));
                    Ok(())
                });
            } }
            if n > 120 || sc != 1.0 { continue; }
            for icpt in [true, false] { for lam in [0.05, 1.0, 8.0, 1e5] {
                w.case("lasso-large", || format!("lambda {lam} times {ysc:e} intercept {icpt} {n} x {p}"), |w| {
                    w.op();
                    let lam = lam * ysc;
                    let out = LassoInput::new(xm.clone(), vec_of(&y), lam, icpt, 20_000, 1e-13).fit().map_err(|e| rqmc::Fail { known: None, msg: format!("no fit: {e}") })?;
                    let c: Vec<f64> = out.coefficients.iter().copied().collect();
                    ensure!(c.len() == p + 1 && c[0] == out.intercept && (icpt || c[0] == 0.0), "coefficients {c:?} with intercept {}", out.intercept);
                    let e = res(&y, c[0], &c[1..]);
                    let nf = n as f64;
                    if icpt { ensure!(e.iter().sum::<f64>().abs() <= 1e-6 * scale(None, c[0], &c[1..]), "the residuals sum to {}", e.iter().sum::<f64>()); }
                    for j in 0..p {
                        let (g, tol) = (dot(j, &e) / nf, 1e-6 * scale(Some(j), c[0], &c[1..]) / nf);
                        if c[j + 1] != 0.0 { ensure!((g - lam * c[j + 1].signum()).abs() <= tol, "gradient {g} of the fit in coefficient {j} = {}, the penalty has slope {lam}", c[j + 1]); }
                        else { ensure!(g.abs() <= lam + tol, "gradient {g} of the fit in the zero coefficient {j} exceeds the penalty {lam}"); }
                    }
                    w.state(h(&c.iter().map(|c| *c != 0.0).collect::<Vec<_>>()));
                    w.outcome(hf(&c));
                    let _ = size;
                    Ok(())
                });
            } }
        }
    });
}

// ---------------------------------------------------------------- L02
/// Does a maximum of the likelihood exist?  (full rank and no hyperplane separates the classes, even weakly)
fn overlaps(d1: &[Vec<i64>], y: &[usize]) -> bool {
    let p = d1[0].len();
    if rank(d1) < p { return false; }
    let v: Vec<Vec<i64>> = d1.iter().zip(y).map(|(r, &y)| r.iter().map(|x| if y == 1 { *x } else { -*x }).collect()).collect();
    let weak = |w: &[i64]| w.iter().any(|&x| x != 0) && v.iter().all(|r| r.iter().zip(w).map(|(a, b)| a * b).sum::<i64>() >= 0);
    // an extreme ray of {w : v w >= 0} is orthogonal to p-1 independent rows
    match p {
        1 => !(weak(&[1]) || weak(&[-1])),
        2 => !v.iter().any(|r| weak(&[-r[1], r[0]]) || weak(&[r[1], -r[0]])),
        _ => {
            for a in &v { for b in &v {
                let c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
                if weak(&c) { return false; }
            } }
            true
        }
    }
}
fn logistic_ref(t: f64) -> f64 { if t >= 0.0 { 1.0 / (1.0 + (-t).exp()) } else { let e = t.exp(); e / (1.0 + e) } }
fn l02(ck: &Ck) {
    ck.assume("nearest neighbours: integer coordinates, so that distances are compared exactly; with ties at the k-th distance any choice among the tied points is allowed, and any label with the most votes; labels need not be integers");
    ck.assume("logistic regression: responses 0 and 1 for which the maximum of the likelihood exists (exact test on the integer data); separable and collinear data have no maximum: they may be refused, and of a fit returned for them only finite coefficients and consistent predictions are required");
    // ---- nearest neighbours
    let mut sets: Vec<(Vec<Vec<i64>>, usize)> = vec![];
    for n in 1..=ck.pick(4, 5) { designs(&[0, 1, 3], n, 1, &mut |d| sets.push((d, 1))); }
    for n in 1..=3 { designs(if ck.thorough() { &[0, 1, -2] } else { &[0, -2] }, n, 2, &mut |d| sets.push((d, 2))); }
    // coordinates on which the metrics rank the points differently
    for n in 1..=2 { designs(if ck.thorough() { &[0, 1, 4, 5, 6] } else { &[0, 1, 5, 6] }, n, 2, &mut |d| sets.push((d, 2))); }
    let labels = [0.0, 1.0, -2.5, 0.5];
    let metrics: [(Metric, u32); 5] = [(Metric::Euclidean, 2), (Metric::Manhattan, 1), (Metric::Minkowski(1), 1), (Metric::Minkowski(2), 2), (Metric::Minkowski(3), 3)];
    ck.par(sets.len(), |w, i| {
        let (d, p) = (&sets[i].0, sets[i].1);
        let n = d.len();
        let qs: Vec<Vec<i64>> = if p == 1 { (-1..=4).map(|x| vec![x]).collect() } else if d.iter().flatten().any(|&c| c > 1) { (0..=6).flat_map(|x| (0..=6).map(move |y| vec![x, y])).collect() } else { (-2..=2).flat_map(|x| (-1..=2).map(move |y| vec![x, y])).collect() };
        words(if n > 4 { 3 } else { labels.len() }, n, &mut |lw| {
            let y: Vec<f64> = lw.iter().map(|&k| labels[k]).collect();
            for (m, pow) in &metrics {
                let dist: Vec<Vec<i64>> = qs.iter().map(|q| d.iter().map(|r| r.iter().zip(q).map(|(a, b)| (a - b).abs().pow(*pow)).sum()).collect()).collect();
                for k in 1..=n + 1 {
                    w.case("neighbours", || format!("{d:?} labels {y:?} {m:?} k={k}"), |w| {
                        w.ops(qs.len() as u64);
                        let c = KNearestClassifier::new(mat(d), vec_of(&y), m.clone());
                        let got = c.predict(&mat(&qs), &k);
                        ensure!(got.len() == qs.len(), "{} predictions for {} queries", got.len(), qs.len());
                        for (q, (dist, got)) in qs.iter().zip(dist.iter().zip(&got)) {
                            let mut s = dist.clone();
                            s.sort();
                            let kk = k.min(n);
                            let lim = s[kk - 1];
                            let must: Vec<usize> = (0..n).filter(|&i| dist[i] < lim).collect();
                            let may: Vec<usize> = (0..n).filter(|&i| dist[i] == lim).collect();
                            let mut ok = false;
                            for mask in 0u32..1 << may.len() {
                                if mask.count_ones() as usize + must.len() != kk { continue; }
                                let vote = |l: f64| must.iter().copied().chain(may.iter().enumerate().filter(|(j, _)| mask >> j & 1 == 1).map(|x| *x.1)).filter(|&i| y[i] == l).count();
                                let best = labels.iter().map(|&l| vote(l)).max().unwrap();
                                ok |= best > 0 && labels.contains(got) && vote(*got) == best;
                            }
                            ensure!(ok, "{q:?} is labelled {got}; distances {dist:?} to labels {y:?}, {kk} voters");
                        }
                        w.outcome(hf(&got));
                        Ok(())
                    });
                }
            }
        });
    });
    // ---- many points, features and voters
    let shapes: Vec<(usize, usize)> = ck.pick(vec![(7, 1), (9, 3), (16, 2), (17, 5), (33, 2), (64, 8), (65, 1)], (6..=40).map(|n| (n, 1 + n % 7)).chain([(64, 8), (65, 1), (128, 3), (129, 12), (300, 2)]).collect());
    ck.par(shapes.len() * metrics.len(), |w, i| {
        let ((n, p), (m, pow)) = (shapes[i / metrics.len()], &metrics[i % metrics.len()]);
        for (spread, classes) in [(1009u64, 3usize), (1009, 10), (7, 2)] {
            let mut g = (n * 31 + p * 7 + 1) as u64;
            let mut next = move || { g = g.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (((g >> 33) % spread) as i64) - spread as i64 / 2 };
            let d: Vec<Vec<i64>> = (0..n).map(|_| (0..p).map(|_| next()).collect()).collect();
            let y: Vec<f64> = (0..n).map(|k| ((k * k + k / 3) % classes) as f64 * 1.5 - 1.0).collect();
            let mut qs: Vec<Vec<i64>> = (0..12).map(|_| (0..p).map(|_| next()).collect()).collect();
            qs.extend(d.iter().take(3).cloned());
            let dist: Vec<Vec<i64>> = qs.iter().map(|q| d.iter().map(|r| r.iter().zip(q).map(|(a, b)| (a - b).abs().pow(*pow)).sum()).collect()).collect();
            for k in (1..=n.min(24)).chain([n / 2, n - 1, n, n + 1, 2 * n]) {
                w.case("neighbours-large", || format!("{n} points in {p} dimensions of spread {spread}, {classes} classes, {m:?}, k={k}"), |w| {
                    w.ops(qs.len() as u64);
                    let got = KNearestClassifier::new(mat(&d), vec_of(&y), m.clone()).predict(&mat(&qs), &k);
                    ensure!(got.len() == qs.len(), "{} predictions for {} queries", got.len(), qs.len());
                    for (q, (dist, got)) in qs.iter().zip(dist.iter().zip(&got)) {
                        let mut s = dist.clone();
                        s.sort();
                        let kk = k.min(n);
                        let lim = s[kk - 1];
                        // votes of the points that are in whatever the ties, and of the tied ones, of which `free` are in
                        let (mut sure, mut tied) = (vec![0usize; classes], vec![0usize; classes]);
                        for i in 0..n { let c = ((y[i] + 1.0) / 1.5).round() as usize; if dist[i] < lim { sure[c] += 1; } else if dist[i] == lim { tied[c] += 1; } }
                        let free = kk - sure.iter().sum::<usize>();
                        let c = ((got + 1.0) / 1.5).round() as usize;
                        ensure!(c < classes && (got + 1.0) / 1.5 == c as f64, "{q:?} is labelled {got}");
                        // most favourable choice: as many of its own as possible, the rest spread below its count
                        let own = sure[c] + tied[c].min(free);
                        let rest = free - tied[c].min(free);
                        let room: usize = (0..classes).filter(|&j| j != c).map(|j| tied[j].min(own.saturating_sub(sure[j]))).sum();
                        ensure!(own > 0 && (0..classes).all(|j| sure[j] <= own) && room >= rest, "{q:?} is labelled {got}: votes {sure:?}, tied {tied:?} for {free} places");
                    }
                    w.outcome(hf(&got));
                    Ok(())
                });
            }
        }
    });
    // ---- near ties, high powers and coordinates of any unit: 2 to 4 points, each its own label, all distances apart
    let far: Vec<(Vec<i64>, Vec<i32>)> = vec![(vec![0, 1, 1 << 24, (1 << 24) + 1, -(1 << 24), -(1 << 24) - 2], vec![1, 2]), (vec![0, 3, 5, 6, -7, 9, 10], vec![1, 2, 3, 4, 5, 6, 8])];
    let mut jobs: Vec<(usize, Option<i32>, i32, usize)> = vec![];
    for f in 0..far.len() { for m in std::iter::once(None).chain(far[f].1.iter().map(|p| Some(*p))) { for u in [-60, -30, 0, 20] { for dim in 1..=2 { jobs.push((f, m, u, dim)); } } } }
    ck.par(jobs.len(), |w, i| {
        let (f, m, u, dim) = &jobs[i];
        let (cs, unit) = (&far[*f].0, 2f64.powi(*u));
        let (metric, pow) = match m { None => (Metric::Euclidean, 2), Some(1) if *u == 20 => (Metric::Manhattan, 1), Some(p) => (Metric::Minkowski(*p), *p as u32) };
        let pt = |k: usize| -> Vec<i64> { if *dim == 1 { vec![cs[k % cs.len()]] } else { vec![cs[k % cs.len()], cs[k / cs.len() % cs.len()]] } };
        let total = cs.len().pow(*dim as u32);
        for q in 0..total { for a in 0..total { for b in 0..total {
            if *dim == 2 && (q * 7 + a * 3 + b) % ck.pick(5, 1) != 0 { continue; }
            let pts = [pt(a), pt(b), pt(a * 5 + b * 2 + q + 1)];
            let d: Vec<i128> = pts.iter().map(|r| r.iter().zip(&pt(q)).map(|(x, y)| ((x - y).abs() as i128).pow(pow)).sum()).collect();
            let mut order: Vec<usize> = (0..3).collect();
            order.sort_by_key(|&i| d[i]);
            if (0..2).any(|j| (d[order[j + 1]] - d[order[j]]) as f64 <= 1e-13 * pow as f64 * d[order[j + 1]] as f64) { continue; }
            w.case("neighbours-units", || format!("points {pts:?} in units of {unit}, query {:?}, {metric:?}", pt(q)), |w| {
                w.ops(2);
                let x = DMatrix::from_fn(3, *dim, |i, j| pts[i][j] as f64 * unit);
                let xq = DMatrix::from_fn(1, *dim, |_, j| pt(q)[j] as f64 * unit);
                let got = KNearestClassifier::new(x.clone(), vec_of(&[3.0, 1.0, 2.0]), metric.clone()).predict(&xq, &1);
                ensure!(got == [[3.0, 1.0, 2.0][order[0]]], "labelled {got:?}, distances {d:?}");
                // the two nearest share a label
                let mut y = [5.0; 3];
                y[order[2]] = 4.0;
                let got = KNearestClassifier::new(x, vec_of(&y), metric.clone()).predict(&xq, &2);
                ensure!(got == [5.0], "two voters give {got:?}, distances {d:?}");
                Ok(())
            });
        } } }
    });
    // ---- larger logistic fits: every row occurs with both responses, so that the maximum exists for full rank
    let shapes: Vec<(usize, usize)> = ck.pick(vec![(6, 1), (9, 2), (15, 3), (30, 5), (60, 2), (100, 8)], (3..=40).flat_map(|n| [1, 2, 3, 5, 8].into_iter().filter(move |p| p + 2 <= n).map(move |p| (n, p))).chain([(100, 8), (200, 12), (400, 3)]).collect());
    ck.par(shapes.len(), |w, i| {
        let (n, p) = shapes[i];
        for extra in 0..4usize { for span in [3u64, 9, 41] { for tol in [1e-10, 1e-6] {
            let mut g = (n * 17 + p * 5 + extra) as u64;
            let mut next = move || { g = g.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((g >> 33) % span) as i64 - 1 };
            let base: Vec<Vec<i64>> = (0..n).map(|_| (0..p).map(|_| next()).collect()).collect();
            let (mut d, mut y) = (vec![], vec![]);
            for (k, r) in base.iter().enumerate() { for b in [0.0, 1.0] { d.push(r.clone()); y.push(b); } for _ in 0..(k * extra) % 4 { d.push(r.clone()); y.push(((k + extra) % 3 == 0) as u8 as f64); } }
            let d1 = with_one(&d);
            if !full_rank(&d1) { continue; }
            w.case("logistic-large", || format!("{} rows, {p} features up to {span}, {extra}, tolerance {tol}", d.len()), |w| {
                w.op();
                let out = match refuses(|| LogisticRegressionInput::new(mat(&d), vec_of(&y)).fit(LogisticRegressionAlgorithm::IRLS, tol)) { Ok(Ok(o)) => o, Ok(Err(e)) => return rqmc::fail(format!("refused: {e}")), Err(e) => return rqmc::fail(format!("panicked: {e}")) };
                let c: Vec<f64> = out.coefficients.iter().copied().collect();
                ensure!(c.len() == p + 1 && c.iter().all(|x| x.is_finite()), "coefficients {c:?}");
                let pr: Vec<f64> = d1.iter().map(|r| logistic_ref(r.iter().zip(&c).map(|(x, c)| *x as f64 * c).sum())).collect();
                let e: Vec<f64> = y.iter().zip(&pr).map(|(y, p)| y - p).collect();
                for j in 0..=p { let g = dotcol(&d1, j, &e); let sz: f64 = d1.iter().map(|r| r[j].abs() as f64).sum(); ensure!(g.abs() <= 1e-6 * (1.0 + sz * span as f64), "score {g} of coefficient {j} at {c:?} after {} iterations", out.iterations); }
                let (proba, lab) = (out.predict_proba(&mat(&d)), out.predict(&mat(&d)));
                for i in 0..d.len() {
                    ensure!(close(proba[i], pr[i], 1e-12, 1e-11), "probability {} of row {i}, expected {}", proba[i], pr[i]);
                    ensure!((pr[i] - 0.5).abs() < 1e-9 || lab[i] == (pr[i] > 0.5) as u8 as f64, "label {} at probability {}", lab[i], pr[i]);
                }
                w.outcome(hf(&c));
                Ok(())
            });
        } } }
    });
    // ---- logistic regression
    let mut des: Vec<Vec<Vec<i64>>> = vec![];
    designs(&[-1, 0, 2], 4, 1, &mut |d| des.push(d));
    designs(&[0, 1, 3], 5, 1, &mut |d| des.push(d));
    designs(&[0, 1], 5, 2, &mut |d| des.push(d));
    designs(&[0, 10, 50], 5, 1, &mut |d| des.push(d));
    if ck.thorough() { designs(&[-1, 1, 2, 5], 5, 1, &mut |d| des.push(d)); designs(&[-1, 0, 1], 6, 1, &mut |d| des.push(d)); designs(&[0, 1], 6, 2, &mut |d| des.push(d)); designs(&[-1, 0, 2], 4, 2, &mut |d| des.push(d)); designs(&[0, 10, 11, 50], 6, 1, &mut |d| des.push(d)); }
    des.push((0..12).map(|i| vec![i]).collect());
    des.push((0..10).map(|i| vec![i % 4, (i * i) % 7]).collect());
    ck.par(des.len(), |w, i| {
        let d = &des[i];
        let (n, p) = (d.len(), d[0].len());
        let d1 = with_one(d);
        w.state(h(d));
        words(2, n, &mut |y| {
            let yf: Vec<f64> = y.iter().map(|&b| b as f64).collect();
            let exists = overlaps(&d1, y);
            let tol = if y.iter().sum::<usize>() % 2 == 0 { 1e-10 } else { 1e-7 };
            w.case("logistic", || format!("{d:?} {y:?} tolerance {tol} {}", if exists { "" } else { "(no maximum)" }), |w| {
                w.op();
                let out = refuses(|| LogisticRegressionInput::new(mat(d), vec_of(&yf)).fit(LogisticRegressionAlgorithm::IRLS, tol));
                let out = match out { Ok(Ok(o)) => o, Ok(Err(_)) if !exists => return Ok(()), Ok(Err(e)) => return rqmc::fail(format!("refused: {e}")), Err(e) => return rqmc::fail(format!("panicked: {e}")) };
                let c: Vec<f64> = out.coefficients.iter().copied().collect();
                ensure!(c.len() == p + 1 && c.iter().all(|x| x.is_finite()), "coefficients {c:?}");
                let e: Vec<f64> = d1.iter().zip(&yf).map(|(r, y)| y - logistic_ref(r.iter().zip(&c).map(|(x, c)| *x as f64 * c).sum())).collect();
                if exists { for j in 0..=p { let g = dotcol(&d1, j, &e); ensure!(g.abs() <= 1e-6, "score {g} of coefficient {j} at {c:?} after {} iterations", out.iterations); } }
                if !exists && c.iter().any(|c| c.abs() > 1e4) { return Ok(()); } // the sum of huge terms is not determined
                // predictions
                let proba = out.predict_proba(&mat(d));
                let lab = out.predict(&mat(d));
                ensure!(proba.len() == n && lab.len() == n, "lengths of predictions");
                for i in 0..n {
                    let want = yf[i] - e[i];
                    ensure!(close(proba[i], want, 1e-12, 1e-12), "probability {} of row {i}, expected {want}", proba[i]);
                    ensure!((want - 0.5).abs() < 1e-9 || lab[i] == if want > 0.5 { 1.0 } else { 0.0 }, "label {} at probability {want}", lab[i]);
                }
                let mis = lab.iter().zip(&yf).filter(|(a, b)| a != b).count() as f64 / n as f64;
                ensure!(close(out.score_misclassification(&vec_of(&yf), &lab), mis, 1e-12, 0.0), "misclassification {} expected {mis}", out.score_misclassification(&vec_of(&yf), &lab));
                let ent = -proba.iter().zip(&yf).map(|(p, y)| if *y == 1.0 { p.ln() } else { (1.0 - p).ln() }).sum::<f64>() / n as f64;
                ensure!(close(out.score_cross_entropy(&vec_of(&yf), &proba), ent, 1e-9, 1e-9), "cross-entropy {} expected {ent}", out.score_cross_entropy(&vec_of(&yf), &proba));
                w.outcome(hf(&c));
                Ok(())
            });
        });
    });
    // ---- refusals, fixed coefficients, certain predictions
    let bads = [0.5, -1.0, 2.0, 1.5, 0.001, 0.999, -0.0001, f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    ck.par(bads.len(), |w, i| for pos in 0..4 { for base in 0..16usize {
        let mut y: Vec<f64> = (0..4).map(|k| (base >> k & 1) as f64).collect();
        y[pos] = bads[i];
        w.case("bad-responses", || format!("{y:?}"), |w| {
            w.op();
            let r = LogisticRegressionInput::new(mat(&[vec![0], vec![1], vec![2], vec![3]]), vec_of(&y)).fit(LogisticRegressionAlgorithm::IRLS, 1e-6);
            ensure!(r.is_err(), "responses {y:?} were accepted");
            Ok(())
        });
        if !bads[i].is_finite() { w.case("bad-features", || format!("{} in row {pos}, responses {base}", bads[i]), |w| {
            w.op();
            let mut x = mat(&[vec![0], vec![1], vec![2], vec![3]]);
            x[(pos, 0)] = bads[i];
            let r = LogisticRegressionInput::new(x, DVector::from_fn(4, |k, _| (base >> k & 1) as f64)).fit(LogisticRegressionAlgorithm::IRLS, 1e-6);
            ensure!(r.is_err(), "a feature of {} was accepted", bads[i]);
            Ok(())
        }); }
    } });
    let cf = [-40.0, -2.0, 0.0, 0.7, 5.0, 800.0];
    ck.par(cf.len(), |w, i| for &b in &cf { for &c in &cf {
        w.case("probabilities", || format!("coefficients {} {b} {c}", cf[i]), |w| {
            w.op();
            let out = LogisticRegressionOutput { coefficients: vec_of(&[cf[i], b, c]), iterations: 0 };
            let rows: Vec<Vec<i64>> = vec![vec![0, 0], vec![1, 0], vec![0, 1], vec![-3, 2], vec![7, -7]];
            let (pr, la) = (out.predict_proba(&mat(&rows)), out.predict(&mat(&rows)));
            for (k, r) in rows.iter().enumerate() {
                let t = cf[i] + r[0] as f64 * b + r[1] as f64 * c;
                let want = logistic_ref(t);
                ensure!(close(pr[k], want, 1e-300, 1e-11), "probability {} at {r:?}, expected {want}", pr[k]);
                ensure!(t.abs() < 1e-9 || la[k] == if t > 0.0 { 1.0 } else { 0.0 }, "label {} at odds {t}", la[k]);
                ensure!(t != 0.0 || la[k] == 0.0 || la[k] == 1.0, "label {}", la[k]);
            }
            w.outcome(hf(&[pr[0], pr[3]]));
            Ok(())
        });
    } });
    let ps = [0.0, 0.1, 0.5, 0.9, 1.0];
    words(ps.len(), 3, &mut |pw| ck.seq(|w| for ybits in 0..8usize {
        let y: Vec<f64> = (0..3).map(|k| (ybits >> k & 1) as f64).collect();
        let p: Vec<f64> = pw.iter().map(|&k| ps[k]).collect();
        w.case("scores", || format!("outcomes {y:?} probabilities {p:?}"), |w| {
            w.op();
            let out = LogisticRegressionOutput { coefficients: vec_of(&[0.0]), iterations: 0 };
            let want = -p.iter().zip(&y).map(|(p, y)| if *y == 1.0 { p.ln() } else { (1.0 - p).ln() }).sum::<f64>() / 3.0;
            let got = out.score_cross_entropy(&vec_of(&y), &vec_of(&p));
            ensure!(close(got, want, 1e-12, 1e-12) || got == want, "cross-entropy {got}, expected {want}");
            let lab: Vec<f64> = p.iter().map(|&p| if p > 0.5 { 1.0 } else { 0.0 }).collect();
            let mis = out.score_misclassification(&vec_of(&y), &vec_of(&lab));
            ensure!(close(mis, y.iter().zip(&lab).filter(|(a, b)| a != b).count() as f64 / 3.0, 1e-14, 0.0), "misclassification {mis}");
            w.outcome(hf(&[want]));
            Ok(())
        });
    }));
}

// ---------------------------------------------------------------- L03
fn l03(ck: &Ck) {
    ck.assume("activation gradients at 0 are not compared for the rectifier (it has none there)");
    type F = fn(f64) -> f64;
    let defs: [(&str, F, F, fn(&f64) -> f64, fn(&DVector<f64>) -> DVector<f64>); 8] = [
        ("sigmoid", logistic_ref, |x| logistic_ref(x) * logistic_ref(-x), |x| x.sigmoid(), |x| x.sigmoid()),
        ("logistic", logistic_ref, |x| logistic_ref(x) * logistic_ref(-x), |x| x.logistic(), |x| x.logistic()),
        ("identity", |x| x, |_| 1.0, |x| x.identity(), |x| x.identity()),
        ("relu", |x| x.max(0.0), |x| if x > 0.0 { 1.0 } else { 0.0 }, |x| x.relu(), |x| x.relu()),
        ("gelu", |x| x * special::ncdf(x), |x| special::ncdf(x) + x * (-0.5 * x * x).exp() / (2.0 * std::f64::consts::PI).sqrt(), |x| x.gelu(), |x| x.gelu()),
        ("tanh", |x| x.tanh(), |x| 1.0 / x.cosh().powi(2), |x| ActivationFunction::tanh(x), |x| ActivationFunction::tanh(x)),
        ("softplus", |x| x.max(0.0) + (-x.abs()).exp().ln_1p(), logistic_ref, |x| x.softplus(), |x| x.softplus()),
        ("gaussian", |x| (-x * x).exp(), |x| -2.0 * x * (-x * x).exp(), |x| x.gaussian(), |x| x.gaussian()),
    ];
    let n = ck.pick(400, 40_000);
    let mut xs: Vec<f64> = (-n..=n).map(|k| k as f64 * 8.0 / n as f64).collect();
    for e in [1e-300, 1e-12, 1e-5, 15.0, 36.0, 40.0, 300.0, 699.0, 720.0, 1e4, 1e200] { xs.push(e); xs.push(-e); }
    ck.par(defs.len(), |w, i| {
        let (name, f, df, num, ve) = defs[i];
        for &x in &xs {
            w.case("numbers", || format!("{name} at {x}"), |w| {
                w.op();
                let (got, want) = (num(&x), f(x));
                ensure!(close(got, want, if name == "gelu" { 1e-14 * x.abs() } else { 1e-300 }, if name == "gelu" { 1e-9 } else { 1e-13 }), "{name}({x}) = {got}, expected {want}");
                w.outcome(hf(&[got]));
                Ok(())
            });
            w.case("recorded", || format!("{name} at {x}"), |w| {
                w.op();
                let g = Graph::new();
                let v = g.var(x);
                let out = match i { 0 => v.sigmoid(), 1 => v.logistic(), 2 => v.identity(), 3 => v.relu(), 4 => v.gelu(), 5 => ActivationFunction::tanh(&v), 6 => v.softplus(), _ => v.gaussian() };
                let (got, want) = (out.value(), f(x));
                ensure!(close(got, want, 1e-12 * (1.0 + x.abs()), 1e-9), "recorded {name}({x}) = {got}, expected {want}");
                if name == "relu" && x == 0.0 { return Ok(()); }
                let (d, want) = (out.accumulate().wrt(&v), df(x));
                ensure!(close(d, want, 1e-12 * (1.0 + x.abs()), 1e-9), "gradient {d} of {name} at {x}, expected {want}");
                Ok(())
            });
        }
        w.case("vectors", || name.into(), |w| {
            w.op();
            for len in (0usize..70).chain([127, 128, 129, 257, xs.len()]) {
                let v = DVector::from_vec(xs[..len].to_vec());
                let got = ve(&v);
                ensure!(got.len() == len, "length");
                for k in 0..len { ensure!(close(got[k], num(&xs[k]), 1e-300, 1e-13) || got[k] == num(&xs[k]), "element {k} of the vector is {}, alone {}", got[k], num(&xs[k])); }
            }
            Ok(())
        });
    });
}
fn main() {
    Ck::main(|ck| match ck.prop.as_str() { "L01" => l01(ck), "L02" => l02(ck), "L03" => l03(ck), p => panic!("unknown property {p}") })
}
