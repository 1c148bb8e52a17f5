//! A01, A02: automatic differentiation against exact forward-mode derivatives.
use rqmc::*;
use RustQuant_autodiff::*;

#[path = "../refs/special.rs"]
#[allow(dead_code)]
mod special;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Abs, Acos, Acosh, Asin, Asinh, Atan, Atanh, Cbrt, Cos, Cosh, Exp, Exp2, ExpM1, Ln, Ln1p, Log10, Log2, Recip, Sin, Sinh, Sqrt, Tan, Tanh, Erf, Erfc, Neg,
    PowiC(i32), PowfC(f64),
    Add, Sub, Mul, Div, Powf, Powi, Log, Min, Max, AddA, SubA, MulA, DivA, SumABA, ProdABA,
    AddC(f64), SubC(f64), MulC(f64), DivC(f64), LogC(f64), MinC(f64), MaxC(f64), AddAC(f64), SubAC(f64), MulAC(f64), DivAC(f64),
    CAdd(f64), CSub(f64), CMul(f64), CDiv(f64), CLog(f64), CMin(f64), CMax(f64), CPowf(f64), CPowi(f64),
}
use Op::*;
const UN: [Op; 26] = [Abs, Acos, Acosh, Asin, Asinh, Atan, Atanh, Cbrt, Cos, Cosh, Exp, Exp2, ExpM1, Ln, Ln1p, Log10, Log2, Recip, Sin, Sinh, Sqrt, Tan, Tanh, Erf, Erfc, Neg];
const VV: [Op; 15] = [Add, Sub, Mul, Div, Powf, Powi, Log, Min, Max, AddA, SubA, MulA, DivA, SumABA, ProdABA];
fn unary_ops(full: bool) -> Vec<Op> {
    let mut v = UN.to_vec();
    for n in [-2, -1, 0, 1, 2, 3] { v.push(PowiC(n)); }
    for c in [-0.5, 0.0, 0.5, 1.0, 2.0, 2.5] { v.push(PowfC(c)); }
    let cs: &[f64] = if full { &[-1.5, 3.0] } else { &[-1.5] };
    for &c in cs { v.extend([AddC(c), SubC(c), MulC(c), DivC(c), MinC(c), MaxC(c), AddAC(c), SubAC(c), MulAC(c), DivAC(c), CAdd(c), CSub(c), CMul(c), CDiv(c), CMin(c), CMax(c)]); }
    let cs: &[f64] = if full { &[0.5, 3.0] } else { &[3.0] };
    for &c in cs { v.extend([LogC(c), CLog(c), CPowf(c), CPowi(c)]); }
    v
}

fn real<'v>(o: Op, a: Variable<'v>, b: Variable<'v>) -> Variable<'v> {
    match o {
        Abs => a.abs(), Acos => a.acos(), Acosh => a.acosh(), Asin => a.asin(), Asinh => a.asinh(), Atan => a.atan(), Atanh => a.atanh(), Cbrt => a.cbrt(), Cos => a.cos(), Cosh => a.cosh(),
        Exp => a.exp(), Exp2 => a.exp2(), ExpM1 => a.exp_m1(), Ln => a.ln(), Ln1p => a.ln_1p(), Log10 => a.log10(), Log2 => a.log2(), Recip => a.recip(), Sin => a.sin(), Sinh => a.sinh(),
        Sqrt => a.sqrt(), Tan => a.tan(), Tanh => a.tanh(), Erf => a.erf(), Erfc => a.erfc(), Neg => -a,
        PowiC(n) => a.powi(n), PowfC(c) => a.powf(c),
        Add => a + b, Sub => a - b, Mul => a * b, Div => a / b, Powf => a.powf(b), Powi => a.powi(b), Log => RustQuant_autodiff::Log::log(&a, b), Min => RustQuant_autodiff::Min::min(&a, b), Max => RustQuant_autodiff::Max::max(&a, b),
        AddA => { let mut t = a; t += b; t } SubA => { let mut t = a; t -= b; t } MulA => { let mut t = a; t *= b; t } DivA => { let mut t = a; t /= b; t }
        SumABA => [a, b, a].into_iter().sum(), ProdABA => [a, b, a].into_iter().product(),
        AddC(c) => a + c, SubC(c) => a - c, MulC(c) => a * c, DivC(c) => a / c, LogC(c) => RustQuant_autodiff::Log::log(&a, c), MinC(c) => RustQuant_autodiff::Min::min(&a, c), MaxC(c) => RustQuant_autodiff::Max::max(&a, c),
        AddAC(c) => { let mut t = a; t += c; t } SubAC(c) => { let mut t = a; t -= c; t } MulAC(c) => { let mut t = a; t *= c; t } DivAC(c) => { let mut t = a; t /= c; t }
        CAdd(c) => c + a, CSub(c) => c - a, CMul(c) => c * a, CDiv(c) => c / a, CLog(c) => RustQuant_autodiff::Log::log(&c, a), CMin(c) => RustQuant_autodiff::Min::min(&c, a), CMax(c) => RustQuant_autodiff::Max::max(&c, a),
        CPowf(c) => RustQuant_autodiff::Powf::powf(&c, a), CPowi(c) => RustQuant_autodiff::Powi::powi(&c, a),
    }
}

/// value, local partials, and the partials with the two recorded defects; None outside the domain of differentiability
fn local(o: Op, x: f64, y: f64, tie: f64) -> Option<(f64, [f64; 2], Option<(u8, f64)>)> {
    let ok = |c: bool| if c { Some(()) } else { None };
    let u = |v: f64, p: f64| Some((v, [p, 0.0], None));
    let bn = |v: f64, p: f64, q: f64| Some((v, [p, q], None));
    // programs stay well inside the domain; single operations go to its edge
    let (eps, small, edge) = if tie > 0.0 { (1e-13, 1e-3, 1e-3) } else { (0.0, 0.0, 1e-8) };
    match o {
        Abs => { ok(x.abs() > tie)?; u(x.abs(), if x > 0.0 { 1.0 } else { -1.0 }) }
        Acos => { ok(1.0 - x.abs() > edge)?; u(x.acos(), -1.0 / ((1.0 - x) * (1.0 + x)).sqrt()) }
        Acosh => { ok(x - 1.0 > edge)?; u(x.acosh(), 1.0 / ((x - 1.0) * (x + 1.0)).sqrt()) }
        Asin => { ok(1.0 - x.abs() > edge)?; u(x.asin(), 1.0 / ((1.0 - x) * (1.0 + x)).sqrt()) }
        Asinh => u(x.asinh(), 1.0 / (x * x + 1.0).sqrt()),
        Atan => u(x.atan(), 1.0 / (1.0 + x * x)),
        Atanh => { ok(1.0 - x.abs() > edge)?; u(0.5 * (2.0 * x / (1.0 - x)).ln_1p(), 1.0 / ((1.0 - x) * (1.0 + x))) }
        Cbrt => { ok(x.abs() > eps)?; let c = x.cbrt(); u(c, c / (3.0 * x)) }
        Cos => u(x.cos(), -x.sin()),
        Cosh => u((x.exp() + (-x).exp()) / 2.0, x.sinh()),
        Exp => u(x.exp(), x.exp()),
        Exp2 => u(x.exp2(), x.exp2() * std::f64::consts::LN_2),
        ExpM1 => u(x.exp_m1(), x.exp()),
        Ln => { ok(x > eps)?; u(x.ln(), 1.0 / x) }
        Ln1p => { ok(x + 1.0 > edge)?; u(x.ln_1p(), 1.0 / (1.0 + x)) }
        Log10 => { ok(x > eps)?; Some((x.ln() / std::f64::consts::LN_10, [1.0 / (x * std::f64::consts::LN_10), 0.0], Some((0, 1.0 / x)))) }
        Log2 => { ok(x > eps)?; Some((x.ln() / std::f64::consts::LN_2, [1.0 / (x * std::f64::consts::LN_2), 0.0], Some((0, 1.0 / x)))) }
        Recip => { ok(x.abs() > small)?; u(1.0 / x, -1.0 / (x * x)) }
        Sin => u(x.sin(), x.cos()),
        Sinh => u(x.sinh(), x.cosh()),
        Sqrt => { ok(x > eps)?; u(x.sqrt(), 0.5 / x.sqrt()) }
        Tan => { ok(x.cos().abs() > small * 50.0)?; u(x.tan(), 1.0 + x.tan() * x.tan()) }
        Tanh => u(x.tanh(), 1.0 / (x.cosh() * x.cosh())),
        Erf => u(special::erf(x), 2.0 / std::f64::consts::PI.sqrt() * (-x * x).exp()),
        Erfc => u(special::erfc(x), -2.0 / std::f64::consts::PI.sqrt() * (-x * x).exp()),
        Neg => u(-x, -1.0),
        PowiC(n) => {
            ok(n >= 0 || x.abs() > small)?;
            let p = |k: i32| (0..k.abs()).fold(1.0, |s, _| if k > 0 { s * x } else { s / x });
            u(p(n), if n == 0 { 0.0 } else { n as f64 * p(n - 1) })
        }
        PowfC(c) => {
            let int = c.fract() == 0.0;
            ok(x > eps || (int && c >= 0.0) || (c > 1.0 && x >= 0.0 && x > eps))?;
            u(if c == 0.0 { 1.0 } else { x.powf(c) }, if c == 0.0 { 0.0 } else { c * x.powf(c - 1.0) })
        }
        Add | AddA => bn(x + y, 1.0, 1.0),
        Sub | SubA => bn(x - y, 1.0, -1.0),
        Mul | MulA => bn(x * y, y, x),
        Div | DivA => { ok(y.abs() > small)?; bn(x / y, 1.0 / y, -x / (y * y)) }
        Powf | Powi => { ok(x > eps)?; let v = (y * x.ln()).exp(); bn(v, y * ((y - 1.0) * x.ln()).exp(), v * x.ln()) }
        Log => { ok(x > eps && y > eps && y.ln().abs() > small * 10.0)?; bn(x.ln() / y.ln(), 1.0 / (x * y.ln()), -x.ln() / (y * y.ln() * y.ln())) }
        Min => { ok((x - y).abs() > tie)?; if x < y { bn(x, 1.0, 0.0) } else { bn(y, 0.0, 1.0) } }
        Max => { ok((x - y).abs() > tie)?; if x > y { bn(x, 1.0, 0.0) } else { bn(y, 0.0, 1.0) } }
        SumABA => bn(2.0 * x + y, 2.0, 1.0),
        ProdABA => bn(x * y * x, 2.0 * x * y, x * x),
        AddC(c) | AddAC(c) | CAdd(c) => u(x + c, 1.0),
        SubC(c) | SubAC(c) => u(x - c, 1.0),
        MulC(c) | MulAC(c) | CMul(c) => u(x * c, c),
        DivC(c) | DivAC(c) => u(x / c, 1.0 / c),
        LogC(c) => { ok(x > eps)?; u(x.ln() / c.ln(), 1.0 / (x * c.ln())) }
        MinC(c) => { ok((x - c).abs() > tie)?; if x < c { u(x, 1.0) } else { u(c, 0.0) } }
        MaxC(c) => { ok((x - c).abs() > tie)?; if x > c { u(x, 1.0) } else { u(c, 0.0) } }
        CSub(c) => u(c - x, -1.0),
        CDiv(c) => { ok(x.abs() > small)?; u(c / x, -c / (x * x)) }
        CLog(c) => { ok(x > eps && x.ln().abs() > small * 10.0)?; u(c.ln() / x.ln(), -c.ln() / (x * x.ln() * x.ln())) }
        CMin(c) => { ok((x - c).abs() > tie)?; if x < c { Some((x, [1.0, 0.0], Some((1, 0.0)))) } else { Some((c, [0.0, 0.0], Some((1, 1.0)))) } }
        CMax(c) => { ok((x - c).abs() > tie)?; if x > c { Some((x, [1.0, 0.0], Some((1, 0.0)))) } else { Some((c, [0.0, 0.0], Some((1, 1.0)))) } }
        CPowf(c) | CPowi(c) if c == 0.0 => { ok(x > eps)?; u(0.0, 0.0) }
        CPowf(c) | CPowi(c) => { let v = c.powf(x); u(v, v * c.ln()) }
    }
}

/// Forward-mode reference: exact gradient (variant 0) and with the recorded defects (bit 0: log2/log10, bit 1: constant min/max).
#[derive(Clone, Copy, Debug)]
struct Dual { v: f64, g: [[f64; 2]; 4], s: f64, defects: u8 }
const LIM: f64 = 1e4;
fn dual(o: Op, a: &Dual, b: &Dual) -> Option<Dual> {
    let (v, p, def) = local(o, a.v, b.v, 1e-6)?;
    let mut r = Dual { v, g: [[0.0; 2]; 4], s: p[0].abs() * a.s + p[1].abs() * b.s, defects: a.defects | if p[1] != 0.0 || is_vv(o) { b.defects } else { 0 } };
    for var in 0..4 {
        let p0 = match def { Some((k, q)) if var >> k & 1 == 1 => q, _ => p[0] };
        for k in 0..2 { r.g[var][k] = p0 * a.g[var][k] + if is_vv(o) { p[1] * b.g[var][k] } else { 0.0 }; }
    }
    if let Some((k, q)) = def { r.defects |= 1 << k; r.s += q.abs() * a.s; }
    if v.is_finite() && v.abs() < LIM / 10.0 && r.s.is_finite() && r.s < LIM { Some(r) } else { None }
}
fn is_vv(o: Op) -> bool { VV.contains(&o) }

fn points(n: usize) -> Vec<[f64; 2]> {
    [[0.6, 1.7], [-0.7, 2.3], [1.9, -0.45], [0.0, 0.5], [-1.4, -0.3], [2.6, 3.4], [0.25, 0.25], [-2.2, 0.0], [1.0, 1.0], [3.0, -1.5], [0.05, -3.1], [8.0, 0.9]][..n].to_vec()
}

fn compare(w: &mut W, out: &Variable, inp: &[Variable; 2], d: &Dual, prog: &dyn Fn() -> String) -> Res {
    let tol = 1e-7 * (1.0 + d.s + d.v.abs());
    ensure!(close(out.value(), d.v, tol, 1e-9), "{}: value {} expected {}", prog(), out.value(), d.v);
    let grad = out.accumulate();
    let got = [grad.wrt(&inp[0]), grad.wrt(&inp[1])];
    let eq = |k: usize| (0..2).all(|i| close(got[i], d.g[k][i], tol, 1e-9));
    if eq(0) { return Ok(()); }
    for (k, key) in [(1, "log2-log10-derivative"), (2, "constant-min-max-derivative"), (3, "log2-log10-derivative")] {
        if d.defects & k == k && eq(k as usize) { return w.known(key, || format!("{}: gradient {got:?}, exact {:?}", prog(), d.g[0])); }
    }
    fail(format!("{}: gradient {got:?}, exact {:?}", prog(), d.g[0]))
}

type Ins = (Op, usize, usize);
fn instrs(r: usize, last_only: bool, full: bool) -> Vec<Ins> {
    let mut v = vec![];
    let un = unary_ops(full);
    for a in 0..r { if !last_only || a == r - 1 { for &o in &un { v.push((o, a, a)); } } }
    for a in 0..r { for b in 0..r { if !last_only || a == r - 1 || b == r - 1 { for &o in &VV { v.push((o, a, b)); } } } }
    v
}
fn run_prog(w: &mut W, prog: &[Ins], pt: [f64; 2]) -> Res {
    let mut ds = vec![Dual { v: pt[0], g: [[1.0, 0.0]; 4], s: 1.0, defects: 0 }, Dual { v: pt[1], g: [[0.0, 1.0]; 4], s: 1.0, defects: 0 }];
    for &(o, a, b) in prog { let d = match dual(o, &ds[a], &ds[b]) { Some(d) => d, None => return Ok(()) }; ds.push(d); }
    let g = Graph::new();
    let inp = [g.var(pt[0]), g.var(pt[1])];
    let mut rs = vec![inp[0], inp[1]];
    for &(o, a, b) in prog { let v = real(o, rs[a], rs[b]); rs.push(v); }
    w.op();
    let d = ds.last().unwrap();
    w.outcome(hf(&d.g[0]));
    compare(w, rs.last().unwrap(), &inp, d, &|| format!("{prog:?} at {pt:?}"))
}

/// Questions about values and operations that leave the tape: those of plain numbers.
fn queries(ck: &Ck) {
    let vals = [0.0, -0.0, 1.0, -1.0, 0.4, -2.6, 2.5, 1e-310, -1e-310, 1e300, -1e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 5e-324, f64::MIN_POSITIVE];
    ck.par(vals.len(), |w, i| for &y in &vals {
        let x = vals[i];
        w.case("value-queries", || format!("{x} and {y}"), |w| {
            w.ops(16);
            let g = Graph::new();
            let (a, b, c) = (g.var(x), g.var(y), g.var(x));
            let same = |p: f64, q: f64| p.to_bits() == q.to_bits() || p.is_nan() && q.is_nan();
            ensure!(same(a.value(), x) && a.index() == 0 && b.index() == 1 && std::ptr::eq(a.graph(), &g), "value, index and graph of a variable");
            ensure!(a.is_finite() == x.is_finite() && a.is_infinite() == x.is_infinite() && a.is_nan() == x.is_nan() && a.is_normal() == x.is_normal() && a.is_subnormal() == x.is_subnormal(), "classification");
            ensure!(a.is_zero() == (x == 0.0), "is_zero");
            if !x.is_nan() { ensure!(a.is_positive() == x.is_sign_positive() && a.is_negative() == x.is_sign_negative(), "sign"); }
            ensure!(same(a.signum(), x.signum()), "signum {}", a.signum());
            let mut r = a;
            r.round();
            ensure!(same(r.value(), x.round()), "round gives {}", r.value());
            ensure!((a == y) == (x == y) && (a == x) == (x == x), "comparison with a number");
            ensure!((a == a) == (x == x) && a != c && a != b, "equality of variables");
            if !x.is_nan() && !y.is_nan() { ensure!(a.partial_cmp(&b) == x.partial_cmp(&y) && (a < b) == (x < y) && (a >= b) == (x >= y), "order {:?}", a.partial_cmp(&b)); }
            let (mut p, mut q, mut m, mut d) = (y, y, y, y);
            p += a; q -= a; m *= a; d /= a;
            ensure!(same(p, y + x) && same(q, y - x) && same(m, y * x) && same(d, y / x), "assigning a variable to a number: {p} {q} {m} {d}");
            ensure!(g.len() == 3, "the tape grew to {}", g.len());
            Ok(())
        });
    });
}
fn a01(ck: &Ck) {
    ck.assume("in composed programs, points within 1e-6 of a kink or tie, and intermediate magnitudes above 1e3 (derivatives above 1e4), are outside the comparison; single operations are compared at magnitudes from 1e-12 to 1e12, excluding kinks, ties, poles and domain edges themselves");
    // every program of up to two operations over all operations
    let i1 = instrs(2, false, true);
    let pts = points(12);
    ck.par(i1.len(), |w, i| {
        w.case("one-op", || format!("{:?}", i1[i]), |w| { for &p in &pts { run_prog(w, &[i1[i]], p)?; } w.state(h(&format!("{:?}", i1[i]))); Ok(()) });
        let i2 = instrs(3, false, true);
        for (k, &b) in i2.iter().enumerate() {
            w.case("two-ops", || format!("{:?} {b:?}", i1[i]), |w| { for &p in &pts { run_prog(w, &[i1[i], b], p)?; } w.state(h(&(i, k))); Ok(()) });
        }
    });
    // every three-operation program whose last operation uses the second result
    let pts = ck.pick(points(5), points(12));
    let full = ck.thorough();
    let i1 = instrs(2, false, full);
    let i2 = instrs(3, false, full);
    let i3 = instrs(4, true, full);
    ck.par(i1.len() * i2.len(), |w, n| {
        let (a, b) = (i1[n / i2.len()], i2[n % i2.len()]);
        w.case("three-ops", || format!("{a:?} {b:?} *"), |w| { for &c in &i3 { for &p in &pts { run_prog(w, &[a, b, c], p)?; } } w.state(n as u64); Ok(()) });
    });
    // deeper programs over a small operation set: sharing patterns
    let small: Vec<Op> = vec![Sin, Exp, Add, Sub, Mul, Div, Max, CSub(2.0), Powf, MulA, Neg, Log];
    let ins = |r: usize, last: bool| -> Vec<Ins> { let mut v = vec![]; for &o in &small { for a in 0..r { if is_vv(o) { for b in 0..r { if !last || a == r - 1 || b == r - 1 { v.push((o, a, b)); } } } else if !last || a == r - 1 { v.push((o, a, a)); } } } v };
    let pts = points(3);
    if ck.thorough() {
        let (j1, j2, j3, j4) = (ins(2, false), ins(3, false), ins(4, false), ins(5, true));
        ck.par(j1.len() * j2.len(), |w, n| {
            let (a, b) = (j1[n / j2.len()], j2[n % j2.len()]);
            w.case("four-ops-sharing", || format!("{a:?} {b:?} * *"), |w| { for &c in &j3 { for &d in &j4 { for &p in &pts { run_prog(w, &[a, b, c, d], p)?; } } } w.state(n as u64); Ok(()) });
        });
    } else {
        let small2: Vec<Op> = vec![Sin, Add, Mul, CSub(2.0)];
        let ins2 = |r: usize, last: bool| -> Vec<Ins> { let mut v = vec![]; for &o in &small2 { for a in 0..r { if is_vv(o) { for b in 0..r { if !last || a == r - 1 || b == r - 1 { v.push((o, a, b)); } } } else if !last || a == r - 1 { v.push((o, a, a)); } } } v };
        let (j1, j2, j3, j4) = (ins2(2, false), ins2(3, false), ins2(4, false), ins2(5, true));
        ck.par(j1.len() * j2.len(), |w, n| {
            let (a, b) = (j1[n / j2.len()], j2[n % j2.len()]);
            w.case("four-ops-sharing", || format!("{a:?} {b:?} * *"), |w| { for &c in &j3 { for &d in &j4 { for &p in &pts { run_prog(w, &[a, b, c, d], p)?; } } } w.state(n as u64); Ok(()) });
        });
    }
    queries(ck);
    grid(ck);
    large_programs(ck);
    // sums and products of n terms, with repeats
    ck.par(7, |w, n| {
        words(3, n + 1, &mut |x| {
            w.case("sum-product", || format!("{x:?}"), |w| {
                let vals = [[1.3, -0.7, 2.1], [1.3, 1.3, -0.7], [2.1, -0.7, 2.1]][n % 3];
                let g = Graph::new();
                let v = g.vars(&vals);
                let s: Variable = x.iter().map(|k| v[*k]).sum();
                let p: Variable = x.iter().map(|k| v[*k]).product();
                let (gs, gp) = (s.accumulate().wrt(&v), p.accumulate().wrt(&v));
                w.ops(2);
                let prod: f64 = x.iter().map(|k| vals[*k]).product();
                ensure!(close(s.value(), x.iter().map(|k| vals[*k]).sum(), 1e-10, 1e-10), "sum value {}", s.value());
                ensure!(close(p.value(), prod, 1e-10, 1e-10), "product value {}", p.value());
                for k in 0..3 {
                    let c = x.iter().filter(|z| **z == k).count() as f64;
                    ensure!(close(gs[k], c, 1e-10, 1e-10), "sum gradient {gs:?}");
                    ensure!(close(gp[k], c * prod / vals[k], 1e-10, 1e-10), "product gradient {gp:?}");
                }
                w.state(h(&x.to_vec()));
                Ok(())
            });
        });
    });
}

/// Every operation over a wide grid of arguments, each value and partial relative to its own size.
fn grid(ck: &Ck) {
    let mut xs: Vec<f64> = vec![0.0];
    let mags: &[f64] = &[1e-12, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-3, 0.01, 0.04, 0.1, 0.2, 0.3, 0.45, 0.5, 0.55, 0.7, 0.8, 0.9, 0.97, 0.99, 1.0, 1.01, 1.1, 1.3, 1.5, 1.8, 2.0, 2.4, 3.0, 3.7, 4.5, 5.0, 6.0, 7.5, 8.0, 10.0, 13.0, 20.0, 30.0, 50.0, 64.0, 100.0, 345.0, 1e3, 1e4, 1e6, 1e7, 1e9, 1e12];
    let mut mags = mags.to_vec();
    // next to poles, edges and multiples of pi
    { use std::f64::consts::PI; mags.extend([1e-100, 1e-30, PI / 2.0, PI / 2.0 + 1e-7, PI / 2.0 - 1e-5, PI, 1.5 * PI, 2.0 * PI, 50.5 * PI, 1.0 - 1e-7, 1.0 + 1e-7, 1.0 - 1e-4, 1.0 + 1e-4, 700.0, 1e30]); }
    for m in &mags { xs.push(*m); xs.push(-*m); }
    let mut ops = unary_ops(true);
    for n in [-5, 4, 5, 6, 7, 10, 15, 16, 17, 32, 33] { ops.push(PowiC(n)); }
    for c in [-3.0, -2.0, -1.0, 1.0 / 3.0, 1.5, 3.0, 4.0, 0.1] { ops.push(PowfC(c)); }
    for c in [0.0, 1.0, 1e-3, 1e4] { ops.extend([AddC(c), SubC(c), MulC(c), MinC(c), MaxC(c), AddAC(c), SubAC(c), MulAC(c), CAdd(c), CSub(c), CMul(c), CDiv(c), CMin(c), CMax(c)]); if c != 0.0 { ops.extend([DivC(c), DivAC(c)]); } }
    ops.extend([CPowf(0.0), CPowi(0.0)]);
    for c in [1.0, 0.01, 100.0] { ops.extend([CPowf(c), CPowi(c)]); if c != 1.0 { ops.extend([LogC(c), CLog(c)]); } }
    ops.extend(VV);
    ck.par(ops.len(), |w, i| for &x in &xs { for &y in if is_vv(ops[i]) { &xs[..] } else { &xs[..1] } {
        let o = ops[i];
        let Some((v, p, def)) = local(o, x, y, 0.0) else { continue };
        if !v.is_finite() || v.abs() > 1e200 || p.iter().any(|q| !q.is_finite() || q.abs() > 1e200) { continue }
        w.case("one-op-grid", || format!("{o:?} at {x:e}, {y:e}"), |w| {
            let g = Graph::new();
            let (a, b) = (g.var(x), g.var(y));
            let r = real(o, a, b);
            w.op();
            w.state(h(&(i, x.to_bits(), y.to_bits())));
            // sums and differences are only as good as their terms
            let sz = match o { Sub | SubA | Add | AddA | SumABA => x.abs() + y.abs(), AddC(c) | SubC(c) | CAdd(c) | CSub(c) | AddAC(c) | SubAC(c) => x.abs() + c.abs(), _ => 0.0 };
            ensure!(close(r.value(), v, 1e-290 + 1e-14 * sz, 1e-9), "value {:e} expected {v:e}", r.value());
            let gr = r.accumulate();
            let got = [gr.wrt(&a), gr.wrt(&b)];
            let ok = |k: usize, e: f64| close(got[k], e, 1e-290, 1e-7);
            if is_vv(o) { ensure!(ok(0, p[0]) && ok(1, p[1]), "gradient {got:?}, exact {p:?}"); return Ok(()); }
            ensure!(got[1] == 0.0, "derivative {} with respect to a variable that is not involved", got[1]);
            if ok(0, p[0]) { return Ok(()); }
            if let Some((k, q)) = def { if ok(0, q) { return w.known(["log2-log10-derivative", "constant-min-max-derivative"][k as usize], || format!("{o:?} at {x}: {got:?}, exact {}", p[0])); } }
            fail(format!("derivative {}, exact {}", got[0], p[0]))
        });
    } });
}
/// Programs of many variables and many steps.
fn large_programs(ck: &Ck) {
    let sizes: Vec<usize> = ck.pick((1..=40).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000]).collect(), (1..=300).chain([511, 512, 513, 1000, 1023, 1024, 1025, 2000, 5000]).collect());
    ck.par(sizes.len(), |w, i| {
        let n = sizes[i];
        let vals: Vec<f64> = (0..n).map(|k| 1.0 + ((k * 37 + 11) % 23) as f64 / 23.0 - 0.45).collect();
        for kind in 0..8u8 {
            w.case("large-programs", || format!("kind {kind} with {n} variables"), |w| {
                let g = Graph::new();
                let x = g.vars(&vals);
                w.op();
                w.state(h(&(kind, n)));
                // value and gradient in closed form
                let (out, v, want): (Variable, f64, Vec<f64>) = match kind {
                    0 => (x.iter().copied().sum(), vals.iter().sum(), vec![1.0; n]),
                    1 => { let p: f64 = vals.iter().product(); (x.iter().copied().product(), p, vals.iter().map(|v| p / v).collect()) }
                    // Horner: (((x0) c + x1) c + x2) ...
                    2 => { let mut o = x[0]; let mut e = vals[0]; for k in 1..n { o = o * 0.9 + x[k]; e = e * 0.9 + vals[k]; } (o, e, (0..n).map(|k| 0.9f64.powi((n - 1 - k) as i32)).collect()) }
                    // a chain of one variable through n sines
                    3 => { let (mut o, mut e, mut d) = (x[0], vals[0], 1.0); for _ in 0..n { o = o.sin(); d *= e.cos(); e = e.sin(); } let mut w = vec![0.0; n]; w[0] = d; (o, e, w) }
                    // a balanced tree of products of neighbours
                    4 => { let mut l: Vec<Variable> = x.clone(); while l.len() > 1 { l = l.chunks(2).map(|c| if c.len() == 2 { c[0] + c[1] * 1.0 } else { c[0] }).collect(); } (l[0], vals.iter().sum(), vec![1.0; n]) }
                    // sum of squares, each term made of one variable used twice
                    5 => { let mut o = x[0] * x[0]; for k in 1..n { o = o + x[k] * x[k]; } (o, vals.iter().map(|v| v * v).sum(), vals.iter().map(|v| 2.0 * v).collect()) }
                    // log of the sum of exponentials
                    6 => { let s: f64 = vals.iter().map(|v| v.exp()).sum(); (x.iter().map(|v| v.exp()).sum::<Variable>().ln(), s.ln(), vals.iter().map(|v| v.exp() / s).collect()) }
                    // weighted sum, accumulated in place, the last variable entering everywhere
                    _ => { let mut o = x[n - 1] * 0.0; let mut e = 0.0; let mut w = vec![0.0; n]; for k in 0..n { let c = (k % 7) as f64 - 3.0; o += x[k] * c * x[n - 1]; e += vals[k] * c * vals[n - 1]; w[k] += c * vals[n - 1]; w[n - 1] += c * vals[k]; } (o, e, w) }
                };
                ensure!(close(out.value(), v, 1e-10 * n as f64, 1e-9), "value {} expected {v}", out.value());
                let got = out.accumulate().wrt(&x);
                ensure!(got.len() == n, "{} partials", got.len());
                for k in 0..n { ensure!(close(got[k], want[k], 1e-10 * n as f64, 1e-9), "partial {k} is {}, expected {}", got[k], want[k]); }
                Ok(())
            });
        }
    });
}

// ---- A02: histories of graph operations -----------------------------------------------------------------------------
#[derive(Clone)]
struct Tape { v: Vec<(f64, Vec<(usize, f64)>)> }
impl Tape {
    /// gradient of `out` with respect to every vertex: sums over all paths, computed forwards from each vertex
    fn grad(&self, out: usize) -> Vec<f64> {
        (0..self.v.len()).map(|src| {
            let mut d = vec![0.0; self.v.len()];
            d[src] = 1.0;
            for i in src + 1..=out.max(src) { d[i] = self.v[i].1.iter().map(|(p, q)| q * d[*p]).sum(); }
            if src <= out { d[out] } else { 0.0 }
        }).collect()
    }
    fn hash(&self) -> u64 { let mut x = vec![]; for (v, ps) in &self.v { x.push(*v); for (p, q) in ps { x.push(*p as f64); x.push(*q); } x.push(-77.0); } hf(&x) }
}
fn check_graph(w: &mut W, g: &Graph, t: &Tape, vars: &[usize]) -> Res {
    ensure!(g.len() == t.v.len() && g.is_empty() == t.v.is_empty(), "graph has {} vertices, expected {}", g.len(), t.v.len());
    let before = g.vertices.borrow().clone();
    for &i in vars {
        let v = Variable::new(g, i, t.v[i].0);
        let got = v.accumulate();
        w.op();
        let want = t.grad(i);
        ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| close(*a, *b, 1e-9, 1e-9)), "gradient of vertex {i} is {got:?}, expected {want:?}");
        ensure!(v.accumulate() == got, "taking the gradient twice differs");
        // all ways of reading a gradient agree
        let all: Vec<Variable> = vars.iter().map(|k| Variable::new(g, *k, t.v[*k].0)).collect();
        let want: Vec<f64> = vars.iter().map(|k| got[*k]).collect();
        let single: Vec<f64> = all.iter().map(|k| got.wrt(k)).collect();
        ensure!(single == want && got.wrt(&all) == want && got.wrt(&all[..]) == want, "wrt forms disagree");
        if all.len() >= 2 { let a = [all[0], all[1]]; ensure!(got.wrt(&a) == want[..2] && got.wrt(a) == want[..2], "wrt array forms disagree"); }
    }
    ensure!(before == *g.vertices.borrow(), "taking a gradient changed the graph");
    Ok(())
}
fn a02(ck: &Ck) {
    // actions: 0 var, 1 add last two, 2 mul first*last, 3 sin last, 4 c-last, 5 last/first, 6 zero, 7 clear, 8 vars of three (two of them equal), 9 square last (x*x)
    let depth = ck.pick(7, 8);
    let na = 10usize;
    let act = |g: &'static Graph, live: &mut Vec<Variable<'static>>, t: &mut Tape, a: usize, step: usize| -> bool {
        let val = 0.7 + 0.31 * step as f64;
        let n = live.len();
        let last = |t: &Tape, live: &Vec<Variable>| { let i = live[n - 1].index(); (i, t.v[i].0) };
        match a {
            0 => { live.push(g.var(val)); t.v.push((val, vec![])); }
            8 => { live.extend(g.vars(&[val, -val, -val])); t.v.push((val, vec![])); t.v.push((-val, vec![])); t.v.push((-val, vec![])); }
            6 => { g.zero(); for x in &mut t.v { for p in &mut x.1 { p.1 = 0.0; } } }
            7 => { g.clear(); live.clear(); t.v.clear(); }
            _ if n == 0 => return false,
            3 => { let (i, x) = last(t, live); live.push(live[n - 1].sin()); t.v.push((x.sin(), vec![(i, x.cos())])); }
            4 => { let (i, x) = last(t, live); live.push(1.5 - live[n - 1]); t.v.push((1.5 - x, vec![(i, -1.0)])); }
            9 => { let (i, x) = last(t, live); live.push(live[n - 1] * live[n - 1]); t.v.push((x * x, vec![(i, x), (i, x)])); }
            1 | 2 | 5 if n >= 2 => {
                let (l, xl) = last(t, live);
                let k = if a == 1 { n - 2 } else { 0 };
                let f = live[k].index();
                let xf = t.v[f].0;
                match a {
                    1 => { live.push(live[k] + live[n - 1]); t.v.push((xf + xl, vec![(f, 1.0), (l, 1.0)])); }
                    2 => { live.push(live[k] * live[n - 1]); t.v.push((xf * xl, vec![(f, xl), (l, xf)])); }
                    _ => {
                        if xf.abs() < 1e-3 { return false; }
                        // the tape may spend several vertices on a quotient; the model follows the indices actually used
                        let r = live[n - 1] / live[k];
                        while t.v.len() < r.index() { t.v.push((f64::NAN, vec![])); }
                        let base = t.v.len();
                        t.v.push((xl / xf, vec![(l, 1.0 / xf), (f, -xl / (xf * xf))]));
                        // helper vertices carry an unspecified adjoint: compare only named vertices
                        if base != r.index() { return false; }
                        live.push(r);
                    }
                }
            }
            _ => return false,
        }
        true
    };
    // gradients are compared at the vertices the user holds
    let named = |g: &Graph, t: &Tape, live: &Vec<Variable>, w: &mut W| -> Res {
        let helper = t.v.iter().any(|x| x.0.is_nan());
        if !helper { return check_graph(w, g, t, &live.iter().map(|v| v.index()).collect::<Vec<_>>()); }
        ensure!(g.len() == t.v.len(), "graph has {} vertices, expected {}", g.len(), t.v.len());
        for v in live {
            w.op();
            let (got, want) = (v.accumulate(), t.grad(v.index()));
            for u in live { ensure!(close(got.wrt(u), want[u.index()], 1e-9, 1e-9), "gradient of vertex {} wrt {} is {}, expected {}", v.index(), u.index(), got.wrt(u), want[u.index()]); }
        }
        Ok(())
    };
    ck.par(na * na, |w, n| {
        let pre = [n / na, n % na];
        words(na, depth - 2, &mut |x| {
            let word: Vec<usize> = pre.iter().chain(x).copied().collect();
            w.case("histories", || format!("{word:?}"), |w| {
                let gb = Box::new(Graph::new());
                let g: &'static Graph = unsafe { &*(&*gb as *const Graph) };
                let (mut live, mut t) = (vec![], Tape { v: vec![] });
                for (s, &a) in word.iter().enumerate() {
                    if !act(g, &mut live, &mut t, a, s) { return Ok(()); }
                    w.op();
                    if s + 1 >= 2 && (s + 1 == word.len() || a >= 6) { named(g, &t, &live, w)?; }
                }
                for v in &live { ensure!(close(v.value(), t.v[v.index()].0, 1e-9, 1e-9), "vertex {} has value {}", v.index(), v.value()); ensure!(std::ptr::eq(v.graph(), g), "variable left its graph"); }
                w.state(t.hash());
                Ok(())
            });
        });
    });
    // merging: every pair of short histories (no clear/zero), joined, then continued in the joined graph
    let acts = [0usize, 8, 1, 2, 3, 4, 9];
    let len = ck.pick(3, 4);
    let mut ws: Vec<Vec<usize>> = vec![vec![]];
    for l in 1..=len { words(acts.len(), l, &mut |x| ws.push(x.iter().map(|k| acts[*k]).collect())); }
    let build = |word: &[usize]| -> Option<(Box<Graph>, Tape)> {
        let gb = Box::new(Graph::with_capacity(word.len()));
        let g: &'static Graph = unsafe { &*(&*gb as *const Graph) };
        let (mut live, mut t) = (vec![], Tape { v: vec![] });
        for (s, &a) in word.iter().enumerate() { if !act(g, &mut live, &mut t, a, s) { return None; } }
        Some((gb, t))
    };
    let built: Vec<Vec<usize>> = ws.into_iter().filter(|x| build(x).is_some()).collect();
    ck.par(built.len(), |w, i| {
        for b in &built {
            w.case("join", || format!("{:?} {b:?}", built[i]), |w| {
                let ((ga, ta), (gb, tb)) = (build(&built[i]).unwrap(), build(b).unwrap());
                let (ca, cb) = (ga.vertices.borrow().clone(), gb.vertices.borrow().clone());
                let j = ga.join(&gb);
                let off = ta.v.len();
                let mut t = ta.clone();
                for (v, ps) in &tb.v { t.v.push((*v, ps.iter().map(|(p, q)| (p + off, *q)).collect())); }
                w.op();
                check_graph(w, &j, &t, &(0..t.v.len()).collect::<Vec<_>>())?;
                check_drawing(&j, &t, &(0..t.v.len()).filter(|k| t.v[*k].1.is_empty()).collect::<Vec<_>>())?;
                ensure!(*ga.vertices.borrow() == ca && *gb.vertices.borrow() == cb, "joining changed one of its inputs");
                if !t.v.is_empty() {
                    let (f, l) = (Variable::new(&j, 0, t.v[0].0), Variable::new(&j, t.v.len() - 1, t.v.last().unwrap().0));
                    let r = f * l;
                    let n = t.v.len();
                    t.v.push((f.value() * l.value(), vec![(0, l.value()), (n - 1, f.value())]));
                    ensure!(r.index() == n, "continued at index {}", r.index());
                    check_graph(w, &j, &t, &[n])?;
                }
                w.state(t.hash());
                Ok(())
            });
        }
    });
    large_graphs(ck);
    huge_graphs(ck);
    unrelated_singular(ck);
}

/// Operations the output does not depend on, recorded anywhere on the tape, at points where their own partials are infinite or undefined.
fn unrelated_singular(ck: &Ck) {
    let at = [0.0, 1.0, -1.0, 2.0, -2.0];
    type F = for<'v> fn(Variable<'v>, Variable<'v>) -> Variable<'v>;
    let ops: Vec<(&str, F)> = vec![
        ("ln", |x, _| x.ln()), ("log2", |x, _| x.log2()), ("log10", |x, _| x.log10()), ("ln_1p", |x, _| x.ln_1p()), ("recip", |x, _| x.recip()), ("sqrt", |x, _| x.sqrt()), ("cbrt", |x, _| x.cbrt()), ("acosh", |x, _| x.acosh()), ("asin", |x, _| x.asin()), ("acos", |x, _| x.acos()), ("atanh", |x, _| x.atanh()),
        ("powi(-1)", |x, _| x.powi(-1)), ("powf(0.5)", |x, _| x.powf(0.5)), ("powf(-0.5)", |x, _| x.powf(-0.5)), ("1/x", |x, _| 1.0 / x), ("x/0", |x, _| x / 0.0), ("x*inf", |x, _| x * f64::INFINITY), ("y/x", |x, y| y / x), ("x/y", |x, y| x / y), ("x^y", |x, y| x.powf(y)), ("y^x", |x, y| y.powf(x)), ("log(x, y)", |x, y| RustQuant_autodiff::Log::log(&x, y)), ("0^x", |x, _| RustQuant_autodiff::Powf::powf(&0.0, x)),
        ("sin ln", |x, _| x.ln().sin()), ("x ln x", |x, _| x * x.ln()), ("exp 1/x", |x, _| x.recip().exp()),
    ];
    ck.par(ops.len() * ops.len(), |w, i| {
        let ((n1, f1), (n2, f2)) = (&ops[i / ops.len()], &ops[i % ops.len()]);
        for x0 in at { for y0 in at { for place in 0..4 { w.case("unrelated-singular", || format!("{n1} and {n2} of ({x0}, {y0}) at place {place}"), |w| {
            w.ops(2);
            let g = Graph::new();
            let (x, y) = (g.var(x0), g.var(y0));
            if place == 0 || place == 3 { f1(x, y); f2(y, x); }
            let p = x * x;
            if place == 1 || place == 3 { f1(p, y); f2(p, x); }
            let q = p * 3.0 + x * y - y.sin();
            if place == 2 || place == 3 { f1(x, q); f2(q, y); }
            let r = q.accumulate();
            let (a, b) = (r.wrt(&x), r.wrt(&y));
            w.state(h(&(i, x0.to_bits(), y0.to_bits(), place)));
            ensure!(close(a, 6.0 * x0 + y0, 1e-12, 1e-12) && close(b, x0 - y0.cos(), 1e-12, 1e-12), "gradient ({a}, {b}), exact ({}, {})", 6.0 * x0 + y0, x0 - y0.cos());
            ensure!(p.accumulate().wrt(&x) == 2.0 * x0 && p.accumulate().wrt(&y) == 0.0, "gradient of the square {:?}", p.accumulate());
            Ok(())
        }); } } }
    });
}

/// Thousands of vertices: the tape grows by exactly the inputs asked for, joining keeps all of it, and reverse sums equal closed forms.
fn huge_graphs(ck: &Ck) {
    let sizes: Vec<usize> = ck.pick(vec![999, 1000, 1001, 1023, 1024, 1025, 2049, 4096, 4097, 5000, 8193, 20_000, 65_537], vec![999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8193, 20_000, 65_535, 65_536, 65_537, 300_000]);
    ck.par(sizes.len(), |w, i| {
        let n = sizes[i];
        w.case("huge-graphs", || format!("{n} inputs"), |w| {
            w.ops(4);
            let vals: Vec<f64> = (0..n).map(|k| 0.5 + (k % 17) as f64 / 8.0).collect();
            let (g, o) = (Graph::with_capacity(n), Graph::new());
            let v = g.vars(&vals);
            ensure!(g.len() == n && v.len() == n && v.iter().enumerate().all(|(k, x)| x.index() == k && x.value() == vals[k]), "{} vertices after {n} inputs", g.len());
            let u = o.vars(&vals);
            let out = |v: &[Variable]| -> usize { let mut s = v[0] * v[0]; for k in 1..v.len() { s = s + v[k] * v[k]; } s.index() };
            let (a, b) = (out(&v), out(&u));
            let check = |g: &Graph, top: usize, off: usize, what: &str| -> Res {
                let r = Variable::new(g, top, 0.0).accumulate();
                ensure!(r.len() == g.len(), "{what}: {} entries for {} vertices", r.len(), g.len());
                for k in 0..n { ensure!(r[off + k] == 2.0 * vals[k], "{what}: derivative with respect to input {k} is {}, exact {}", r[off + k], 2.0 * vals[k]); }
                Ok(())
            };
            check(&g, a, 0, "first graph")?;
            let j = g.join(&o);
            ensure!(j.len() == g.len() + o.len(), "joined {} and {} into {}", g.len(), o.len(), j.len());
            check(&j, a, 0, "first part of the join")?;
            check(&j, b + g.len(), g.len(), "second part of the join")?;
            w.state(n as u64);
            Ok(())
        });
    });
}

/// The drawing of a graph: one node per vertex (inputs with their values), one edge per dependence, with its partial.
fn check_drawing(g: &Graph, t: &Tape, inputs: &[usize]) -> Res {
    let vars: Vec<Variable> = inputs.iter().map(|k| Variable::new(g, *k, t.v[*k].0)).collect();
    let dot = graphviz(g, &vars);
    let (mut nodes, mut edges) = (vec![], vec![]);
    for l in dot.lines() {
        let id = |s: &str| s.trim().parse::<usize>().ok();
        let label = || l.split("label=\"").nth(1).and_then(|r| r.split('"').next()).unwrap_or("").to_string();
        if let Some((a, b)) = l.split_once("->") {
            if let (Some(a), Some(b)) = (id(a), id(b.split('[').next().unwrap())) { edges.push((a, b, label().rsplit(' ').next().unwrap().to_string())); }
        } else if let Some(a) = l.split_once('[').and_then(|x| id(x.0)) { nodes.push((a, label())); }
    }
    ensure!(nodes.iter().map(|n| n.0).eq(0..t.v.len()), "the drawing has nodes {:?} for {} vertices", nodes.iter().map(|n| n.0).collect::<Vec<_>>(), t.v.len());
    for (k, l) in &nodes {
        ensure!(inputs.contains(k) == l.contains("Value"), "node {k} is labelled {l}");
        if inputs.contains(k) { ensure!(l.ends_with(&format!("{:.2}", t.v[*k].0)), "input {k} of value {} is labelled {l}", t.v[*k].0); }
    }
    let mut want: Vec<(usize, usize, String)> = t.v.iter().enumerate().flat_map(|(k, (_, ps))| ps.iter().map(move |(p, q)| (*p, k, format!("{q:.2}")))).collect();
    // an edge of partial zero carries no dependence: drawing it or not is up to the library
    for e in [&mut want, &mut edges] { e.retain(|x| x.2.trim_start_matches('-') != "0.00"); e.sort(); }
    ensure!(edges == want, "the drawing has edges {edges:?}, expected {want:?}");
    Ok(())
}

/// Graphs of many vertices: gradients of every vertex in turn, growth after a gradient, joining, clearing and reuse.
fn large_graphs(ck: &Ck) {
    let sizes: Vec<usize> = ck.pick((1..=20).chain([31, 32, 33, 64, 65, 100, 128, 129]).collect(), (1..=140).chain([255, 256, 257, 300]).collect());
    // a tape in which vertex k is a product, a sum or a function of earlier ones
    let grow = |g: &'static Graph, t: &mut Tape, n: usize, salt: usize| {
        let mut live: Vec<Variable<'static>> = vec![];
        let base = t.v.len();
        for k in 0..n {
            if k < 3 { let v = 0.8 + 0.1 * (k + salt) as f64 % 0.7; live.push(g.var(v)); t.v.push((v, vec![])); continue; }
            let (i, j) = (k - 1 - (k * 5 + salt) % 3, (k * 7 + salt) % k);
            let (xi, xj) = (t.v[base + i].0, t.v[base + j].0);
            if k % 4 == 3 && (xi * xj).abs() < 1e3 { live.push(live[i] * live[j]); t.v.push((xi * xj, vec![(base + i, xj), (base + j, xi)])); }
            else if k % 4 == 1 { live.push(live[i].sin()); t.v.push((xi.sin(), vec![(base + i, xi.cos())])); }
            else if k % 4 == 2 { live.push(1.5 - live[i]); t.v.push((1.5 - xi, vec![(base + i, -1.0)])); }
            else { live.push(live[i] + live[j]); t.v.push((xi + xj, vec![(base + i, 1.0), (base + j, 1.0)])); }
        }
        live
    };
    ck.par(sizes.len() * 2, |w, i| {
        let (n, salt) = (sizes[i / 2], i % 2);
        w.case("large-graphs", || format!("{n} vertices, pattern {salt}"), |w| {
            let gb = Box::new(Graph::new());
            let g: &'static Graph = unsafe { &*(&*gb as *const Graph) };
            let mut t = Tape { v: vec![] };
            grow(g, &mut t, n, salt);
            check_graph(w, g, &t, &(0..n).collect::<Vec<_>>())?;
            check_drawing(g, &t, &(0..n.min(3)).collect::<Vec<_>>())?;
            check_drawing(g, &t, &[])?;
            w.state(t.hash());
            // growth after gradients were taken
            grow(g, &mut t, n / 2 + 1, salt + 1);
            let m = t.v.len();
            check_graph(w, g, &t, &[0, n - 1, m - 1])?;
            // joined with another one
            let hb = Box::new(Graph::new());
            let k: &'static Graph = unsafe { &*(&*hb as *const Graph) };
            let mut u = Tape { v: vec![] };
            grow(k, &mut u, n, salt + 2);
            let j = g.join(k);
            let mut all = t.clone();
            for (v, ps) in &u.v { all.v.push((*v, ps.iter().map(|(p, q)| (p + m, *q)).collect())); }
            check_graph(w, &j, &all, &[0, m - 1, m, all.v.len() - 1])?;
            // cleared and used again
            g.clear();
            let mut t = Tape { v: vec![] };
            grow(g, &mut t, n, salt + 3);
            check_graph(w, g, &t, &[0, n / 2, n - 1])
        });
    });
}

fn main() {
    Ck::main(|ck| match ck.prop.as_str() { "A01" => a01(ck), "A02" => a02(ck), p => panic!("unknown property {p}") })
}
