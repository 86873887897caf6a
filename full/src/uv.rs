//! Checks of the univariate distributions against their reference laws (C08 to C19).
use crate::{
    api::{scripted, Api, Got, Path},
    laws::{Law, Place},
    specs::{self, Spec},
};
use pbt::{
    gen::probs,
    proptest::{self, prelude::*, strategy::Union},
    sub, Obs, Prop, Sub,
};

type Case = (Vec<f64>, u8, f64);

/// Parameters, the kind of argument and a coordinate.
fn case(s: Spec) -> BoxedStrategy<Case> {
    let kind = Union::new_weighted(vec![(6, Just(0u8).boxed()), (5, (1u8..=7).boxed()), (1, (8u8..=9).boxed())]);
    ((s.gen)(), kind, -4.0..4.0f64).prop_map(|(p, k, t)| (p, k, t)).boxed()
}

/// The argument a case stands for.
pub fn arg(l: &Law, scaled: bool, k: u8, t: f64) -> f64 {
    if k == 8 && !l.disc {
        return f64::INFINITY.copysign(t);
    }
    if k == 9 && !l.disc {
        let e = if scaled { [1e-270, 1e-260, 1e-250, 1e-160, 1e160, 1e200, 1e260, 1e270] } else { [5e-324, 1e-310, 1e-250, 1e-160, 1e160, 1e200, 1e300, f64::MAX] };
        return e[(t.abs() * 2.0) as usize % 8].copysign(t);
    }
    let span = l.scale();
    let x = match k {
        0 | 1 => l.at(t),
        2 => {
            // Near (or just outside) the lower end.
            if l.lo.is_finite() { l.lo + span * (t * 3.0 - 4.0).exp() * if t > 3.0 { -1.0 } else { 1.0 } } else { l.at(t * 4.0) }
        },
        3 => {
            if l.hi.is_finite() { l.hi - span * (t * 3.0 - 4.0).exp() * if t > 3.0 { -1.0 } else { 1.0 } } else { l.at(t * 4.0) }
        },
        4 => if l.lo.is_finite() { l.lo - span * (1.0 + t.abs()) } else { l.at(-20.0 * t.abs()) },
        5 => if l.hi.is_finite() { l.hi + span * (1.0 + t.abs()) } else { l.at(20.0 * t.abs()) },
        6 => match (t.abs() * 2.0) as u32 {
            0 => if l.lo.is_finite() { l.lo } else { l.at(0.0) },
            1 => if l.hi.is_finite() { l.hi } else { l.at(0.0) },
            2 => 0f64.copysign(t),
            3 => l.at(0.0),
            4 => 1.0,
            5 => -1.0,
            6 => l.lo.max(-1e3),
            _ => l.hi.min(1e3),
        },
        _ => match (t.abs() * 2.0) as u32 {
            0 => 1e60,
            1 => -1e60,
            2 => 1e100,
            3 => -1e100,
            4 => 1e20,
            5 => -1e20,
            6 => 1e-20,
            _ => -1e-20,
        },
    };
    if l.disc {
        let r = x.round();
        if r.abs() >= 9e15 { 9e15f64.copysign(r) - 1.0 } else { r }
    } else {
        x.max(-1e100).min(1e100)
    }
}

fn built(o: &mut Obs, s: &Spec, p: &[f64]) -> Option<Box<dyn Api>> {
    match pbt_catch(|| (s.mk)(p)) {
        Ok(Ok(d)) => Some(specs::second(s, p, d)),
        Ok(Err(e)) => {
            o.fail("new", format!("{}({:?}) is refused: {}", s.name, p, e));
            None
        },
        Err(e) => {
            o.fail("new", format!("{}({:?}) panics: {}", s.name, p, e));
            None
        },
    }
}

pub fn pbt_catch<T: std::fmt::Debug>(f: impl FnOnce() -> T) -> Result<T, String> {
    match crate::api::guard(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(pbt::panic_text)) {
        crate::api::Got::Val(x) => x,
        other => Err(format!("{:?}", other)),
    }
}

fn gap(s: &Spec, what: &str) -> bool { s.gaps.contains(&what) }

/// Sensitivity of the density to rounding of its argument: relative.
fn jitter(l: &Law, x: f64) -> f64 {
    let m = [x.abs(), fin(l.lo), fin(l.hi)].iter().cloned().fold(1e-300, f64::max);
    let u = 8.0 * f64::EPSILON * m;
    let c = l.ln_f(x);
    let mut d: f64 = 0.0;
    for y in [x - u, x + u] {
        let v = (l.ln_f(y) - c).abs();
        if v.is_nan() || v.is_infinite() {
            return 1.0;
        }
        d = d.max(v);
    }
    4.0 * d
}

fn fin(x: f64) -> f64 { if x.is_finite() { x.abs() } else { 0.0 } }

fn classes(o: &mut Obs, l: &Law, x: f64) {
    if x < l.lo || x > l.hi {
        o.class("outside the support");
    } else if x == l.lo || x == l.hi {
        o.class("end of the support");
    } else {
        o.class("inside the support");
    }
}

// ------------------------------------------------------------------------------------------
// C08, C09
// ------------------------------------------------------------------------------------------
fn cdf_obs(s: &Spec, c: &Case) -> Obs {
    let mut o = Obs::new();
    let (p, k, t) = c;
    let l = (s.law)(p);
    let x = arg(&l, !s.suffix.is_empty(), *k, *t);
    let (f, g) = l.cdf(x);
    if (f + g - 1.0).abs() > 1e-9 {
        o.class("reference unresolved");
        return o;
    }
    let Some(d) = built(&mut o, s, p) else { return o };
    classes(&mut o, &l, x);
    o.nontrivial(f > 1e-6 && g > 1e-6);
    o.note(format!("{}{:?} at {}: P[X <= x] = {:.9}", s.name, p, x, f));
    // The incomplete gamma and beta functions of special-fun are good to about eight digits.
    let tables = ["beta", "beta_prime", "f_dist", "student_t", "binomial", "gamma", "chi_sq", "chi", "erlang", "inverse_gamma"];
    let tol = if tables.contains(&s.name) { 2e-8 } else { 2e-9 } + if x.is_infinite() { 0.0 } else { 4.0 } * (l.f(x).max(0.0) * 16.0 * f64::EPSILON * x.abs().max(fin(l.lo)).max(fin(l.hi))).min(1.0) * if l.disc || x.is_infinite() { 0.0 } else { 1.0 };
    let ctx = format!("{}{:?} at x = {:?}", s.name, p, x);
    let exempt = gap(s, "cdf") || (s.name == "beta_binomial" && x < l.hi);

    let mut got = |what: &str, g: Got, want: f64, log: bool| {
        match g {
            Got::Absent => {},
            Got::Unimplemented if exempt => {},
            Got::Val(v) => {
                let v1 = if log { v.exp() } else { v };
                o.check((v1 - want).abs() <= tol, what, || format!("{}: {} is {:?}, the law gives {:?}{}", ctx, what, v, want, if log { " (before the logarithm)" } else { "" }));
                o.check(!(log && v > 1e-9), what, || format!("{}: {} is {:?}", ctx, what, v));
            },
            other => o.fail(what, format!("{}: {} gives {:?}", ctx, what, other)),
        }
    };
    got("cdf", d.cdf(x), f, false);
    got("ccdf", d.ccdf(x), g, false);
    got("log_cdf", d.ln_cdf(x), f, true);
    got("log_ccdf", d.ln_ccdf(x), g, true);
    o
}

/// Monotone along a generated sequence of arguments.
fn mono_obs(s: &Spec, c: &(Vec<f64>, Vec<(u8, f64)>)) -> Obs {
    let mut o = Obs::new();
    let (p, args) = c;
    let l = (s.law)(p);
    let Some(d) = built(&mut o, s, p) else { return o };
    let mut xs: Vec<f64> = args.iter().map(|(k, t)| arg(&l, !s.suffix.is_empty(), *k, *t)).collect();
    xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    o.nontrivial(xs.iter().any(|x| *x > l.lo && *x < l.hi));
    let mut last: Option<(f64, f64)> = None;
    for x in xs {
        let Got::Val(v) = d.cdf(x) else { continue };
        o.check(v >= -1e-12 && v <= 1.0 + 1e-12, "range", || format!("{}{:?}: cdf({:?}) = {:?}", s.name, p, x, v));
        if let Some((y, w)) = last {
            o.check(v >= w - 1e-11, "decreasing", || format!("{}{:?}: cdf({:?}) = {:?} but cdf({:?}) = {:?}", s.name, p, y, w, x, v));
        }
        last = Some((x, v));
    }
    o
}

// ------------------------------------------------------------------------------------------
// C10, C11
// ------------------------------------------------------------------------------------------
fn dens_obs(s: &Spec, c: &Case) -> Obs {
    let mut o = Obs::new();
    let (p, k, t) = c;
    let l = (s.law)(p);
    let x = arg(&l, !s.suffix.is_empty(), *k, *t);
    let Some(d) = built(&mut o, s, p) else { return o };
    classes(&mut o, &l, x);
    let lf = l.ln_f(x);
    o.nontrivial(lf > -600.0);
    o.note(format!("{}{:?} at {}: ln f = {:.9}", s.name, p, x, lf));
    let ctx = format!("{}{:?} at x = {:?}", s.name, p, x);
    let (what, lwhat) = if l.disc { ("pmf", "log_pmf") } else { ("pdf", "log_pdf") };
    let end = !l.disc && x.is_finite() && (x == l.lo || x == l.hi);
    // Without an own scale a point mass has no density to compare.
    let skip = l.atom.is_some() && !l.disc;
    let jit = if l.disc || x.is_infinite() { 0.0 } else { jitter(&l, x) };
    // Near a point where the density vanishes only its absolute accuracy is meaningful.
    let floor = if l.disc { 0.0 } else { 1e-13 * (l.ln_f(l.at(0.0)).min(600.0)).exp() };
    let rel = 1e-8 + 1e-13 * magnitude(s, p, x) + jit;
    // The categorical distribution documents that it refuses indices beyond its last one.
    let refuses = s.name.starts_with("categorical") && x >= p.len() as f64;
    if refuses {
        o.class("index refused");
    }

    match d.dens(x) {
        Got::Absent => {},
        Got::Val(v) => {
            o.check(!v.is_nan() && v >= 0.0, what, || format!("{}: {} is {:?}", ctx, what, v));
            if l.disc {
                o.check(v <= 1.0 + 1e-9, what, || format!("{}: {} is {:?}", ctx, what, v));
            }
            if !end && !skip && jit < 0.5 {
                let want = lf.exp();
                if lf == f64::NEG_INFINITY {
                    o.check(v == 0.0, what, || format!("{}: {} is {:?} outside the support", ctx, what, v));
                } else if want < 1e250 {
                    o.check((v - want).abs() <= rel * want + floor + 1e-290, what, || format!("{}: {} is {:?}, the law gives {:?}", ctx, what, v, want));
                }
            }
        },
        Got::Panic(_) if refuses => {},
        other => o.fail(what, format!("{}: {} gives {:?}", ctx, what, other)),
    }
    match d.ln_dens(x) {
        Got::Absent => {},
        Got::Panic(_) if refuses => {},
        Got::Val(v) => {
            o.check(!v.is_nan(), lwhat, || format!("{}: {} is NaN", ctx, lwhat));
            if !end && !skip && jit < 0.5 {
                if lf < -640.0 {
                    o.check(v < -600.0, lwhat, || format!("{}: {} is {:?}, the law gives {:?}", ctx, lwhat, v, lf));
                } else if lf < 570.0 && lf.exp() > 1e5 * floor {
                    o.check((v - lf).abs() <= 1e-8 + rel, lwhat, || format!("{}: {} is {:?}, the law gives {:?}", ctx, lwhat, v, lf));
                }
            }
        },
        other => o.fail(lwhat, format!("{}: {} gives {:?}", ctx, lwhat, other)),
    }
    o
}

/// Size of the terms a log-density is made of: they cancel, so the result can be no more
/// accurate than one rounding of the largest.
fn magnitude(s: &Spec, p: &[f64], x: f64) -> f64 {
    let a = x.abs().min(1e15);
    let base = p.iter().map(|v| v.abs()).fold(1.0, f64::max) * (2.0 + a.max(1e-300).ln().abs());
    if (s.caps).starts_with('D') { base + a * (1.0 + (a + 1.0).ln()) } else { base * 10.0 }
}

/// The masses reported sum to one.
fn total_obs(s: &Spec, c: &Vec<f64>) -> Obs {
    let mut o = Obs::new();
    let l = (s.law)(c);
    let Some(d) = built(&mut o, s, c) else { return o };
    let mut sum = 0.0;
    let mut k = l.lo;
    while k <= l.top {
        match d.dens(k) {
            Got::Val(v) => sum += v,
            other => {
                o.fail("pmf", format!("{}{:?}: pmf({}) gives {:?}", s.name, c, k, other));
                return o;
            },
        }
        k += 1.0;
    }
    o.nontrivial(l.top > l.lo);
    o.check((sum - 1.0).abs() < 1e-8, "sum", || format!("{}{:?}: the masses sum to {:?}", s.name, c, sum));
    o
}

// ------------------------------------------------------------------------------------------
// C12
// ------------------------------------------------------------------------------------------
fn support_obs(s: &Spec, c: &Case) -> Obs {
    let mut o = Obs::new();
    let (p, k, t) = c;
    let l = (s.law)(p);
    let x = arg(&l, !s.suffix.is_empty(), *k, *t);
    let Some(d) = built(&mut o, s, p) else { return o };
    classes(&mut o, &l, x);
    let ctx = format!("{}{:?}", s.name, p);
    let lf = l.ln_f(x);
    let inside = x.is_finite() && lf > -600.0 && !((x == l.lo || x == l.hi) && !l.disc) && x != 0.0 || l.atom == Some(x);
    o.nontrivial(inside);
    for (what, got) in [("support", d.contains(x)), ("into_support", d.into_contains(x))] {
        match got {
            Got::Absent => {},
            Got::Val(v) => {
                o.check(v || !inside, what, || format!("{}: {:?} has positive density but is not in the support", ctx, x));
            },
            other => o.fail(what, format!("{}: {} gives {:?}", ctx, what, other)),
        }
    }
    // Degenerate parameters shrink the set of outcomes below the stated support.
    if matches!(s.name, "bernoulli" | "poisson") || s.name.starts_with("categorical") {
        return o;
    }
    match d.ends() {
        Got::Val((a, b)) => {
            for (what, got, want) in [("lower end", a, l.lo), ("upper end", b, l.hi)] {
                if let Some(v) = got {
                    if v.is_finite() {
                        o.check((v - want).abs() <= 1e-12 * (1.0 + want.abs()), what, || format!("{}: the {} of the support is {:?}, the law gives {:?}", ctx, what, v, want));
                    }
                }
            }
        },
        other => o.fail("ends", format!("{}: {:?}", ctx, other)),
    }
    o
}

fn cat_support_obs(s: &Spec, c: &Vec<f64>) -> Obs {
    let mut o = Obs::new();
    let Some(d) = built(&mut o, s, c) else { return o };
    o.nontrivial(c.len() > 1);
    o.check(d.ends() == Got::Val((Some(0.0), Some(c.len() as f64 - 1.0))), "ends", || format!("{}{:?}: the support ends at {:?}", s.name, c, d.ends()));
    o
}

// ------------------------------------------------------------------------------------------
// C13, C14
// ------------------------------------------------------------------------------------------
/// A value against a quantity that may not exist.
fn quantity(o: &mut Obs, ctx: &str, what: &str, got: Got, finite: bool, want: impl FnOnce() -> (f64, f64)) {
    match got {
        Got::Absent => {},
        Got::Val(v) => {
            if finite {
                let (w, tol) = want();
                if w.is_finite() && tol.is_finite() {
                    o.check((v - w).abs() <= tol, what, || format!("{}: {} is {:?}, the law gives {:?}", ctx, what, v, w));
                }
            } else {
                o.check(!v.is_finite(), what, || format!("{}: {} is {:?}, but no finite value exists", ctx, what, v));
                o.check(v != f64::NEG_INFINITY, what, || format!("{}: {} is {:?}", ctx, what, v));
            }
        },
        Got::Undefined => o.check(!finite, what, || format!("{}: {} is refused as undefined, but it exists", ctx, what)),
        other => o.fail(what, format!("{}: {} gives {:?}", ctx, what, other)),
    }
}

fn moments_obs(s: &Spec, p: &Vec<f64>) -> Obs {
    let mut o = Obs::new();
    let l = (s.law)(p);
    if !l.resolved() {
        o.class("reference unresolved");
        return o;
    }
    let Some(d) = built(&mut o, s, p) else { return o };
    let ctx = format!("{}{:?}", s.name, p);
    let near = |r: f64| (l.order - r).abs() < 0.06 * r && l.order != r;
    o.class(if l.order > 2.0 { "mean and variance exist" } else if l.order > 1.0 { "mean exists" } else { "no mean" });
    o.nontrivial(true);
    if near(1.0) || near(2.0) {
        o.class("too close to divergence");
        return o;
    }
    let m = if l.order > 1.0 { l.mean() } else { f64::NAN };
    let scale = if l.order > 2.0 { l.moment(2, m).max(0.0).sqrt() } else { l.scale() };
    if l.order > 1.0 && l.order <= 2.0 && d.mean() == Got::Undefined {
        o.fail("mean", format!("{}: mean is refused as undefined, but it exists", ctx));
    }
    quantity(&mut o, &ctx, "mean", d.mean(), l.order > 1.0, || (m, 1e-7 * (m.abs() + scale) * hard(s, p) + 1e-26 * m * m + 1e-300));
    quantity(&mut o, &ctx, "variance", d.variance(), l.order > 2.0, || (scale * scale, 1e-6 * scale * scale * hard(s, p) + 1e-26 * m * m + 1e-300));
    quantity(&mut o, &ctx, "standard_deviation", d.sd(), l.order > 2.0, || (scale, 1e-6 * scale * hard(s, p) + 1e-13 * m.abs() + 1e-150));
    o.note(format!("{}: mean {:?}, variance {:?}", ctx, m, scale * scale));
    o
}

/// Formulas that subtract nearly equal gamma functions lose digits in proportion.
fn hard(s: &Spec, p: &[f64]) -> f64 {
    match s.name {
        // (g2 - g1^2) / zeta^2
        "gev" if p[2] < 1e-8 => 1.0,
        "gev" => 1.0 + 1e-7 / p[2].powi(2),
        "weibull" => 1.0 + 1e-8 * p[1] * p[1],
        "frechet" => 1.0 + 1e-8 * p[0] * p[0],
        _ => 1.0,
    }
}

fn shape_obs(s: &Spec, p: &Vec<f64>) -> Obs {
    let mut o = Obs::new();
    let l = (s.law)(p);
    if !l.resolved() {
        o.class("reference unresolved");
        return o;
    }
    let Some(d) = built(&mut o, s, p) else { return o };
    let ctx = format!("{}{:?}", s.name, p);
    let near = |r: f64| (l.order - r).abs() < 0.05 * r && l.order != r;
    o.class(if l.order > 4.0 { "four moments exist" } else if l.order > 3.0 { "three moments exist" } else { "no third moment" });
    if l.atom.is_some() || (near(2.0) || near(3.0) || near(4.0)) {
        o.class("skipped");
        return o;
    }
    let m = if l.order > 1.0 { l.mean() } else { f64::NAN };
    let var = if l.order > 2.0 { l.moment(2, m) } else { f64::NAN };
    // A constant (also one in disguise, like a binomial law with p = 1) has no shape.
    if l.order > 2.0 && !(var > 0.0) || l.disc && l.f(m.round()) > 1.0 - 1e-12 {
        o.class("skipped");
        return o;
    }
    o.nontrivial(l.order > 3.0);
    let sd = var.sqrt();
    let amp = amplification(s, p, m, sd);
    let skew = || {
        let w = l.moment(3, m) / (var * sd);
        (w, 1e-6 * (1.0 + w.abs()) + 1e-13 * amp.powi(3))
    };
    let kurt = || l.moment(4, m) / (var * var);
    let ktol = |w: f64| 1e-6 * (1.0 + w.abs()) + 1e-13 * amp.powi(4);
    if !gap(s, "skewness") {
        quantity(&mut o, &ctx, "skewness", d.skewness(), l.order > 3.0, skew);
    }
    if gap(s, "skewness") || gap(s, "kurtosis") {
        o.class("kurtosis not offered");
        return o;
    }
    quantity(&mut o, &ctx, "kurtosis", d.kurtosis(), l.order > 4.0, || {
        let w = kurt();
        (w, ktol(w))
    });
    quantity(&mut o, &ctx, "excess_kurtosis", d.excess(), l.order > 4.0, || {
        let w = kurt();
        (w - 3.0, ktol(w))
    });
    if let (Got::Val(a), Got::Val(b)) = (d.kurtosis(), d.excess()) {
        if a.is_finite() && b.is_finite() {
            o.check((a - b - 3.0).abs() <= 1e-9 * (1.0 + a.abs()), "difference", || format!("{}: kurtosis {:?}, excess kurtosis {:?}", ctx, a, b));
        }
    }
    o
}

/// How much a formula in raw (gamma-function) moments amplifies rounding.
fn amplification(s: &Spec, p: &[f64], m: f64, sd: f64) -> f64 {
    match s.name {
        "weibull" | "frechet" | "kumaraswamy" => 1.0 + (m / sd).abs(),
        "chi" => (if p[0] > 800.0 { 12.0 } else { 3.0 }) * (1.0 + (m / sd).abs()),
        "gev" if p[2] < 1e-8 => 3.0,
        "gev" => 3.0 + 3.0 / p[2],
        "arcsine" | "triangular" | "uniform" | "cosine" => 1.0 + ((p[0].abs() + 1.0) / sd).min(1.0),
        _ => 1.0,
    }
}

// ------------------------------------------------------------------------------------------
// C15
// ------------------------------------------------------------------------------------------
/// P[X <= m] >= 1/2 and P[X >= m] >= 1/2, within tol.
fn median_ok(l: &Law, m: f64, tol: f64) -> bool {
    if let Some(a) = l.atom {
        return m == a;
    }
    if l.disc {
        let f = l.cdf(m.floor()).0;
        let below = l.cdf(m.ceil() - 1.0).0;
        f >= 0.5 - tol - 1e-9 && below <= 0.5 + tol + 1e-9
    } else {
        let slack = l.f(m) * 16.0 * f64::EPSILON * m.abs().max(fin(l.lo)).max(fin(l.hi));
        (l.cdf(m).0 - 0.5).abs() <= tol + slack.min(0.1)
    }
}

fn quantile_obs(s: &Spec, c: &(Vec<f64>, f64)) -> Obs {
    let mut o = Obs::new();
    let (p, pr) = c;
    let l = (s.law)(p);
    if !l.resolved() {
        o.class("reference unresolved");
        return o;
    }
    let Some(d) = built(&mut o, s, p) else { return o };
    let ctx = format!("{}{:?}", s.name, p);
    o.nontrivial(*pr > 0.0 && *pr < 1.0);

    let q = d.quantile(*pr);
    let cq = d.cquantile(*pr);
    let [q1, med, q3, iqr, lf, uf] = d.quartiles();

    if gap(s, "quantile") {
        o.class("median only");
        for (what, g) in [("quantile", &q), ("cquantile", &cq), ("lower_quartile", &q1), ("upper_quartile", &q3), ("iqr", &iqr), ("lower_fence", &lf), ("upper_fence", &uf)] {
            // Offered after all: then it has to be right, see below.
            o.check(matches!(g, Got::Unimplemented | Got::Val(_)), what, || format!("{}: {} gives {:?}", ctx, what, g));
        }
    } else {
        o.class("quantile available");
        for (what, g) in [("quantile", &q), ("cquantile", &cq), ("lower_quartile", &q1), ("upper_quartile", &q3), ("iqr", &iqr), ("lower_fence", &lf), ("upper_fence", &uf)] {
            o.check(matches!(g, Got::Val(_)), what, || format!("{}: {} gives {:?}", ctx, what, g));
        }
    }
    let mut inverse = |what: &str, g: &Got, pr: f64| {
        if let Got::Val(v) = g {
            o.check(inverts(&l, *v, pr), what, || format!("{}: {} for probability {:?} is {:?}, where the cumulative probability is {:?}", ctx, what, pr, v, l.cdf(*v).0));
        }
    };
    inverse("quantile", &q, *pr);
    inverse("cquantile", &cq, 1.0 - *pr);
    inverse("lower_quartile", &q1, 0.25);
    inverse("upper_quartile", &q3, 0.75);
    if let (Got::Val(a), Got::Val(b)) = (&q1, &q3) {
        let (a, b) = (*a, *b);
        let sc = 1e-9 * (a.abs() + b.abs() + 1e-300);
        for (what, g, w) in [("iqr", iqr, b - a), ("lower_fence", lf, a - 1.5 * (b - a)), ("upper_fence", uf, b + 1.5 * (b - a))] {
            if let Got::Val(v) = g {
                o.check((v - w).abs() <= sc, what, || format!("{}: {} is {:?}, the quartiles give {:?}", ctx, what, v, w));
            }
        }
    }
    match med {
        Got::Val(m) => {
            // Three kinds of beta laws have a median in closed form.
            let tol = if s.name == "beta" && (p[0] == p[1] || p[0] == 1.0 || p[1] == 1.0) { 1e-8 } else { s.med_tol };
            o.check(median_ok(&l, m, tol), "median", || format!("{}: the median is {:?}, where the cumulative probability is {:?}", ctx, m, l.cdf(m).0));
            o.note(format!("{}: median {:?}", ctx, m));
        },
        // The median of a beta law has no usable form for shapes below one.
        Got::Unimplemented | Got::Undefined if s.name == "beta" => {},
        Got::Absent => {},
        other => o.fail("median", format!("{}: {:?}", ctx, other)),
    }
    o
}

/// Is v the smallest point at which the cumulative probability reaches pr?
fn inverts(l: &Law, v: f64, pr: f64) -> bool {
    if v.is_nan() {
        return false;
    }
    if let Some(a) = l.atom {
        return v == a || (pr == 0.0 && v < a);
    }
    if pr <= 0.0 {
        return v <= l.lo || (l.disc && v == l.lo) || (!l.lo.is_finite() && v < l.at(-50.0));
    }
    if pr >= 1.0 {
        return v == l.hi || (v - l.hi).abs() < 1e-12 * (1.0 + l.hi.abs()) || (!l.hi.is_finite() && v > l.at(3.0));
    }
    if l.disc {
        let f = l.cdf(v).0;
        let g = l.cdf(v - 1.0).0;
        return v.fract() == 0.0 && v >= l.lo && v <= l.hi && f >= pr - 1e-10 && g <= pr + 1e-10;
    }
    let (f, g) = l.cdf(v);
    let slack = l.f(v) * 32.0 * f64::EPSILON * v.abs().max(fin(l.lo)).max(fin(l.hi));
    let slack = slack + 2.0 * (f + g - 1.0).abs();
    (f - pr).abs() <= 1e-8 * pr.min(1.0 - pr).max(1e-8) + 1e-12 + slack && (g - (1.0 - pr)).abs() <= 1e-8 + slack
}

// ------------------------------------------------------------------------------------------
// C16
// ------------------------------------------------------------------------------------------
/// Largest log-density found by scanning the law, and where.
fn maximum(l: &Law) -> (f64, f64) {
    if let Some(a) = l.atom {
        return (0.0, a);
    }
    let mut best = (f64::NEG_INFINITY, f64::NAN);
    let mut see = |x: f64| {
        let v = l.ln_f(x);
        if v > best.0 {
            best = (v, x);
        }
    };
    if l.disc {
        let mut k = l.lo;
        while k <= l.top {
            see(k);
            k += 1.0;
        }
        return best;
    }
    let n = 400;
    for i in -n..=n {
        let x = l.at(i as f64 / n as f64 * 10.0);
        if x > l.lo && x < l.hi {
            see(x);
        }
    }
    for b in l.brk.iter() {
        if *b > l.lo && *b < l.hi {
            see(*b);
        }
    }
    // Golden-section polish around the best point.
    let w = match l.place {
        Place::Lin(_, s) => s * 0.06,
        Place::Log(o, _, ls) => (best.1 - o) * (ls * 0.06).min(0.5),
    };
    let (mut a, mut b) = ((best.1 - w).max(l.lo), (best.1 + w).min(l.hi));
    let r = 0.618_033_988_749_894_9;
    for _ in 0..80 {
        let (x1, x2) = (b - r * (b - a), a + r * (b - a));
        let (f1, f2) = (l.ln_f(x1), l.ln_f(x2));
        for (x, f) in [(x1, f1), (x2, f2)] {
            if x > l.lo && x < l.hi && f > best.0 {
                best = (f, x);
            }
        }
        if f1 < f2 { a = x1 } else { b = x2 }
    }
    best
}

fn modes_obs(s: &Spec, p: &Vec<f64>) -> Obs {
    let mut o = Obs::new();
    let l = (s.law)(p);
    let Some(d) = built(&mut o, s, p) else { return o };
    let ctx = format!("{}{:?}", s.name, p);
    let (top, at) = maximum(&l);
    // Does the density rise without bound, or to its supremum, at an end of the support?
    let end_lim = |e: f64, dir: f64| -> f64 {
        if !e.is_finite() {
            return f64::NEG_INFINITY;
        }
        let d = l.scale() * 1e-12;
        l.ln_f_pt(if dir > 0.0 { crate::refmath::Pt { x: e + d, dl: d, dr: l.hi - e } } else { crate::refmath::Pt { x: e - d, dl: e - l.lo, dr: d } })
    };
    let (el, er) = if l.disc || l.atom.is_some() { (f64::NEG_INFINITY, f64::NEG_INFINITY) } else { (end_lim(l.lo, 1.0), end_lim(l.hi, -1.0)) };
    let edge = 1e-6 * l.scale().abs();
    let at_end = !l.disc && l.atom.is_none() && ((l.lo.is_finite() && at - l.lo < edge) || (l.hi.is_finite() && l.hi - at < edge));
    // Nearly flat densities do not identify their maximum.
    let interior = top >= el.max(er) - 1e-9 && top.is_finite() && !at_end;
    // Finite supremum, approached at an end of the support: refusing is fine, an empty answer is not.
    let bounded = interior || (el.max(er).is_finite() && (el.max(er) - top).abs() < 1e-6 && {
        let z = |lo: bool| { let d = l.scale() * 1e-20; l.ln_f_pt(if lo { crate::refmath::Pt { x: l.lo + d, dl: d, dr: l.hi - l.lo } } else { crate::refmath::Pt { x: l.hi - d, dl: l.hi - l.lo, dr: d } }) };
        (el.max(er) - z(el >= er)).abs() < 1e-6
    });
    let flat = !l.disc && l.atom.is_none() && (top - el).abs() < 1e-6 && (l.ln_f(l.at(0.0)) - top).abs() < 1e-6;
    o.nontrivial(!flat);
    o.class(if flat { "flat" } else if interior { "interior maximum" } else { "maximum at an end" });
    let ms = match d.modes() {
        Got::Absent => return o,
        Got::Undefined => {
            o.check(!interior || flat, "undefined", || format!("{}: modes are refused as undefined, but the density peaks at {:?}", ctx, at));
            return o;
        },
        Got::Val(ms) => ms,
        other => {
            o.fail("modes", format!("{}: modes gives {:?}", ctx, other));
            return o;
        },
    };
    o.note(format!("{}: modes {:?}, peak near {:?}", ctx, ms, at));
    for (i, m) in ms.iter().enumerate() {
        let m = *m;
        if !(m >= l.lo - 1e-12 * (1.0 + l.lo.abs()) && m <= l.hi + 1e-12 * (1.0 + l.hi.abs())) {
            o.fail("outside", format!("{}: mode {:?} lies outside the support", ctx, m));
            continue;
        }
        o.check(!ms[..i].iter().any(|y| *y == m), "repeated", || format!("{}: mode {:?} is reported twice", ctx, m));
        if flat {
            continue;
        }
        // The density at the mode, as a limit where it is an end of the support.
        let scale = l.scale().abs().max(1e-300);
        let near_lo = !l.disc && l.lo.is_finite() && (m - l.lo).abs() <= 1e-10 * scale.min(1.0);
        let near_hi = !l.disc && l.hi.is_finite() && (m - l.hi).abs() <= 1e-10 * scale.min(1.0);
        let v = if near_lo { el.max(l.ln_f(m)) } else if near_hi { er.max(l.ln_f(m)) } else { l.ln_f(m) };
        let sup = top.max(el).max(er);
        let tol = if l.disc { 1e-9 + 1e-14 * magnitude(s, p, m) } else { 2e-7 };
        if (near_lo || near_hi) && v > 10.0 + l.ln_f(l.at(0.0)) && v >= top - 1e-9 {
            continue; // a pole
        }
        o.check(v >= sup - tol, "not maximal", || format!("{}: reported mode {:?} has log-density {:?}, but {:?} has {:?}", ctx, m, v, at, sup));
    }
    if bounded && !flat {
        o.check(!ms.is_empty(), "missing", || format!("{}: no mode is reported, but the density peaks at {:?}", ctx, at));
    }
    // Ties of discrete laws.
    if l.disc && l.atom.is_none() {
        let mut k = l.lo;
        while k <= l.top {
            if exact_tie(s, p, k) {
                o.class("tie");
                o.check(ms.contains(&k), "tie", || format!("{}: {:?} attains the maximum too, but the modes are {:?}", ctx, k, ms));
            }
            k += 1.0;
        }
    }
    o
}

/// Integers that attain the maximal mass by exact arithmetic.
fn exact_tie(s: &Spec, p: &[f64], k: f64) -> bool {
    match s.name {
        "poisson" => p[0].fract() == 0.0 && (k == p[0] || k == p[0] - 1.0),
        "binomial" => {
            // (n + 1) p an exact integer: dyadic p only, so that the product is exact.
            let dyadic = (p[1] * 1024.0).fract() == 0.0;
            let m = (p[0] + 1.0) * p[1];
            dyadic && p[1] > 0.0 && p[1] < 1.0 && m.fract() == 0.0 && m >= 1.0 && (k == m || k == m - 1.0)
        },
        "bernoulli" => p[0] == 0.5,
        n if n.starts_with("categorical") => p[k as usize] == p.iter().cloned().fold(0.0, f64::max),
        _ => false,
    }
}

// ------------------------------------------------------------------------------------------
// C17
// ------------------------------------------------------------------------------------------
fn entropy_obs(s: &Spec, p: &Vec<f64>) -> Obs {
    let mut o = Obs::new();
    let l = (s.law)(p);
    if !l.resolved() {
        o.class("reference unresolved");
        return o;
    }
    let Some(d) = built(&mut o, s, p) else { return o };
    let ctx = format!("{}{:?}", s.name, p);
    let mut tol = s.h_tol;
    // Asymptotic expansions: judged where they claim to apply.
    let mut lenient = false;
    if s.name == "poisson" || s.name == "binomial" {
        let v = if s.name == "poisson" { p[0] } else { p[0] * p[1] * (1.0 - p[1]) };
        lenient = v < 10.0;
        tol = if s.name == "poisson" { 0.2 / (v * v * v) + 1e-8 } else { 1.0 / v + 1e-8 };
    }
    match d.entropy() {
        Got::Absent => {},
        Got::Val(_) if lenient => o.class("outside the range of the expansion"),
        Got::Val(v) => {
            let mut h = l.entropy();
            if s.bits {
                h /= std::f64::consts::LN_2;
            }
            o.nontrivial(true);
            o.note(format!("{}: {:?}", ctx, h));
            o.check((v - h).abs() <= tol * (1.0 + h.abs()) + 1e-14 * magnitude(s, p, 1.0), "entropy", || format!("{}: the entropy is {:?}, the law gives {:?}", ctx, v, h));
        },
        other => o.fail("entropy", format!("{}: {:?}", ctx, other)),
    }
    o
}

// ------------------------------------------------------------------------------------------
// C18, C19
// ------------------------------------------------------------------------------------------
fn sample_law_obs(s: &Spec, n: usize, c: &(Vec<f64>, u64)) -> Obs {
    let mut o = Obs::new();
    let (p, seed) = c;
    let l = (s.law)(p);
    if !l.resolved() {
        o.class("reference unresolved");
        return o;
    }
    let Some(d) = built(&mut o, s, p) else { return o };
    let ctx = format!("{}{:?}", s.name, p);
    let mut xs = match d.draw(*seed, n, Path::Bulk) {
        Got::Val(v) => v.xs,
        Got::Unimplemented if gap(s, "sample") => {
            o.class("no sampler");
            return o;
        },
        other => {
            o.fail("sample", format!("{}: sampling gives {:?}", ctx, other));
            return o;
        },
    };
    if xs.iter().any(|x| x.is_nan()) {
        o.fail("nan", format!("{}: a sample is NaN", ctx));
        return o;
    }
    o.nontrivial(l.atom.is_none());
    if let Some(a) = l.atom {
        o.check(xs.iter().all(|x| *x == a), "law", || format!("{}: a sample differs from {:?}", ctx, a));
        return o;
    }
    xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    // Dvoretzky-Kiefer-Wolfowitz: a deviation beyond eps has probability below 1e-12.
    let eps = ((2.0f64 / 1e-12).ln() / (2.0 * n as f64)).sqrt() + 1e-6;
    let mut worst = (0.0, 0.0, 0.0, 0.0);
    let mut probe: Vec<f64> = (1..40).map(|i| xs[i * n / 40]).collect();
    probe.extend([-2.0, -1.0, 0.0, 1.0, 2.0].iter().map(|t| if l.disc { l.at(*t).round() } else { l.at(*t) }));
    for x in probe {
        let emp = xs.partition_point(|y| *y <= x) as f64 / n as f64;
        let below = xs.partition_point(|y| *y < x) as f64 / n as f64;
        let f = l.cdf(x).0;
        let fb = if l.disc { l.cdf(x - 1.0).0 } else { f };
        for (e, r) in [(emp, f), (below, fb)] {
            let dev: f64 = (e - r).abs();
            if dev > worst.0 {
                worst = (dev, x, e, r);
            }
        }
    }
    o.note(format!("{}: largest deviation {:.5} of allowed {:.5}", ctx, worst.0, eps));
    o.check(worst.0 <= eps, "law", || {
        format!("{}, {} samples (seed {}): a fraction {:.5} is at most {:?}, the law gives {:.5} (allowed deviation {:.5})", ctx, n, seed, worst.2, worst.1, worst.3, eps)
    });
    o
}

type Repro = (Vec<f64>, u64, usize, usize, Vec<u64>);

/// Whether a sample may round to an end that the support leaves out (or to infinity). Uniform
/// words have a grain of 2^-53, so the law must put some probability within a relative distance
/// of that order of the end.
fn may_round(l: &Law, x: f64) -> bool {
    const SEEN: f64 = 1e-60;
    let (near, far) = (1e-14 * l.scale(), 1e14 * l.scale());
    if x == f64::INFINITY {
        !l.disc && l.hi == f64::INFINITY && l.cdf(l.at(0.0) + far).1 > SEEN
    } else if x == f64::NEG_INFINITY {
        !l.disc && l.lo == f64::NEG_INFINITY && l.cdf(l.at(0.0) - far).0 > SEEN
    } else if x == l.lo {
        !l.disc && l.cdf(l.lo + near.max(8.0 * f64::EPSILON * l.lo.abs())).0 > SEEN
    } else {
        !l.disc && x == l.hi && l.cdf(l.hi - near.max(8.0 * f64::EPSILON * l.hi.abs())).1 > SEEN
    }
}

fn repro_obs(s: &Spec, c: &Repro) -> Obs {
    scripted(&c.4, || repro_inner(s, c))
}

fn repro_inner(s: &Spec, c: &Repro) -> Obs {
    let mut o = Obs::new();
    let (p, seed, n, k, words) = c;
    let Some(d) = built(&mut o, s, p) else { return o };
    let ctx = if words.is_empty() { format!("{}{:?} seed {}", s.name, p, seed) } else { format!("{}{:?} on the random words {:?}, then seed {}", s.name, p, words, seed) };
    let base = d.draw(*seed, *n, Path::Single);
    let base = match base {
        Got::Val(v) => v,
        Got::Unimplemented if gap(s, "sample") && *n > 0 => {
            o.class("no sampler");
            return o;
        },
        other => {
            o.fail("sample", format!("{}: {:?}", ctx, other));
            return o;
        },
    };
    o.nontrivial(*n > 1);
    o.note(format!("{}: {} draws", ctx, n));
    let same = |a: &[f64], b: &[f64]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits());
    o.check(base.xs.len() == *n, "count", || format!("{}: {} samples", ctx, base.xs.len()));
    let l = (s.law)(p);
    let tiny = 1e-12 * (1.0 + fin(l.lo) + fin(l.hi));
    for x in &base.xs {
        let x = *x;
        let inside = x.is_finite() && matches!(d.contains(x), Got::Val(true) | Got::Absent);
        o.check(inside || may_round(&l, x), "support", || format!("{}: the sample {:?} lies outside the support", ctx, x));
        o.check(x >= l.lo - tiny && x <= l.hi + tiny, "support", || format!("{}: the sample {:?} lies outside [{:?}, {:?}]", ctx, x, l.lo, l.hi));
        if !o.fails.is_empty() {
            return o;
        }
    }
    for how in [Path::Bulk, Path::Iter, Path::Split(*k)] {
        match d.draw(*seed, *n, how) {
            Got::Val(v) => {
                o.check(same(&v.xs, &base.xs), "values", || format!("{}: {:?} gives {:?}, one by one gives {:?}", ctx, how, v.xs, base.xs));
                o.check(v.next == base.next, "stream", || format!("{}: {:?} leaves the stream in a different state", ctx, how));
            },
            other => o.fail("path", format!("{}: {:?} gives {:?}", ctx, how, other)),
        }
    }
    // An equal distribution rebuilt from its parameters draws the same values.
    let d2 = d.dup();
    match d2.draw(*seed, *n, Path::Bulk) {
        Got::Val(v) => o.check(same(&v.xs, &base.xs), "clone", || format!("{}: a clone draws other values", ctx)),
        other => o.fail("clone", format!("{}: {:?}", ctx, other)),
    }
    o
}

// ------------------------------------------------------------------------------------------
// C23 (univariate part)
// ------------------------------------------------------------------------------------------
fn param_value(kind: char) -> BoxedStrategy<f64> {
    let ints = Union::new_weighted(vec![(3, (0u64..6).boxed()), (1, (0u64..2000).boxed())]).prop_map(|x| x as f64);
    match kind {
        'N' | 'M' => ints.boxed(),
        'Z' => (-60i64..60).prop_map(|x| x as f64).boxed(),
        _ => Union::new_weighted(vec![
            (4, specs::scl()),
            (2, (-3.0..3.0f64).boxed()),
            (1, pbt::gen::any_f64()),
            (1, (0.0..1.0f64).boxed()),
        ])
        .boxed(),
    }
}

pub fn any_params(s: Spec) -> BoxedStrategy<Vec<f64>> {
    if s.kinds == "s" {
        let n: usize = s.name["categorical".len()..].parse().unwrap();
        let junk = proptest::collection::vec(
            Union::new_weighted(vec![(3, (0.0..1.0f64).boxed()), (1, pbt::gen::any_f64()), (2, Just(0.0).boxed()), (1, Just(1.0).boxed()), (1, Just(0.5).boxed()), (1, (-1.0..2.0f64).boxed())]),
            n,
        );
        return Union::new_weighted(vec![(1, (s.gen)()), (1, junk.boxed())]).boxed();
    }
    let each: Vec<BoxedStrategy<f64>> = s.kinds.chars().map(param_value).collect();
    Union::new_weighted(vec![(1, (s.gen)()), (2, each.boxed())]).boxed()
}

/// Does the parameter satisfy its constraint? `None`: not judged.
fn valid(s: &Spec, p: &[f64]) -> Option<bool> {
    if s.kinds == "s" {
        if p.iter().any(|x| !(*x >= 0.0 && *x <= 1.0)) {
            return Some(false);
        }
        let d = (p.iter().sum::<f64>() - 1.0).abs();
        return if d < 1e-9 { Some(true) } else if d > 1e-3 { Some(false) } else { None };
    }
    let mut ok = true;
    for (k, x) in s.kinds.chars().zip(p) {
        let good = match k {
            'r' | 'Z' | 'M' => true,
            '+' | 'N' => *x > 0.0,
            'p' => *x >= 0.0 && *x <= 1.0,
            _ => unreachable!(),
        };
        // The location of a Student t (its degrees of freedom) and of a Pareto (its scale) are
        // declared as unconstrained locations; nothing is claimed for non-positive ones.
        if !good && ((s.name == "student_t") || (s.name == "pareto" && std::ptr::eq(x, &p[0]))) {
            return None;
        }
        // A count of probability zero or one is a valid, degenerate law.
        ok &= good;
    }
    Some(ok)
}

fn same_bits(a: &Got, b: &Got) -> bool {
    match (a, b) {
        (Got::Val(x), Got::Val(y)) => x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()),
        (Got::Panic(_), Got::Panic(_)) => true,
        _ => a == b,
    }
}

pub fn behaves(o: &mut Obs, ctx: &str, what: &str, a: &dyn Api, b: &dyn Api, xs: &[f64], seed: Option<u64>) {
    let mut cmp = |name: &str, x: Got, y: Got| {
        o.check(same_bits(&x, &y), what, || format!("{}: {} differs ({:?} and {:?}) after {}", ctx, name, x, y, what));
    };
    for x in xs {
        cmp("cdf", a.cdf(*x), b.cdf(*x));
        cmp("density", a.dens(*x), b.dens(*x));
        cmp("log-density", a.ln_dens(*x), b.ln_dens(*x));
    }
    cmp("mean", a.mean(), b.mean());
    cmp("variance", a.variance(), b.variance());
    cmp("skewness", a.skewness(), b.skewness());
    cmp("kurtosis", a.kurtosis(), b.kurtosis());
    cmp("entropy", a.entropy(), b.entropy());
    let [_, m1, ..] = a.quartiles();
    let [_, m2, ..] = b.quartiles();
    cmp("median", m1, m2);
    cmp("quantile", a.quantile(0.3), b.quantile(0.3));
    if let Some(seed) = seed {
        if let (Got::Val(x), Got::Val(y)) = (a.draw(seed, 5, Path::Bulk), b.draw(seed, 5, Path::Bulk)) {
            let eq = x.xs.iter().zip(y.xs.iter()).all(|(u, v)| u.to_bits() == v.to_bits());
            o.check(eq, what, || format!("{}: samples differ after {}", ctx, what));
        }
    }
}

fn construct_obs(s: &Spec, c: &(Vec<f64>, f64)) -> Obs {
    let mut o = Obs::new();
    let (p, t) = c;
    let ctx = format!("{}{:?}", s.name, p);
    let got = match pbt_catch(|| (s.mk)(p)) {
        Ok(g) => g,
        Err(e) => {
            o.fail("panic", format!("{}: construction panics: {}", ctx, e));
            return o;
        },
    };
    let want = valid(s, p);
    o.class(match want { Some(true) => "valid", Some(false) => "invalid", None => "not judged" });
    o.nontrivial(want.is_some());
    match want {
        Some(true) => o.check(got.is_ok(), "refused", || format!("{}: valid parameters are refused: {}", ctx, got.as_ref().err().unwrap())),
        Some(false) => o.check(got.is_err(), "accepted", || format!("{}: invalid parameters are accepted", ctx)),
        None => {},
    }
    let Ok(d) = got else { return o };
    let same = |v: &[f64]| v.len() == p.len() && v.iter().zip(p).all(|(a, b)| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) || a == b);
    o.check(same(&d.params()), "params", || format!("{}: the parameters read back as {:?}", ctx, d.params()));
    o.check(same(&d.into_params()), "params", || format!("{}: the parameters read back as {:?}", ctx, d.into_params()));
    // Behaviour is compared on moderate parameters only.
    if want != Some(true) || p.iter().any(|x| !x.is_finite() || x.abs() > 1e4 || (*x != 0.0 && x.abs() < 1e-4)) {
        return o;
    }
    let xs: Vec<f64> = [*t, t.round(), t.abs(), t.abs().fract(), 1.0].to_vec();
    let seed = if s.caps.contains('S') && p.iter().zip(s.kinds.chars()).all(|(x, k)| !(k == 'p' && *x == 0.0)) { Some(t.to_bits()) } else { None };
    match pbt_catch(|| (s.raw)(p)) {
        Ok(r) => behaves(&mut o, &ctx, "unchecked construction", d.as_ref(), r.as_ref(), &xs, seed),
        Err(e) => o.fail("unchecked", format!("{}: unchecked construction panics: {}", ctx, e)),
    }
    match d.rebuild() {
        Got::Val(r) => behaves(&mut o, &ctx, "rebuilding from the parameters", d.as_ref(), r.as_ref(), &xs, seed),
        other => o.fail("rebuild", format!("{}: {:?}", ctx, match other { Got::Panic(e) => e, _ => "refused".into() })),
    }
    behaves(&mut o, &ctx, "cloning", d.as_ref(), d.dup().as_ref(), &xs, seed);
    o
}

// ------------------------------------------------------------------------------------------
fn each(filter: impl Fn(&Spec) -> bool, build: impl Fn(Spec) -> Sub) -> Vec<Sub> {
    specs::all().into_iter().chain(specs::scaled()).filter(|s| filter(s)).map(build).collect()
}

fn has(s: &Spec, c: char) -> bool { s.caps.contains(c) }

fn sampling_params(s: Spec) -> BoxedStrategy<Vec<f64>> {
    // Tiny shapes put mass within rounding of zero.
    (s.gen)().prop_filter("moderate shape", move |p| match s.name {
        "beta" | "gamma" | "kumaraswamy" => p[0] >= 0.15 && (p[1] >= 0.15 || s.name == "gamma"),
        "frechet" | "weibull" => p.iter().all(|x| *x >= 0.15),
        _ => true,
    }).boxed()
}

fn edge_probs(s: Spec) -> BoxedStrategy<f64> {
    // A Cauchy quantile loses all accuracy in the far tails; so does 1 - p.
    let _ = s;
    probs().prop_map(|p| if p > 0.0 && p < 1e-12 { 1e-12 } else if p < 1.0 && p > 1.0 - 1e-12 { 1.0 - 1e-12 } else { p }).boxed()
}

const ASSUME: &[&str] = &[
    "special values and log-uniform ranges of parameters as in full/src/specs.rs (shapes 0.01..1e4, scales 0.02..50 and, for scale families, the same in units of 2^-100..2^100, counts up to 20000, probabilities including 0, 1 and down to 1e-9)",
    "arguments inside, at the ends of and far outside the support, up to 1e100 and at the extremes of the number format, infinities and negative zeros",
    "libm's elementary functions and the quadrature of full/src/refmath.rs; a case whose reference mass does not come to 1 within 1e-9 is skipped and counted as `reference unresolved`",
];

pub fn props() -> Vec<Prop> {
    let mut v = vec![];
    let mk = |id: &'static str, rule: &'static str, subs: Vec<Sub>| Prop { id, rule, assumptions: ASSUME.to_vec(), subs };

    let mut subs = each(|s| has(s, 'C'), |s| sub(s.label(), 400, 8000, move || case(s), move |c| cdf_obs(&s, c)));
    subs.extend(each(|s| has(s, 'C'), |s| {
        sub(format!("{}-monotone", s.label()), 150, 3000, move || ((s.gen)(), proptest::collection::vec((0u8..=8, -4.0..4.0f64), 2..24)), move |c| mono_obs(&s, c))
    }));
    v.push(mk("C08", "the argument lies where 1e-6 < P[X <= x] < 1 - 1e-6 (monotonicity: an argument inside the support)", subs));

    let mut subs = each(|s| has(s, 'D'), |s| sub(s.label(), 600, 10000, move || case(s), move |c| cdf_obs(&s, c)));
    subs.extend(each(|s| has(s, 'D'), |s| {
        sub(format!("{}-monotone", s.label()), 150, 3000, move || ((s.gen)(), proptest::collection::vec((0u8..=8, -4.0..4.0f64), 2..24)), move |c| mono_obs(&s, c))
    }));
    v.push(mk("C09", "the argument lies where 1e-6 < P[X <= x] < 1 - 1e-6 (monotonicity: an argument inside the support)", subs));

    v.push(mk("C10", "the density at the argument exceeds e^-600", each(|s| has(s, 'C'), |s| sub(s.label(), 1500, 40000, move || case(s), move |c| dens_obs(&s, c)))));

    let mut subs = each(|s| has(s, 'D'), |s| sub(s.label(), 1500, 40000, move || case(s), move |c| dens_obs(&s, c)));
    subs.extend(each(|s| has(s, 'D'), |s| sub(format!("{}-total", s.name), 100, 2000, move || (s.gen)(), move |c| total_obs(&s, c))));
    v.push(mk("C11", "the mass at the argument exceeds e^-600 (totals: at least two outcomes)", subs));

    let mut subs = each(|_| true, |s| sub(s.label(), 500, 10000, move || case(s), move |c| support_obs(&s, c)));
    subs.extend(each(|s| s.kinds == "s", |s| sub(format!("{}-ends", s.name), 50, 500, move || (s.gen)(), move |c| cat_support_obs(&s, c))));
    v.push(mk("C12", "the argument has positive density (ends: more than one outcome)", subs));

    v.push(mk("C13", "every case: a generated parameter vector whose reference integrals are resolved", each(|s| has(s, 'M'), |s| sub(s.label(), 200, 4000, move || (s.gen)(), move |c| moments_obs(&s, c)))));
    v.push(mk("C14", "at least the third moment exists", each(|s| has(s, 'M'), |s| sub(s.label(), 200, 4000, move || (s.gen)(), move |c| shape_obs(&s, c)))));
    v.push(mk("C15", "a probability strictly between 0 and 1", each(|s| has(s, 'Q'), |s| sub(s.label(), 200, 4000, move || ((s.gen)(), edge_probs(s)), move |c| quantile_obs(&s, c)))));
    v.push(mk("C16", "the density is not flat", each(|s| has(s, 'O'), |s| sub(s.label(), 250, 5000, move || (s.gen)(), move |c| modes_obs(&s, c)))));
    v.push(mk("C17", "an exact formula, or parameters within the range of the expansion", each(|s| has(s, 'H'), |s| sub(s.label(), 200, 4000, move || (s.gen)(), move |c| entropy_obs(&s, c)))));

    v.push(mk("C18", "the law has a sampler and is not a point mass", each(|s| has(s, 'S'), |s| {
        let mut x = sub(s.label(), 16, 100, move || (sampling_params(s), any::<u64>()), move |c| sample_law_obs(&s, 60_000, c));
        x.name = s.label();
        x
    })));
    let mut c19 = each(|s| has(s, 'S'), |s| {
        sub(s.label(), 150, 5000, move || ((s.gen)(), any::<u64>(), 0usize..60, 0usize..60, Just(vec![])), move |c| repro_obs(&s, c))
    });
    // Many draws at once.
    c19.extend(each(|s| has(s, 'S') && s.suffix.is_empty(), |s| {
        sub(format!("{}-many", s.label()), 12, 300, move || ((s.gen)(), any::<u64>(), pbt::gen::sizes(60, 20_000), pbt::gen::sizes(1, 20_000), Just(vec![])), move |c| repro_obs(&s, c))
    }));
    // Not the binomial law: the inversion in rand_distr never ends for a uniform word that
    // exceeds the rounded sum of all masses.
    c19.extend(each(|s| has(s, 'S') && !gap(s, "sample") && s.name != "binomial", |s| {
        // An exact zero only comes first: rand_distr's exponential takes the logarithm of a later
        // uniform without excluding it, in the 2^-61 of its cases that reach the tail.
        let words = || proptest::collection::vec(crate::prob::word(), 1..8).prop_map(|mut w| { w.iter_mut().skip(1).for_each(|x| *x = (*x).max(2048)); w });
        // Student's t divides a normal by the root of a gamma sample, which is often zero below half
        // a degree of freedom, and the ratio then infinite.
        let student = s.name == "student_t";
        let params = move || (s.gen)().prop_map(move |mut p| { if student { p[0] = p[0].max(0.5) }; p });
        sub(format!("{}-extreme-stream", s.label()), 150, 5000, move || (params(), any::<u64>(), 0usize..12, 0usize..12, words()), move |c| repro_obs(&s, c))
    }));
    v.push(mk("C19", "more than one draw", c19));
    v.push(mk("C23", "the validity of the parameters is decided (valid or invalid)", each(|s| s.suffix.is_empty(), |s| {
        sub(s.label(), 300, 10000, move || (any_params(s), -5.0..50.0f64), move |c| construct_obs(&s, c))
    })));
    v
}
