//! Moments, medians, modes and entropies far from ordinary parameters and right next to the
//! thresholds at which moments cease to exist: closed forms, arranged so that they neither
//! overflow nor cancel (C13 to C17).
use crate::{
    api::Got,
    refmath::{digamma, lbeta, lgamma},
    specs::{self, Spec},
};
use pbt::{
    gen::logu,
    proptest::{self, prelude::*, strategy::Union},
    sub, Obs, Prop, Sub,
};
use std::f64::consts::{E, LN_2, PI};

const GAMMA: f64 = 0.577_215_664_901_532_9;
const INF: f64 = f64::INFINITY;
const NAN: f64 = f64::NAN;

/// Values (infinite: none exists; not a number: not judged) and absolute tolerances beyond the
/// relative one.
#[derive(Clone, Copy)]
struct Want {
    mean: f64,
    variance: f64,
    skewness: f64,
    excess: f64,
    median: f64,
    mode: f64,
    entropy: f64,
    /// Size of the terms the entropy adds up.
    hsize: f64,
    /// Absolute error of locations, if they add something to them.
    loc: f64,
    rel: f64,
}

const NONE: Want = Want { mean: NAN, variance: NAN, skewness: NAN, excess: NAN, median: NAN, mode: NAN, entropy: NAN, hsize: 0.0, loc: 0.0, rel: 1e-9 };

/// From the order at which moments cease to exist.
fn when(order: f64, k: f64, v: f64) -> f64 { if order > k { v } else { INF } }

/// Entropy of a gamma law of unit rate, and the size of its terms.
fn gamma_entropy(a: f64) -> (f64, f64) {
    let size = a * (1.0 + a.ln().abs()) + 1.0 + a.ln().abs() + 1.0 / a;
    if a > 1e5 {
        (0.5 * (2.0 * PI * E * a).ln() - 1.0 / (3.0 * a), size)
    } else {
        (a + lgamma(a) + (1.0 - a) * digamma(a), size)
    }
}

fn gamma_like(a: f64, b: f64) -> Want {
    let (h, size) = gamma_entropy(a);
    Want {
        mean: a / b, variance: a / b / b, skewness: 2.0 / a.sqrt(), excess: 6.0 / a,
        // Refused where the density is unbounded.
        mode: if a >= 1.0 { (a - 1.0) / b } else { NAN },
        entropy: h - b.ln(), hsize: size + b.ln().abs(), ..NONE
    }
}

fn want(name: &str, p: &[f64]) -> Want {
    let (a, b) = (p[0], p[p.len().min(2) - 1]);
    match name {
        "gamma" | "erlang" => gamma_like(a, b),
        "chi_sq" => gamma_like(a / 2.0, 0.5),
        "chi" => {
            let m = if a < 100.0 {
                2f64.sqrt() * (lgamma((a + 1.0) / 2.0) - lgamma(a / 2.0)).exp()
            } else {
                let i = 1.0 / a;
                a.sqrt() * (1.0 - i / 4.0 + i * i / 32.0 + 5.0 * i * i * i / 128.0 - 21.0 * i.powi(4) / 2048.0)
            };
            Want { mean: m, variance: if a < 1001.0 { NAN } else { 0.5 - (0.125 + (0.0625 - 5.0 / 128.0 / a) / a) / a }, mode: (a - 1.0).sqrt(), ..NONE }
        },
        "inverse_gamma" => {
            let size = gamma_entropy(a).1;
            let h = if a > 1e5 { 0.5 * (2.0 * PI * E / a).ln() - a.ln() } else { a + lgamma(a) - (1.0 + a) * digamma(a) };
            // For large a the law is nearly that of b / a times 1 + N(0, 1/a).
            Want {
                mean: when(a, 1.0, b / (a - 1.0)), variance: when(a, 2.0, (b / (a - 1.0)).powi(2) / (a - 2.0)),
                skewness: when(a, 3.0, 4.0 * (a - 2.0).sqrt() / (a - 3.0)), excess: when(a, 4.0, 6.0 * (5.0 * a - 11.0) / (a - 3.0) / (a - 4.0)),
                mode: b / (a + 1.0), entropy: if a > 1e5 { NAN } else { h + b.ln() }, hsize: size + b.ln().abs(), ..NONE
            }
        },
        "beta" => {
            let s = a + b;
            let g = |a: f64| a * (1.0 + a.ln().abs()) + a.ln().abs() + 1.0 / a;
            Want {
                mean: a / s, variance: (a / s) * (b / s) / (s + 1.0),
                skewness: 2.0 * (b - a) / (s + 2.0) * (s + 1.0).sqrt() / a.sqrt() / b.sqrt(),
                excess: 6.0 * ((a - b) / (a.sqrt() * b.sqrt()) * (a - b) / (a.sqrt() * b.sqrt()) * (s + 1.0) - (s + 2.0)) / (s + 2.0) / (s + 3.0),
                mode: if a > 1.0 && b > 1.0 { (a - 1.0) / (a + b - 2.0) } else if a < b && a <= 1.0 { if b < 1.0 { NAN } else { 0.0 } } else if b < a && b <= 1.0 { if a < 1.0 { NAN } else { 1.0 } } else { NAN },
                entropy: lbeta(a, b) - (a - 1.0) * digamma(a) - (b - 1.0) * digamma(b) + (a + b - 2.0) * digamma(s), hsize: g(a) + g(b) + g(s), ..NONE
            }
        },
        "beta_prime" => Want {
            mean: when(b, 1.0, a / (b - 1.0)),
            variance: when(b, 2.0, a / (b - 1.0) * (a + b - 1.0) / (b - 1.0) / (b - 2.0)),
            skewness: when(b, 3.0, 2.0 * (2.0 * a + b - 1.0) / (b - 3.0) * ((b - 2.0) / a / (a + b - 1.0)).sqrt()),
            excess: when(b, 4.0, 6.0 * ((5.0 * b - 11.0) + (b - 1.0) / a * ((b - 1.0) / (a + b - 1.0)) * (b - 2.0)) / (b - 3.0) / (b - 4.0)),
            mode: if a >= 1.0 { (a - 1.0) / (b + 1.0) } else { 0.0 },
            ..NONE
        },
        "f_dist" => {
            let (m, n) = (a, b);
            Want {
                mean: when(n, 2.0, n / (n - 2.0)),
                variance: when(n, 4.0, 2.0 * (n / (n - 2.0)).powi(2) * ((m + n - 2.0) / m) / (n - 4.0)),
                skewness: when(n, 6.0, (2.0 * m + n - 2.0) / (n - 6.0) * (8.0 * (n - 4.0) / m / (m + n - 2.0)).sqrt()),
                excess: when(n, 8.0, 12.0 * ((5.0 * n - 22.0) + (n - 4.0) * ((n - 2.0) / m) * ((n - 2.0) / (m + n - 2.0))) / (n - 6.0) / (n - 8.0)),
                mode: if m > 2.0 { (m - 2.0) / m * (n / (n + 2.0)) } else { NAN },
                ..NONE
            }
        },
        "pareto" => Want {
            mean: when(b, 1.0, a * (b / (b - 1.0))), variance: when(b, 2.0, (a / (b - 1.0)).powi(2) * b / (b - 2.0)),
            skewness: when(b, 3.0, 2.0 * (1.0 + b) / (b - 3.0) * ((b - 2.0) / b).sqrt()),
            excess: when(b, 4.0, 6.0 * (1.0 + 1.0 / b - 6.0 / b / b - 2.0 / b / b / b) * (b / (b - 3.0)) * (b / (b - 4.0))),
            median: a * (LN_2 / b).exp(), mode: a, entropy: a.ln() - b.ln() + 1.0 + 1.0 / b, hsize: a.ln().abs() + b.ln().abs() + 1.0 / b, ..NONE
        },
        "frechet" => {
            let i = 1.0 / a;
            // The argument 1 - 1/a keeps only its distance to the pole, up to rounding.
            Want {
                mean: when(a, 1.0, if a < 1.1 { NAN } else { libm::tgamma(1.0 - i) }), variance: when(a, 2.0, NAN), skewness: when(a, 3.0, NAN), excess: when(a, 4.0, NAN),
                median: (-LN_2.ln() * i).exp(), mode: (-i * i.ln_1p()).exp(),
                entropy: 1.0 + GAMMA * i + GAMMA - a.ln(), hsize: 1.0 + i + a.ln().abs(), ..NONE
            }
        },
        "weibull" => {
            let i = 1.0 / b;
            let m = a * libm::tgamma(1.0 + i);
            Want {
                mean: if m.is_finite() { m } else { NAN }, median: a * (i * LN_2.ln()).exp(), mode: if b > 1.0 { a * (i * ((b - 1.0) / b).ln()).exp() } else { 0.0 },
                entropy: GAMMA * (1.0 - i) + a.ln() - b.ln() + 1.0, hsize: 2.0 + i + a.ln().abs() + b.ln().abs(), ..NONE
            }
        },
        "kumaraswamy" => {
            let h = digamma(b + 1.0) + GAMMA;
            let u = -(-LN_2 / b).exp_m1();
            Want {
                mean: (b.ln() + lgamma(1.0 + 1.0 / a) + lgamma(b) - lgamma(1.0 + 1.0 / a + b)).exp(),
                median: u.powf(1.0 / a), mode: if a > 1.0 && b > 1.0 { ((a - 1.0) / (a * b - 1.0)).powf(1.0 / a) } else { NAN },
                entropy: (1.0 - 1.0 / b) + (1.0 - 1.0 / a) * h - a.ln() - b.ln(), hsize: 2.0 + 1.0 / b + (1.0 + 1.0 / a) * (2.0 + h.abs()) + a.ln().abs() + b.ln().abs(), rel: 1e-8, ..NONE
            }
        },
        "student_t" => Want {
            mean: when(a, 1.0, 0.0), variance: when(a, 2.0, a / (a - 2.0)), skewness: when(a, 3.0, 0.0), excess: when(a, 4.0, 6.0 / (a - 4.0)), median: 0.0, mode: 0.0,
            entropy: if a > 1e5 { 0.5 * (2.0 * PI * E).ln() + 1.0 / a } else { (a + 1.0) / 2.0 * (digamma((1.0 + a) / 2.0) - digamma(a / 2.0)) + 0.5 * a.ln() + lbeta(a / 2.0, 0.5) },
            hsize: (a + 1.0) * (1.0 + a.ln().abs()) + 1.0 / a + 1.0, ..NONE
        },
        "inverse_normal" => {
            let f = 1.5 * a / b;
            Want { mean: a, variance: a * a * (a / b), skewness: 3.0 * (a / b).sqrt(), excess: 15.0 * (a / b), mode: a / ((1.0f64).hypot(f) + f), ..NONE }
        },
        "gpd" => {
            let (m, s, x) = (p[0], p[1], p[2]);
            let order = 1.0 / x;
            let (d1, d2, d3, d4) = (1.0 - x, 1.0 - 2.0 * x, 1.0 - 3.0 * x, 1.0 - 4.0 * x);
            Want {
                mean: if d1 > 0.0 { m + s / d1 } else { INF }, variance: if d2 > 0.0 { (s / d1).powi(2) / d2 } else { INF },
                skewness: if d3 > 0.0 { 2.0 * (1.0 + x) * d2.sqrt() / d3 } else { INF },
                // From here on the distance to the threshold is rounded.
                excess: if d4 > 1e-6 { 3.0 * d2 * (2.0 * x * x + x + 3.0) / d3 / d4 - 3.0 } else if d4 < -1e-6 { INF } else { NAN },
                median: m + s * (x * LN_2).exp_m1() / x, entropy: s.ln() + x + 1.0, hsize: s.ln().abs() + x + 1.0, loc: m.abs(),
                rel: if (order - 3.0).abs() < 1e-5 { NAN } else { 1e-9 }, ..NONE
            }
        },
        "triangular" => {
            let (m, l, r) = (p[0], p[1], p[2]);
            let q = (l - r) * (l - r) + 3.0 * l * r;
            let t = (l + r) / q.sqrt();
            let (u, v) = (l / (l + r), r / (l + r));
            Want {
                mean: m + (2.0 * l + r) / 3.0, variance: q / 18.0,
                skewness: 2f64.sqrt() * (v - u) * (1.0 + u) * (1.0 + v) / 5.0 * t.powi(3), excess: -0.6,
                median: if l >= r { m + ((l + r) / 2.0).sqrt() * l.sqrt() } else { m + l + r - ((l + r) / 2.0).sqrt() * r.sqrt() },
                mode: m + l, entropy: 0.5 + ((l + r) / 2.0).ln(), hsize: 0.5 + (l + r).ln().abs(), loc: m.abs() + l + r, ..NONE
            }
        },
        _ => unreachable!(),
    }
}

/// Values of a shape whose moments of orders 1, 2, ... cease to exist at `t(1)`, `t(2)`, ...
fn around(points: Vec<f64>, lo: f64, hi: f64) -> BoxedStrategy<f64> {
    let near = (proptest::sample::select(points.clone()), -13.0..-1.0f64, any::<bool>()).prop_map(|(t, e, up)| t * if up { 1.0 + 10f64.powf(e) } else { 1.0 - 10f64.powf(e) });
    Union::new_weighted(vec![(3, logu(lo, hi)), (2, near.boxed()), (1, proptest::sample::select(points).boxed())]).boxed()
}

fn unit() -> BoxedStrategy<f64> { Union::new(vec![logu(1e-60, 1e60), logu(1e-3, 1e3), Just(1.0).boxed()]).boxed() }

fn gen(name: &str) -> BoxedStrategy<Vec<f64>> {
    let orders = || vec![1.0, 2.0, 3.0, 4.0];
    let count = || Union::new(vec![logu(1.0, 1e15), logu(1.0, 50.0)]).prop_map(|x| x.round()).boxed();
    match name {
        "gamma" => (around(vec![1.0], 1e-8, 1e12), unit()).prop_map(|(a, b)| vec![a, b]).boxed(),
        "erlang" => (count(), unit()).prop_map(|(a, b)| vec![a, b]).boxed(),
        "chi" | "chi_sq" => count().prop_map(|a| vec![a]).boxed(),
        "inverse_gamma" => (around(orders(), 1e-8, 1e12), unit()).prop_map(|(a, b)| vec![a, b]).boxed(),
        "beta" => (around(vec![1.0], 1e-7, 1e9), around(vec![1.0], 1e-7, 1e9)).prop_map(|(a, b)| vec![a, b]).boxed(),
        "beta_prime" => (around(vec![1.0], 1e-7, 1e9), around(orders(), 1e-7, 1e9)).prop_map(|(a, b)| vec![a, b]).boxed(),
        "f_dist" => (count(), count()).prop_map(|(a, b)| vec![a, b]).boxed(),
        "pareto" => (unit(), around(orders(), 1e-8, 1e12)).prop_map(|(a, b)| vec![a, b]).boxed(),
        "frechet" => around(orders(), 1e-6, 1e12).prop_map(|a| vec![a]).boxed(),
        "weibull" => (unit(), around(vec![1.0], 1e-3, 1e12)).prop_map(|(a, b)| vec![a, b]).boxed(),
        "kumaraswamy" => (around(vec![1.0], 1e-2, 1e6), around(vec![1.0], 1e-4, 1e6)).prop_map(|(a, b)| vec![a, b]).boxed(),
        "student_t" => around(orders(), 1e-4, 1e15).prop_map(|a| vec![a]).boxed(),
        "inverse_normal" => (unit(), Union::new(vec![logu(1e-20, 1e20), logu(1e-2, 1e2)])).prop_map(|(a, r)| vec![a, a * r]).boxed(),
        "gpd" => (specs::loc(), unit(), around(vec![1.0, 0.5, 0.25], 1e-14, 1e3)).prop_map(|(m, s, x)| vec![m * s, s, x]).boxed(),
        "triangular" => (Union::new(vec![Just(0.0).boxed(), specs::loc()]), unit(), Union::new(vec![logu(1e-14, 1e14), logu(1e-30, 1e30), logu(0.1, 10.0)])).prop_map(|(m, l, r)| vec![m * l, l, l * r]).boxed(),
        "normal" => (place(), wide()).prop_map(|(m, s)| vec![m * s, s * s]).boxed(),
        "lognormal" => (-80.0..80.0f64, Union::new(vec![logu(1e-3, 10.0), logu(1e-12, 1e3)])).prop_map(|(m, s)| vec![m, s * s]).boxed(),
        "exponential" | "rayleigh" => wide().prop_map(|a| vec![a]).boxed(),
        "gev" => (place(), wide(), Union::new(vec![logu(1e-5, 10.0), logu(1e-2, 1.0)])).prop_map(|(m, s, k)| vec![m * s, s, k]).boxed(),
        _ => (place(), wide()).prop_map(|(m, s)| vec![m * s, s]).boxed(),
    }
}

/// Units whose square still fits.
fn wide() -> BoxedStrategy<f64> { Union::new_weighted(vec![(3, unit()), (1, logu(1e-150, 1e150))]).boxed() }

fn place() -> BoxedStrategy<f64> { Union::new(vec![Just(0.0).boxed(), (-10.0..10.0f64).boxed(), specs::loc()]).boxed() }

fn judge(o: &mut Obs, ctx: &str, what: &str, got: Got, want: f64, tol: f64) {
    if want.is_nan() || tol.is_nan() {
        return;
    }
    let exists = want.is_finite();
    match got {
        Got::Absent | Got::Unimplemented => {},
        Got::Val(v) if exists => o.check((v - want).abs() <= tol, what, || format!("{}: {} is {:?}, the closed form gives {:?}", ctx, what, v, want)),
        Got::Val(v) => o.check(!v.is_finite() && v != -INF, what, || format!("{}: {} is {:?}, but no finite value exists", ctx, what, v)),
        Got::Undefined => o.check(!exists, what, || format!("{}: {} is refused as undefined, but it exists", ctx, what)),
        other => o.fail(what, format!("{}: {} gives {:?}", ctx, what, other)),
    }
}

fn observe(s: &Spec, id: &str, p: &Vec<f64>) -> Obs {
    let mut o = Obs::new();
    let ctx = format!("{}{:?}", s.name, p);
    let d = match (s.mk)(p) {
        Ok(d) => d,
        Err(e) => {
            o.fail("new", format!("{} is refused: {}", ctx, e));
            return o;
        },
    };
    let w = want(s.name, p);
    let r = w.rel;
    // Results out of the range of floating-point numbers are not judged.
    let rng = |v: f64| if v == INF || v == 0.0 || (1e-290..1e290).contains(&v.abs()) { v } else { NAN };
    o.nontrivial(true);
    match id {
        "C13" => {
            judge(&mut o, &ctx, "mean", d.mean(), rng(w.mean), r * w.mean.abs() + 1e-15 * w.loc);
            let v = rng(w.variance);
            judge(&mut o, &ctx, "variance", d.variance(), v, r * v.abs());
            judge(&mut o, &ctx, "standard_deviation", d.sd(), v.sqrt(), r * v.abs().sqrt());
        },
        "C14" => {
            judge(&mut o, &ctx, "skewness", d.skewness(), rng(w.skewness), r * w.skewness.abs() + 1e-13);
            judge(&mut o, &ctx, "kurtosis", d.kurtosis(), rng(w.excess) + 3.0, r * (3.0 + w.excess.abs()));
            judge(&mut o, &ctx, "excess_kurtosis", d.excess(), rng(w.excess), r * w.excess.abs() + 1e-12);
        },
        "C15" => {
            let [_, med, ..] = d.quartiles();
            judge(&mut o, &ctx, "median", med, rng(w.median), r * w.median.abs() + 1e-15 * w.loc);
        },
        "C16" => {
            let m = rng(w.mode);
            if !m.is_nan() {
                match d.modes() {
                    Got::Val(v) => o.check(v.len() == 1 && (v[0] - m).abs() <= 1e-9 * m.abs() + 4e-16 * (1.0 + w.loc) * if w.loc > 0.0 { 1.0 } else { 0.0 }, "modes", || format!("{}: the modes are {:?}, the closed form gives {:?}", ctx, v, m)),
                    Got::Absent | Got::Unimplemented => {},
                    other => o.fail("modes", format!("{}: {:?}", ctx, other)),
                }
            }
        },
        _ => judge(&mut o, &ctx, "entropy", d.entropy(), w.entropy, 1e-9 * (1.0 + w.entropy.abs()) + 1e-15 * w.hsize),
    }
    o
}

/// Distribution function, its complement and the logarithm of the density.
fn dist(name: &str, p: &[f64], x: f64) -> (f64, f64, f64) {
    let (a, b) = (p[0], p[p.len().min(2) - 1]);
    let none = |below: bool| if below { (0.0, 1.0, -INF) } else { (1.0, 0.0, -INF) };
    match name {
        "pareto" => {
            if x < a {
                return none(true);
            }
            let l = if x < 2.0 * a { ((x - a) / a).ln_1p() } else { (x / a).ln() };
            (-(-b * l).exp_m1(), (-b * l).exp(), b.ln() - x.ln() - b * l)
        },
        "weibull" => {
            if x <= 0.0 {
                return (0.0, 1.0, if x == 0.0 { NAN } else { -INF });
            }
            let l = (x / a).ln();
            let z = (b * l).exp();
            (-(-z).exp_m1(), (-z).exp(), b.ln() - a.ln() + (b - 1.0) * l - z)
        },
        "frechet" => {
            if x <= 0.0 {
                return none(true);
            }
            let z = (-a * x.ln()).exp();
            ((-z).exp(), -(-z).exp_m1(), a.ln() - (a + 1.0) * x.ln() - z)
        },
        "gpd" => {
            let (m, s, k) = (p[0], p[1], p[2]);
            if x < m {
                return none(true);
            }
            let l = (k * ((x - m) / s)).ln_1p();
            (-(-l / k).exp_m1(), (-l / k).exp(), -s.ln() - l / k - l)
        },
        "kumaraswamy" => {
            if x <= 0.0 || x >= 1.0 {
                return (if x <= 0.0 { 0.0 } else { 1.0 }, if x <= 0.0 { 1.0 } else { 0.0 }, if x == 0.0 || x == 1.0 { NAN } else { -INF });
            }
            let l = x.ln();
            let v = (-(a * l).exp_m1()).ln();
            (-(b * v).exp_m1(), (b * v).exp(), a.ln() + b.ln() + (a - 1.0) * l + (b - 1.0) * v)
        },
        "normal" => {
            let z = (x - a) / b.sqrt();
            (crate::refmath::norm_cdf(z), crate::refmath::norm_cdf(-z), crate::refmath::ln_phi(z) - 0.5 * b.ln())
        },
        "lognormal" => {
            if x <= 0.0 {
                return none(true);
            }
            let z = (x.ln() - a) / b.sqrt();
            (crate::refmath::norm_cdf(z), crate::refmath::norm_cdf(-z), crate::refmath::ln_phi(z) - 0.5 * b.ln() - x.ln())
        },
        "laplace" => {
            let z = (x - a) / b;
            let tail = 0.5 * (-z.abs()).exp();
            if z < 0.0 { (tail, 1.0 - tail, -z.abs() - LN_2 - b.ln()) } else { (1.0 - tail, tail, -z.abs() - LN_2 - b.ln()) }
        },
        "logistic" => {
            let z = (x - a) / b;
            let e = (-z.abs()).exp();
            let (lo, hi) = (e / (1.0 + e), 1.0 / (1.0 + e));
            let h = -z.abs() - 2.0 * e.ln_1p() - b.ln();
            if z < 0.0 { (lo, hi, h) } else { (hi, lo, h) }
        },
        "gumbel" => {
            let z = (x - a) / b;
            let t = (-z).exp();
            ((-t).exp(), -(-t).exp_m1(), -z - t - b.ln())
        },
        "gev" => {
            let k = p[2];
            let z = k * ((x - a) / b);
            if z <= -1.0 {
                return none(true);
            }
            let lt = -z.ln_1p() / k;
            let t = lt.exp();
            ((-t).exp(), -(-t).exp_m1(), (k + 1.0) * lt - t - b.ln())
        },
        "exponential" => {
            if x < 0.0 {
                return none(true);
            }
            (-(-a * x).exp_m1(), (-a * x).exp(), a.ln() - a * x)
        },
        "rayleigh" => {
            if x <= 0.0 {
                return none(true);
            }
            let z = x / a;
            (-(-0.5 * z * z).exp_m1(), (-0.5 * z * z).exp(), z.ln() - a.ln() - 0.5 * z * z)
        },
        "levy" => {
            if x <= a {
                return none(true);
            }
            let z = b / (x - a);
            (libm::erfc((z / 2.0).sqrt()), libm::erf((z / 2.0).sqrt()), 1.5 * z.ln() - 0.5 * z - 0.5 * (2.0 * PI).ln() - b.ln())
        },
        "cauchy" => {
            let z = (x - a) / b;
            let tail = (1.0 / z.abs()).atan() / PI;
            let h = -PI.ln() - b.ln() - if z.abs() > 1e8 { 2.0 * z.abs().ln() } else { (z * z).ln_1p() };
            if z < 0.0 { (tail, 1.0 - tail, h) } else { (1.0 - tail, tail, h) }
        },
        "uniform" => {
            if x < a || x > a + b {
                return none(x < a);
            }
            ((x - a) / b, (a + b - x) / b, -b.ln())
        },
        _ => {
            let (l, r) = (p[1], p[2]);
            let (c, e) = (a + l, a + l + r);
            if x < a || x > e {
                return none(x < a);
            }
            if x <= c {
                let f = (x - a) / l * ((x - a) / (l + r));
                (f, 1.0 - f, (2.0 * ((x - a) / l) / (l + r)).ln())
            } else {
                let s = (e - x) / r * ((e - x) / (l + r));
                (1.0 - s, s, (2.0 * ((e - x) / r) / (l + r)).ln())
            }
        },
    }
}

/// The point with the given logarithms of its lower and upper probability.
fn at(name: &str, p: &[f64], lf: f64, ls: f64) -> f64 {
    let (a, b) = (p[0], p[p.len().min(2) - 1]);
    match name {
        "pareto" => a * (-ls / b).exp(),
        "weibull" => a * ((-ls).ln() / b).exp(),
        "frechet" => (-(-lf).ln() / a).exp(),
        "gpd" => a + b * ((-ls * p[2]).exp_m1() / p[2]),
        "kumaraswamy" => ((-(ls / b).exp_m1()).ln() / a).exp(),
        // Nearly, which is all that is needed.
        "normal" | "lognormal" => {
            let z = if lf < ls { -(-2.0 * (lf + LN_2)).sqrt() } else { (-2.0 * (ls + LN_2)).sqrt() };
            if name == "normal" { a + b.sqrt() * z } else { (a + b.sqrt() * z).exp() }
        },
        "laplace" => if lf < ls { a + b * (lf + LN_2) } else { a - b * (ls + LN_2) },
        "logistic" => a + b * (lf - ls),
        "gumbel" => a - b * (-lf).ln(),
        "gev" => a + b * ((-p[2] * (-lf).ln()).exp_m1() / p[2]),
        "exponential" => -ls / a,
        "rayleigh" => a * (-2.0 * ls).sqrt(),
        "levy" => a + b / (if lf < ls { -2.0 * lf } else { PI / 2.0 * (2.0 * ls).exp() }),
        "cauchy" => if lf < ls { a - b / (PI * lf.exp()).tan() } else { a + b / (PI * ls.exp()).tan() },
        "uniform" => if lf < ls { a + b * lf.exp() } else { a + b - b * ls.exp() },
        _ => {
            let (l, r) = (p[1], p[2]);
            let low = ((l + r) * l * lf.exp()).sqrt();
            if low <= l { a + low } else { a + l + r - ((l + r) * r * ls.exp()).sqrt() }
        },
    }
}

fn dist_obs(s: &Spec, id: &str, c: &(Vec<f64>, f64)) -> Obs {
    let mut o = Obs::new();
    let (p, u) = c;
    // A coordinate from far in the lower to far in the upper tail.
    let t = u.abs().powi(3) * 660.0 + u.abs() + LN_2;
    let (lf, ls) = if *u < 0.0 { (-t, (-(-t).exp()).ln_1p()) } else { ((-(-t).exp()).ln_1p(), -t) };
    let x = at(s.name, p, lf, ls);
    let ctx = format!("{}{:?} at {:?}", s.name, p, x);
    let d = match (s.mk)(p) {
        Ok(d) => d,
        Err(e) => {
            o.fail("new", format!("{} is refused: {}", ctx, e));
            return o;
        },
    };
    if !x.is_finite() || x != 0.0 && !(1e-250..1e250).contains(&x.abs()) {
        o.class("argument out of range");
        return o;
    }
    o.nontrivial(true);
    let (f, g, h) = dist(s.name, p, x);
    // What a rounding of the argument (or of its distance to the location) does.
    let e = 1e-13 * (x.abs() + match s.name {
        "triangular" => p[0].abs() + p[1] + p[2],
        "gpd" | "gev" | "uniform" => p[0].abs() + p[1],
        "normal" | "laplace" | "logistic" | "gumbel" | "levy" | "cauchy" => p[0].abs(),
        _ => 0.0,
    });
    let (a, b) = (dist(s.name, p, x - e), dist(s.name, p, x + e));
    let wob = |v: fn(&(f64, f64, f64)) -> f64| ((v(&a) - v(&(f, g, h))).abs()).max((v(&b) - v(&(f, g, h))).abs()) * 0.02;
    if id == "C08" {
        judge(&mut o, &ctx, "cdf", d.cdf(x), f, 1e-9 + wob(|v| v.0));
        judge(&mut o, &ctx, "ccdf", d.ccdf(x), g, 1e-9 + wob(|v| v.1));
    } else if h.is_finite() {
        let w = wob(|v| v.2);
        if w < 1e-3 {
            let tol = 1e-8 + w + 1e-15 * p.iter().map(|q| q.ln().abs()).sum::<f64>();
            if h > -600.0 && h < 570.0 {
                judge(&mut o, &ctx, "ln_pdf", d.ln_dens(x), h, tol * (1.0 + h.abs() * 1e-3));
                judge(&mut o, &ctx, "pdf", d.dens(x), h.exp(), 2.0 * tol * h.exp());
            }
        } else {
            o.class("ill-conditioned");
        }
    } else if h == -INF {
        judge(&mut o, &ctx, "pdf", d.dens(x), 0.0, 0.0);
    }
    o
}

/// Laws without a closed distribution function: its power-like ends, and the density anywhere.
/// The argument comes from a position: below zero towards the lower end, above towards the upper
/// (with large shapes, thirty deviations to either side).
struct End {
    x: f64,
    /// Lower and upper probability (not a number: not known here).
    f: f64,
    g: f64,
    /// Logarithm of the density and the size of the terms it adds up.
    h: f64,
    size: f64,
}

fn end(name: &str, p: &[f64], u: f64) -> End {
    let t = u.abs().powi(3) * 660.0 + u.abs() + LN_2;
    let (a, b) = (p[0], p[p.len().min(2) - 1]);
    // An argument on the scale of a gamma variable of unit rate: its lower probability and
    // log-density (times the argument).
    let gamma = |a: f64| {
        let z = if a > 20.0 { a * (u * 30.0 / a.sqrt()).exp() } else if u < 0.0 { ((-t + lgamma(a + 1.0)) / a).exp() } else { a + 3.0 * u * a.sqrt() + u.powi(3) * 600.0 };
        let f = if z < 1e-11 { (a * z.ln() - lgamma(a + 1.0)).exp() } else { NAN };
        (z, f, a * z.ln() - z - lgamma(a), a * z.ln().abs() + z + lgamma(a).abs())
    };
    // The same for a beta prime variable, which has two such ends.
    let ratio = |a: f64, b: f64| {
        let l = lbeta(a, b);
        let lz = if a.min(b) > 20.0 { (a / b).ln() + u * 30.0 * (1.0 / a + 1.0 / b).sqrt() } else if u < 0.0 { (-t + a.ln() + l) / a } else { (t - b.ln() - l) / b };
        let z = lz.exp();
        let ends = if lz < 0.0 { z * (1.0 + a + b) < 1e-11 } else { (1.0 + a + b) / z < 1e-11 };
        let f = if ends && lz < 0.0 { (a * lz - a.ln() - l).exp() } else { NAN };
        let g = if ends && lz > 0.0 { (-b * lz - b.ln() - l).exp() } else { NAN };
        let h = if lz < 0.0 { a * lz - (a + b) * z.ln_1p() - l } else { -b * lz - (a + b) * (1.0 / z).ln_1p() - l };
        (lz, f, g, h, (a + b) * (lz.abs() + 1.0) + l.abs() + (a + b) * (1.0 + (a + b).ln().abs()))
    };
    let other = |f: f64| 1.0 - f;
    match name {
        "gamma" | "erlang" | "chi_sq" => {
            let (a, b) = if name == "chi_sq" { (a / 2.0, 0.5) } else { (a, b) };
            let (z, f, h, size) = gamma(a);
            End { x: z / b, f, g: other(f), h: h - (z / b).ln(), size: size + z.ln().abs() + b.ln().abs() }
        },
        "chi" => {
            let (z, f, h, size) = gamma(a / 2.0);
            let x = (2.0 * z).sqrt();
            End { x, f, g: other(f), h: h + LN_2 - x.ln(), size: size + x.ln().abs() }
        },
        "inverse_gamma" => {
            let (z, f, h, size) = gamma(a);
            End { x: b / z, f: other(f), g: f, h: h - (b / z).ln(), size: size + z.ln().abs() + b.ln().abs() }
        },
        "beta_prime" => {
            let (lz, f, g, h, size) = ratio(a, b);
            End { x: lz.exp(), f: if f.is_nan() { other(g) } else { f }, g: if g.is_nan() { other(f) } else { g }, h: h - lz, size: size + lz.abs() }
        },
        "f_dist" => {
            let (lz, f, g, h, size) = ratio(a / 2.0, b / 2.0);
            let lx = lz + (b / a).ln();
            End { x: lx.exp(), f: if f.is_nan() { other(g) } else { f }, g: if g.is_nan() { other(f) } else { g }, h: h - lx, size: size + lx.abs() }
        },
        "beta" => {
            // The lower end only: the upper one is too coarse.
            let l = lbeta(a, b);
            let lx = (-t + a.ln() + l) / a;
            let x = if a.min(b) > 20.0 { 1.0 / (1.0 + b / a * (u * 30.0 * (1.0 / a + 1.0 / b).sqrt()).exp()) } else if u < 0.0 { lx.exp() } else { u.powi(2) };
            let f = if x * (1.0 + a + b) < 1e-11 { (a * x.ln() - a.ln() - l).exp() } else { NAN };
            if x >= 1.0 {
                return End { x: NAN, f, g: NAN, h: NAN, size: NAN };
            }
            End { x, f, g: other(f), h: (a - 1.0) * x.ln() + (b - 1.0) * (-x).ln_1p() - l, size: (a + 1.0) * x.ln().abs() + (b + 1.0) * (-x).ln_1p().abs() + (a + b) * (1.0 + (a + b).ln().abs()) + l.abs() }
        },
        _ => {
            // Student's: the square over the degrees of freedom is a ratio with shapes 1/2, nu/2.
            let l = lbeta(0.5, a / 2.0);
            let v = (t - LN_2 - (a / 2.0).ln() - l) / a;
            // With many degrees of freedom, by the fall of the density.
            let v = if a > 20.0 { 0.5 * (2.0 * t / (a + 1.0)).exp_m1().ln() } else if u.abs() < 0.15 { u * 20.0 } else { v };
            let z = v.exp();
            let tail = if 2.0 * v > (1e11 * (1.0 + a)).ln() { (-a * v - (a / 2.0).ln() - l - LN_2).exp() } else { NAN };
            // ln(1 + z^2)
            let k = if v > 0.0 { 2.0 * v + (-2.0 * v).exp().ln_1p() } else { (z * z).ln_1p() };
            let h = -0.5 * (a + 1.0) * k - 0.5 * a.ln() - l;
            let size = (a + 1.0) * (k + 1e-16) + a.ln().abs() + l.abs() + a * (1.0 + a.ln().abs());
            let x = z * a.sqrt();
            if u < 0.0 { End { x: -x, f: tail, g: other(tail), h, size } } else { End { x, f: other(tail), g: tail, h, size } }
        },
    }
}

fn end_obs(s: &Spec, id: &str, c: &(Vec<f64>, f64)) -> Obs {
    let mut o = Obs::new();
    let (p, u) = c;
    let e = end(s.name, p, *u);
    let ctx = format!("{}{:?} at {:?}", s.name, p, e.x);
    let d = match (s.mk)(p) {
        Ok(d) => d,
        Err(err) => {
            o.fail("new", format!("{} is refused: {}", ctx, err));
            return o;
        },
    };
    if !e.x.is_finite() || !(1e-290..1e290).contains(&e.x.abs()) {
        o.class("argument out of range");
        return o;
    }
    if id == "C08" {
        o.nontrivial(!e.f.is_nan());
        // A beta function of large arguments is the difference of large logarithms.
        let big: f64 = p.iter().sum();
        let tol = 1e-9 + 2e-15 * big * (1.0 + big.ln().abs()) * e.f.min(e.g);
        judge(&mut o, &ctx, "cdf", d.cdf(e.x), e.f, tol);
        judge(&mut o, &ctx, "ccdf", d.ccdf(e.x), e.g, tol);
    } else {
        let tol = 1e-8 + 2e-14 * e.size;
        o.nontrivial(tol < 1e-3);
        if tol < 1e-3 && e.h.is_finite() && e.h > -640.0 && e.h < 640.0 {
            judge(&mut o, &ctx, "ln_pdf", d.ln_dens(e.x), e.h, tol);
            judge(&mut o, &ctx, "pdf", d.dens(e.x), e.h.exp(), 2.0 * tol * e.h.exp());
        } else {
            o.class("ill-conditioned or out of range");
        }
    }
    o
}

const ENDS: [&str; 9] = ["gamma", "erlang", "chi", "chi_sq", "inverse_gamma", "beta", "beta_prime", "f_dist", "student_t"];

const CLOSED: [&str; 17] = ["normal", "lognormal", "laplace", "logistic", "gumbel", "gev", "exponential", "rayleigh", "levy", "cauchy", "uniform", "pareto", "weibull", "frechet", "gpd", "kumaraswamy", "triangular"];

const NAMES: [&str; 15] = ["gamma", "erlang", "chi", "chi_sq", "inverse_gamma", "beta", "beta_prime", "f_dist", "pareto", "frechet", "weibull", "kumaraswamy", "student_t", "inverse_normal", "gpd"];

pub fn props() -> Vec<Prop> {
    let dists = ["C08", "C10"].iter().map(|id| {
        let id = *id;
        let subs: Vec<Sub> = specs::all().into_iter().filter(|s| CLOSED.contains(&s.name)).map(|s| {
            let s = std::sync::Arc::new(s);
            sub(format!("{}-extreme", s.name), 800, 20_000, { let n = s.name; move || (gen(n), -1.0..1.0f64) }, move |c| dist_obs(&s, id, c))
        }).collect();
        let subs = subs.into_iter().chain(specs::all().into_iter().filter(|s| ENDS.contains(&s.name)).map(|s| {
            let s = std::sync::Arc::new(s);
            sub(format!("{}-ends", s.name), 800, 20_000, { let n = s.name; move || (gen(n), -1.0..1.0f64) }, move |c| end_obs(&s, id, c))
        })).collect();
        Prop { id, rule: "", assumptions: vec!["closed forms for shapes from 1e-8 to 1e12, scales from 1e-60 to 1e60 (1e-150 to 1e150 for location-scale families) and arguments out to tail probabilities of e^-660"], subs }
    });
    ["C13", "C14", "C15", "C16", "C17"].iter().map(|id| {
        let id = *id;
        let subs: Vec<Sub> = specs::all().into_iter().filter(|s| NAMES.contains(&s.name) || s.name == "triangular").map(|s| {
            let s = std::sync::Arc::new(s);
            sub(format!("{}-extreme", s.name), 500, 20_000, { let n = s.name; move || gen(n) }, move |p: &Vec<f64>| observe(&s, id, p))
        }).collect();
        Prop { id, rule: "", assumptions: vec!["closed forms for shapes from 1e-8 to 1e12 and scales from 1e-60 to 1e60, at and next to the thresholds where moments cease to exist; quantities outside 1e-290..1e290 are not judged"], subs }
    }).chain(dists).collect()
}
