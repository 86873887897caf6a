//! Discrete laws of enormous size (counts up to the machine's limit, tiny probabilities), where
//! summing a reference law is out of reach: closed forms, limit theorems with stated error
//! bounds, and the extremes of the integer types.
use crate::{
    api::{guard, Got},
    refmath,
};
use pbt::{
    gen::logu,
    proptest::{self, prelude::*},
    sub, Obs, Prop, Sub,
};
use rstat::{
    fitting::{Likelihood, Score, MLE},
    Convolution,
    statistics::{Modes, Quantiles, ShannonEntropy, UvMoments},
    univariate as u, DiscreteDistribution, Distribution, Probability,
};
use spaces::{OrderedSpace, Space};
use std::f64::consts::LN_2;

/// ln(k!) - ((k + 1/2) ln k - k + ln(2 pi)/2), for k > 0.
fn stirling_error(k: f64) -> f64 {
    if k < 16.0 {
        refmath::lgamma(k + 1.0) - ((k + 0.5) * k.ln() - k + 0.5 * (2.0 * std::f64::consts::PI).ln())
    } else {
        1.0 / (12.0 * k) - 1.0 / (360.0 * k.powi(3)) + 1.0 / (1260.0 * k.powi(5))
    }
}

/// x ln(x/m) + m - x without cancellation (Loader's deviance).
fn deviance(x: f64, m: f64) -> f64 {
    if x == 0.0 {
        return m;
    }
    let v = (x - m) / (x + m);
    if v.abs() < 0.1 {
        let mut s = (x - m) * v;
        let mut e = 2.0 * x * v;
        for j in 1..200 {
            e *= v * v;
            let t = s + e / (2 * j + 1) as f64;
            if t == s {
                break;
            }
            s = t;
        }
        s
    } else {
        x * (x / m).ln() + m - x
    }
}

fn ln_poisson(k: f64, l: f64) -> f64 {
    if k == 0.0 {
        return -l;
    }
    -stirling_error(k) - deviance(k, l) - 0.5 * (2.0 * std::f64::consts::PI * k).ln()
}

fn ln_binomial(k: f64, n: f64, p: f64) -> f64 {
    let q = 1.0 - p;
    if p == 0.0 || q == 0.0 {
        return if k == n * p { 0.0 } else { f64::NEG_INFINITY };
    }
    if k == 0.0 {
        return n * (-p).ln_1p();
    }
    if k == n {
        return n * p.ln();
    }
    stirling_error(n) - stirling_error(k) - stirling_error(n - k) - deviance(k, n * p) - deviance(n - k, n * q)
        + 0.5 * (n / (2.0 * std::f64::consts::PI * k * (n - k))).ln()
}

fn phi(z: f64) -> f64 { refmath::norm_cdf(z) }

struct Ctx<'a>(&'a mut Obs, String);

impl<'a> Ctx<'a> {
    fn close(&mut self, what: &str, got: Got, want: f64, tol: f64) {
        let c = &self.1;
        match got {
            Got::Val(v) => self.0.check((v - want).abs() <= tol || v == want, what, || format!("{}: {} is {:?}, expected {:?}", c, what, v, want)),
            other => self.0.fail(what, format!("{}: {} gives {:?}", c, what, other)),
        }
    }

    fn rel(&mut self, what: &str, got: Got, want: f64, rel: f64) { self.close(what, got, want, rel * want.abs()) }

    fn truth(&mut self, what: &str, got: Got<bool>) {
        let c = &self.1;
        match got {
            Got::Val(v) => self.0.check(v, what, || format!("{}: {} does not hold", c, what)),
            other => self.0.fail(what, format!("{}: {} gives {:?}", c, what, other)),
        }
    }
}

// ------------------------------------------------------------------------------------------
/// Cases: size, probability, a coordinate in standard deviations.
type Case = (f64, f64, f64);

fn geometric(c: &Case, part: char) -> Obs {
    let mut o = Obs::new();
    let (_, p, t) = *c;
    o.nontrivial(p < 1e-3);
    let d = match u::geometric::Geometric::new(p) {
        Ok(d) => d,
        Err(e) => {
            o.fail("new", format!("Geometric({:?}) is refused: {}", p, e));
            return o;
        },
    };
    let q = 1.0 - p;
    let k = ((t + 4.0).abs() * 0.6 / p).min(9e18) as u64;
    let kf = k as f64;
    // The rounding of 1 - p is the law's own.
    let lq = (-p).ln_1p();
    let mut x = Ctx(&mut o, format!("Geometric({:?}), {}", p, k));
    match part {
        'F' => {
            let g = ((kf + 1.0) * lq).exp();
            let f = -((kf + 1.0) * lq).exp_m1();
            x.close("cdf", guard(|| d.cdf(&k).unwrap()), f, 1e-9);
            x.close("ccdf", guard(|| d.ccdf(&k).unwrap()), g, 1e-9);
            x.close("cdf", guard(|| d.cdf(&u64::MAX).unwrap()), if p > 1e-17 { 1.0 } else { 0.0 }, 1e-9);
            x.close("cdf", guard(|| d.cdf(&0).unwrap()), p, 1e-9);
        },
        'f' => {
            let lf = p.ln() + kf * lq;
            x.close("log_pmf", guard(|| d.log_pmf(&k)), lf, 1e-8);
            x.rel("pmf", guard(|| d.pmf(&k).unwrap()), lf.exp(), 1e-8);
        },
        'm' => {
            x.rel("mean", guard(|| d.mean()), q / p, 1e-9);
            x.rel("variance", guard(|| d.variance()), q / p / p, 1e-9);
            x.rel("standard_deviation", guard(|| d.standard_deviation()), q.sqrt() / p, 1e-9);
        },
        's' => {
            x.rel("skewness", guard(|| d.skewness()), (2.0 - p) / q.sqrt(), 1e-9);
            x.rel("excess_kurtosis", guard(|| d.excess_kurtosis()), 6.0 + p * p / q, 1e-9);
            x.rel("kurtosis", guard(|| d.kurtosis()), 9.0 + p * p / q, 1e-9);
        },
        'q' => {
            let m = (-LN_2 / lq).ceil() - 1.0;
            x.close("median", guard(|| d.median()), m, 1.0 + 1e-9 * m);
        },
        'h' => {
            let h = -(q * lq + p * p.ln()) / p / LN_2;
            x.rel("entropy", guard(|| d.shannon_entropy()), h, 1e-8);
        },
        _ => {},
    }
    o
}

/// The argument t standard deviations from the mean.
fn place(m: f64, sd: f64, t: f64, hi: f64) -> f64 { (m + t * sd).round().max(0.0).min(hi) }

fn binomial(c: &Case, part: char) -> Obs {
    let mut o = Obs::new();
    let (n, p, t) = *c;
    let n = n.round();
    let nn = n as usize;
    let n = nn as f64;
    let d = match u::binomial::Binomial::new(nn, Probability::new_unchecked(p)) {
        Ok(d) => d,
        Err(e) => {
            o.fail("new", format!("Binomial({:?}, {:?}) is refused: {}", nn, p, e));
            return o;
        },
    };
    let q = 1.0 - p;
    let (m, v) = (n * p, n * p * q);
    let sd = v.sqrt();
    let k = place(m, sd, t, n);
    let ki = k as usize;
    o.nontrivial(v > 10.0);
    let mut x = Ctx(&mut o, format!("Binomial({:?}, {:?}) at {}", nn, p, ki));
    let fact = n * (n + 1.0).ln();
    let fuzz = 1e-15 * fact;
    match part {
        'F' => {
            x.close("cdf", guard(|| d.cdf(&nn).unwrap()), 1.0, 0.0);
            x.close("cdf", guard(|| d.cdf(&usize::MAX).unwrap()), 1.0, 0.0);
            if v > 1e4 && n < 1e12 {
                // The normal limit with the skewness term; the next term is of order 1/v.
                let z = (k + 0.5 - m) / sd;
                let want = phi(z) - (1.0 - 2.0 * p) / (6.0 * sd) * (z * z - 1.0) * refmath::ln_phi(z).exp();
                // Beyond, the continued fraction of the incomplete beta function is cut short.
                let (a, b) = if v < 2.5e5 { ("cdf", "ccdf") } else { ("cdf-large-variance", "ccdf-large-variance") };
                x.close(a, guard(|| d.cdf(&ki).unwrap()), want, 1.0 / v + 1e-6 + fuzz);
                x.close(b, guard(|| d.ccdf(&ki).unwrap()), 1.0 - want, 1.0 / v + 1e-6 + fuzz);
            }
        },
        'f' => {
            let lf = ln_binomial(k, n, p);
            if fuzz < 1e-2 {
                let rel = 1e-8 + 4.0 * fuzz;
                x.rel("pmf", guard(|| d.pmf(&ki).unwrap()), lf.exp(), rel);
                if lf > -600.0 {
                    x.close("log_pmf", guard(|| d.log_pmf(&ki)), lf, rel);
                }
            }
            if nn < usize::MAX {
                x.close("pmf", guard(|| d.pmf(&(nn + 1)).unwrap()), 0.0, 0.0);
            }
            x.truth("a mass in [0, 1]", guard(|| [0, ki, nn].iter().all(|k| (0.0..=1.0 + 2.0 * fuzz).contains(&d.pmf(k).unwrap()) || fuzz > 0.1)));
        },
        'm' => {
            x.rel("mean", guard(|| d.mean()), m, 1e-12);
            x.rel("variance", guard(|| d.variance()), v, 1e-12);
            x.rel("standard_deviation", guard(|| d.standard_deviation()), sd, 1e-12);
        },
        's' if v > 0.0 => {
            x.close("skewness", guard(|| d.skewness()), (1.0 - 2.0 * p) / sd, 1e-12 / sd);
            x.close("excess_kurtosis", guard(|| d.excess_kurtosis()), (1.0 - 6.0 * p * q) / v, 1e-12 / v);
            x.close("kurtosis", guard(|| d.kurtosis()), 3.0 + (1.0 - 6.0 * p * q) / v, 1e-11);
        },
        // The median is one of the two integers around the mean.
        'q' if n < 1e12 => x.close("median", guard(|| d.median()), m, 1.0 + 1e-12 * m),
        'o' => {
            let top = ((n + 1.0) * p).floor().min(n);
            let tie = guard(|| d.modes().iter().map(|k| *k as f64).map(|k| (k - top).abs() <= 1.0 + 1e-12 * top && k <= n).fold(true, |a, b| a && b));
            x.truth("a mode next to (n + 1) p", tie);
            x.truth("a mode", guard(|| !d.modes().is_empty()));
        },
        'h' if v > 10.0 => {
            let h = 0.5 * (2.0 * std::f64::consts::PI * std::f64::consts::E * v).log2();
            x.close("entropy", guard(|| d.shannon_entropy()), h, 1.0 / v + 1e-9 * h.abs());
        },
        'S' => {
            x.truth("support", guard(|| d.support().contains(&nn) && d.support().contains(&0) && d.support().sup() == Some(nn)));
        },
        _ => {},
    }
    o
}

fn beta_binomial(c: &Case, part: char) -> Obs {
    let mut o = Obs::new();
    let (n, p, t) = *c;
    let n = n.round();
    let nn = n as usize;
    let n = nn as f64;
    // Shapes with the mean p.
    let a = (0.3 + (t * 7.7).sin().abs() * 40.0) * p.max(1e-3);
    let b = (0.3 + (t * 7.7).sin().abs() * 40.0) * (1.0 - p).max(1e-3);
    let d = match u::beta_binomial::BetaBinomial::new(nn, a, b) {
        Ok(d) => d,
        Err(e) => {
            o.fail("new", format!("BetaBinomial({:?}, {:?}, {:?}) is refused: {}", nn, a, b, e));
            return o;
        },
    };
    let s = a + b;
    let (m, v) = (n * a / s, n * a * b * (s + n) / (s * s * (s + 1.0)));
    let k = place(m, v.sqrt(), t, n);
    let ki = k as usize;
    o.nontrivial(n > 1e5);
    let mut x = Ctx(&mut o, format!("BetaBinomial({:?}, {:?}, {:?}) at {}", nn, a, b, ki));
    let fuzz = 1e-15 * n * (n + 1.0).ln();
    match part {
        'F' => x.close("cdf", guard(|| d.cdf(&nn).unwrap()), 1.0, 0.0),
        'f' => {
            if fuzz < 1e-2 {
                // choose(n, k) B(k + a, n - k + b) as a ratio of beta functions.
                let choose = if k == 0.0 || k == n { 0.0 } else { -refmath::lbeta(n - k + 1.0, k + 1.0) - (n + 1.0).ln() };
                let lf = choose + refmath::lbeta(k + a, n - k + b) - refmath::lbeta(a, b);
                x.rel("pmf", guard(|| d.pmf(&ki).unwrap()), lf.exp(), 1e-8 + 4.0 * fuzz);
            }
            if nn < usize::MAX {
                x.close("pmf", guard(|| d.pmf(&(nn + 1)).unwrap()), 0.0, 0.0);
            }
        },
        'm' => {
            x.rel("mean", guard(|| d.mean()), m, 1e-12);
            x.rel("variance", guard(|| d.variance()), v, 1e-10);
        },
        's' => {
            let sk = (s + 2.0 * n) * (b - a) / (s + 2.0) * ((1.0 + s) / (n * a * b * (n + s))).sqrt();
            x.close("skewness", guard(|| d.skewness()), sk, 1e-9 * (1.0 + sk.abs()));
        },
        _ => {},
    }
    o
}

fn poisson(c: &Case, part: char) -> Obs {
    let mut o = Obs::new();
    let (l, _, t) = *c;
    let d = match u::poisson::Poisson::new(l) {
        Ok(d) => d,
        Err(e) => {
            o.fail("new", format!("Poisson({:?}) is refused: {}", l, e));
            return o;
        },
    };
    o.nontrivial(l > 10.0);
    let k = place(l, l.sqrt(), t, 9e15);
    let ki = k as u64;
    let mut x = Ctx(&mut o, format!("Poisson({:?}) at {}", l, ki));
    let fuzz = 1e-15 * l * (l + 1.0).ln();
    match part {
        'f' => {
            if fuzz < 1e-2 {
                let lf = ln_poisson(k, l);
                x.rel("pmf", guard(|| d.pmf(&ki).unwrap()), lf.exp(), 1e-8 + 4.0 * fuzz);
                x.close("log_pmf", guard(|| d.log_pmf(&ki)), lf, 1e-8 + 4.0 * fuzz);
            }
            x.truth("a mass at the largest integer", guard(|| l > 1e15 || d.pmf(&u64::MAX).unwrap() == 0.0));
        },
        'm' => {
            x.rel("mean", guard(|| d.mean()), l, 1e-12);
            x.rel("variance", guard(|| d.variance()), l, 1e-12);
            x.rel("standard_deviation", guard(|| d.standard_deviation()), l.sqrt(), 1e-12);
        },
        's' => {
            x.rel("skewness", guard(|| d.skewness()), 1.0 / l.sqrt(), 1e-12);
            x.rel("excess_kurtosis", guard(|| d.excess_kurtosis()), 1.0 / l, 1e-12);
            x.rel("kurtosis", guard(|| d.kurtosis()), 3.0 + 1.0 / l, 1e-12);
        },
        // lambda - ln 2 <= median < lambda + 1/3
        'q' => x.close("median", guard(|| d.median()), l - 0.18, 0.52 + 1e-15 * l),
        'o' => x.truth("the mode is the integer part of the rate", guard(|| d.modes().contains(&(l.floor() as u64)))),
        'h' if l > 10.0 => {
            let h = 0.5 * (2.0 * std::f64::consts::PI * std::f64::consts::E * l).ln() - 1.0 / (12.0 * l) - 1.0 / (24.0 * l * l);
            x.close("entropy", guard(|| d.shannon_entropy()), h, 0.2 / l.powi(3) + 1e-12 * h);
        },
        _ => {},
    }
    o
}

/// Lower end, width, and where between them (as a fraction of 2^32).
type Span = (i64, i64, u32);

fn uniform(c: &Span, part: char) -> Obs {
    let mut o = Obs::new();
    let (a, w, at) = *c;
    let b = a as i128 + w as i128;
    if w < 1 || b > i64::MAX as i128 {
        o.class("no such law");
        return o;
    }
    o.nontrivial(w > 1_000_000 || a.unsigned_abs() > 1_000_000);
    let d = match u::uniform::Uniform::<i64>::new(a, w as u64) {
        Ok(d) => d,
        Err(e) => {
            o.fail("new", format!("Uniform({:?}, {:?}) is refused: {}", a, w, e));
            return o;
        },
    };
    let b = b as i64;
    let k = (a as i128 + w as i128 * at as i128 / u32::MAX as i128) as i64;
    let n = w as f64 + 1.0;
    let mut x = Ctx(&mut o, format!("Uniform({:?}, {:?}) at {}", a, w, k));
    match part {
        'F' => {
            let want = ((k as i128 - a as i128) as f64 + 1.0) / n;
            x.rel("cdf", guard(|| d.cdf(&k).unwrap()), want, 1e-12);
            x.close("ccdf", guard(|| d.ccdf(&k).unwrap()), 1.0 - want, 1e-12);
            x.close("cdf", guard(|| d.cdf(&b).unwrap()), 1.0, 0.0);
            x.close("cdf", guard(|| d.cdf(&i64::MAX).unwrap()), 1.0, 0.0);
            x.close("cdf", guard(|| d.cdf(&i64::MIN).unwrap()), if a == i64::MIN { 1.0 / n } else { 0.0 }, 1e-30);
        },
        'f' => {
            for y in [k, a, b] {
                x.rel("pmf", guard(|| d.pmf(&y).unwrap()), 1.0 / n, 1e-12);
                x.close("log_pmf", guard(|| d.log_pmf(&y)), -n.ln(), 1e-12);
            }
            for y in [a.checked_sub(1), b.checked_add(1), Some(i64::MIN), Some(i64::MAX)].iter().flatten() {
                if *y < a || *y > b {
                    x.close("pmf", guard(|| d.pmf(y).unwrap()), 0.0, 0.0);
                }
            }
        },
        'm' => {
            x.close("mean", guard(|| d.mean()), a as f64 + w as f64 / 2.0, 1e-15 * (w as f64 + (a as f64).abs()));
            x.rel("variance", guard(|| d.variance()), w as f64 * (w as f64 + 2.0) / 12.0, 1e-12);
            x.close("span", guard(|| d.span() as f64), (w as u64 + 1) as f64, 0.0);
        },
        's' => {
            x.close("skewness", guard(|| d.skewness()), 0.0, 0.0);
            let want = -1.2 - 2.4 / (w as f64 * (w as f64 + 2.0));
            x.rel("excess_kurtosis", guard(|| d.excess_kurtosis()), want, 1e-12);
            x.rel("kurtosis", guard(|| d.kurtosis()), 3.0 + want, 1e-12);
        },
        'q' => {
            let size = w as f64 + (a as f64).abs();
            x.close("median", guard(|| d.median()), a as f64 + w as f64 / 2.0, 0.5 + 1e-15 * size);
            let p = at as f64 / u32::MAX as f64;
            x.close("quantile", guard(|| d.quantile(Probability::new_unchecked(p))), a as f64 + (p * n).ceil().max(1.0) - 1.0, 1e-15 * size + if p * n == (p * n).round() { 1.0 } else { 0.0 });
        },
        'h' => x.close("entropy", guard(|| d.shannon_entropy()), n.ln(), 1e-12),
        'S' => {
            x.truth("support", guard(|| {
                let s = d.support();
                s.contains(&a) && s.contains(&b) && s.contains(&k) && a.checked_sub(1).map_or(true, |y| !s.contains(&y)) && b.checked_add(1).map_or(true, |y| !s.contains(&y)) && s.inf() == Some(a) && s.sup() == Some(b)
            }));
        },
        _ => {},
    }
    o
}

// ------------------------------------------------------------------------------------------
// Continuous laws far from unit shape
// ------------------------------------------------------------------------------------------
/// Location of the logarithm, its variance.
fn lognormal(c: &(f64, f64), part: char) -> Obs {
    let mut o = Obs::new();
    let (m, v) = *c;
    o.nontrivial(v < 1e-4 || m.abs() > 50.0);
    let d = match u::lognormal::LogNormal::new(m, v) {
        Ok(d) => d,
        Err(e) => {
            o.fail("new", format!("LogNormal({:?}, {:?}) is refused: {}", m, v, e));
            return o;
        },
    };
    let mut x = Ctx(&mut o, format!("LogNormal({:?}, {:?})", m, v));
    let big = |l: f64| (-700.0..700.0).contains(&l);
    let rel = |l: f64| 1e-12 + 4e-16 * l.abs();
    match part {
        'm' => {
            let lm = m + v / 2.0;
            if big(lm) {
                x.rel("mean", guard(|| d.mean()), lm.exp(), rel(lm));
            }
            let lv = 2.0 * m + v;
            let w = v.exp_m1() * lv.exp();
            if big(lv) && big(w.ln()) {
                x.rel("variance", guard(|| d.variance()), w, 2.0 * rel(lv));
                x.rel("standard_deviation", guard(|| d.standard_deviation()), w.sqrt(), 2.0 * rel(lv));
            }
        },
        's' if v < 100.0 => {
            x.rel("skewness", guard(|| d.skewness()), (v.exp() + 2.0) * v.exp_m1().sqrt(), 1e-11);
            let ex = (4.0 * v).exp_m1() + 2.0 * (3.0 * v).exp_m1() + 3.0 * (2.0 * v).exp_m1();
            x.close("excess_kurtosis", guard(|| d.excess_kurtosis()), ex, 1e-11 * (1.0 + ex));
            x.close("kurtosis", guard(|| d.kurtosis()), 3.0 + ex, 1e-11 * (4.0 + ex));
        },
        'q' if big(m) => x.rel("median", guard(|| d.median()), m.exp(), rel(m)),
        'o' if big(m - v) => x.truth("the mode is exp(mu - sigma^2)", guard(|| d.modes().len() == 1 && (d.modes()[0] / (m - v).exp() - 1.0).abs() < 1e-12 + 4e-16 * (m.abs() + v))),
        'h' => {
            let h = (m + 0.5 + 0.5 * (2.0 * std::f64::consts::PI * v).ln()) / LN_2;
            x.close("entropy", guard(|| d.shannon_entropy()), h, 1e-11 * (1.0 + h.abs()));
        },
        _ => {},
    }
    o
}

/// Mean of the normal in units of its scale, the scale.
fn folded(c: &(f64, f64), part: char) -> Obs {
    let mut o = Obs::new();
    let (r, s) = *c;
    let m = r * s;
    o.nontrivial(r.abs() > 3.0);
    let d = match u::folded_normal::FoldedNormal::new(m, s) {
        Ok(d) => d,
        Err(e) => {
            o.fail("new", format!("FoldedNormal({:?}, {:?}) is refused: {}", m, s, e));
            return o;
        },
    };
    let mut x = Ctx(&mut o, format!("FoldedNormal({:?}, {:?})", m, s));
    if part == 'm' {
        // E|X| = |m| + e with a positive e that vanishes for a distant m.
        let z = m.abs() / s / std::f64::consts::SQRT_2;
        let e = s * (2.0 / std::f64::consts::PI).sqrt() * (-z * z).exp() - m.abs() * libm::erfc(z);
        x.rel("mean", guard(|| d.mean()), m.abs() + e, 1e-12);
        x.rel("variance", guard(|| d.variance()), s * s - e * (2.0 * m.abs() + e), 1e-9);
        x.rel("standard_deviation", guard(|| d.standard_deviation()), (s * s - e * (2.0 * m.abs() + e)).sqrt(), 1e-9);
    }
    o
}

/// Inverse normal samples of a law much more (or less) skewed than usual: lambda / mu, mu, seed.
fn wald(c: &(f64, f64, u64)) -> Obs {
    use rand::{rngs::StdRng, SeedableRng};
    let mut o = Obs::new();
    let (r, m, seed) = *c;
    let lam = r * m;
    o.nontrivial(true);
    let n = 20_000usize;
    let d = match u::inverse_normal::InvNormal::new(m, lam) {
        Ok(d) => d,
        Err(e) => {
            o.fail("new", format!("InvNormal({:?}, {:?}) is refused: {}", m, lam, e));
            return o;
        },
    };
    let ctx = format!("InvNormal({:?}, {:?}), {} samples (seed {})", m, lam, n, seed);
    let mut xs: Vec<f64> = match guard(|| {
        let mut rng = StdRng::seed_from_u64(seed);
        (0..n).map(|_| d.sample(&mut rng)).collect()
    }) {
        Got::Val(v) => v,
        other => {
            o.fail("sample", format!("{}: {:?}", ctx, other.val().is_some()));
            return o;
        },
    };
    if let Some(x) = xs.iter().find(|x| !(**x > 0.0) || x.is_infinite()) {
        o.fail("support", format!("{}: the sample {:?} lies outside the support", ctx, x));
        return o;
    }
    xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let eps = ((2.0f64 / 1e-12).ln() / (2.0 * n as f64)).sqrt() + 1e-6;
    for i in 1..40 {
        let x = xs[i * n / 40];
        let emp = xs.partition_point(|y| *y <= x) as f64 / n as f64;
        let (a, b) = ((lam / x).sqrt() * (x / m - 1.0), (lam / x).sqrt() * (x / m + 1.0));
        // exp(2 lambda / mu) phi(-b): by the Mills ratio where the factors leave the range.
        let second = if b < 20.0 { (2.0 * r).exp() * phi(-b) } else { refmath::ln_phi(a).exp() / b * (1.0 - 1.0 / (b * b)) };
        let f = phi(a) + second;
        o.check((emp - f).abs() <= eps, "law", || format!("{}: a fraction {:.5} is at most {:?}, the law gives {:.5}", ctx, emp, x, f));
    }
    o
}

/// Dirichlet vectors with tiny concentrations are almost always vertices.
fn sparse_dirichlet<const N: usize>(a: &[f64], seed: u64) -> Obs {
    use rand::{rngs::StdRng, SeedableRng};
    use std::convert::TryInto;
    let mut o = Obs::new();
    let alphas: [f64; N] = a.try_into().unwrap();
    let n = 4000usize;
    let d = match rstat::multivariate::dirichlet::Dirichlet::<N>::new(alphas) {
        Ok(d) => d,
        Err(e) => {
            o.fail("new", format!("Dirichlet({:?}) is refused: {}", a, e));
            return o;
        },
    };
    let ctx = format!("Dirichlet({:?}), {} samples (seed {})", a, n, seed);
    let total: f64 = a.iter().sum();
    o.nontrivial(total < 0.05);
    let mut rng = StdRng::seed_from_u64(seed);
    let mut heads = [0usize; N];
    for _ in 0..n {
        let x = match guard(|| d.sample(&mut rng)) {
            Got::Val(x) => x,
            _ => {
                o.fail("sample", format!("{}: no sample", ctx));
                return o;
            },
        };
        let sum: f64 = x.iter().sum();
        if !((sum - 1.0).abs() < 1e-12 && x.iter().all(|v| (0.0..=1.0).contains(v))) {
            o.fail("simplex", format!("{}: the sample {:?} is not on the simplex", ctx, x));
            return o;
        }
        for i in 0..N {
            heads[i] += (x[i] > 0.5) as usize;
        }
    }
    // P[X_i > 1/2] is a_i / total up to the probability of not being near a vertex, which
    // is below total^2.
    let eps = ((2.0f64 / 1e-12).ln() / (2.0 * n as f64)).sqrt() + 2.0 * total;
    for i in 0..N {
        let e = heads[i] as f64 / n as f64;
        o.check((e - a[i] / total).abs() <= eps, "law", || format!("{}: coordinate {} dominates in a fraction {:.4}, expected about {:.4}", ctx, i, e, a[i] / total));
    }
    o
}

/// Samples of laws with tiny shapes are numbers in the support, and fall on the two sides of
/// the reference's quartiles as often as they should.
fn tiny_shapes(c: &(f64, f64, u64)) -> Obs {
    use rand::{rngs::StdRng, SeedableRng};
    let mut o = Obs::new();
    let (a, b, seed) = *c;
    o.nontrivial(a < 0.01);
    let n = 4000usize;
    let eps = ((2.0f64 / 1e-12).ln() / (2.0 * n as f64)).sqrt();
    let mut rng = StdRng::seed_from_u64(seed);
    let d = u::beta::Beta::new_unchecked(a, b);
    let ctx = format!("Beta({:?}, {:?}), {} samples (seed {})", a, b, n, seed);
    let xs: Vec<f64> = match guard(|| (0..n).map(|_| d.sample(&mut rng)).collect()) {
        Got::Val(v) => v,
        _ => {
            o.fail("sample", format!("{}: no sample", ctx));
            return o;
        },
    };
    if let Some(x) = xs.iter().find(|x| !(0.0..=1.0).contains(*x)) {
        o.fail("support", format!("{}: the sample {:?} lies outside the support", ctx, x));
        return o;
    }
    let e = xs.iter().filter(|x| **x > 0.5).count() as f64 / n as f64;
    o.check((e - a / (a + b)).abs() <= eps + 2.0 * (a + b), "law", || format!("{}: a fraction {:.4} exceeds 1/2, expected about {:.4}", ctx, e, a / (a + b)));
    let g = u::gamma::Gamma::new_unchecked(a, 1.0);
    let ctx = format!("Gamma({:?}, 1), {} samples (seed {})", a, n, seed);
    let xs: Vec<f64> = match guard(|| (0..n).map(|_| g.sample(&mut rng)).collect()) {
        Got::Val(v) => v,
        _ => {
            o.fail("sample", format!("{}: no sample", ctx));
            return o;
        },
    };
    if let Some(x) = xs.iter().find(|x| !(**x >= 0.0) || x.is_infinite()) {
        o.fail("support", format!("{}: the sample {:?} lies outside the support", ctx, x));
        return o;
    }
    // F(x) = x^a / Gamma(a + 1) up to a factor within 1 +- a x for small x.
    for q in [0.1f64, 0.5, 0.9] {
        let x = ((q.ln() + refmath::lgamma(a + 1.0)) / a).exp();
        if x < 1e-3 && x > 1e-300 {
            let e = xs.iter().filter(|y| **y <= x).count() as f64 / n as f64;
            o.check((e - q).abs() <= eps + 1e-3, "law", || format!("{}: a fraction {:.4} is at most {:?}, expected {:.4}", ctx, e, x, q));
        }
    }
    o
}

// ------------------------------------------------------------------------------------------
fn sizes() -> BoxedStrategy<f64> {
    prop_oneof![
        3 => logu(1e4, 1e8),
        2 => logu(1e8, 1e15),
        1 => logu(1.0, 1e4),
        1 => proptest::sample::select(vec![255.0, 254.0, 256.0, 60.0, 61.0, 1e6, 65536.0, 4294967296.0, 4294967295.0, 2147483648.0, 9007199254740992.0, 9e18, 18446744073709551615.0]),
    ]
    .boxed()
}

fn tiny() -> BoxedStrategy<f64> {
    prop_oneof![
        2 => logu(1e-12, 0.5),
        2 => 0.001..0.999f64,
        1 => logu(1e-12, 0.5).prop_map(|x| 1.0 - x),
        1 => proptest::sample::select(vec![0.5, 0.25, 0.75, 0.1, 1e-6]),
    ]
    .boxed()
}

fn cases() -> BoxedStrategy<Case> { (sizes(), tiny(), -6.0..6.0f64).boxed() }

fn bounds() -> BoxedStrategy<Span> {
    let lo = prop_oneof![
        2 => any::<i64>(),
        1 => proptest::sample::select(vec![i64::MIN, i64::MIN + 1, -1, 0, 1, i64::MAX - 1, 1 << 53, -(1 << 53), 1 << 31, 1 << 32]),
        2 => -1_000_000_000_000i64..1_000_000_000_000,
    ];
    let w = prop_oneof![
        2 => 1..i64::MAX,
        2 => 1i64..1_000_000_000_000,
        1 => (0u32..63).prop_map(|k| 1i64 << k),
        1 => Just(i64::MAX),
        1 => Just(i64::MAX - 1),
        1 => 1i64..5,
    ];
    let at = prop_oneof![3 => any::<u32>(), 1 => Just(0u32), 1 => Just(u32::MAX), 1 => Just(1u32 << 31)];
    // Often as far as the type allows.
    (lo, w, any::<bool>(), at).prop_map(|(a, w, clip, at)| if clip && a as i128 + w as i128 > i64::MAX as i128 { (a, (i64::MAX as i128 - a as i128).min(i64::MAX as i128) as i64, at) } else { (a, w, at) }).boxed()
}

/// Counts whose sum leaves the integer type.
fn poisson_data(c: &(Vec<u64>, f64)) -> Obs {
    let mut o = Obs::new();
    let (xs, l) = c;
    o.nontrivial(xs.len() > 1);
    let sum: f64 = xs.iter().map(|x| *x as f64).sum();
    let n = xs.len() as f64;
    let mut x = Ctx(&mut o, format!("Poisson({:?}) on {:?}", l, xs));
    let size = sum / l + n;
    x.close("score", guard(|| u::poisson::Poisson::new(*l).unwrap().score(xs).lambda), sum / l - n, 1e-12 * size);
    let want: f64 = xs.iter().map(|k| *k as f64 * l.ln() - l - refmath::lgamma(*k as f64 + 1.0)).sum();
    let size: f64 = xs.iter().map(|k| *k as f64 * (l.ln().abs() + (*k as f64 + 1.0).ln()) + l + 10.0).sum();
    x.close("log_likelihood", guard(|| u::poisson::Poisson::new(*l).unwrap().log_likelihood(xs)), want, 1e-9 * size);
    if sum > 0.0 {
        x.rel("fit", guard(|| u::poisson::Poisson::fit_mle(xs).unwrap().mean()), sum / n, 1e-12);
    } else {
        x.truth("no fit to zeros", guard(|| u::poisson::Poisson::fit_mle(xs).is_err()));
    }
    o
}

/// Sums of binomials: refused when the number of trials leaves the integer type.
fn binomial_sum(c: &(u64, u64, f64)) -> Obs {
    let mut o = Obs::new();
    let (n, m, p) = *c;
    let p = Probability::new_unchecked(p);
    o.nontrivial(true);
    let law = |n: u64| u::binomial::Binomial::new_unchecked(n as usize, p);
    let mut x = Ctx(&mut o, format!("Binomial({}, {:?}) plus Binomial({}, {:?})", n, p, m, p));
    let want = n.checked_add(m);
    x.truth("the sum of the trials, or a refusal", guard(|| law(n).convolve(law(m)).ok().map(|d| d.params().n.0 as u64) == want));
    x.truth("the same by the list", guard(|| law(n).convolve_many(vec![law(m)]).ok().map(|d| d.params().n.0 as u64) == want));
    let one = || u::bernoulli::Bernoulli::new_unchecked(c.2);
    x.truth("one trial more, or a refusal", guard(|| law(n).convolve(one()).ok().map(|d| d.params().n.0 as u64) == n.checked_add(1)));
    o
}

type Check = fn(&Case, char) -> Obs;

const LAWS: [(&str, Check, &str); 4] = [
    ("geometric", geometric, "Ffmsqh"),
    ("binomial", binomial, "FfmsqohS"),
    ("beta_binomial", beta_binomial, "Ffms"),
    ("poisson", poisson, "fmsqoh"),
];

/// A constant anywhere in the integers, and a way to an argument near it.
fn constant(c: &(i64, i64, u32), part: char) -> Obs {
    let mut o = Obs::new();
    let (k, by, bit) = *c;
    let step = 1i64 << (bit % 63);
    o.nontrivial(k.unsigned_abs() > 1 << 53 || step > 1 << 31);
    let d = u::degenerate::Degenerate::<i64>::new(k);
    let mut x = Ctx(&mut o, format!("Degenerate({:?})", k));
    for y in [k.checked_add(by), k.checked_add(step), k.checked_sub(step), k.checked_add(1), k.checked_sub(1), Some(k), Some(i64::MIN), Some(i64::MAX)].iter().flatten() {
        let y = *y;
        x.1 = format!("Degenerate({:?}) at {:?}", k, y);
        match part {
            'F' => {
                let w = if y < k { 0.0 } else { 1.0 };
                x.close("cdf", guard(|| d.cdf(&y).unwrap()), w, 0.0);
                x.close("ccdf", guard(|| d.ccdf(&y).unwrap()), 1.0 - w, 0.0);
                x.close("log_cdf", guard(|| d.log_cdf(&y)), if y < k { f64::NEG_INFINITY } else { 0.0 }, 0.0);
            },
            'f' => {
                x.close("pmf", guard(|| d.pmf(&y).unwrap()), if y == k { 1.0 } else { 0.0 }, 0.0);
                x.close("log_pmf", guard(|| d.log_pmf(&y)), if y == k { 0.0 } else { f64::NEG_INFINITY }, 0.0);
            },
            'S' => x.truth("support", guard(|| d.support().contains(&k))),
            'o' => x.truth("modes", guard(|| d.modes() == vec![k])),
            'm' => {
                x.close("mean", guard(|| d.mean()), k as f64, 0.0);
                x.close("variance", guard(|| d.variance()), 0.0, 0.0);
            },
            'q' => x.close("median", guard(|| d.median()), k as f64, 0.0),
            _ => {},
        }
    }
    o
}

fn subs(part: char) -> Vec<Sub> {
    let mut v: Vec<Sub> = LAWS.iter().filter(|(.., parts)| parts.contains(part)).map(|(name, f, _)| sub(format!("huge-{}", name), 400, 20_000, cases, move |c: &Case| f(c, part))).collect();
    if "mqohs".contains(part) {
        v.push(sub("huge-lognormal".to_string(), 600, 20_000, || {
            let m = prop_oneof![3 => -300.0..300.0f64, 1 => -3.0..3.0f64, 1 => -5000.0..5000.0f64];
            (m, prop_oneof![2 => logu(1e-14, 4.0), 1 => logu(4.0, 300.0), 1 => Just(1.0)])
        }, move |c: &(f64, f64)| lognormal(c, part)));
    }
    if "FfSomq".contains(part) {
        let k = || prop_oneof![2 => any::<i64>(), 2 => -100i64..100, 1 => (0u32..63, -2i64..3, any::<bool>()).prop_map(|(b, d, n)| if n { -(1i64 << b) + d } else { (1i64 << b) + d }), 1 => Just(i64::MAX), 1 => Just(i64::MIN)];
        v.push(sub("huge-degenerate".to_string(), 400, 20_000, move || (k(), k(), any::<u32>()), move |c: &(i64, i64, u32)| constant(c, part)));
    }
    if part == 'm' {
        v.push(sub("distant-folded-normal".to_string(), 600, 20_000, || {
            (prop_oneof![3 => -8.0..8.0f64, 1 => logu(8.0, 1e9), 1 => logu(8.0, 1e9).prop_map(|x| -x), 1 => Just(0.0)], logu(1e-6, 1e6))
        }, move |c: &(f64, f64)| folded(c, part)));
    }
    if part == 'L' {
        v.push(sub("skewed-inverse-normal".to_string(), 40, 1500, || (prop_oneof![3 => logu(1e-14, 1e-2), 1 => logu(1e-2, 1e4)], logu(1e-3, 1e3), any::<u64>()), wald));
        v.push(sub("sparse-dirichlet".to_string(), 40, 1500, || (proptest::collection::vec(logu(1e-6, 0.01), 2..=6), any::<u64>()), |c: &(Vec<f64>, u64)| match c.0.len() {
            2 => sparse_dirichlet::<2>(&c.0, c.1),
            3 => sparse_dirichlet::<3>(&c.0, c.1),
            4 => sparse_dirichlet::<4>(&c.0, c.1),
            5 => sparse_dirichlet::<5>(&c.0, c.1),
            _ => sparse_dirichlet::<6>(&c.0, c.1),
        }));
        v.push(sub("tiny-shapes".to_string(), 40, 1500, || (logu(1e-5, 0.02), logu(1e-5, 0.02), any::<u64>()), tiny_shapes));
        return v;
    }
    if part == 'M' {
        let counts = || proptest::collection::vec(prop_oneof![2 => any::<u64>(), 1 => (0u32..64).prop_map(|k| 1u64 << k), 1 => Just(u64::MAX), 1 => 0u64..100], 1..9);
        return vec![sub("huge-poisson", 600, 20_000, move || (counts(), logu(1e-3, 1e20)), poisson_data)];
    }
    if part == 'V' {
        let count = || prop_oneof![1 => 1u64..100, 2 => any::<u64>().prop_map(|n| n.max(1)), 1 => (0u64..100).prop_map(|k| u64::MAX - k), 1 => (0u64..100).prop_map(|k| (1 << 63) - 50 + k)];
        return vec![sub("huge-binomial", 600, 20_000, move || (count(), count(), 0.0..=1.0f64), binomial_sum)];
    }
    if part != 'o' {
        v.push(sub("huge-uniform".to_string(), 600, 20_000, bounds, move |c: &Span| uniform(c, part)));
    }
    v
}

pub fn props() -> Vec<Prop> {
    [("C09", 'F'), ("C11", 'f'), ("C12", 'S'), ("C13", 'm'), ("C14", 's'), ("C15", 'q'), ("C16", 'o'), ("C17", 'h'), ("C18", 'L'), ("C20", 'M'), ("C22", 'V')]
        .iter()
        .map(|(id, part)| Prop { id, rule: "", assumptions: vec![
            "binomial, beta-binomial, Poisson, geometric and integer uniform laws of up to 1e15 outcomes (integer uniforms to the ends of the type; data and trials whose sum leaves it), log-normal and folded normal laws far from unit shape, and samples of laws with tiny shapes: closed forms, Loader's expansion, and the normal limit with its skewness term",
        ], subs: subs(*part) })
        .collect()
}
