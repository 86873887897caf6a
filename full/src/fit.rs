//! Likelihood, score, fitting, Fisher information and convolution (C20, C21, C22).
use crate::{
    api::{Api, Got, W},
    laws::{self, Law},
    refmath::{digamma, trigamma},
    specs,
    uv::pbt_catch,
};
use pbt::{
    proptest::{self, prelude::*, strategy::Union},
    sub, Obs, Prop, Sub,
};
use rstat::{
    fitting::{Likelihood, Score, MLE},
    normal::PairedNormal,
    statistics::FisherInformation,
    univariate as u, Convolution, Distribution, Probability,
};

fn near(a: f64, b: f64, tol: f64) -> bool { a == b || (a - b).abs() <= tol }

/// A data set as coordinates; each family maps them into its support.
type Data = (Vec<f64>, Vec<f64>);

fn data(gen: fn() -> BoxedStrategy<Vec<f64>>, max: usize) -> BoxedStrategy<Data> {
    (gen(), list((-3.0..3.0f64).boxed(), max)).boxed()
}

/// A list of fewer than `max` elements; now and then a long one, of a few repeated elements.
fn list<T: Clone + std::fmt::Debug + 'static>(x: BoxedStrategy<T>, max: usize) -> BoxedStrategy<Vec<T>> {
    let long = (proptest::collection::vec(x.clone(), 1..6), pbt::gen::sizes(14, 20_000)).prop_map(|(v, n)| v.iter().cycle().take(n).cloned().collect());
    prop_oneof![30 => proptest::collection::vec(x, 0..max), 1 => long].boxed()
}

/// A data set for a message.
fn brief<T: std::fmt::Debug>(v: &[T]) -> String {
    if v.len() > 40 { format!("{} data starting with {:?}", v.len(), &v[..8]) } else { format!("{:?}", v) }
}

struct Fam {
    name: &'static str,
    gen: fn() -> BoxedStrategy<Vec<f64>>,
    /// Coordinate to a point of the support.
    point: fn(&[f64], f64) -> f64,
    law: fn(&[f64]) -> Law,
    /// log-likelihood, likelihood, score
    eval: fn(&[f64], &[f64]) -> (f64, f64, Vec<f64>),
    /// Gradient of the log-density in the parameters.
    grad: fn(&[f64], f64) -> Vec<f64>,
    /// Size of the terms that the log-density at a point adds up.
    terms: fn(&[f64], f64) -> f64,
    /// Size of the terms that the components of the gradient add up.
    gterms: fn(&[f64], f64) -> Vec<f64>,
}

/// Coordinates in -3..3 to the open unit interval; its ends are approached as far as the
/// floating-point numbers allow.
fn unit(t: f64) -> f64 {
    if t < -2.6 {
        10f64.powf((t + 2.6) / 0.4 * 290.0 - 3.0)
    } else if t > 2.6 {
        1.0 - 10f64.powf((2.6 - t) / 0.4 * 12.0 - 3.0)
    } else {
        1.0 / (1.0 + (-1.3 * t * (1.0 + t * t / 3.0)).exp())
    }
}

/// Mostly moderate values of a positive parameter, now and then in another unit.
fn in_units(x: BoxedStrategy<f64>, decades: f64) -> BoxedStrategy<f64> {
    (x, prop_oneof![3 => Just(0.0), 1 => -1.0..1.0f64]).prop_map(move |(x, u)| if u == 0.0 { x } else { x * 10f64.powf(u * decades) }).boxed()
}

fn families() -> Vec<Fam> {
    vec![
        Fam {
            name: "bernoulli", gen: || specs::prb().prop_map(|p| vec![p]).boxed(), point: |_, t| if t > 0.0 { 1.0 } else { 0.0 }, law: laws::bernoulli,
            eval: |p, xs| {
                let d = u::bernoulli::Bernoulli::new(p[0]).unwrap();
                let v: Vec<bool> = xs.iter().map(|x| *x > 0.5).collect();
                (d.log_likelihood(&v), d.likelihood(&v), vec![d.score(&v).p])
            },
            grad: |p, x| vec![if x > 0.5 { 1.0 / p[0] } else { -1.0 / (1.0 - p[0]) }],
            terms: |p, x| 1e-6 + if x > 0.5 { -p[0].ln() } else { -(-p[0]).ln_1p() },
            gterms: |p, x| vec![if x > 0.5 { 1.0 / p[0] } else { 1.0 / (1.0 - p[0]) }],
        },
        Fam {
            name: "beta", gen: || (specs::shp(), specs::shp()).prop_map(|(a, b)| vec![a, b]).boxed(), point: |_, t| unit(t), law: laws::beta,
            eval: |p, xs| {
                let d = u::beta::Beta::new(p[0], p[1]).unwrap();
                let g = d.score(xs);
                (d.log_likelihood(xs), d.likelihood(xs), vec![g.alpha, g.beta])
            },
            grad: |p, x| {
                let s = digamma(p[0] + p[1]);
                vec![x.ln() - digamma(p[0]) + s, (-x).ln_1p() - digamma(p[1]) + s]
            },
            terms: |p, x| {
                let g = |a: f64| a * (1.0 + a.ln().abs()) + a.ln().abs();
                (p[0] - 1.0).abs() * -x.ln() + (p[1] - 1.0).abs() * -(-x).ln_1p() + g(p[0]) + g(p[1]) + g(p[0] + p[1])
            },
            gterms: |p, x| {
                let s = digamma(p[0] + p[1]).abs();
                vec![-x.ln() + digamma(p[0]).abs() + s + 1.0, -(-x).ln_1p() + digamma(p[1]).abs() + s + 1.0]
            },
        },
        Fam {
            name: "gamma", gen: || (specs::shp(), in_units(specs::scl(), 60.0)).prop_map(|(a, b)| vec![a, b]).boxed(),
            point: |p, t| p[0] / p[1] * if t < -2.6 { 10f64.powf((t + 2.6) / 0.4 * 220.0 - 4.0) } else { (t * (1.0 + t * t / 6.0)).exp() }, law: laws::gamma,
            eval: |p, xs| {
                let d = u::gamma::Gamma::new(p[0], p[1]).unwrap();
                let g = d.score(xs);
                (d.log_likelihood(xs), d.likelihood(xs), vec![g.alpha, g.beta])
            },
            grad: |p, x| vec![(x * p[1]).ln() - digamma(p[0]), p[0] / p[1] - x],
            terms: |p, x| {
                let g = |a: f64| a * (1.0 + a.ln().abs()) + a.ln().abs();
                (p[0] - 1.0).abs() * x.ln().abs() + p[1] * x + p[0] * p[1].ln().abs() + g(p[0])
            },
            gterms: |p, x| vec![(x * p[1]).ln().abs() + digamma(p[0]).abs() + 1.0, p[0] / p[1] + x],
        },
        Fam {
            name: "poisson", gen: || in_units(pbt::gen::mixed(&[1.0, 2.0, 0.5, 10.0], pbt::gen::logu(0.01, 500.0)), 12.0).prop_map(|l| vec![l]).boxed(),
            point: |p, t| (p[0] * (1.0 + t / 3.0) + t.abs() * 3.0).round().max(0.0), law: laws::poisson,
            eval: |p, xs| {
                let d = u::poisson::Poisson::new(p[0]).unwrap();
                let v: Vec<u64> = xs.iter().map(|x| *x as u64).collect();
                (d.log_likelihood(&v), d.likelihood(&v), vec![d.score(&v).lambda])
            },
            grad: |p, x| vec![x / p[0] - 1.0],
            terms: |p, x| x * p[0].ln().abs() + p[0] + (x + 1.0) * (x + 1.0).ln(),
            gterms: |p, x| vec![x / p[0] + 1.0],
        },
        Fam {
            name: "normal", gen: || (in_units(specs::loc(), 70.0), in_units(specs::scl(), 140.0)).prop_map(|(a, b)| vec![a, b]).boxed(), point: |p, t| p[0] + p[1].sqrt() * t * 1.7, law: laws::normal,
            eval: |p, xs| {
                let d = u::normal::Normal::new(p[0], p[1]).unwrap();
                let g = d.score(xs);
                (d.log_likelihood(xs), d.likelihood(xs), vec![g.mu, g.Sigma])
            },
            grad: |p, x| {
                let d = x - p[0];
                vec![d / p[1], (d * d / p[1] - 1.0) / p[1] / 2.0]
            },
            terms: |p, x| (x - p[0]).powi(2) / p[1] + p[1].ln().abs() + 1.0,
            gterms: |p, x| {
                let d = x - p[0];
                vec![(d / p[1]).abs(), (d * d / p[1] + 1.0) / p[1] / 2.0]
            },
        },
    ]
}

fn likelihood_obs(f: &Fam, c: &Data) -> Obs {
    let mut o = Obs::new();
    let (p, ts) = c;
    let xs: Vec<f64> = ts.iter().map(|t| (f.point)(p, *t)).collect();
    let l = (f.law)(p);
    let lds: Vec<f64> = xs.iter().map(|x| l.ln_f(*x)).collect();
    let want: f64 = lds.iter().sum();
    let size: f64 = xs.iter().map(|x| (f.terms)(p, *x)).sum();
    let ctx = format!("{}{:?} on {}", f.name, p, brief(&xs));
    o.nontrivial(xs.len() > 1);
    o.class(if xs.is_empty() { "no data" } else if xs.len() == 1 { "one point" } else { "several points" });
    // Asked after other questions, the answer is still that to this one.
    if let Some((last, rest)) = xs.split_last() {
        let _ = pbt_catch(|| (f.eval)(p, &rest.iter().cloned().chain(Some(*rest.first().unwrap_or(last))).collect::<Vec<f64>>()));
        let _ = pbt_catch(|| (f.eval)(&neighbour(p), &xs));
    }
    let got = pbt_catch(|| (f.eval)(p, &xs));
    let (ll, lik, score) = match got {
        Ok(x) => x,
        Err(e) => {
            o.fail("panic", format!("{}: {}", ctx, e));
            return o;
        },
    };
    o.note(format!("{}: {:?}", ctx, want));
    o.check(near(ll, want, 2e-9 * size), "log_likelihood", || format!("{}: the log-likelihood is {:?}, the log-densities sum to {:?}", ctx, ll, want));
    o.check(near(lik, ll.exp(), 1e-9 * ll.exp()), "likelihood", || format!("{}: the likelihood is {:?}, its logarithm {:?}", ctx, lik, ll));
    // The score, analytically; and the analytic gradient against differences of the density.
    let k = p.len();
    let mut want = vec![0.0; k];
    let mut mag = vec![0.0; k];
    for x in xs.iter() {
        for (i, g) in (f.grad)(p, *x).into_iter().enumerate() {
            want[i] += g;
        }
        for (i, g) in (f.gterms)(p, *x).into_iter().enumerate() {
            mag[i] += g;
        }
    }
    for i in 0..k {
        let tol = 2e-9 * mag[i];
        let sc = score[i];
        o.check(near(sc, want[i], tol), "score", || format!("{}: component {} of the score is {:?}, the gradient of the log-likelihood is {:?}", ctx, i, sc, want[i]));
    }
    if let Some(x) = xs.first() {
        let g = (f.grad)(p, *x);
        for i in 0..k {
            let h = 1e-5 * p[i].abs().max(1e-3).min(if f.name == "bernoulli" { p[0].min(1.0 - p[0]) } else { 1.0 });
            let (mut a, mut b) = (p.clone(), p.clone());
            a[i] += h;
            b[i] -= h;
            let d = ((f.law)(&a).ln_f(*x) - (f.law)(&b).ln_f(*x)) / (2.0 * h);
            // A mistake here is one of the reference, not of the crate: never reported as such.
            if (d - g[i]).abs() > 1e-3 * (1.0 + g[i].abs() + 1.0 / p[i].abs()) {
                o.class("reference gradient disagrees with differences");
            }
        }
    }
    o
}

fn paired_obs(c: &(Vec<f64>, Vec<(f64, f64)>)) -> Obs {
    let mut o = Obs::new();
    let (p, ts) = c;
    let (mu, s2) = ([p[0], p[1]], [p[2], p[3]]);
    let xs: Vec<[f64; 2]> = ts.iter().map(|(a, b)| [mu[0] + a * s2[0].sqrt(), mu[1] + b * s2[1].sqrt()]).collect();
    let d = match PairedNormal::new(mu, s2) {
        Ok(d) => d,
        Err(e) => {
            o.fail("new", format!("{:?}: {}", p, e));
            return o;
        },
    };
    o.nontrivial(xs.len() > 1);
    o.class(if xs.is_empty() { "no data" } else if xs.len() == 1 { "one point" } else { "several points" });
    let ls = [laws::normal(&[mu[0], s2[0]]), laws::normal(&[mu[1], s2[1]])];
    let want: f64 = xs.iter().map(|x| ls[0].ln_f(x[0]) + ls[1].ln_f(x[1])).sum();
    let n = xs.len() as f64;
    let size: f64 = xs.iter().map(|x| (0..2).map(|i| (x[i] - mu[i]).powi(2) / s2[i] + s2[i].ln().abs()).sum::<f64>()).sum();
    let ctx = format!("paired normal {:?} on {}", p, brief(&xs));
    let ll = d.log_likelihood(&xs);
    o.check(near(ll, want, 1e-9 * (size + n)), "log_likelihood", || format!("{}: the log-likelihood is {:?}, the log-densities sum to {:?}", ctx, ll, want));
    let lik = d.likelihood(&xs);
    o.check(near(lik, ll.exp(), 1e-9 * ll.exp()), "likelihood", || format!("{}: the likelihood is {:?}, its logarithm {:?}", ctx, lik, ll));
    let g = d.score(&xs);
    for i in 0..2 {
        let gm: f64 = xs.iter().map(|x| (x[i] - mu[i]) / s2[i]).sum();
        let gs: f64 = xs.iter().map(|x| ((x[i] - mu[i]).powi(2) / s2[i] - 1.0) / s2[i] / 2.0).sum();
        let tm = 1e-8 * xs.iter().map(|x| ((x[i] - mu[i]) / s2[i]).abs()).sum::<f64>();
        let t = 1e-8 * xs.iter().map(|x| ((x[i] - mu[i]).powi(2) / s2[i] + 1.0) / s2[i]).sum::<f64>();
        o.check(near(g.mu[i], gm, tm), "score-mean", || format!("{}: component {} of the score of the mean is {:?}, the gradient is {:?}", ctx, i, g.mu[i], gm));
        o.check(near(g.Sigma[i], gs, t), "score-variance", || format!("{}: component {} of the score of the variance is {:?}, the gradient is {:?}", ctx, i, g.Sigma[i], gs));
    }
    o
}

/// A fit, its competitors and the textbook log-likelihood.
fn fit_obs(name: &'static str, c: &(Vec<f64>, Vec<(f64, f64)>, (i32, f64))) -> Obs {
    let mut o = Obs::new();
    let (raw, rivals, (unit, offset)) = c;
    let by = 2f64.powi(*unit);
    let xs: Vec<f64> = match name {
        "bernoulli" => raw.iter().map(|t| if *t > 0.3 { 1.0 } else { 0.0 }).collect(),
        "poisson" => raw.iter().map(|t| (t.abs().powi(3) * 2.0).floor() * 2f64.powi(unit.abs() / 6)).collect(),
        _ => raw.iter().map(|t| (t * 7.0 + 2.0 + offset) * by).collect(),
    };
    let fit: Result<Result<Vec<f64>, String>, String> = pbt_catch(|| match name {
        "bernoulli" => {
            let v: Vec<bool> = xs.iter().map(|x| *x > 0.5).collect();
            u::bernoulli::Bernoulli::fit_mle(&v).map(|d| vec![d.params().p.unwrap()]).map_err(|e| e.to_string())
        },
        "poisson" => {
            let v: Vec<u64> = xs.iter().map(|x| *x as u64).collect();
            u::poisson::Poisson::fit_mle(&v).map(|d| vec![d.params().lambda.0]).map_err(|e| e.to_string())
        },
        _ => u::normal::Normal::fit_mle(&xs).map(|d| vec![d.params().mu.0, d.params().Sigma.0]).map_err(|e| e.to_string()),
    });
    let ctx = format!("{} fitted to {}", name, brief(&xs));
    let fit = match fit {
        Ok(f) => f,
        Err(e) => {
            o.fail("panic", format!("{}: {}", ctx, e));
            return o;
        },
    };
    // Is there a maximiser among the valid parameters?
    let varied = xs.iter().any(|x| *x != xs[0]);
    let exists = match name {
        "bernoulli" => !xs.is_empty(),
        "poisson" => xs.iter().any(|x| *x > 0.0),
        _ => varied,
    };
    o.nontrivial(exists && varied);
    o.class(if xs.is_empty() { "no data" } else if !exists { "no maximiser" } else { "a maximiser exists" });
    let best = match fit {
        Ok(p) => p,
        Err(e) => {
            o.check(!exists, "refused", || format!("{}: refused ({})", ctx, e));
            return o;
        },
    };
    if xs.is_empty() {
        // Any parameters have likelihood one.
        return o;
    }
    if !exists {
        o.fail("accepted", format!("{}: gives {:?}, but the likelihood has no maximiser", ctx, best));
        return o;
    }
    let ll = |p: &[f64]| -> f64 {
        match name {
            "bernoulli" => xs.iter().map(|x| if *x > 0.5 { p[0].ln() } else { (-p[0]).ln_1p() }).sum(),
            "poisson" => xs.iter().map(|x| if *x == 0.0 { -p[0] } else { x * p[0].ln() - p[0] }).sum(),
            _ => xs.iter().map(|x| -0.5 * (x - p[0]).powi(2) / p[1] - 0.5 * p[1].ln()).sum(),
        }
    };
    let top = ll(&best);
    o.note(format!("{}: {:?}", ctx, best));
    o.check(!top.is_nan(), "nan", || format!("{}: {:?}", ctx, best));
    let mut others: Vec<Vec<f64>> = vec![];
    for (a, b) in rivals {
        others.push(match name {
            "bernoulli" => vec![((a + 3.0) / 6.0).clamp(1e-9, 1.0 - 1e-9)],
            "poisson" => vec![best[0] * (a / 3.0).exp()],
            _ => vec![best[0] + a * best[1].sqrt(), best[1] * b.exp()],
        });
        let eps = 10f64.powf(b - 3.0);
        others.push(match name {
            "bernoulli" => vec![(best[0] + eps * a.signum()).clamp(1e-12, 1.0 - 1e-12)],
            "poisson" => vec![best[0] * (1.0 + eps * a.signum())],
            _ => vec![best[0] + eps * a * best[1].sqrt(), best[1] * (1.0 + eps * b)],
        });
    }
    for q in others {
        if q[q.len() - 1] <= 0.0 {
            continue;
        }
        let v = ll(&q);
        o.check(v <= top + 1e-9 * (1.0 + top.abs()), "beaten", || format!("{}: {:?} has log-likelihood {:?}, but {:?} has {:?}", ctx, best, top, q, v));
    }
    o
}

// ------------------------------------------------------------------------------------------
// C21
// ------------------------------------------------------------------------------------------
/// Probabilities at which the score has a law, i.e. neither zero nor one.
fn inner_prb() -> BoxedStrategy<f64> { specs::prb().prop_map(|p| if p > 0.0 && p < 1.0 { p } else { 0.5 }).boxed() }

/// Parameters that differ from these in one place.
fn neighbour(p: &[f64]) -> Vec<f64> {
    let mut q = p.to_vec();
    if p.len() == 2 && p[0] == p[1] {
        return vec![p[0] * 0.75; 2];
    }
    let k = (p.iter().fold(3u64, |h, x| (h ^ x.to_bits()).wrapping_mul(0x9E3779B97F4A7C15)) >> 33) as usize % p.len();
    q[k] = if p[k] > 0.0 && p[k] < 1.0 { 1.0 - p[k] } else { p[k] * 2.0 };
    q
}

fn fisher_of(name: &'static str, p: &[f64]) -> Result<Vec<Vec<f64>>, String> {
    let _ = fisher_alone(name, &neighbour(p));
    fisher_alone(name, p)
}

fn fisher_alone(name: &'static str, p: &[f64]) -> Result<Vec<Vec<f64>>, String> {
    pbt_catch(|| match name {
        "bernoulli" => u::bernoulli::Bernoulli::new(p[0]).unwrap().fisher_information().iter().map(|r| r.to_vec()).collect(),
        "binomial" => u::binomial::Binomial::new(p[0] as usize, Probability::new(p[1]).unwrap()).unwrap().fisher_information().iter().map(|r| r.to_vec()).collect(),
        "exponential" => u::exponential::Exponential::new(p[0]).unwrap().fisher_information().iter().map(|r| r.to_vec()).collect(),
        "lognormal" => u::lognormal::LogNormal::new(p[0], p[1]).unwrap().fisher_information().iter().map(|r| r.to_vec()).collect(),
        "pareto" => u::pareto::Pareto::new(p[0], p[1]).unwrap().fisher_information().iter().map(|r| r.to_vec()).collect(),
        "poisson" => u::poisson::Poisson::new(p[0]).unwrap().fisher_information().iter().map(|r| r.to_vec()).collect(),
        _ => u::normal::Normal::new(p[0], p[1]).unwrap().fisher_information().iter().map(|r| r.to_vec()).collect(),
    })
}

/// The closed forms, for parameters far from unit size.
fn fisher_closed_obs(name: &'static str, p: &Vec<f64>) -> Obs {
    let mut o = Obs::new();
    let ctx = format!("{}{:?}", name, p);
    let (a, b) = (p[0], p[p.len() - 1]);
    let want: Vec<Vec<f64>> = match name {
        "bernoulli" => vec![vec![1.0 / a / (1.0 - a)]],
        "binomial" => vec![vec![a / b / (1.0 - b)]],
        "exponential" => vec![vec![1.0 / a / a]],
        "poisson" => vec![vec![1.0 / a]],
        "pareto" => vec![vec![(b / a) * (b / a), 0.0], vec![0.0, 1.0 / b / b]],
        _ => vec![vec![1.0 / b, 0.0], vec![0.0, 0.5 / b / b]],
    };
    o.nontrivial(p.iter().any(|x| !(1e-2..1e2).contains(x)));
    o.note(format!("{}: {:?}", ctx, want));
    match fisher_of(name, p) {
        Ok(got) => {
            for (i, (g, w)) in got.iter().flatten().zip(want.iter().flatten()).enumerate() {
                o.check(near(*g, *w, 1e-12 * w), "fisher", || format!("{}: entry {} is {:?}, the covariance of the score is {:?}", ctx, i, g, w));
            }
            o.check(got.iter().flatten().count() == want.iter().flatten().count(), "fisher", || format!("{}: {:?}", ctx, got));
        },
        Err(e) => o.fail("panic", format!("{}: {}", ctx, e)),
    }
    o
}

fn fisher_obs(name: &'static str, p: &Vec<f64>) -> Obs {
    let mut o = Obs::new();
    let ctx = format!("{}{:?}", name, p);
    let got = match fisher_of(name, p) {
        Ok(g) => g,
        Err(e) => {
            o.fail("panic", format!("{}: {}", ctx, e));
            return o;
        },
    };
    type G = fn(&[f64], f64) -> Vec<f64>;
    let (l, grad): (Law, G) = match name {
        "bernoulli" => (laws::bernoulli(p), |p, x| vec![if x > 0.5 { 1.0 / p[0] } else { -1.0 / (1.0 - p[0]) }]),
        "binomial" => (laws::binomial(p), |p, x| vec![(x - p[0] * p[1]) / p[1] / (1.0 - p[1])]),
        "exponential" => (laws::exponential(p), |p, x| vec![1.0 / p[0] - x]),
        "lognormal" => (laws::lognormal(p), |p, x| {
            let d = x.ln() - p[0];
            vec![d / p[1], (d * d / p[1] - 1.0) / p[1] / 2.0]
        }),
        "pareto" => (laws::pareto(p), |p, x| vec![p[1] / p[0], 1.0 / p[1] - (x / p[0]).ln()]),
        "poisson" => (laws::poisson(p), |p, x| vec![x / p[0] - 1.0]),
        _ => (laws::normal(p), |p, x| {
            let d = x - p[0];
            vec![d / p[1], (d * d / p[1] - 1.0) / p[1] / 2.0]
        }),
    };
    if !l.resolved() {
        o.class("reference unresolved");
        return o;
    }
    o.nontrivial(true);
    let k = got.len();
    let e = |i: usize, j: usize| {
        l.integrate(l.lo, l.hi, &|pt, _| {
            let g = grad(p, pt.x);
            let v = g[i] * g[j];
            (v.signum(), v.abs().ln())
        })
    };
    let want: Vec<Vec<f64>> = (0..k).map(|i| (0..k).map(|j| e(i, j)).collect()).collect();
    o.note(format!("{}: {:?}", ctx, want));
    for i in 0..k {
        for j in 0..k {
            let t = 1e-6 * (want[i][i] * want[j][j]).abs().sqrt();
            o.check(near(got[i][j], want[i][j], t), "fisher", || format!("{}: entry ({}, {}) is {:?}, the covariance of the score is {:?}", ctx, i, j, got[i][j], want[i][j]));
        }
    }
    // The closed forms, as a check of the quadrature.
    let _ = trigamma;
    o
}

// ------------------------------------------------------------------------------------------
// C22
// ------------------------------------------------------------------------------------------
/// Compares a result with the law it should have.
fn follows(o: &mut Obs, ctx: &str, d: &dyn Api, law: &Law, mean_exists: bool, mv: (f64, f64), ps: &[f64]) {
    let got = d.params();
    let ok = got.len() == ps.len() && got.iter().zip(ps).all(|(a, b)| (a - b).abs() <= 1e-12 * (1.0 + a.abs() + b.abs()));
    o.check(ok, "parameters", || format!("{}: the parameters of the sum are {:?}, they should be {:?}", ctx, got, ps));
    for t in [-1.5, -0.5, 0.0, 0.4, 1.3] {
        let x = if law.disc { law.at(t).round() } else { law.at(t) };
        let w = law.f(x);
        match d.dens(x) {
            Got::Val(v) => o.check((v - w).abs() <= 1e-6 * w.abs() + 1e-12 * law.f(law.at(0.0)).abs(), "density", || format!("{}: the density of the sum at {:?} is {:?}, it should be {:?}", ctx, x, v, w)),
            Got::Absent => {},
            other => o.fail("density", format!("{}: {:?}", ctx, other)),
        }
    }
    if mean_exists {
        if let Got::Val(m) = d.mean() {
            o.check((m - mv.0).abs() <= 1e-8 * (1.0 + mv.0.abs() + mv.1.sqrt()), "mean", || format!("{}: the mean of the sum is {:?}, it should be {:?}", ctx, m, mv.0));
        }
        if let Got::Val(v) = d.variance() {
            o.check((v - mv.1).abs() <= 1e-8 * mv.1 + 1e-12 * mv.0 * mv.0, "variance", || format!("{}: the variance of the sum is {:?}, it should be {:?}", ctx, v, mv.1));
        }
    }
}

/// First law, further laws, whether they share the parameter they must agree in, and a law that
/// misses it by a little (its place, the logarithm of the relative difference).
type Conv2 = (Vec<f64>, Vec<Vec<f64>>, bool, Option<(usize, f64)>);

fn boxed<D>(r: Result<D, failure::Error>) -> Result<Box<dyn Api>, String>
where
    W<D>: Api + 'static,
{
    r.map(|d| Box::new(W(d)) as Box<dyn Api>).map_err(|e| e.to_string())
}

/// One by one (`many` false) or with the list.
fn run_conv<A, B, O>(a: A, mut bs: Vec<B>, many: bool) -> Result<Box<dyn Api>, String>
where
    A: Convolution<B, Output = O>,
    O: Convolution<B, Output = O> + Distribution,
    B: Distribution,
    W<O>: Api + 'static,
{
    if many {
        return boxed(a.convolve_many(bs));
    }
    let first = bs.remove(0);
    let mut acc = a.convolve(first);
    for b in bs {
        acc = acc.and_then(|d| d.convolve(b));
    }
    boxed(acc)
}

fn conv_obs(name: &'static str, c: &Conv2) -> Obs {
    let mut o = Obs::new();
    let (p, qs, share, near) = c;
    let mut qs = qs.clone();
    // Families closed only for an equal second parameter: share it in half of the cases.
    let key = |v: &[f64]| match name {
        "bernoulli" => Some(v[0]),
        "binomial" | "gamma" => Some(v[1]),
        "binomial+bernoulli" | "gamma+exponential" => Some(v[v.len() - 1]),
        _ => None,
    };
    let n = qs.len();
    if *share {
        for (i, q) in qs.iter_mut().enumerate() {
            let k = q.len() - 1;
            q[k] = p[p.len() - 1];
            match near {
                Some((at, l)) if at % n == i && key(p).is_some() => {
                    let e = 10f64.powf(*l);
                    q[k] *= if q[k] * (1.0 + e) > 1.0 { 1.0 - e } else { 1.0 + e };
                },
                _ => {},
            }
        }
    }
    let closed = match key(p) {
        Some(k) => qs.iter().all(|q| key(q) == Some(k)),
        None => true,
    };
    o.class(if closed { "closed" } else { "not closed" });
    o.class(if qs.len() == 1 { "a pair" } else if qs.len() < 6 { "a list" } else { "a long list" });
    o.nontrivial(true);
    let sum = |i: usize| qs.iter().map(|q| q[i]).sum::<f64>();
    for many in [false, true] {
        let ctx = format!("{} {:?} + {:?} ({})", name, p, qs, if many { "as a list" } else { "one by one" });
        let run = |many: bool| -> Result<Box<dyn Api>, String> {
            match name {
                "bernoulli" => {
                    let mk = |v: &Vec<f64>| u::bernoulli::Bernoulli::new(v[0]).unwrap();
                    run_conv(mk(p), qs.iter().map(mk).collect(), many)
                },
                "binomial" => {
                    let mk = |v: &Vec<f64>| u::binomial::Binomial::new(v[0] as usize, Probability::new(v[1]).unwrap()).unwrap();
                    run_conv(mk(p), qs.iter().map(mk).collect(), many)
                },
                "binomial+bernoulli" => {
                    let mk = |v: &Vec<f64>| u::binomial::Binomial::new(v[0] as usize, Probability::new(v[1]).unwrap()).unwrap();
                    run_conv(mk(p), qs.iter().map(|v| u::bernoulli::Bernoulli::new(v[1]).unwrap()).collect(), many)
                },
                "cauchy" => {
                    let mk = |v: &Vec<f64>| u::cauchy::Cauchy::new(v[0], v[1]).unwrap();
                    run_conv(mk(p), qs.iter().map(mk).collect(), many)
                },
                "chi_sq" => {
                    let mk = |v: &Vec<f64>| u::chi_sq::ChiSq::new(v[0] as usize).unwrap();
                    run_conv(mk(p), qs.iter().map(mk).collect(), many)
                },
                "gamma" => {
                    let mk = |v: &Vec<f64>| u::gamma::Gamma::new(v[0], v[1]).unwrap();
                    run_conv(mk(p), qs.iter().map(mk).collect(), many)
                },
                "gamma+exponential" => {
                    let mk = |v: &Vec<f64>| u::gamma::Gamma::new(v[0], v[1]).unwrap();
                    run_conv(mk(p), qs.iter().map(|v| u::exponential::Exponential::new(v[1]).unwrap()).collect(), many)
                },
                "poisson" => {
                    let mk = |v: &Vec<f64>| u::poisson::Poisson::new(v[0]).unwrap();
                    run_conv(mk(p), qs.iter().map(mk).collect(), many)
                },
                _ => {
                    let mk = |v: &Vec<f64>| u::normal::Normal::new(v[0], v[1]).unwrap();
                    run_conv(mk(p), qs.iter().map(mk).collect(), many)
                },
            }
        };
        let got = match pbt_catch(|| run(many)) {
            Ok(g) => g,
            Err(e) => {
                o.fail("panic", format!("{}: {}", ctx, e));
                continue;
            },
        };
        let d = match got {
            Ok(d) => {
                o.check(closed, "accepted", || format!("{}: accepted, though the sum is of another family", ctx));
                d
            },
            Err(e) => {
                o.check(!closed, "refused", || format!("{}: refused ({})", ctx, e));
                continue;
            },
        };
        if !closed {
            continue;
        }
        let k = qs.len() as f64;
        type L = fn(&[f64]) -> Law;
        let (ps, law, mean, mv): (Vec<f64>, L, bool, (f64, f64)) = match name {
            "bernoulli" => (vec![1.0 + k, p[0]], laws::binomial, true, ((1.0 + k) * p[0], (1.0 + k) * p[0] * (1.0 - p[0]))),
            "binomial" => {
                let n = p[0] + sum(0);
                (vec![n, p[1]], laws::binomial, true, (n * p[1], n * p[1] * (1.0 - p[1])))
            },
            "binomial+bernoulli" => {
                let n = p[0] + k;
                (vec![n, p[1]], laws::binomial, true, (n * p[1], n * p[1] * (1.0 - p[1])))
            },
            "cauchy" => (vec![p[0] + sum(0), p[1] + sum(1)], laws::cauchy, false, (0.0, 0.0)),
            "chi_sq" => {
                let n = p[0] + sum(0);
                (vec![n], laws::chi_sq, true, (n, 2.0 * n))
            },
            "gamma" => {
                let a = p[0] + sum(0);
                (vec![a, p[1]], laws::gamma, true, (a / p[1], a / p[1] / p[1]))
            },
            "gamma+exponential" => {
                let a = p[0] + k;
                (vec![a, p[1]], laws::gamma, true, (a / p[1], a / p[1] / p[1]))
            },
            "poisson" => {
                let l = p[0] + sum(0);
                (vec![l], laws::poisson, true, (l, l))
            },
            _ => {
                let (m, s) = (p[0] + sum(0), p[1] + sum(1));
                (vec![m, s], laws::normal, true, (m, s))
            },
        };
        o.note(format!("{} gives {:?}", ctx, ps));
        follows(&mut o, &ctx, d.as_ref(), &law(&ps), mean, mv, &ps);
    }
    o
}

fn conv_params(name: &'static str) -> BoxedStrategy<Vec<f64>> {
    match name {
        "bernoulli" => specs::prb().prop_map(|p| vec![p]).boxed(),
        "binomial" | "binomial+bernoulli" => (specs::cnt(1, 60), specs::prb()).prop_map(|(n, p)| vec![n, p]).boxed(),
        "cauchy" | "normal" => (specs::loc(), specs::scl()).prop_map(|(a, b)| vec![a, b]).boxed(),
        "chi_sq" => specs::cnt(1, 100).prop_map(|k| vec![k]).boxed(),
        "gamma" | "gamma+exponential" => (specs::shp(), specs::scl()).prop_map(|(a, b)| vec![a, b]).boxed(),
        _ => specs::scl().prop_map(|l| vec![l]).boxed(),
    }
}

pub fn props() -> Vec<Prop> {
    let mut c20: Vec<Sub> = families().into_iter().map(|f| {
        let gen = f.gen;
        let f = std::sync::Arc::new(f);
        sub(f.name, 1500, 30_000, move || data(gen, 14), move |c| likelihood_obs(&f, c))
    }).collect();
    c20.push(sub("paired-normal", 1500, 30_000, || {
        let u = prop_oneof![2 => Just(0.0), 1 => -1.0..1.0f64];
        let p = (vec![specs::loc(), specs::loc(), in_units(specs::scl(), 20.0), in_units(specs::scl(), 20.0)], u).prop_map(|(mut p, u)| {
            for (x, e) in p.iter_mut().zip([95.0, 95.0, 190.0, 190.0].iter()) {
                *x *= 10f64.powf(u * e);
            }
            p
        });
        (p, list((-4.0..4.0f64, -4.0..4.0f64).boxed(), 14))
    }, paired_obs));
    for name in ["bernoulli", "poisson", "normal"] {
        c20.push(sub(format!("{}-fit", name), 1500, 30_000, || {
            let x = Union::new(vec![(-3.0..3.0f64).boxed(), Just(0.0).boxed(), Just(2.0).boxed(), Just(-0.1 / 7.0).boxed()]);
            let units = prop_oneof![3 => Just((0, 0.0)), 1 => (-200i32..=200, prop_oneof![Just(0.0), Just(0.0), Just(1e5), Just(-1e6)])];
            (list(x.boxed(), 14), proptest::collection::vec((-3.0..3.0f64, -3.0..1.0f64), 12), units)
        }, move |c| fit_obs(name, c)));
    }
    const INFORMED: [&str; 7] = ["bernoulli", "binomial", "exponential", "lognormal", "pareto", "poisson", "normal"];
    let closed = INFORMED.iter().map(|name| {
        let name = *name;
        let tiny = || Union::new(vec![pbt::gen::logu(1e-15, 0.5), pbt::gen::logu(1e-300, 0.5), pbt::gen::logu(1e-15, 0.5).prop_map(|p| 1.0 - p).boxed()]).boxed();
        let any = || pbt::gen::logu(1e-70, 1e70);
        sub(format!("{}-closed", name), 1000, 20_000, move || match name {
            "bernoulli" => tiny().prop_map(|p| vec![p]).boxed(),
            "binomial" => (specs::cnt(1, 1 << 60), tiny()).prop_map(|(n, p)| vec![n, p]).boxed(),
            "exponential" | "poisson" => any().prop_map(|x| vec![x]).boxed(),
            "pareto" => (any(), any()).prop_map(|(a, b)| vec![a, b]).boxed(),
            _ => (in_units(specs::loc(), 60.0), any()).prop_map(|(a, b)| vec![a, b]).boxed(),
        }, move |p| fisher_closed_obs(name, p))
    });
    let c21 = INFORMED.iter().map(|name| {
        let name = *name;
        sub(name, 400, 8_000, move || match name {
            "bernoulli" => inner_prb().prop_map(|p| vec![p]).boxed(),
            "binomial" => (specs::cnt(1, 300), inner_prb()).prop_map(|(n, p)| vec![n, p]).boxed(),
            "exponential" => specs::scl().prop_map(|x| vec![x]).boxed(),
            "poisson" => pbt::gen::logu(0.05, 500.0).prop_map(|x| vec![x]).boxed(),
            "pareto" => (specs::scl(), pbt::gen::logu(0.2, 40.0)).prop_map(|(a, b)| vec![a, b]).boxed(),
            "lognormal" => (-4.0..4.0f64, pbt::gen::logu(0.01, 4.0)).prop_map(|(a, b)| vec![a, b]).boxed(),
            _ => (specs::loc(), specs::scl()).prop_map(|(a, b)| vec![a, b]).boxed(),
        }, move |p| fisher_obs(name, p))
    }).chain(closed).collect();
    let c22 = ["bernoulli", "binomial", "binomial+bernoulli", "cauchy", "chi_sq", "gamma", "gamma+exponential", "poisson", "normal"].iter().map(|name| {
        let name = *name;
        sub(name, 1200, 30_000, move || {
            let lists = Union::new_weighted(vec![
                (12, proptest::collection::vec(conv_params(name), 1..6).boxed()),
                (1, pbt::gen::sizes(6, 300).prop_flat_map(move |n| proptest::collection::vec(conv_params(name), n)).boxed()),
            ]);
            (conv_params(name), lists, proptest::bool::weighted(0.8), proptest::option::weighted(0.25, (0usize..60, -7.5..-1.0f64)))
        }, move |c| conv_obs(name, c))
    }).collect();
    vec![
        Prop { id: "C20", rule: "at least two data points (fits: a maximiser exists and the data vary)", assumptions: vec![
            "data sets of up to 14 points, now and then up to 20000, inside the support, its ends excluded",
            "the score of a normal is the gradient in its mean and its variance"], subs: c20 },
        Prop { id: "C21", rule: "every case whose reference integrals are resolved", assumptions: vec!["parameter vectors (mu, sigma^2) for the normal and log-normal, (x_m, alpha) for the Pareto", "probabilities strictly between zero and one"], subs: c21 },
        Prop { id: "C22", rule: "every case: at least two distributions", assumptions: vec!["lists of one to five further distributions, now and then up to 300"], subs: c22 },
    ]
}
