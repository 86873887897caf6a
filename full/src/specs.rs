//! The univariate distributions of the crate, how to generate their parameters, how to build
//! them, and the reference law each stands for.
use crate::{
    api::{Api, Draws, Got, Path, W},
    laws::{self, Law},
};
use pbt::{
    gen::{logu, mixed},
    proptest::{self, prelude::*, strategy::Union},
};
use rstat::{univariate as u, Probability};

impl Spec {
    pub fn label(&self) -> String { format!("{}{}", self.name, self.suffix) }
}

pub type Built = Result<Box<dyn Api>, String>;

#[derive(Clone, Copy)]
pub struct Spec {
    pub name: &'static str,
    /// What kind of member of the family this is: "" or "-scaled".
    pub suffix: &'static str,
    pub gen: &'static (dyn Fn() -> BoxedStrategy<Vec<f64>> + Sync),
    pub mk: &'static (dyn Fn(&[f64]) -> Built + Sync),
    pub raw: &'static (dyn Fn(&[f64]) -> Box<dyn Api> + Sync),
    pub law: &'static (dyn Fn(&[f64]) -> Law + Sync),
    /// Constraint on each parameter: 'r' any real, '+' positive, 'n' non-negative, 'p' probability,
    /// 'N' positive integer, 'M' non-negative integer, 'Z' integer, 's' simplex (all of them).
    pub kinds: &'static str,
    /// Methods declared unimplemented by the crate.
    pub gaps: &'static [&'static str],
    pub caps: &'static str,
    /// Accuracy of the median.
    pub med_tol: f64,
    pub bits: bool,
    /// Relative accuracy of the entropy.
    pub h_tol: f64,
}

fn v1(a: BoxedStrategy<f64>) -> BoxedStrategy<Vec<f64>> { a.prop_map(|x| vec![x]).boxed() }

fn v2(a: BoxedStrategy<f64>, b: BoxedStrategy<f64>) -> BoxedStrategy<Vec<f64>> { (a, b).prop_map(|(x, y)| vec![x, y]).boxed() }

fn v3(a: BoxedStrategy<f64>, b: BoxedStrategy<f64>, c: BoxedStrategy<f64>) -> BoxedStrategy<Vec<f64>> {
    (a, b, c).prop_map(|(x, y, z)| vec![x, y, z]).boxed()
}

pub fn loc() -> BoxedStrategy<f64> {
    Union::new_weighted(vec![
        (5, (-20.0..20.0f64).boxed()),
        (1, (logu(20.0, 1e6), any::<bool>()).prop_map(|(x, neg)| if neg { -x } else { x }).boxed()),
        (2, proptest::sample::select(vec![0.0, 1.0, -1.0, 3.0, -2.5, 10.0]).boxed()),
    ])
    .boxed()
}

pub fn scl() -> BoxedStrategy<f64> { mixed(&[1.0, 0.5, 2.0, 3.0, 0.1], logu(0.02, 50.0)) }

pub fn shp() -> BoxedStrategy<f64> { mixed(&[1.0, 0.5, 2.0, 3.0, 4.0, 5.0, 1.5], Union::new_weighted(vec![(5, logu(0.06, 60.0)), (1, logu(60.0, 1e4)), (1, logu(0.01, 0.06))]).boxed()) }

pub fn prb() -> BoxedStrategy<f64> {
    Union::new_weighted(vec![
        (4, (0.001..0.999f64).boxed()),
        (1, logu(1e-9, 0.5)),
        (1, logu(1e-9, 0.5).prop_map(|x| 1.0 - x).boxed()),
        (2, proptest::sample::select(vec![0.25, 0.5, 0.75, 0.125, 0.1, 0.0, 1.0]).boxed()),
    ])
    .boxed()
}

pub fn cnt(lo: u64, hi: u64) -> BoxedStrategy<f64> {
    Union::new_weighted(vec![
        (3, (lo..=hi.min(12)).prop_map(|x| x as f64).boxed()),
        (2, logu(lo.max(1) as f64, hi as f64).prop_map(|x| x.round()).boxed()),
    ])
    .boxed()
}

pub fn simplex(n: usize) -> BoxedStrategy<Vec<f64>> {
    let w = Union::new_weighted(vec![(5, (0.01..1.0f64).boxed()), (1, Just(0.0).boxed()), (1, Just(1.0).boxed()), (1, logu(1e-6, 1.0))]).boxed();
    proptest::collection::vec(w, n)
        .prop_map(|mut v| {
            let s: f64 = v.iter().sum();
            if s == 0.0 {
                v[0] = 1.0;
            } else {
                for x in v.iter_mut() {
                    *x /= s;
                }
            }
            v
        })
        .boxed()
}

fn e2s<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<T, String> { r.map_err(|e| e.to_string()) }

macro_rules! mk {
    ($p:ident, $t:path, $($a:expr),*) => {
        &|$p: &[f64]| e2s(<$t>::new($($a),*)).map(|d| Box::new(W(d)) as Box<dyn Api>)
    };
}

macro_rules! raw {
    ($p:ident, $t:path, $($a:expr),*) => {
        &|$p: &[f64]| Box::new(W(<$t>::new_unchecked($($a),*))) as Box<dyn Api>
    };
}

macro_rules! spec {
    ($name:literal, $t:path, $law:path, $kinds:literal, $caps:literal, [$($gap:literal),*], $gen:expr, |$p:ident| $($a:expr),*) => {
        Spec {
            name: $name, suffix: "", gen: &|| $gen, mk: mk!($p, $t, $($a),*), raw: raw!($p, $t, $($a),*), law: &$law, kinds: $kinds,
            gaps: &[$($gap),*], caps: $caps, med_tol: 1e-8, bits: false, h_tol: 1e-7,
        }
    };
}

macro_rules! cat_spec {
    ($n:literal, $name:literal) => {
        Spec {
            name: $name,
            suffix: "",
            gen: &|| simplex($n),
            mk: &|p| {
                let a: [f64; $n] = p.try_into().unwrap();
                e2s(u::categorical::Categorical::<$n>::new(a)).map(|d| Box::new(W(d)) as Box<dyn Api>)
            },
            raw: &|p| {
                let a: [f64; $n] = p.try_into().unwrap();
                Box::new(W(u::categorical::Categorical::<$n>::new_unchecked(a)))
            },
            law: &laws::categorical, kinds: "s", gaps: &[], caps: "DSO", med_tol: 0.0, bits: false, h_tol: 0.0,
        }
    };
}

/// Kumaraswamy, Weibull and the degenerate law lack `new` or `new_unchecked`; they are built
/// from their parameters.
fn kuma(p: &[f64]) -> Built { e2s(u::kumaraswamy::Params::new(p[0], p[1])).map(|q| Box::new(W(u::kumaraswamy::Kumaraswamy::from(q))) as Box<dyn Api>) }

fn weib(p: &[f64]) -> Built { e2s(u::weibull::Params::new(p[0], p[1])).map(|q| Box::new(W(u::weibull::Weibull::from(q))) as Box<dyn Api>) }

pub fn all() -> Vec<Spec> {
    vec![
        spec!("arcsine", u::arcsine::Arcsine, laws::arcsine, "r+", "CMQOH", ["sample", "quantile"], v2(loc(), scl()), |p| p[0], p[1]),
        Spec { med_tol: 0.02, ..spec!("beta", u::beta::Beta, laws::beta, "++", "CMQOHS", ["quantile"], v2(shp(), shp()), |p| p[0], p[1]) },
        spec!("beta_prime", u::beta_prime::BetaPrime, laws::beta_prime, "++", "CMOH", ["sample"], v2(shp(), shp()), |p| p[0], p[1]),
        spec!("cauchy", u::cauchy::Cauchy, laws::cauchy, "r+", "CQOHS", [], v2(loc(), scl()), |p| p[0], p[1]),
        Spec { med_tol: 0.02, ..spec!("chi", u::chi::Chi, laws::chi, "N", "CMQOH", ["sample", "quantile"], v1(cnt(1, 8000)), |p| p[0] as usize) },
        Spec { med_tol: 0.02, ..spec!("chi_sq", u::chi_sq::ChiSq, laws::chi_sq, "N", "CMQOHS", ["quantile"], v1(cnt(1, 8000)), |p| p[0] as usize) },
        spec!("cosine", u::cosine::Cosine, laws::cosine, "r+", "CMQO", ["sample", "quantile"], v2(loc(), scl()), |p| p[0], p[1]),
        Spec {
            name: "degenerate", suffix: "", gen: &|| v1(loc()), mk: &|p| Ok(Box::new(W(u::degenerate::Degenerate::<f64>::new(p[0])))),
            raw: &|p| Box::new(W(u::degenerate::Degenerate::<f64>::new(p[0]))), law: &laws::degenerate, kinds: "r",
            gaps: &["quantile"], caps: "CMQOHS", med_tol: 0.0, bits: false, h_tol: 1e-12,
        },
        spec!("erlang", u::erlang::Erlang, laws::erlang, "N+", "CMO", ["sample"], v2(cnt(1, 3000), scl()), |p| p[0] as usize, p[1]),
        spec!("exponential", u::exponential::Exponential, laws::exponential, "+", "CMQOHS", [], v1(scl()), |p| p[0]),
        spec!("f_dist", u::f_dist::FDist, laws::f_dist, "NN", "CMOHS", [], v2(cnt(1, 4000), cnt(1, 4000)), |p| p[0] as usize, p[1] as usize),
        spec!("folded_normal", u::folded_normal::FoldedNormal, laws::folded_normal, "r+", "CMOS", ["skewness"], v2(loc(), scl()), |p| p[0], p[1]),
        spec!("frechet", u::frechet::Frechet, laws::frechet, "+", "CMQOHS", ["quantile"], v1(mixed(&[1.0, 0.5, 2.0, 3.0, 4.0, 5.0, 1.5], logu(0.1, 300.0))), |p| p[0]),
        spec!("gamma", u::gamma::Gamma, laws::gamma, "++", "CMOHS", [], v2(shp(), scl()), |p| p[0], p[1]),
        spec!("gev", u::gev::GeneralisedExtremeValue, laws::gev, "r++", "CMQOH", ["sample", "quantile"],
            v3(loc(), scl(), mixed(&[1.0, 0.5, 0.25, 1e-12, 0.2, 2.0], Union::new_weighted(vec![(6, logu(0.02, 2.0)), (1, logu(1e-13, 1e-9)), (1, logu(1e-6, 0.02))]).boxed())), |p| p[0], p[1], p[2]),
        spec!("gpd", u::gpd::GeneralisedPareto, laws::gpd, "r++", "CMQH", ["sample", "quantile"],
            v3(loc(), scl(), mixed(&[1.0, 0.5, 0.25, 0.2, 2.0, 1e-12, 1e-7], Union::new_weighted(vec![(4, logu(0.01, 2.0)), (1, logu(1e-13, 0.01))]).boxed())), |p| p[0], p[1], p[2]),
        spec!("gumbel", u::gumbel::Gumbel, laws::gumbel, "r+", "CMQOH", ["sample", "quantile"], v2(loc(), scl()), |p| p[0], p[1]),
        spec!("inverse_gamma", u::inverse_gamma::InvGamma, laws::inv_gamma, "++", "CMOH", ["sample"], v2(shp(), scl()), |p| p[0], p[1]),
        spec!("inverse_normal", u::inverse_normal::InvNormal, laws::inv_normal, "++", "CMOHS", [],
            (scl(), mixed(&[1.0, 0.5, 2.0], logu(0.005, 2000.0))).prop_map(|(m, r)| vec![m, m * r]).boxed(), |p| p[0], p[1]),
        Spec {
            name: "kumaraswamy", suffix: "", gen: &|| v2(shp(), mixed(&[1.0, 0.5, 2.0, 3.0], logu(0.06, 30.0))), mk: &kuma,
            raw: &|p| Box::new(W(u::kumaraswamy::Kumaraswamy::from(u::kumaraswamy::Params::new_unchecked(p[0], p[1])))),
            law: &laws::kumaraswamy, kinds: "++", gaps: &["quantile", "kurtosis"], caps: "CMQOHS", med_tol: 1e-8, bits: false, h_tol: 1e-7,
        },
        spec!("laplace", u::laplace::Laplace, laws::laplace, "r+", "CMQOHS", ["quantile"], v2(loc(), scl()), |p| p[0], p[1]),
        spec!("levy", u::levy::Levy, laws::levy, "r+", "CMQOH", ["sample", "quantile"], v2(loc(), scl()), |p| p[0], p[1]),
        spec!("logistic", u::logistic::Logistic, laws::logistic, "r+", "CMQOH", ["sample", "quantile"], v2(loc(), scl()), |p| p[0], p[1]),
        Spec { bits: true, ..spec!("lognormal", u::lognormal::LogNormal, laws::lognormal, "r+", "CMQOHS", ["quantile"],
            v2(mixed(&[0.0, 1.0, -1.0, 30.0, -30.0], (-4.0..4.0f64).boxed()), mixed(&[1.0, 0.25, 4.0], logu(0.01, 4.0))), |p| p[0], p[1]) },
        spec!("normal", u::normal::Normal, laws::normal, "r+", "CMQOHS", [], v2(loc(), scl()), |p| p[0], p[1]),
        spec!("pareto", u::pareto::Pareto, laws::pareto, "++", "CMQOHS", ["quantile"],
            v2(scl(), mixed(&[1.0, 0.5, 2.0, 3.0, 4.0, 5.0, 1.5], logu(0.1, 300.0))), |p| p[0], p[1]),
        spec!("rayleigh", u::rayleigh::Rayleigh, laws::rayleigh, "+", "CMQOH", ["sample", "quantile"], v1(scl()), |p| p[0]),
        spec!("student_t", u::student_t::StudentT, laws::student_t, "+", "CMQOHS", ["quantile"],
            v1(mixed(&[1.0, 2.0, 3.0, 4.0, 5.0, 0.5], logu(0.05, 1e6))), |p| p[0]),
        spec!("triangular", u::triangular::Triangular, laws::triangular, "r++", "CMQOHS", ["quantile"], v3(loc(), scl(), scl()), |p| p[0], p[1], p[2]),
        spec!("uniform", u::uniform::Uniform::<f64>, laws::uniform, "r+", "CMQHS", [], v2(loc(), scl()), |p| p[0], p[1]),
        Spec {
            name: "weibull", suffix: "", gen: &|| v2(scl(), mixed(&[1.0, 0.5, 2.0, 3.0], logu(0.1, 300.0))), mk: &weib,
            raw: &|p| Box::new(W(u::weibull::Weibull::from(u::weibull::Params::new_unchecked(p[0], p[1])))),
            law: &laws::weibull, kinds: "++", gaps: &["quantile"], caps: "CMQOHS", med_tol: 1e-8, bits: false, h_tol: 1e-7,
        },
        // Discrete
        spec!("bernoulli", u::bernoulli::Bernoulli, laws::bernoulli, "p", "DMQOHS", ["quantile"], v1(prb()), |p| p[0]),
        spec!("beta_binomial", u::beta_binomial::BetaBinomial, laws::beta_binomial, "M++", "DM", ["sample"],
            v3(cnt(0, 1500), shp(), shp()), |p| p[0] as usize, p[1], p[2]),
        Spec { bits: true, h_tol: 0.5, ..spec!("binomial", u::binomial::Binomial, laws::binomial, "Mp", "DMQOHS", ["quantile"],
            v2(cnt(0, 20000), prb()), |p| p[0] as usize, Probability::new_unchecked(p[1])) },
        cat_spec!(1, "categorical1"),
        cat_spec!(2, "categorical2"),
        cat_spec!(3, "categorical3"),
        cat_spec!(5, "categorical5"),
        cat_spec!(8, "categorical8"),
        cat_spec!(20, "categorical20"),
        cat_spec!(300, "categorical300"),
        Spec {
            name: "degenerate_i", suffix: "", gen: &|| v1((-50i64..50).prop_map(|x| x as f64).boxed()), mk: &|p| Ok(Box::new(W(u::degenerate::Degenerate::<i64>::new(p[0] as i64)))),
            raw: &|p| Box::new(W(u::degenerate::Degenerate::<i64>::new(p[0] as i64))), law: &laws::degenerate_i, kinds: "Z",
            gaps: &["quantile"], caps: "DMQOHS", med_tol: 0.0, bits: false, h_tol: 1e-12,
        },
        Spec { bits: true, ..spec!("geometric", u::geometric::Geometric, laws::geometric, "p", "DMQOHS", ["quantile"],
            v1(mixed(&[0.5, 0.25, 0.75, 0.1, 0.9, 1.0], (0.005..0.995f64).boxed())), |p| p[0]) },
        Spec { med_tol: 0.02, h_tol: 0.5, ..spec!("poisson", u::poisson::Poisson, laws::poisson, "+", "DMQOHS", ["cdf", "quantile"],
            v1(mixed(&[1.0, 2.0, 3.0, 0.5, 10.0, 100.0], Union::new_weighted(vec![(5, logu(0.01, 2e4)), (1, logu(1e-10, 0.01))]).boxed())), |p| p[0]) },
        spec!("uniform_i", u::uniform::Uniform::<i64>, laws::uniform_i, "ZN", "DMQHS", [],
            v2((-50i64..50).prop_map(|x| x as f64).boxed(), cnt(1, 300)), |p| p[0] as i64, p[1] as u64),
    ]
}

/// By which power of the unit of measurement each parameter of a scale family grows.
fn units(name: &str) -> Option<&'static [i32]> {
    Some(match name {
        "arcsine" | "cauchy" | "cosine" | "gumbel" | "laplace" | "levy" | "logistic" | "uniform" | "folded_normal" | "inverse_normal" => &[1, 1],
        "normal" => &[1, 2],
        "rayleigh" => &[1],
        "exponential" => &[-1],
        "erlang" | "gamma" => &[0, -1],
        "gev" | "gpd" => &[1, 1, 0],
        "inverse_gamma" => &[0, 1],
        "pareto" | "weibull" => &[1, 0],
        "triangular" => &[1, 1, 1],
        _ => return None,
    })
}

/// A law in another unit of measurement: as the original, up to powers of two.
struct Rescaled(Box<dyn Api>, f64);

fn gmap(g: Got, f: impl Fn(f64) -> f64) -> Got {
    match g {
        Got::Val(x) => Got::Val(f(x)),
        other => other,
    }
}

impl Api for Rescaled {
    fn cdf(&self, x: f64) -> Got { self.0.cdf(x * self.1) }
    fn ccdf(&self, x: f64) -> Got { self.0.ccdf(x * self.1) }
    fn ln_cdf(&self, x: f64) -> Got { self.0.ln_cdf(x * self.1) }
    fn ln_ccdf(&self, x: f64) -> Got { self.0.ln_ccdf(x * self.1) }
    fn dens(&self, x: f64) -> Got { gmap(self.0.dens(x * self.1), |v| v * self.1) }
    fn ln_dens(&self, x: f64) -> Got { gmap(self.0.ln_dens(x * self.1), |v| v + self.1.ln()) }
    fn contains(&self, x: f64) -> Got<bool> { self.0.contains(x * self.1) }
    fn into_contains(&self, x: f64) -> Got<bool> { self.0.into_contains(x * self.1) }
    fn ends(&self) -> Got<(Option<f64>, Option<f64>)> {
        match self.0.ends() {
            Got::Val((a, b)) => Got::Val((a.map(|v| v / self.1), b.map(|v| v / self.1))),
            other => other,
        }
    }
    fn draw(&self, seed: u64, n: usize, how: Path) -> Got<Draws> {
        match self.0.draw(seed, n, how) {
            Got::Val(mut d) => {
                d.xs.iter_mut().for_each(|x| *x /= self.1);
                Got::Val(d)
            },
            other => other,
        }
    }
    fn params(&self) -> Vec<f64> { self.0.params() }
    fn text(&self) -> Got<String> { self.0.text() }
    fn into_params(&self) -> Vec<f64> { self.0.into_params() }
    fn rebuild(&self) -> Got<Box<dyn Api>> {
        match self.0.rebuild() {
            Got::Val(d) => Got::Val(Box::new(Rescaled(d, self.1))),
            other => other,
        }
    }
    fn dup(&self) -> Box<dyn Api> { Box::new(Rescaled(self.0.dup(), self.1)) }
    fn mean(&self) -> Got { gmap(self.0.mean(), |v| v / self.1) }
    fn variance(&self) -> Got { gmap(self.0.variance(), |v| v / self.1 / self.1) }
    fn sd(&self) -> Got { gmap(self.0.sd(), |v| v / self.1) }
    fn skewness(&self) -> Got { self.0.skewness() }
    fn kurtosis(&self) -> Got { self.0.kurtosis() }
    fn excess(&self) -> Got { self.0.excess() }
    fn quantile(&self, p: f64) -> Got { gmap(self.0.quantile(p), |v| v / self.1) }
    fn cquantile(&self, p: f64) -> Got { gmap(self.0.cquantile(p), |v| v / self.1) }
    fn quartiles(&self) -> [Got; 6] { self.0.quartiles().map(|g| gmap(g, |v| v / self.1)) }
    fn modes(&self) -> Got<Vec<f64>> {
        match self.0.modes() {
            Got::Val(v) => Got::Val(v.into_iter().map(|x| x / self.1).collect()),
            other => other,
        }
    }
    fn entropy(&self) -> Got { gmap(self.0.entropy(), |v| v - self.1.ln()) }
}

/// Scale families in extreme units: their last "parameter" is the exponent of two.
pub fn scaled() -> Vec<Spec> {
    let leak = |s: &Spec| -> Option<Spec> {
        let e = units(s.name)?;
        let s = *s;
        let split = move |p: &[f64]| -> (Vec<f64>, f64) {
            let u = 2f64.powi(p[e.len()] as i32);
            ((0..e.len()).map(|i| p[i] * u.powi(e[i])).collect(), u)
        };
        Some(Spec {
            suffix: "-scaled",
            gen: Box::leak(Box::new(move || ((s.gen)(), exponent()).prop_map(|(mut p, k)| { p.push(k); p }).boxed())),
            mk: Box::leak(Box::new(move |p: &[f64]| {
                let (q, u) = split(p);
                (s.mk)(&q).map(|d| Box::new(Rescaled(d, u)) as Box<dyn Api>)
            })),
            raw: Box::leak(Box::new(move |p: &[f64]| {
                let (q, u) = split(p);
                Box::new(Rescaled((s.raw)(&q), u)) as Box<dyn Api>
            })),
            law: Box::leak(Box::new(move |p: &[f64]| (s.law)(&p[..e.len()]))),
            ..s
        })
    };
    all().iter().filter_map(leak).collect()
}

fn exponent() -> BoxedStrategy<f64> { Union::new(vec![-100i32..=100, -30..=30, -8..=8].into_iter().map(|r| r.boxed())).prop_map(|k| k as f64).boxed() }

/// A value of the same parameter: nearby, far away, or that of another member of the family.
fn nudge(kind: char, x: f64, other: f64, how: u8) -> f64 {
    match (kind, how) {
        ('p', 0) => 1.0 - x,
        ('p', 1) => x * 0.5,
        ('+', 0) => x * 2.0,
        ('+', 1) => x * (1.0 + 1e-6),
        ('r', 0) => x + 1.0,
        ('r', 1) => -x,
        ('N', 0) | ('M', 0) | ('Z', 0) => x + 1.0,
        ('N', 1) | ('M', 1) => x + 65536.0,
        _ => other,
    }
}

/// Parameters that share something with `p`: most often all but one; `q` is another member of the
/// family.
pub fn sibling(t: &Spec, p: &[f64], q: &[f64], pos: usize, how: u8) -> Vec<f64> {
    let mut r = p.to_vec();
    if t.kinds == "s" {
        if how < 2 { r.rotate_left(1) } else { r = q.to_vec() }
        return r;
    }
    let k = pos % r.len();
    let kind = t.kinds.chars().nth(k).unwrap_or('?');
    let alike: Vec<usize> = (0..r.len()).filter(|i| t.kinds.chars().nth(*i) == Some(kind)).collect();
    if how == 4 && alike.len() > 1 {
        alike.iter().for_each(|i| r[*i] = nudge(kind, p[*i], q[*i], 0));
        return r;
    }
    if how == 5 && alike.len() > 1 {
        r.swap(alike[0], alike[1]);
        return r;
    }
    if how == 6 && alike.len() > 1 {
        // The same total.
        let half = if kind == 'N' || kind == 'M' { (p[alike[0]] / 2.0).floor() } else { p[alike[0]] / 2.0 };
        r[alike[0]] -= half;
        r[alike[1]] += half;
        return r;
    }
    let how = how % 4;
    r[k] = nudge(kind, p[k], q[k], how);
    // The unit of measurement.
    if kind == '?' && how < 2 {
        r[k] = -p[k];
    }
    r
}

/// A law that is asked right after one which differs from it in one parameter only: what it
/// answers must be its own.
struct Second {
    first: Box<dyn Api>,
    law: Box<dyn Api>,
}

/// The law, asked after its sibling, if that is a law.
pub fn second(t: &Spec, p: &[f64], law: Box<dyn Api>) -> Box<dyn Api> {
    let h = p.iter().fold(7u64, |h, x| (h ^ x.to_bits()).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29)) >> 7;
    let q = sibling(t, p, p, h as usize % 16, [0, 0, 1, 4, 5, 6][(h >> 8) as usize % 6]);
    match crate::uv::pbt_catch(|| (t.mk)(&q)) {
        Ok(Ok(first)) if q != p && h % 4 != 0 => Box::new(Second { first, law }),
        _ => law,
    }
}

macro_rules! after {
    ($($f:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {$(
        fn $f(&self, $($a: $t),*) -> $r {
            let _ = self.first.$f($($a),*);
            self.law.$f($($a),*)
        }
    )*};
}

impl Api for Second {
    after! {
        cdf(x: f64) -> Got;
        ccdf(x: f64) -> Got;
        ln_cdf(x: f64) -> Got;
        ln_ccdf(x: f64) -> Got;
        dens(x: f64) -> Got;
        ln_dens(x: f64) -> Got;
        contains(x: f64) -> Got<bool>;
        into_contains(x: f64) -> Got<bool>;
        ends() -> Got<(Option<f64>, Option<f64>)>;
        params() -> Vec<f64>;
        into_params() -> Vec<f64>;
        rebuild() -> Got<Box<dyn Api>>;
        mean() -> Got;
        variance() -> Got;
        sd() -> Got;
        skewness() -> Got;
        kurtosis() -> Got;
        excess() -> Got;
        quantile(p: f64) -> Got;
        cquantile(p: f64) -> Got;
        quartiles() -> [Got; 6];
        modes() -> Got<Vec<f64>>;
        entropy() -> Got;
        text() -> Got<String>;
    }
    fn draw(&self, seed: u64, n: usize, how: Path) -> Got<Draws> {
        let _ = self.first.draw(seed, n.min(3), how);
        self.law.draw(seed, n, how)
    }
    fn dup(&self) -> Box<dyn Api> { Box::new(Second { first: self.first.dup(), law: self.law.dup() }) }
}
