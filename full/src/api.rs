//! A uniform, object-safe view of the univariate distributions of the crate under test. Every
//! call is guarded: a refusal ("quantity undefined"), a declared gap ("not implemented") and
//! any other panic are told apart.
use pbt::panic_text;
use rand::{Rng, RngCore};
use rstat::{
    statistics::{Modes, Quantiles, ShannonEntropy, UvMoments},
    ContinuousDistribution, DiscreteDistribution, Distribution, Probability, Sample,
};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
pub enum Got<T = f64> {
    Val(T),
    /// The crate says the quantity is undefined.
    Undefined,
    /// The crate says the method is not implemented.
    Unimplemented,
    /// The distribution does not offer the quantity, or the argument is not representable.
    Absent,
    Panic(String),
}

impl<T> Got<T> {
    pub fn val(self) -> Option<T> {
        match self {
            Got::Val(x) => Some(x),
            _ => None,
        }
    }

    pub fn absent(&self) -> bool { matches!(self, Got::Absent) }
}

thread_local! {
    static TAPE: std::cell::RefCell<Option<Vec<String>>> = const { std::cell::RefCell::new(None) };
}

fn tape(f: impl FnOnce() -> String) {
    TAPE.with(|t| {
        if let Some(v) = t.borrow_mut().as_mut() {
            v.push(f());
        }
    })
}

/// Writes down every answer that the code under test gives inside.
pub fn taped<T>(f: impl FnOnce() -> T) -> (T, Vec<String>) {
    TAPE.with(|t| *t.borrow_mut() = Some(vec![]));
    let x = f();
    (x, TAPE.with(|t| t.borrow_mut().take()).unwrap_or_default())
}

impl std::fmt::Debug for dyn Api {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self.params()) }
}

pub fn guard<T: std::fmt::Debug>(f: impl FnOnce() -> T) -> Got<T> {
    let got = guard_quietly(f);
    tape(|| format!("{:?}", got));
    got
}

/// As `guard`, for answers that cannot be written down.
pub fn guard_quietly<T>(f: impl FnOnce() -> T) -> Got<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Got::Val(x),
        Err(e) => {
            let s = panic_text(e);
            if s.starts_with("quantity undefined") {
                Got::Undefined
            } else if s.contains("not implemented") || s.contains("not yet implemented") {
                Got::Unimplemented
            } else {
                Got::Panic(s)
            }
        },
    }
}

/// Arguments and samples as doubles.
pub trait Conv: Sized {
    fn from_f(x: f64) -> Option<Self>;
    fn to_f(&self) -> f64;
}

impl Conv for f64 {
    fn from_f(x: f64) -> Option<f64> { Some(x) }

    fn to_f(&self) -> f64 { *self }
}

macro_rules! conv_int {
    ($t:ty, $lo:expr) => {
        impl Conv for $t {
            fn from_f(x: f64) -> Option<$t> {
                if x.fract() == 0.0 && x >= $lo && x.abs() < 9.0e15 { Some(x as $t) } else { None }
            }

            fn to_f(&self) -> f64 { *self as f64 }
        }
    };
}
conv_int!(u64, 0.0);
conv_int!(usize, 0.0);
conv_int!(i64, -9.0e15);

impl Conv for bool {
    fn from_f(x: f64) -> Option<bool> {
        if x == 0.0 {
            Some(false)
        } else if x == 1.0 {
            Some(true)
        } else {
            None
        }
    }

    fn to_f(&self) -> f64 { if *self { 1.0 } else { 0.0 } }
}

/// Samples drawn in several ways from the same stream, and the stream's next word after each.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Draws {
    pub xs: Vec<f64>,
    pub next: u64,
    pub inside: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Path {
    Single,
    Bulk,
    Iter,
    /// Iterator for the first k, then bulk.
    Split(usize),
}

pub trait Api: Send + Sync {
    fn cdf(&self, x: f64) -> Got;
    fn ccdf(&self, x: f64) -> Got;
    fn ln_cdf(&self, x: f64) -> Got;
    fn ln_ccdf(&self, x: f64) -> Got;
    fn dens(&self, x: f64) -> Got;
    fn ln_dens(&self, x: f64) -> Got;
    fn contains(&self, x: f64) -> Got<bool>;
    fn into_contains(&self, x: f64) -> Got<bool>;
    fn ends(&self) -> Got<(Option<f64>, Option<f64>)>;
    fn draw(&self, seed: u64, n: usize, how: Path) -> Got<Draws>;
    fn params(&self) -> Vec<f64>;
    fn into_params(&self) -> Vec<f64>;
    fn rebuild(&self) -> Got<Box<dyn Api>>;
    fn dup(&self) -> Box<dyn Api>;
    fn mean(&self) -> Got { Got::Absent }
    fn variance(&self) -> Got { Got::Absent }
    fn sd(&self) -> Got { Got::Absent }
    fn skewness(&self) -> Got { Got::Absent }
    fn kurtosis(&self) -> Got { Got::Absent }
    fn excess(&self) -> Got { Got::Absent }
    fn quantile(&self, _: f64) -> Got { Got::Absent }
    fn cquantile(&self, _: f64) -> Got { Got::Absent }
    /// lower quartile, median, upper quartile, iqr, lower fence, upper fence
    fn quartiles(&self) -> [Got; 6] { [Got::Absent, Got::Absent, Got::Absent, Got::Absent, Got::Absent, Got::Absent] }
    fn modes(&self) -> Got<Vec<f64>> { Got::Absent }
    fn entropy(&self) -> Got { Got::Absent }
    /// The written form.
    fn text(&self) -> Got<String>;
}

/// Reads the parameters of a distribution back as doubles.
pub trait PVec {
    fn pvec(&self) -> Vec<f64>;
}

pub struct W<D>(pub D);

thread_local! {
    static SCRIPT: std::cell::RefCell<Vec<u64>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// Every stream opened inside starts with these words.
pub fn scripted<T>(words: &[u64], f: impl FnOnce() -> T) -> T {
    SCRIPT.with(|s| *s.borrow_mut() = words.to_vec());
    let out = f();
    SCRIPT.with(|s| s.borrow_mut().clear());
    out
}

/// A random stream: the scripted words, then those of the generator.
pub fn stream(seed: u64) -> crate::prob::Scripted {
    crate::prob::Scripted::new(SCRIPT.with(|s| s.borrow().clone()), seed)
}

pub fn draw_of<D>(d: &D, seed: u64, n: usize, how: Path, contains: impl Fn(&Sample<D>) -> bool) -> Draws
where
    D: Distribution,
    Sample<D>: Conv,
{
    let mut rng = stream(seed);
    let xs: Vec<Sample<D>> = match how {
        Path::Single => (0..n).map(|_| d.sample(&mut rng)).collect(),
        Path::Bulk => d.sample_n(&mut rng, n),
        Path::Iter => d.sample_iter(&mut rng).take(n).collect(),
        Path::Split(k) => {
            let k = k.min(n);
            let mut v: Vec<Sample<D>> = d.sample_iter(&mut rng).take(k).collect();
            v.extend(d.sample_n(&mut rng as &mut dyn RngCore, n - k));
            v
        },
    };
    let inside = xs.iter().all(|x| contains(x));
    Draws { xs: xs.iter().map(|x| x.to_f()).collect(), next: rng.gen(), inside }
}

macro_rules! with_x {
    ($d:ident, $x:ident, $v:ident => $body:expr) => {
        match Conv::from_f($x) {
            None => Got::Absent,
            Some($v) => guard(|| $body),
        }
    };
}

macro_rules! api_impl {
    ($d:ty, $dens:ident, $lndens:ident, $densval:expr, [$($cap:ident),*] $(, <$n:ident>)?) => {
        impl $(<const $n: usize>)? Api for W<$d> {
            fn cdf(&self, x: f64) -> Got { with_x!(self, x, v => self.0.cdf(&v).unwrap()) }
            fn ccdf(&self, x: f64) -> Got { with_x!(self, x, v => self.0.ccdf(&v).unwrap()) }
            fn ln_cdf(&self, x: f64) -> Got { with_x!(self, x, v => self.0.log_cdf(&v)) }
            fn ln_ccdf(&self, x: f64) -> Got { with_x!(self, x, v => self.0.log_ccdf(&v)) }
            fn dens(&self, x: f64) -> Got { with_x!(self, x, v => $densval(self.0.$dens(&v))) }
            fn ln_dens(&self, x: f64) -> Got { with_x!(self, x, v => self.0.$lndens(&v)) }
            fn contains(&self, x: f64) -> Got<bool> {
                use spaces::Space as _;
                with_x!(self, x, v => self.0.support().contains(&v))
            }
            fn into_contains(&self, x: f64) -> Got<bool> {
                use spaces::Space as _;
                with_x!(self, x, v => self.0.clone().into_support().contains(&v))
            }
            fn ends(&self) -> Got<(Option<f64>, Option<f64>)> {
                use spaces::OrderedSpace as _;
                guard(|| {
                    let s = self.0.support();
                    (s.inf().map(|x| x.to_f()), s.sup().map(|x| x.to_f()))
                })
            }
            fn draw(&self, seed: u64, n: usize, how: Path) -> Got<Draws> {
                use spaces::Space as _;
                let s = self.0.support();
                guard(|| draw_of(&self.0, seed, n, how, |x| s.contains(x)))
            }
            fn text(&self) -> Got<String> { guard(|| self.0.to_string()) }
            fn params(&self) -> Vec<f64> { self.0.params().pvec() }
            fn into_params(&self) -> Vec<f64> { self.0.clone().into_params().pvec() }
            fn rebuild(&self) -> Got<Box<dyn Api>> {
                guard(|| Box::new(W(<$d>::from(self.0.params()))) as Box<dyn Api>)
            }
            fn dup(&self) -> Box<dyn Api> { Box::new(W(self.0.clone())) }
            $(api_cap!($cap);)*
        }
    };
}

macro_rules! api_cap {
    (M) => {
        fn mean(&self) -> Got { guard(|| UvMoments::mean(&self.0)) }
        fn variance(&self) -> Got { guard(|| UvMoments::variance(&self.0)) }
        fn sd(&self) -> Got { guard(|| UvMoments::standard_deviation(&self.0)) }
        fn skewness(&self) -> Got { guard(|| UvMoments::skewness(&self.0)) }
        fn kurtosis(&self) -> Got { guard(|| UvMoments::kurtosis(&self.0)) }
        fn excess(&self) -> Got { guard(|| UvMoments::excess_kurtosis(&self.0)) }
    };
    (Q) => {
        fn quantile(&self, p: f64) -> Got { guard(|| Quantiles::quantile(&self.0, Probability::new_unchecked(p))) }
        fn cquantile(&self, p: f64) -> Got { guard(|| Quantiles::cquantile(&self.0, Probability::new_unchecked(p))) }
        fn quartiles(&self) -> [Got; 6] {
            let d = &self.0;
            [
                guard(|| d.lower_quartile()), guard(|| Quantiles::median(d)), guard(|| d.upper_quartile()),
                guard(|| d.iqr()), guard(|| d.lower_fence()), guard(|| d.upper_fence()),
            ]
        }
    };
    (O) => {
        fn modes(&self) -> Got<Vec<f64>> { guard(|| Modes::modes(&self.0).iter().map(|x| x.to_f()).collect()) }
    };
    (H) => {
        fn entropy(&self) -> Got { guard(|| self.0.shannon_entropy()) }
    };
}

macro_rules! cont { ($d:ty, $caps:tt) => { api_impl!($d, pdf, log_pdf, (|v: f64| v), $caps); }; }
macro_rules! disc { ($d:ty, $caps:tt $(, <$n:ident>)?) => { api_impl!($d, pmf, log_pmf, (|v: Probability| v.unwrap()), $caps $(, <$n>)?); }; }

use rstat::univariate as u;

cont!(u::arcsine::Arcsine, [M, Q, O, H]);
cont!(u::beta::Beta, [M, Q, O, H]);
cont!(u::beta_prime::BetaPrime, [M, O, H]);
cont!(u::cauchy::Cauchy, [Q, O, H]);
cont!(u::chi::Chi, [M, Q, O, H]);
cont!(u::chi_sq::ChiSq, [M, Q, O, H]);
cont!(u::cosine::Cosine, [M, Q, O]);
cont!(u::degenerate::Degenerate<f64>, [M, Q, O, H]);
cont!(u::erlang::Erlang, [M, O]);
cont!(u::exponential::Exponential, [M, Q, O, H]);
cont!(u::f_dist::FDist, [M, O, H]);
cont!(u::folded_normal::FoldedNormal, [M, O]);
cont!(u::frechet::Frechet, [M, Q, O, H]);
cont!(u::gamma::Gamma, [M, O, H]);
cont!(u::gev::GeneralisedExtremeValue, [M, Q, O, H]);
cont!(u::gpd::GeneralisedPareto, [M, Q, H]);
cont!(u::gumbel::Gumbel, [M, Q, O, H]);
cont!(u::inverse_gamma::InvGamma, [M, O, H]);
cont!(u::inverse_normal::InvNormal, [M, O, H]);
cont!(u::kumaraswamy::Kumaraswamy, [M, Q, O, H]);
cont!(u::laplace::Laplace, [M, Q, O, H]);
cont!(u::levy::Levy, [M, Q, O, H]);
cont!(u::logistic::Logistic, [M, Q, O, H]);
cont!(u::lognormal::LogNormal, [M, Q, O, H]);
cont!(u::normal::Normal, [M, Q, O, H]);
cont!(u::pareto::Pareto, [M, Q, O, H]);
cont!(u::rayleigh::Rayleigh, [M, Q, O, H]);
cont!(u::student_t::StudentT, [M, Q, O, H]);
cont!(u::triangular::Triangular, [M, Q, O, H]);
cont!(u::uniform::Uniform<f64>, [M, Q, H]);
cont!(u::weibull::Weibull, [M, Q, O, H]);

disc!(u::bernoulli::Bernoulli, [M, Q, O, H]);
disc!(u::beta_binomial::BetaBinomial, [M]);
disc!(u::binomial::Binomial, [M, Q, O, H]);
disc!(u::categorical::Categorical<N>, [O], <N>);
disc!(u::degenerate::Degenerate<i64>, [M, Q, O, H]);
disc!(u::geometric::Geometric, [M, Q, O, H]);
disc!(u::poisson::Poisson, [M, Q, O, H]);
disc!(u::uniform::Uniform<i64>, [M, Q, H]);

macro_rules! pvec {
    ($($t:ty { $($f:tt),* })*) => {$(
        impl PVec for $t {
            fn pvec(&self) -> Vec<f64> { vec![$(pvec!(@ self.$f)),*] }
        }
    )*};
    (@ $e:expr) => { $e.0 as f64 };
}

pvec! {
    u::arcsine::Params { a, w }
    u::beta::Params { alpha, beta }
    u::beta_prime::Params { alpha, beta }
    u::cauchy::Params { x0, gamma }
    u::chi::Params { k }
    u::chi_sq::Params { k }
    u::cosine::Params { mu, s }
    u::erlang::Params { k, lambda }
    u::exponential::Params { lambda }
    u::f_dist::Params { d1, d2 }
    u::folded_normal::Params { mu, sigma }
    u::frechet::Params { alpha }
    u::gamma::Params { alpha, beta }
    u::gev::Params { mu, sigma, zeta }
    u::gpd::Params { mu, sigma, zeta }
    u::gumbel::Params { mu, beta }
    u::inverse_gamma::Params { alpha, beta }
    u::inverse_normal::Params { mu, lambda }
    u::kumaraswamy::Params { a, b }
    u::laplace::Params { mu, b }
    u::levy::Params { mu, c }
    u::logistic::Params { mu, s }
    u::normal::Params { mu, Sigma }
    u::pareto::Params { x_m, alpha }
    u::rayleigh::Params { sigma }
    u::student_t::Params { nu }
    u::triangular::Params { a, a2c, c2b }
    u::uniform::Params<f64> { lb, width }
    u::weibull::Params { lambda, k }
    u::uniform::Params<i64> { lb, width }
    u::poisson::Params { lambda }
}

impl PVec for u::degenerate::Loc<f64> {
    fn pvec(&self) -> Vec<f64> { vec![self.0] }
}
impl PVec for u::degenerate::Loc<i64> {
    fn pvec(&self) -> Vec<f64> { vec![self.0 as f64] }
}
impl PVec for u::bernoulli::Params {
    fn pvec(&self) -> Vec<f64> { vec![self.p.unwrap()] }
}
impl PVec for u::geometric::Params {
    fn pvec(&self) -> Vec<f64> { vec![self.p.unwrap()] }
}
impl PVec for u::binomial::Params {
    fn pvec(&self) -> Vec<f64> { vec![self.n.0 as f64, self.p.unwrap()] }
}
impl PVec for u::beta_binomial::Params {
    fn pvec(&self) -> Vec<f64> { vec![self.n.0 as f64, self.alpha.0, self.beta.0] }
}
impl<const N: usize> PVec for u::categorical::Params<N> {
    fn pvec(&self) -> Vec<f64> { (0..N).map(|i| self.ps[i].clone().into()).collect() }
}
