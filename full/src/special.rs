//! Named special cases and accessors (C23), gradient scaling (C20), and the derived halves of
//! the traits a user implements (C29).
use crate::{
    api::{guard, Api, Conv, Got, PVec, W},
    specs::{self, Spec},
    uv::behaves,
};
use pbt::{
    proptest::{self, prelude::*},
    sub, Obs, Prop, Sub,
};
use rand::{rngs::StdRng, Rng, SeedableRng};
use rstat::{
    distance::Mahalanobis,
    fitting::Likelihood,
    multivariate::normal::{DiagonalNormalGrad, Grad as MvGrad, IsotropicNormalGrad},
    normal::BvNormalGrad,
    statistics::{MvMoments, Quantiles, UvMoments},
    univariate as u, ContinuousDistribution, Convolution, DiscreteDistribution, Distribution, Multivariate, Probability, Sample, Univariate,
};
use spaces::{
    discrete::{non_negative_integers, NonNegativeIntegers},
    real::{non_negative_reals, reals, NonNegativeReals, Reals},
};

fn same(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) || a == b }

fn near(a: f64, b: f64, rel: f64) -> bool { same(a, b) || (a - b).abs() <= rel * a.abs().max(b.abs()) }

// ------------------------------------------------------------------------------------------
// Gradients
// ------------------------------------------------------------------------------------------
fn scaled(o: &mut Obs, what: &str, sf: f64, before: &[f64], after: &[f64]) {
    o.check(before.len() == after.len() && before.iter().zip(after).all(|(a, b)| near(a * sf, *b, 1e-15)), "scaling", || {
        format!("the {} gradient {:?} scaled by {:?} is {:?}", what, before, sf, after)
    });
}

fn gradients(c: &(Vec<f64>, Vec<f64>, f64)) -> Obs {
    let mut o = Obs::new();
    let (m, s, sf) = c;
    o.nontrivial(*sf != 1.0);
    let g = u::normal::Grad { mu: m[0], Sigma: s[0] } * *sf;
    scaled(&mut o, "univariate normal", *sf, &[m[0], s[0]], &[g.mu, g.Sigma]);
    let g = BvNormalGrad { mu: [m[0], m[1]], Sigma: ([s[0], s[1]], s[2]) } * *sf;
    scaled(&mut o, "bivariate normal", *sf, &[m[0], m[1], s[0], s[1], s[2]], &[g.mu[0], g.mu[1], (g.Sigma.0)[0], (g.Sigma.0)[1], g.Sigma.1]);
    macro_rules! n {
        ($n:literal) => {{
            let mu: [f64; $n] = std::array::from_fn(|i| m[i]);
            let diag: [f64; $n] = std::array::from_fn(|i| s[i]);
            let full: [[f64; $n]; $n] = std::array::from_fn(|i| std::array::from_fn(|j| s[i * $n + j]));
            let g: IsotropicNormalGrad<$n> = IsotropicNormalGrad { mu, Sigma: s[0] } * *sf;
            scaled(&mut o, "isotropic normal", *sf, &[&mu[..], &[s[0]]].concat(), &[&g.mu[..], &[g.Sigma]].concat());
            let g: DiagonalNormalGrad<$n> = DiagonalNormalGrad { mu, Sigma: diag } * *sf;
            scaled(&mut o, "diagonal normal", *sf, &[&mu[..], &diag[..]].concat(), &[&g.mu[..], &g.Sigma[..]].concat());
            let g: MvGrad<$n> = MvGrad { mu, Sigma: full } * *sf;
            scaled(&mut o, "multivariate normal", *sf, &[&mu[..], &full.concat()[..]].concat(), &[&g.mu[..], &g.Sigma.concat()[..]].concat());
        }};
    }
    n!(1);
    n!(2);
    n!(3);
    n!(4);
    o
}

// ------------------------------------------------------------------------------------------
// Named special cases
// ------------------------------------------------------------------------------------------
fn named() -> Vec<(&'static str, Box<dyn Api>, &'static str, Vec<f64>)> {
    macro_rules! d {
        ($t:ty) => { Box::new(W(<$t>::default())) as Box<dyn Api> };
    }
    vec![
        ("Kumaraswamy::default", d!(u::kumaraswamy::Kumaraswamy), "kumaraswamy", vec![1.0, 1.0]),
        ("Gumbel::default", d!(u::gumbel::Gumbel), "gumbel", vec![0.0, 1.0]),
        ("InvGamma::default", d!(u::inverse_gamma::InvGamma), "inverse_gamma", vec![1.0, 1.0]),
        ("FoldedNormal::default", d!(u::folded_normal::FoldedNormal), "folded_normal", vec![0.0, 1.0]),
        ("FoldedNormal::standard", Box::new(W(u::folded_normal::FoldedNormal::standard())), "folded_normal", vec![0.0, 1.0]),
        ("Cauchy::default", d!(u::cauchy::Cauchy), "cauchy", vec![0.0, 1.0]),
        ("Frechet::default", d!(u::frechet::Frechet), "frechet", vec![1.0]),
        ("Arcsine::default", d!(u::arcsine::Arcsine), "arcsine", vec![0.0, 1.0]),
        ("Exponential::default", d!(u::exponential::Exponential), "exponential", vec![1.0]),
        ("Gamma::default", d!(u::gamma::Gamma), "gamma", vec![1.0, 1.0]),
        ("Degenerate::default", d!(u::degenerate::Degenerate<f64>), "degenerate", vec![0.0]),
        ("Degenerate::default", d!(u::degenerate::Degenerate<i64>), "degenerate_i", vec![0.0]),
        ("Uniform::default", d!(u::uniform::Uniform<f64>), "uniform", vec![0.0, 1.0]),
        ("Erlang::default", d!(u::erlang::Erlang), "erlang", vec![1.0, 1.0]),
        ("Beta::default", d!(u::beta::Beta), "beta", vec![1.0, 1.0]),
        ("BetaPrime::default", d!(u::beta_prime::BetaPrime), "beta_prime", vec![1.0, 1.0]),
        ("Normal::standard", Box::new(W(u::normal::Normal::standard())), "normal", vec![0.0, 1.0]),
    ]
}

fn spec(name: &str) -> Spec { specs::all().into_iter().find(|s| s.name == name).unwrap() }

fn compare(o: &mut Obs, what: &str, got: &dyn Api, s: &Spec, p: &[f64], t: f64) {
    let want = (s.mk)(p).unwrap();
    let ctx = format!("{} against {}{:?}", what, s.name, p);
    let close = got.params().len() == p.len() && got.params().iter().zip(p).all(|(a, b)| same(*a, *b));
    o.check(close, "special-params", || format!("{}: the parameters are {:?}", ctx, got.params()));
    let xs = [t, t.round(), t.abs(), t.abs().fract(), 1.0, 0.0];
    behaves(o, &ctx, "a named special case", got, want.as_ref(), &xs, if s.caps.contains('S') { Some(t.to_bits()) } else { None });
    o.check(got.ends() == want.ends(), "special-support", || format!("{}: the support differs", ctx));
}

/// A coordinate, a location, two scales.
fn special(c: &(f64, f64, f64, f64)) -> Obs {
    let mut o = Obs::new();
    let (t, a, b, d) = *c;
    o.nontrivial(a != 0.0);
    for (what, got, s, p) in named() {
        compare(&mut o, what, got.as_ref(), &spec(s), &p, t);
    }
    let half = u::folded_normal::FoldedNormal::half_normal(u::folded_normal::Scale(b));
    compare(&mut o, "FoldedNormal::half_normal", &W(half), &spec("folded_normal"), &[0.0, b], t);
    let ln = u::lognormal::LogNormal::from(u::normal::Normal::new(a / 5.0, b / 20.0).unwrap());
    compare(&mut o, "LogNormal from a normal", &W(ln), &spec("lognormal"), &[a / 5.0, b / 20.0], t);
    compare(&mut o, "Degenerate from a location", &W(u::degenerate::Degenerate::<f64>::from(u::degenerate::Loc(a))), &spec("degenerate"), &[a], t);
    // A symmetric triangular law on [a, a + b].
    match u::triangular::Params::symmetric(a, a + b) {
        Ok(q) => {
            let w = ((a + b) - a) / 2.0;
            let v = q.pvec();
            o.check(v.len() == 3 && near(v[0], a, 1e-13) && near(v[1], w, 1e-13) && near(v[2], w, 1e-13), "symmetric", || format!("a symmetric triangular law on [{:?}, {:?}] has the parameters {:?}", a, a + b, v));
            o.check((q.b() - (a + b)).abs() <= 1e-12 * (a.abs() + b) && (q.c() - (a + b / 2.0)).abs() <= 1e-12 * (a.abs() + b), "symmetric", || format!("a symmetric triangular law on [{:?}, {:?}] has its mode at {:?} and ends at {:?}", a, a + b, q.c(), q.b()));
            let d = u::triangular::Triangular::from(q);
            o.check((d.mean() - (a + b / 2.0)).abs() <= 1e-11 * (a.abs() + b), "symmetric", || format!("a symmetric triangular law on [{:?}, {:?}] has the mean {:?}", a, a + b, d.mean()));
        },
        Err(e) => o.fail("symmetric", format!("a symmetric triangular law on [{:?}, {:?}] is refused: {}", a, a + b, e)),
    }
    o.check(u::triangular::Params::symmetric(a + b, a).is_err(), "symmetric", || format!("a symmetric triangular law on [{:?}, {:?}] is accepted", a + b, a));
    // Accessors.
    let mut acc = |what: &str, got: f64, want: f64, scale: f64| {
        o.check((got - want).abs() <= 1e-13 * (scale + want.abs()), "accessor", || format!("{} with parameters {:?}, {:?}, {:?} is {:?}, expected {:?}", what, a, b, d, got, want));
    };
    acc("the end of an arcsine law", u::arcsine::Params::new(a, b).unwrap().b().0, a + b, a.abs());
    let q = u::triangular::Params::new(a, b, d).unwrap();
    acc("the mode of a triangular law", q.c(), a + b, a.abs());
    acc("the end of a triangular law", q.b(), a + b + d, a.abs());
    let cauchy = u::cauchy::Cauchy::new(a, b).unwrap();
    acc("the width at half maximum of a Cauchy law", cauchy.fwhm(), 2.0 * b, 0.0);
    acc("z of a Gumbel law", u::gumbel::Gumbel::new(a, b).unwrap().z(t), (t - a) / b, (t.abs() + a.abs()) / b);
    acc("the precision of a folded normal", u::folded_normal::FoldedNormal::new(a, b).unwrap().precision(), 1.0 / (b * b), 0.0);
    acc("the mean gap of an Erlang law", u::erlang::Erlang::new(2, b).unwrap().mu(), 1.0 / b, 0.0);
    let n = u::normal::Normal::new(a, b).unwrap();
    acc("z of a normal", n.z(t), (t - a) / b.sqrt(), (t.abs() + a.abs()) / b.sqrt());
    acc("the precision of a normal", n.precision(), 1.0 / b, 0.0);
    let q = u::uniform::Params::<f64>::new(a, b).unwrap();
    acc("the lower end of a uniform law", q.lb().0, a, 0.0);
    acc("the width of a uniform law", q.width().0, b, 0.0);
    let w = (b.ceil() as u64).max(1);
    let q = u::uniform::Uniform::<i64>::new(a.round() as i64, w).unwrap();
    acc("the span of an integer uniform law", q.span() as f64, w as f64 + 1.0, 0.0);
    // The density falls to one half of the peak at half the width.
    let (peak, side) = (cauchy.pdf(&a), [a - cauchy.fwhm() / 2.0, a + cauchy.fwhm() / 2.0]);
    for x in side {
        let f = cauchy.pdf(&x);
        o.check((f / peak - 0.5).abs() < 1e-9 * (1.0 + a.abs() / b), "accessor", || format!("a Cauchy density at half its width is {:?} of {:?}", f, peak));
    }
    o.check(u::categorical::Categorical::<4>::n_categories() == 4 && u::categorical::Categorical::<1>::n_categories() == 1, "accessor", || "the number of categories is wrong".to_string());
    o
}

// ------------------------------------------------------------------------------------------
// What a user's distribution gets from the traits
// ------------------------------------------------------------------------------------------
/// An exponential law that defines the plain half of each pair of methods...
#[derive(Clone, Debug)]
struct Plain(f64);
/// ... and one that defines the other half.
#[derive(Clone, Debug)]
struct Other(f64);

impl From<f64> for Plain {
    fn from(r: f64) -> Plain { Plain(r) }
}
impl From<f64> for Other {
    fn from(r: f64) -> Other { Other(r) }
}

fn drawn<R: Rng + ?Sized>(rate: f64, rng: &mut R) -> f64 { -(1.0 - rng.gen::<f64>()).ln() / rate }

impl Distribution for Plain {
    type Support = NonNegativeReals<f64>;
    type Params = f64;
    fn support(&self) -> NonNegativeReals<f64> { non_negative_reals() }
    fn params(&self) -> f64 { self.0 }
    fn cdf(&self, x: &f64) -> Probability { Probability::new_unchecked(1.0 - (-self.0 * x.max(0.0)).exp()) }
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 { drawn(self.0, rng) }
}
impl Distribution for Other {
    type Support = NonNegativeReals<f64>;
    type Params = f64;
    fn support(&self) -> NonNegativeReals<f64> { non_negative_reals() }
    fn params(&self) -> f64 { self.0 }
    fn log_cdf(&self, x: &f64) -> f64 { (-(-self.0 * x.max(0.0)).exp()).ln_1p() }
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 { drawn(self.0, rng) }
}
impl Univariate for Plain {}
impl Univariate for Other {}
impl ContinuousDistribution for Plain {
    fn pdf(&self, x: &f64) -> f64 { self.0 * (-self.0 * x).exp() }
}
impl ContinuousDistribution for Other {
    fn log_pdf(&self, x: &f64) -> f64 { self.0.ln() - self.0 * x }
}
impl UvMoments for Plain {
    fn mean(&self) -> f64 { 1.0 / self.0 }
    fn variance(&self) -> f64 { 1.0 / self.0 / self.0 }
    fn skewness(&self) -> f64 { 2.0 }
    fn kurtosis(&self) -> f64 { 9.0 + self.0 }
}
impl UvMoments for Other {
    fn mean(&self) -> f64 { 1.0 / self.0 }
    fn standard_deviation(&self) -> f64 { 1.0 / self.0 }
    fn skewness(&self) -> f64 { 2.0 }
    fn excess_kurtosis(&self) -> f64 { 6.0 + self.0 }
}
impl Quantiles for Plain {
    fn quantile(&self, p: Probability) -> f64 { -(1.0 - p.unwrap()).ln() / self.0 }
}
impl Quantiles for Other {
    fn cquantile(&self, p: Probability) -> f64 { -p.unwrap().ln() / self.0 }
}
impl Likelihood for Plain {
    fn likelihood(&self, xs: &[f64]) -> f64 { xs.iter().map(|x| self.pdf(x)).product() }
}
impl Likelihood for Other {
    fn log_likelihood(&self, xs: &[f64]) -> f64 { xs.iter().map(|x| self.log_pdf(x)).sum() }
}
impl Mahalanobis for Plain {
    fn d_mahalanobis(&self, x: &f64) -> f64 { (x - self.mean()).abs() * self.0 }
}
impl Mahalanobis for Other {
    fn d_mahalanobis_squared(&self, x: &f64) -> f64 { ((x - self.mean()) * self.0).powi(2) }
}

/// A discrete law given by its log-mass: geometric on 0, 1, ....
#[derive(Clone, Debug)]
struct Steps(f64);
impl From<f64> for Steps {
    fn from(r: f64) -> Steps { Steps(r) }
}
impl Distribution for Steps {
    type Support = NonNegativeIntegers;
    type Params = f64;
    fn support(&self) -> NonNegativeIntegers { non_negative_integers() }
    fn params(&self) -> f64 { self.0 }
    fn log_cdf(&self, x: &u64) -> f64 { (-(1.0 - self.0).powi(*x as i32 + 1)).ln_1p() }
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> u64 { ((1.0 - rng.gen::<f64>()).ln() / (1.0 - self.0).ln()) as u64 }
}
impl DiscreteDistribution for Steps {
    fn log_pmf(&self, x: &u64) -> f64 { self.0.ln() + *x as f64 * (1.0 - self.0).ln() }
}
#[derive(Clone, Debug)]
struct StepsPlain(f64);
impl From<f64> for StepsPlain {
    fn from(r: f64) -> StepsPlain { StepsPlain(r) }
}
impl Distribution for StepsPlain {
    type Support = NonNegativeIntegers;
    type Params = f64;
    fn support(&self) -> NonNegativeIntegers { non_negative_integers() }
    fn params(&self) -> f64 { self.0 }
    fn cdf(&self, x: &u64) -> Probability { Probability::new_unchecked(1.0 - (1.0 - self.0).powi(*x as i32 + 1)) }
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> u64 { ((1.0 - rng.gen::<f64>()).ln() / (1.0 - self.0).ln()) as u64 }
}
impl DiscreteDistribution for StepsPlain {
    fn pmf(&self, x: &u64) -> Probability { Probability::new_unchecked(self.0 * (1.0 - self.0).powi(*x as i32)) }
}

/// A multivariate law that defines only its mean and covariance.
#[derive(Clone, Debug)]
struct Cov<const N: usize>([[f64; N]; N]);
impl<const N: usize> From<[[f64; N]; N]> for Cov<N> {
    fn from(c: [[f64; N]; N]) -> Cov<N> { Cov(c) }
}
impl<const N: usize> Distribution for Cov<N> {
    type Support = [Reals<f64>; N];
    type Params = [[f64; N]; N];
    fn support(&self) -> [Reals<f64>; N] { [reals(); N] }
    fn params(&self) -> [[f64; N]; N] { self.0 }
    fn cdf(&self, _: &[f64; N]) -> Probability { unimplemented!() }
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> [f64; N] { std::array::from_fn(|_| rng.gen()) }
}
impl<const N: usize> Multivariate<N> for Cov<N> {}
impl<const N: usize> MvMoments<N> for Cov<N> {
    fn mean(&self) -> [f64; N] { [0.0; N] }
    fn covariance(&self) -> [[f64; N]; N] { self.0 }
}

/// A law with a convolution that is refused above a cap, and remembers what was added.
#[derive(Clone, Debug, PartialEq)]
struct Sum(Vec<u64>);
impl From<Vec<u64>> for Sum {
    fn from(v: Vec<u64>) -> Sum { Sum(v) }
}
const REFUSED: u64 = 999;
impl Distribution for Sum {
    type Support = NonNegativeIntegers;
    type Params = Vec<u64>;
    fn support(&self) -> NonNegativeIntegers { non_negative_integers() }
    fn params(&self) -> Vec<u64> { self.0.clone() }
    fn cdf(&self, _: &u64) -> Probability { unimplemented!() }
    fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> u64 { self.0.iter().sum() }
}
impl Convolution for Sum {
    type Output = Sum;
    fn convolve(mut self, mut rv: Sum) -> Result<Sum, failure::Error> {
        if rv.0.contains(&REFUSED) {
            return Err(failure::err_msg("refused"));
        }
        self.0.append(&mut rv.0);
        self.0.sort();
        Ok(self)
    }
}

type UserCase = (f64, f64, f64, Vec<f64>, u64, usize, usize);

/// Where two lists of draws part.
fn parted(got: &[f64], one: &[f64]) -> String {
    match got.iter().zip(one).position(|(a, b)| a != b) {
        Some(i) => format!("draw {} is {:?}, one by one {:?}", i, got[i], one[i]),
        None => format!("{} draws, one by one {}, or the stream is left elsewhere", got.len(), one.len()),
    }
}

/// Counts far beyond those of the other streams: draws, observations and summands.
fn counts(c: &(f64, f64, u64, usize, usize)) -> Obs {
    let mut o = Obs::new();
    let (rate, p, seed, n, k) = (c.0, c.1, c.2, c.3, c.4);
    o.nontrivial(n > 1000);
    o.class(if n > 65536 { "over 65536" } else if n > 4096 { "over 4096" } else { "few" });
    let (a, b, s) = (Plain(rate), Other(rate), Steps(p));
    sampling(&mut o, "a user's continuous law", &a, seed, n, k);
    sampling(&mut o, "a user's discrete law", &s, seed, n, k);
    // Data sets of as many observations.
    let mut r = StdRng::seed_from_u64(seed);
    let data: Vec<f64> = (0..n).map(|_| b.sample(&mut r)).collect();
    let sum: f64 = data.iter().map(|x| rate.ln() - rate * x).sum();
    let size: f64 = 1.0 + data.iter().map(|x| rate.ln().abs() + rate * x).sum::<f64>();
    match guard(|| b.log_likelihood(&data)) {
        Got::Val(v) => o.check((v - sum).abs() <= 1e-12 * size, "likelihood", || format!("rate {:?}, {} observations from seed {}: the log-likelihood is {:?}, expected {:?}", rate, n, seed, v, sum)),
        other => o.fail("likelihood", format!("rate {:?}, {} observations: {:?}", rate, n, other)),
    }
    match guard(|| b.likelihood(&data)) {
        Got::Val(v) => o.check(same(v, sum.exp()) || sum > 709.0 || (v - sum.exp()).abs() <= 1e-11 * size * sum.exp(), "likelihood", || format!("rate {:?}, {} observations from seed {}: the likelihood is {:?}, expected {:?}", rate, n, seed, v, sum.exp())),
        other => o.fail("likelihood", format!("rate {:?}, {} observations: {:?}", rate, n, other)),
    }
    // As many summands (sorting at each step makes this quadratic).
    let m = k.min(3000);
    let list: Vec<Sum> = (0..m).map(|i| Sum(vec![i as u64 % 900])).collect();
    match guard(|| Sum(vec![7]).convolve_many(list)) {
        Got::Val(Ok(s)) => {
            let mut want: Vec<u64> = (0..m).map(|i| i as u64 % 900).chain(Some(7)).collect();
            want.sort();
            o.check(sorted(&s) == want, "many", || format!("a sum of {} summands has {}", m + 1, s.0.len()));
        },
        other => o.fail("many", format!("a sum of {} summands: {}", m + 1, format!("{:?}", other).chars().take(200).collect::<String>())),
    }
    o
}

fn sampling<D>(o: &mut Obs, what: &str, d: &D, seed: u64, n: usize, k: usize)
where
    D: Distribution + Clone,
    Sample<D>: Conv,
{
    let mut r = StdRng::seed_from_u64(seed);
    let one: Vec<f64> = (0..n).map(|_| d.sample(&mut r).to_f()).collect();
    let next: u64 = r.gen();
    let mut r = StdRng::seed_from_u64(seed);
    let bulk: Vec<f64> = d.sample_n(&mut r, n).iter().map(|x| x.to_f()).collect();
    o.check(bulk == one && r.gen::<u64>() == next, "bulk", || format!("{}, {} draws from seed {}: in bulk {}", what, n, seed, parted(&bulk, &one)));
    let mut r = StdRng::seed_from_u64(seed);
    let mut it = d.sample_iter(&mut r);
    let hint = it.size_hint();
    o.check(hint.0 >= n && hint.1.map(|u| u >= n && u == usize::MAX).unwrap_or(true), "size-hint", || format!("{}: an endless iterator promises {:?}", what, hint));
    let mut v: Vec<f64> = (&mut it).take(k.min(n)).map(|x| x.to_f()).collect();
    while v.len() < n {
        match it.next() {
            Some(x) => v.push(x.to_f()),
            None => {
                o.fail("ended", format!("{}: the iterator ended after {} draws", what, v.len()));
                return;
            },
        }
    }
    drop(it);
    o.check(v == one && r.gen::<u64>() == next, "iterator", || format!("{}, {} draws from seed {}: iterated {}", what, n, seed, parted(&v, &one)));
}

fn derived(c: &UserCase) -> Obs {
    let mut o = Obs::new();
    let (rate, x, p, xs, seed, n, k) = c;
    let (rate, x, p) = (*rate, *x / *rate, *p);
    o.nontrivial(x > 0.0 && p > 0.0 && p < 1.0);
    let (a, b) = (Plain(rate), Other(rate));
    let f = 1.0 - (-rate * x).exp();
    let mut eq = |what: &str, got: Got, want: f64, tol: f64| {
        let ok = matches!(got, Got::Val(v) if same(v, want) || (v - want).abs() <= tol * want.abs().max(1e-300));
        o.check(ok, "derived", || format!("rate {:?}, x {:?}, p {:?}: {} is {:?}, expected {:?}", rate, x, p, what, got, want));
    };
    macro_rules! both {
        ($what:expr, $d:ident => $e:expr, $want:expr, $tol:expr) => {{
            let $d = &a;
            eq(concat!($what, " (plain half defined)"), guard(|| $e), $want, $tol);
            let $d = &b;
            eq(concat!($what, " (other half defined)"), guard(|| $e), $want, $tol);
        }};
    }
    let fx = a.cdf(&x).unwrap();
    both!("the distribution function", d => d.cdf(&x).unwrap(), fx, 1e-12 / fx.max(1e-12));
    both!("its complement", d => d.ccdf(&x).unwrap(), 1.0 - f, 1e-12 / (1.0 - f).max(1e-12));
    // 1 - F loses digits far out.
    let lf = (-(-rate * x).exp()).ln_1p();
    both!("its logarithm", d => d.log_cdf(&x), lf, 1e-12 + 1e-14 / (lf.abs() * f));
    if f < 1.0 {
        both!("the logarithm of its complement", d => d.log_ccdf(&x), (1.0 - f).ln(), 1e-9 + 1e-12 / ((1.0 - f).ln().abs() * (1.0 - f)).max(1e-12));
    }
    let dens = rate * (-rate * x).exp();
    both!("the density", d => d.pdf(&x), dens, 1e-11);
    both!("the log-density", d => d.log_pdf(&x), dens.ln(), 1e-10 / dens.ln().abs().max(1e-10));
    both!("the variance", d => d.variance(), 1.0 / (rate * rate), 1e-13);
    both!("the standard deviation", d => d.standard_deviation(), 1.0 / rate, 1e-13);
    both!("the kurtosis", d => d.kurtosis(), 9.0 + rate, 1e-13);
    both!("the excess kurtosis", d => d.excess_kurtosis(), 6.0 + rate, 1e-13);
    let q = |p: f64| -(1.0 - p).ln() / rate;
    let pr = Probability::new_unchecked;
    both!("a quantile", d => d.quantile(pr(p)), q(p), 1e-12);
    let cq = -(1.0 - (1.0 - p)).ln() / rate;
    // 1 - (1 - p) loses digits.
    both!("a complementary quantile", d => d.cquantile(pr(p)), cq, 1e-12 + 1e-15 / p.max(1e-300));
    both!("the lower quartile", d => d.lower_quartile(), q(0.25), 1e-13);
    both!("the median", d => d.median(), q(0.5), 1e-13);
    both!("the upper quartile", d => d.upper_quartile(), q(0.75), 1e-13);
    both!("the interquartile range", d => d.iqr(), q(0.75) - q(0.25), 1e-13);
    both!("the lower fence", d => d.lower_fence(), q(0.25) - 1.5 * (q(0.75) - q(0.25)), 1e-12);
    both!("the upper fence", d => d.upper_fence(), q(0.75) + 1.5 * (q(0.75) - q(0.25)), 1e-12);
    let data: Vec<f64> = xs.iter().map(|t| t / rate).collect();
    let ll: f64 = data.iter().map(|x| rate.ln() - rate * x).sum();
    both!("the likelihood", d => d.likelihood(&data), ll.exp(), 1e-11);
    both!("the log-likelihood", d => d.log_likelihood(&data), ll, 1e-11 / ll.abs().max(1e-11));
    let m = (x - 1.0 / rate).abs() * rate;
    both!("the Mahalanobis distance", d => d.d_mahalanobis(&x), m, 1e-12);
    both!("its square", d => d.d_mahalanobis_squared(&x), m * m, 1e-12);
    let (s, sp) = (Steps(p.clamp(0.01, 0.99)), StepsPlain(p.clamp(0.01, 0.99)));
    let i = (x * rate * 5.0) as u64;
    let mass = s.0 * (1.0 - s.0).powi(i as i32);
    for (w, got) in [("the mass", guard(|| s.pmf(&i).unwrap())), ("the mass", guard(|| sp.pmf(&i).unwrap())), ("the mass", guard(|| s.log_pmf(&i).exp())), ("the mass", guard(|| sp.log_pmf(&i).exp()))] {
        eq(w, got, mass, 1e-9);
    }
    let below = 1.0 - (1.0 - s.0).powi(i as i32 + 1);
    eq("a discrete distribution function", guard(|| s.cdf(&i).unwrap()), below, 1e-12 / below);
    eq("a discrete distribution function", guard(|| sp.cdf(&i).unwrap()), below, 1e-12 / below);
    sampling(&mut o, "a user's continuous law", &a, *seed, *n, *k);
    sampling(&mut o, "a user's continuous law", &b, *seed, *n, *k);
    sampling(&mut o, "a user's discrete law", &s, *seed, *n, *k);
    o.check(a.clone().into_params() == rate && s.clone().into_params() == s.0, "into", || format!("parameters {:?} are not returned", rate));
    {
        use spaces::Space;
        o.check(a.clone().into_support().contains(&x), "into", || format!("the support of a user's law lost {:?}", x));
    }
    o
}

fn second_moments<const N: usize>(o: &mut Obs, v: &[f64]) {
    let f: [[f64; N]; N] = std::array::from_fn(|i| std::array::from_fn(|j| v[i * 4 + j]));
    let c: [[f64; N]; N] = std::array::from_fn(|i| std::array::from_fn(|j| (0..N).map(|k| f[i][k] * f[j][k]).sum::<f64>() + if i == j { 0.01 } else { 0.0 }));
    let d = Cov::<N>(c);
    let var = d.variance();
    let cor = d.correlation();
    o.check(d.dimensionality() == N, "dimension", || format!("{} dimensions are reported as {}", N, d.dimensionality()));
    for i in 0..N {
        o.check(var[i] == c[i][i], "variance", || format!("covariance {:?}: the variances are {:?}", c, var));
        for j in 0..N {
            let want = c[i][j] / (c[i][i] * c[j][j]).sqrt();
            o.check((cor[i][j] - want).abs() <= 1e-12, "correlation", || format!("covariance {:?}: the correlation at {}, {} is {:?}, expected {:?}", c, i, j, cor[i][j], want));
        }
    }
}

fn many(c: &(Vec<u64>, Vec<Vec<u64>>)) -> Obs {
    let mut o = Obs::new();
    let (first, rest) = c;
    o.nontrivial(rest.len() > 1);
    let list: Vec<Sum> = rest.iter().map(|v| Sum(v.clone())).collect();
    let want = list.iter().fold(Ok(Sum(first.clone())), |acc: Result<Sum, failure::Error>, d| acc.and_then(|a| a.convolve(d.clone())));
    let got = guard(|| Sum(first.clone()).convolve_many(list.clone()));
    match (&got, &want) {
        (Got::Val(Ok(g)), Ok(w)) => o.check(sorted(g) == sorted(w), "many", || format!("{:?} convolved with {:?} is {:?}, one by one {:?}", first, rest, g, w)),
        (Got::Val(Err(_)), Err(_)) => o.class("refused"),
        _ => o.fail("many", format!("{:?} convolved with {:?} gives {:?}, one by one {:?}", first, rest, got, want)),
    }
    o
}

fn sorted(s: &Sum) -> Vec<u64> {
    let mut v = s.0.clone();
    v.sort();
    v
}

// Laws on the whole line: every value a trait derives from is given freely.
#[derive(Clone, Debug)]
struct FreeA(Vec<f64>);
#[derive(Clone, Debug)]
struct FreeB(Vec<f64>);

/// The logistic law, its distribution function by the smaller tail.
fn lower_tail(z: f64) -> f64 { if z < 0.0 { z.exp() / (1.0 + z.exp()) } else { 1.0 / (1.0 + (-z).exp()) } }

macro_rules! free {
    ($t:ident) => {
        impl From<Vec<f64>> for $t {
            fn from(v: Vec<f64>) -> $t { $t(v) }
        }
        impl $t {
            fn z(&self, x: f64) -> f64 { (x - self.0[0]) / self.0[1] }
        }
        impl Univariate for $t {}
    };
}
free!(FreeA);
free!(FreeB);
macro_rules! free_law {
    ($t:ident, $($body:tt)*) => {
        impl Distribution for $t {
            type Support = Reals<f64>;
            type Params = Vec<f64>;
            fn support(&self) -> Reals<f64> { reals() }
            fn params(&self) -> Vec<f64> { self.0.clone() }
            $($body)*
            fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
                let p: f64 = rng.gen();
                self.0[0] + self.0[1] * (p / (1.0 - p)).ln()
            }
        }
    };
}
free_law!(FreeA, fn cdf(&self, x: &f64) -> Probability { Probability::new_unchecked(lower_tail(self.z(*x))) });
free_law!(FreeB, fn log_cdf(&self, x: &f64) -> f64 { let z = self.z(*x); if z < 0.0 { z - z.exp().ln_1p() } else { -(-z).exp().ln_1p() } });
impl ContinuousDistribution for FreeA {
    fn pdf(&self, x: &f64) -> f64 { lower_tail(self.z(*x)) * lower_tail(-self.z(*x)) / self.0[1] }
}
impl ContinuousDistribution for FreeB {
    fn log_pdf(&self, x: &f64) -> f64 { let z = self.z(*x).abs(); -z - 2.0 * (-z).exp().ln_1p() - self.0[1].ln() }
}
impl UvMoments for FreeA {
    fn mean(&self) -> f64 { self.0[2] }
    fn variance(&self) -> f64 { self.0[3] * self.0[3] }
    fn skewness(&self) -> f64 { self.0[4] }
    fn kurtosis(&self) -> f64 { self.0[5] }
}
impl UvMoments for FreeB {
    fn mean(&self) -> f64 { self.0[2] }
    fn standard_deviation(&self) -> f64 { self.0[3] }
    fn skewness(&self) -> f64 { self.0[4] }
    fn excess_kurtosis(&self) -> f64 { self.0[5] - 3.0 }
}
impl Quantiles for FreeA {
    fn quantile(&self, p: Probability) -> f64 { let p = p.unwrap(); self.0[0] + self.0[1] * (p / (1.0 - p)).ln() }
}
impl Quantiles for FreeB {
    fn cquantile(&self, p: Probability) -> f64 { let p = p.unwrap(); self.0[0] - self.0[1] * (p / (1.0 - p)).ln() }
}
impl Likelihood for FreeA {
    fn likelihood(&self, xs: &[f64]) -> f64 { xs.iter().map(|x| self.pdf(x)).product() }
}
impl Likelihood for FreeB {
    fn log_likelihood(&self, xs: &[f64]) -> f64 { xs.iter().map(|x| self.log_pdf(x)).sum() }
}
impl Mahalanobis for FreeA {
    fn d_mahalanobis(&self, x: &f64) -> f64 { (x - self.0[2]).abs() / self.0[3] }
}
impl Mahalanobis for FreeB {
    fn d_mahalanobis_squared(&self, x: &f64) -> f64 { ((x - self.0[2]) / self.0[3]).powi(2) }
}

/// Location, scale, mean, deviation, skewness, kurtosis; the argument in scales; a probability;
/// data in scales.
fn free(c: &(Vec<f64>, f64, f64, Vec<f64>)) -> Obs {
    let mut o = Obs::new();
    let (v, t, p, xs) = c;
    let (loc, s, p) = (v[0], v[1], *p);
    let x = loc + s * t;
    let z = (x - loc) / s;
    o.nontrivial(loc != 0.0 && p > 0.0 && p < 1.0);
    o.class(if loc + s * (1f64 / 3.0).ln() < 0.0 { "negative lower quartile" } else { "positive lower quartile" });
    let (a, b) = (FreeA(v.clone()), FreeB(v.clone()));
    let mut eq = |what: &str, got: Got, want: f64, tol: f64| {
        let ok = matches!(got, Got::Val(g) if same(g, want) || (g - want).abs() <= tol);
        o.check(ok, "free", || format!("given {:?}, x {:?}, p {:?}: {} is {:?}, expected {:?}", v, x, p, what, got, want));
    };
    macro_rules! both {
        ($what:expr, $d:ident => $e:expr, $want:expr, $tol:expr) => {{
            let $d = &a;
            eq(concat!($what, " (plain half defined)"), guard(|| $e), $want, $tol);
            let $d = &b;
            eq(concat!($what, " (other half defined)"), guard(|| $e), $want, $tol);
        }};
    }
    let (lo, hi) = (lower_tail(z), lower_tail(-z));
    both!("the distribution function", d => d.cdf(&x).unwrap(), lo, 1e-13 * lo.max(1e-300) * (1.0 + z.abs()));
    both!("its complement", d => d.ccdf(&x).unwrap(), hi, 4e-15 + 1e-13 * hi);
    let ll = if z < 0.0 { z - z.exp().ln_1p() } else { -(-z).exp().ln_1p() };
    // The logarithm of a distribution function near one has only its absolute digits.
    both!("its logarithm", d => d.log_cdf(&x), ll, 4e-15 + 1e-13 * ll.abs());
    if hi > 1e-10 {
        both!("the logarithm of its complement", d => d.log_ccdf(&x), hi.ln(), 1e-14 / hi + 1e-12);
    }
    let dens = lo * hi / s;
    both!("the density", d => d.pdf(&x), dens, 1e-12 * dens * (1.0 + z.abs()));
    both!("the log-density", d => d.log_pdf(&x), (lo.ln() + hi.ln()) - s.ln(), 1e-11 * (1.0 + z.abs() + s.ln().abs()));
    both!("the mean", d => d.mean(), v[2], 0.0);
    both!("the variance", d => d.variance(), v[3] * v[3], 1e-14 * v[3] * v[3]);
    both!("the standard deviation", d => d.standard_deviation(), v[3], 1e-14 * v[3]);
    both!("the skewness", d => d.skewness(), v[4], 0.0);
    both!("the kurtosis", d => d.kurtosis(), v[5], 1e-14 * (3.0 + v[5].abs()));
    both!("the excess kurtosis", d => d.excess_kurtosis(), v[5] - 3.0, 1e-14 * (3.0 + v[5].abs()));
    let q = |p: f64| loc + s * (p / (1.0 - p)).ln();
    let eps = |p: f64| 1e-14 * (loc.abs() + s * (40.0 + 1e-1 / p.min(1.0 - p)));
    let pr = Probability::new_unchecked;
    if p > 0.0 && p < 1.0 {
        both!("a quantile", d => d.quantile(pr(p)), q(p), eps(p));
        both!("a complementary quantile", d => d.cquantile(pr(p)), loc - s * (p / (1.0 - p)).ln(), eps(p));
    } else {
        both!("an extreme quantile", d => d.quantile(pr(p)), if p == 0.0 { f64::NEG_INFINITY } else { f64::INFINITY }, 0.0);
        both!("an extreme complementary quantile", d => d.cquantile(pr(p)), if p == 0.0 { f64::INFINITY } else { f64::NEG_INFINITY }, 0.0);
    }
    let (q1, q3) = (q(0.25), q(0.75));
    let tol = 1e-13 * (loc.abs() + s);
    both!("the lower quartile", d => d.lower_quartile(), q1, tol);
    both!("the median", d => d.median(), loc, tol);
    both!("the upper quartile", d => d.upper_quartile(), q3, tol);
    both!("the interquartile range", d => d.iqr(), q3 - q1, tol);
    both!("the lower fence", d => d.lower_fence(), q1 - 1.5 * (q3 - q1), 4.0 * tol);
    both!("the upper fence", d => d.upper_fence(), q3 + 1.5 * (q3 - q1), 4.0 * tol);
    let data: Vec<f64> = xs.iter().map(|t| loc + s * t).collect();
    let sum: f64 = data.iter().map(|x| b.log_pdf(x)).sum();
    let size: f64 = 1.0 + data.iter().map(|x| b.log_pdf(x).abs()).sum::<f64>();
    both!("the log-likelihood", d => d.log_likelihood(&data), sum, 1e-12 * size);
    both!("the likelihood", d => d.likelihood(&data), sum.exp(), 1e-11 * size * sum.exp());
    let m = (x - v[2]).abs() / v[3];
    both!("the Mahalanobis distance", d => d.d_mahalanobis(&x), m, 1e-13 * m);
    both!("its square", d => d.d_mahalanobis_squared(&x), m * m, 1e-13 * m * m);
    o
}

/// The correlation of a law given by its covariance, in units that differ from one coordinate to
/// the next.
fn units(c: &(Vec<f64>, Vec<f64>)) -> Obs {
    let mut o = Obs::new();
    o.nontrivial(true);
    let (v, u) = c;
    fn go<const N: usize>(o: &mut Obs, v: &[f64], u: &[f64]) {
        let f: [[f64; N]; N] = std::array::from_fn(|i| std::array::from_fn(|j| v[i * 4 + j]));
        let k: [[f64; N]; N] = std::array::from_fn(|i| std::array::from_fn(|j| (0..N).map(|l| f[i][l] * f[j][l]).sum::<f64>() + if i == j { 0.01 } else { 0.0 }));
        let c: [[f64; N]; N] = std::array::from_fn(|i| std::array::from_fn(|j| k[i][j] * 10f64.powf(u[i]) * 10f64.powf(u[j])));
        let d = Cov::<N>(c);
        let (var, cor) = (d.variance(), d.correlation());
        for i in 0..N {
            o.check(var[i] == c[i][i], "variance", || format!("covariance {:?}: the variances are {:?}", c, var));
            for j in 0..N {
                let want = k[i][j] / (k[i][i] * k[j][j]).sqrt();
                o.check((cor[i][j] - want).abs() <= 1e-11, "correlation", || format!("covariance {:?}: the correlation at {}, {} is {:?}, expected {:?}", c, i, j, cor[i][j], want));
            }
        }
    }
    go::<2>(&mut o, v, u);
    go::<3>(&mut o, v, u);
    go::<4>(&mut o, v, u);
    o
}

pub fn props() -> Vec<Prop> {
    let subs: Vec<Sub> = vec![
        sub("derived", 5000, 200_000, || {
            (specs::scl(), prop_oneof![4 => 0.0..8.0f64, 1 => 0.0..600.0f64, 1 => Just(0.0)], prop_oneof![4 => 0.0..=1.0f64, 1 => Just(0.0), 1 => Just(1.0), 1 => Just(0.25)], proptest::collection::vec(0.0..6.0f64, 0..12), any::<u64>(), prop_oneof![60 => 0usize..40, 1 => 40usize..5000], prop_oneof![1 => 0usize..40, 1 => 0usize..3000])
        }, derived),
        sub("counts", 6, 200, || (specs::scl(), 0.01..0.99f64, any::<u64>(), pbt::gen::sizes(1, 200_000), pbt::gen::sizes(1, 200_000)), counts),
        sub("moments", 3000, 100_000, || proptest::collection::vec(-3.0..3.0f64, 16), |v: &Vec<f64>| {
            let mut o = Obs::new();
            o.nontrivial(true);
            second_moments::<1>(&mut o, v);
            second_moments::<2>(&mut o, v);
            second_moments::<3>(&mut o, v);
            second_moments::<4>(&mut o, v);
            o
        }),
        sub("free-values", 5000, 200_000, || {
            let value = || prop_oneof![4 => -20.0..20.0f64, 1 => -1e6..1e6f64, 1 => Just(0.0)];
            let pos = || prop_oneof![3 => pbt::gen::logu(0.05, 20.0), 1 => pbt::gen::logu(1e-6, 1e6)];
            ((value(), pos(), value(), pos(), value(), value()).prop_map(|(a, b, c, d, e, f)| vec![a, b, c, d, e, f]),
             prop_oneof![4 => -6.0..6.0f64, 1 => -300.0..300.0f64, 1 => Just(0.0)],
             prop_oneof![4 => 0.0..=1.0f64, 2 => pbt::gen::logu(1e-12, 0.5), 1 => Just(0.0), 1 => Just(1.0)],
             proptest::collection::vec(-9.0..9.0f64, 0..12))
        }, free),
        sub("moments-units", 1000, 50_000, || (proptest::collection::vec(-3.0..3.0f64, 16), proptest::collection::vec(-60.0..60.0f64, 4)), units),
        sub("convolve-many", 3000, 100_000, || {
            let term = || prop_oneof![8 => 0u64..9, 1 => Just(REFUSED)];
            (proptest::collection::vec(0u64..9, 0..3), proptest::collection::vec(proptest::collection::vec(term(), 0..3), 1..7))
        }, many),
    ];
    vec![
        Prop { id: "C20", rule: "", assumptions: vec![], subs: vec![
            sub("gradient-scaling", 3000, 100_000, || {
                (proptest::collection::vec(-9.0..9.0f64, 4), proptest::collection::vec(-9.0..9.0f64, 16), prop_oneof![3 => -5.0..5.0f64, 1 => Just(0.0), 1 => Just(-1.0), 1 => Just(1.0)])
            }, gradients),
        ] },
        Prop { id: "C23", rule: "", assumptions: vec![], subs: vec![
            sub("special-cases", 500, 20_000, || (-6.0..6.0f64, specs::loc(), specs::scl(), specs::scl()), special),
        ] },
        Prop { id: "C29", rule: "an argument inside the support, a list of at least two", assumptions: vec![
            "user-defined distributions: an exponential law by its plain and by its logarithmic halves, a geometric law both ways, a law given by a covariance matrix, a law with a refusing convolution",
        ], subs },
    ]
}
