//! The multivariate distributions (C24, C25, C26 and the multivariate parts of C18, C19, C23).
use crate::{
    api::{guard, Got, Path},
    laws,
    prob::{dkw, dkw_within},
    refmath::lgamma,
    specs,
    uv::pbt_catch,
};
use pbt::{
    proptest::{self, prelude::*, strategy::Union},
    sub, Obs, Prop, Sub,
};
use rand::{rngs::StdRng, Rng, RngCore, SeedableRng};
use rstat::{
    distance::Mahalanobis,
    multivariate::{dirichlet::Dirichlet, lognormal::LogNormal, multinomial::Multinomial},
    normal::{BvNormal, Covariance, DiagonalCovariance, DiagonalNormal, IsotropicNormal, MatrixCovariance, MvNormal, Params, PairedNormal, UvNormal},
    params::{Concentrations, Param},
    statistics::{Modes, MvMoments, ShannonEntropy},
    ContinuousDistribution, DiscreteDistribution, Distribution, Multivariate,
};
use std::convert::TryInto;

type Mat = Vec<Vec<f64>>;

macro_rules! with_dim {
    ($k:expr, $n:ident => $body:expr) => {
        match $k {
            1 => { const $n: usize = 1; $body },
            2 => { const $n: usize = 2; $body },
            3 => { const $n: usize = 3; $body },
            4 => { const $n: usize = 4; $body },
            5 => { const $n: usize = 5; $body },
            6 => { const $n: usize = 6; $body },
            9 => { const $n: usize = 9; $body },
            12 => { const $n: usize = 12; $body },
            20 => { const $n: usize = 20; $body },
            33 => { const $n: usize = 33; $body },
            k => panic!("no dimension {}", k),
        }
    };
}

fn arr<const N: usize>(v: &[f64]) -> [f64; N] { v.try_into().unwrap() }

fn arr2<const N: usize>(m: &Mat) -> [[f64; N]; N] {
    let mut out = [[0.0; N]; N];
    for i in 0..N {
        for j in 0..N {
            out[i][j] = m[i][j];
        }
    }
    out
}

fn rows<const N: usize>(m: [[f64; N]; N]) -> Mat { m.iter().map(|r| r.to_vec()).collect() }

fn same(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) || a == b }

fn all_same(a: &[f64], b: &[f64]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(*x, *y)) }

fn near(a: f64, b: f64, tol: f64) -> bool { a == b || (a - b).abs() <= tol }

// ------------------------------------------------------------------------------------------
// A uniform view
// ------------------------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
pub struct MvDraws {
    pub xs: Vec<Vec<f64>>,
    next: u64,
    inside: bool,
}

impl std::fmt::Debug for dyn MvApi {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self.params()) }
}

pub trait MvApi: Send + Sync {
    fn dim(&self) -> usize;
    fn dens(&self, x: &[f64]) -> Got;
    fn ln_dens(&self, x: &[f64]) -> Got;
    fn mean(&self) -> Got<Vec<f64>>;
    fn variance(&self) -> Got<Vec<f64>>;
    fn covariance(&self) -> Got<Mat>;
    fn correlation(&self) -> Got<Mat>;
    fn contains(&self, x: &[f64]) -> Got<bool>;
    fn params(&self) -> Vec<f64>;
    fn into_params(&self) -> Vec<f64>;
    fn draw(&self, seed: u64, n: usize, how: Path) -> Got<MvDraws>;
    fn rebuild(&self) -> Got<Box<dyn MvApi>>;
    fn dup(&self) -> Box<dyn MvApi>;
    fn modes(&self) -> Got<Vec<Vec<f64>>> { Got::Absent }
    fn entropy(&self) -> Got { Got::Absent }
    /// The written form.
    fn text(&self) -> Got<String> { Got::Absent }
    fn d2(&self, _: &[f64]) -> Got { Got::Absent }
    fn d(&self, _: &[f64]) -> Got { Got::Absent }
    /// The quadratic form under another name.
    fn q(&self, _: &[f64]) -> Got { Got::Absent }
}

trait Flat {
    fn flat(&self) -> Vec<f64>;
}
impl<const N: usize> Flat for Params<[f64; N], [[f64; N]; N]> {
    fn flat(&self) -> Vec<f64> { self.mu.0.iter().chain(self.Sigma.0.iter().flatten()).cloned().collect() }
}
impl<const N: usize> Flat for Params<[f64; N], [f64; N]> {
    fn flat(&self) -> Vec<f64> { self.mu.0.iter().chain(self.Sigma.0.iter()).cloned().collect() }
}
impl<const N: usize> Flat for Params<[f64; N], f64> {
    fn flat(&self) -> Vec<f64> { self.mu.0.iter().cloned().chain(Some(self.Sigma.0)).collect() }
}
impl Flat for Params<[f64; 2], ([f64; 2], f64)> {
    fn flat(&self) -> Vec<f64> { vec![self.mu.0[0], self.mu.0[1], (self.Sigma.0).0[0], (self.Sigma.0).0[1], (self.Sigma.0).1] }
}
impl Flat for Params<f64, f64> {
    fn flat(&self) -> Vec<f64> { vec![self.mu.0, self.Sigma.0] }
}
impl<const N: usize> Flat for Concentrations<N> {
    fn flat(&self) -> Vec<f64> { self.0.to_vec() }
}
impl<const N: usize> Flat for rstat::multivariate::multinomial::Params<N> {
    fn flat(&self) -> Vec<f64> { Some(self.n.0 as f64).into_iter().chain(self.ps.iter().cloned()).collect() }
}

struct V<D>(D);

macro_rules! mv_caps {
    (O) => {
        fn modes(&self) -> Got<Vec<Vec<f64>>> { guard(|| self.0.modes().iter().map(|m| m.to_vec()).collect()) }
    };
    (H) => {
        fn entropy(&self) -> Got { guard(|| self.0.shannon_entropy()) }
    };
    (D) => {
        fn d2(&self, x: &[f64]) -> Got { guard(|| self.0.d_mahalanobis_squared(&x.try_into().unwrap())) }
        fn d(&self, x: &[f64]) -> Got { guard(|| self.0.d_mahalanobis(&x.try_into().unwrap())) }
    };
    (T) => {
        fn text(&self) -> Got<String> { guard(|| self.0.to_string()) }
    };
    (Z) => {
        fn q(&self, x: &[f64]) -> Got { guard(|| self.0.z(&x.try_into().unwrap())) }
    };
}

macro_rules! mv_impl {
    ($d:ty, $n:expr, [$($cap:ident),*] $(, <$g:ident>)?) => {
        impl $(<const $g: usize>)? MvApi for V<$d> {
            fn dim(&self) -> usize { self.0.dimensionality() }
            fn dens(&self, x: &[f64]) -> Got { guard(|| self.0.pdf(&x.try_into().unwrap())) }
            fn ln_dens(&self, x: &[f64]) -> Got { guard(|| self.0.log_pdf(&x.try_into().unwrap())) }
            fn mean(&self) -> Got<Vec<f64>> { guard(|| MvMoments::mean(&self.0).to_vec()) }
            fn variance(&self) -> Got<Vec<f64>> { guard(|| MvMoments::variance(&self.0).to_vec()) }
            fn covariance(&self) -> Got<Mat> { guard(|| rows(MvMoments::covariance(&self.0))) }
            fn correlation(&self) -> Got<Mat> { guard(|| rows(MvMoments::correlation(&self.0))) }
            fn contains(&self, x: &[f64]) -> Got<bool> {
                use spaces::Space as _;
                guard(|| self.0.support().iter().zip(x).all(|(s, v)| s.contains(v)) && self.0.clone().into_support().iter().zip(x).all(|(s, v)| s.contains(v)))
            }
            fn params(&self) -> Vec<f64> { self.0.params().flat() }
            fn into_params(&self) -> Vec<f64> { self.0.clone().into_params().flat() }
            fn draw(&self, seed: u64, n: usize, how: Path) -> Got<MvDraws> {
                use spaces::Space as _;
                guard(|| {
                    let mut rng = crate::api::stream(seed);
                    let xs: Vec<[f64; $n]> = match how {
                        Path::Single => (0..n).map(|_| self.0.sample(&mut rng)).collect(),
                        Path::Bulk => self.0.sample_n(&mut rng, n),
                        Path::Iter => self.0.sample_iter(&mut rng).take(n).collect(),
                        Path::Split(k) => {
                            let k = k.min(n);
                            let mut v: Vec<[f64; $n]> = self.0.sample_iter(&mut rng).take(k).collect();
                            v.extend(self.0.sample_n(&mut rng as &mut dyn RngCore, n - k));
                            v
                        },
                    };
                    let s = self.0.support();
                    let inside = xs.iter().all(|x| s.iter().zip(x).all(|(s, v)| s.contains(v)));
                    MvDraws { xs: xs.iter().map(|x| x.to_vec()).collect(), next: rng.gen(), inside }
                })
            }
            fn rebuild(&self) -> Got<Box<dyn MvApi>> { guard(|| Box::new(V(<$d>::from(self.0.params()))) as Box<dyn MvApi>) }
            fn dup(&self) -> Box<dyn MvApi> { Box::new(V(self.0.clone())) }
            $(mv_caps!($cap);)*
        }
    };
}

mv_impl!(MvNormal<N>, N, [O, H, D], <N>);
mv_impl!(DiagonalNormal<N>, N, [O, H, D], <N>);
mv_impl!(IsotropicNormal<N>, N, [O, H, D], <N>);
mv_impl!(PairedNormal, 2, [O, H, Z, T]);
mv_impl!(BvNormal, 2, [O, H, Z, T]);
type LogFull<const N: usize> = LogNormal<N, [[f64; N]; N]>;
type LogDiag<const N: usize> = LogNormal<N, [f64; N]>;
type LogIso<const N: usize> = LogNormal<N, f64>;
mv_impl!(LogFull<N>, N, [], <N>);
mv_impl!(LogDiag<N>, N, [], <N>);
mv_impl!(LogIso<N>, N, [T], <N>);
mv_impl!(Dirichlet<N>, N, [O, T], <N>);

/// The univariate normal, seen as a one-dimensional member.
impl MvApi for V<UvNormal> {
    fn dim(&self) -> usize { 1 }
    fn dens(&self, x: &[f64]) -> Got { guard(|| self.0.pdf(&x[0])) }
    fn ln_dens(&self, x: &[f64]) -> Got { guard(|| self.0.log_pdf(&x[0])) }
    fn mean(&self) -> Got<Vec<f64>> { guard(|| vec![rstat::statistics::UvMoments::mean(&self.0)]) }
    fn variance(&self) -> Got<Vec<f64>> { guard(|| vec![rstat::statistics::UvMoments::variance(&self.0)]) }
    fn covariance(&self) -> Got<Mat> { guard(|| vec![vec![1.0 / self.0.precision()]]) }
    fn correlation(&self) -> Got<Mat> { Got::Absent }
    fn contains(&self, x: &[f64]) -> Got<bool> {
        use spaces::Space as _;
        guard(|| self.0.support().contains(&x[0]))
    }
    fn params(&self) -> Vec<f64> { self.0.params().flat() }
    fn into_params(&self) -> Vec<f64> { self.0.clone().into_params().flat() }
    fn draw(&self, seed: u64, n: usize, _: Path) -> Got<MvDraws> {
        guard(|| {
            let mut rng = crate::api::stream(seed);
            let xs = (0..n).map(|_| vec![self.0.sample(&mut rng)]).collect();
            MvDraws { xs, next: rng.gen(), inside: true }
        })
    }
    fn rebuild(&self) -> Got<Box<dyn MvApi>> { guard(|| Box::new(V(UvNormal::from(self.0.params()))) as Box<dyn MvApi>) }
    fn dup(&self) -> Box<dyn MvApi> { Box::new(V(self.0.clone())) }
    fn modes(&self) -> Got<Vec<Vec<f64>>> { guard(|| self.0.modes().iter().map(|m| vec![*m]).collect()) }
    fn entropy(&self) -> Got { guard(|| self.0.shannon_entropy()) }
    fn q(&self, x: &[f64]) -> Got { guard(|| self.0.z(x[0]).powi(2)) }
    fn text(&self) -> Got<String> { guard(|| self.0.to_string()) }
}

// ------------------------------------------------------------------------------------------
// The reference normal
// ------------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
struct Ref {
    mu: Vec<f64>,
    s: Mat,
    sd: Vec<f64>,
    /// Cholesky factor of the correlation matrix.
    l: Mat,
    /// Smallest eigenvalue of the correlation matrix.
    low: f64,
    cond: f64,
}

/// Eigenvalues of a symmetric matrix (Jacobi).
fn eigenvalues(m: &Mat) -> Vec<f64> {
    let n = m.len();
    let mut a = m.clone();
    for _ in 0..60 {
        let mut off = 0.0;
        for p in 0..n {
            for q in p + 1..n {
                off += a[p][q] * a[p][q];
                if a[p][q] == 0.0 {
                    continue;
                }
                let th = (a[q][q] - a[p][p]) / (2.0 * a[p][q]);
                let t = (if th >= 0.0 { 1.0 } else { -1.0 }) / (th.abs() + (th * th + 1.0).sqrt());
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..n {
                    let (x, y) = (a[k][p], a[k][q]);
                    a[k][p] = c * x - s * y;
                    a[k][q] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (a[p][k], a[q][k]);
                    a[p][k] = c * x - s * y;
                    a[q][k] = s * x + c * y;
                }
            }
        }
        if off < 1e-300 {
            break;
        }
    }
    (0..n).map(|i| a[i][i]).collect()
}

impl Ref {
    fn new(mu: Vec<f64>, s: Mat) -> Ref {
        let n = mu.len();
        let sd: Vec<f64> = (0..n).map(|i| s[i][i].sqrt()).collect();
        let r: Mat = (0..n).map(|i| (0..n).map(|j| if i == j { 1.0 } else { s[i][j] / sd[i] / sd[j] }).collect()).collect();
        let ev = eigenvalues(&r);
        let low = ev.iter().cloned().fold(f64::INFINITY, f64::min);
        let high = ev.iter().cloned().fold(0.0, f64::max);
        let mut l = vec![vec![0.0; n]; n];
        for i in 0..n {
            for j in 0..=i {
                let mut v = r[i][j];
                for k in 0..j {
                    v -= l[i][k] * l[j][k];
                }
                l[i][j] = if i == j { v.max(0.0).sqrt() } else { v / l[j][j] };
            }
        }
        Ref { mu, s, sd, l, low, cond: high / low }
    }

    /// The squared distance and its tolerance.
    fn d2(&self, x: &[f64]) -> (f64, f64) {
        let n = self.mu.len();
        let w: Vec<f64> = (0..n).map(|i| (x[i] - self.mu[i]) / self.sd[i]).collect();
        let mut y = vec![0.0; n];
        for i in 0..n {
            let mut v = w[i];
            for k in 0..i {
                v -= self.l[i][k] * y[k];
            }
            y[i] = v / self.l[i][i];
        }
        let d: f64 = y.iter().map(|v| v * v).sum();
        let w2: f64 = w.iter().map(|v| v * v).sum();
        (d, 1e-14 * (n * n) as f64 * self.cond * w2 / self.low + 1e-13 * d)
    }

    fn ln_det(&self) -> f64 { self.sd.iter().map(|s| 2.0 * s.ln()).sum::<f64>() + (0..self.mu.len()).map(|i| 2.0 * self.l[i][i].ln()).sum::<f64>() }

    fn det_tol(&self) -> f64 { 1e-13 * (self.mu.len() * self.mu.len()) as f64 * self.cond + 1e-12 }

    fn ln_f(&self, x: &[f64]) -> (f64, f64) {
        let (d, t) = self.d2(x);
        let k = self.mu.len() as f64;
        (-0.5 * (d + self.ln_det() + k * (2.0 * std::f64::consts::PI).ln()), t + self.det_tol())
    }

    fn entropy(&self) -> f64 { 0.5 * (self.mu.len() as f64 * (1.0 + (2.0 * std::f64::consts::PI).ln()) + self.ln_det()) }
}

// ------------------------------------------------------------------------------------------
// Generated covariances
// ------------------------------------------------------------------------------------------
/// Dimension, shape of the covariance (0 full, 1 diagonal, 2 isotropic, 3 homogeneous, 4
/// standard), mean, standard deviations, the matrix that correlates the coordinates.
type Gauss = (usize, u8, Vec<f64>, Vec<f64>, Vec<f64>, f64);

const DIMS: usize = 33;

fn dims() -> BoxedStrategy<usize> { Union::new_weighted(vec![(80, (1usize..=6).boxed()), (10, proptest::sample::select(vec![9usize, 12]).boxed()), (1, proptest::sample::select(vec![20usize, DIMS]).boxed())]).boxed() }

fn gauss() -> BoxedStrategy<Gauss> {
    dims().prop_flat_map(|n| (
        Just(n),
        Union::new_weighted(vec![(6, Just(0u8).boxed()), (2, Just(1).boxed()), (2, Just(2).boxed()), (1, Just(3).boxed()), (1, Just(4).boxed())]),
        proptest::collection::vec(specs::loc(), DIMS),
        proptest::collection::vec(specs::scl(), DIMS),
        proptest::collection::vec(Union::new_weighted(vec![(4, (-1.0..1.0f64).boxed()), (1, Just(0.0).boxed()), (1, Just(1.0).boxed())]), n * n),
        Union::new_weighted(vec![(3, pbt::gen::logu(0.01, 2.0)), (1, pbt::gen::logu(1e-5, 0.01))]),
        // The unit of measurement.
        Union::new_weighted(vec![(4, Just(0).boxed()), (1, (-130..130i32).boxed()), (1, (-320..320i32).boxed())]),
    ))
        .prop_map(|(n, shape, mut mu, mut sd, a, ridge, unit)| {
            mu.iter_mut().for_each(|x| *x *= 2f64.powi(unit));
            sd.iter_mut().for_each(|x| *x *= 2f64.powi(unit));
            (n, shape, mu, sd, a, ridge)
        })
        .boxed()
}

fn law_of(g: &Gauss) -> Ref {
    let (n, shape, mu, sd, a, ridge) = g;
    let n = *n;
    let mut mu = mu[..n].to_vec();
    let mut sd = sd[..n].to_vec();
    if *shape == 4 {
        mu = vec![0.0; n];
        sd = vec![1.0; n];
    } else if *shape >= 2 {
        sd = vec![sd[0]; n];
        if *shape == 3 {
            mu = vec![mu[0]; n];
        }
    }
    let mut s = vec![vec![0.0; n]; n];
    let row = |i: usize| &a[i * n..i * n + n];
    let g = |i: usize, j: usize| row(i).iter().zip(row(j)).map(|(x, y)| x * y).sum::<f64>() + if i == j { *ridge } else { 0.0 };
    for i in 0..n {
        s[i][i] = sd[i] * sd[i];
        if *shape == 0 {
            for j in 0..i {
                let c = g(i, j) / (g(i, i) * g(j, j)).sqrt() * sd[i] * sd[j];
                s[i][j] = c;
                s[j][i] = c;
            }
        }
    }
    Ref::new(mu, s)
}

/// The laws of a kind with these parameters, for histories: the dimension, then mean and
/// covariance (normal, log-normal) or concentrations.
pub fn by_kind(kind: &str, p: &[f64]) -> Vec<Member> {
    let n = p[0] as usize;
    match kind {
        "dirichlet" => vec![("new", with_dim!(n, N => ok(Dirichlet::<N>::new(arr(&p[1..1 + n]))))), ("unchecked", with_dim!(n, N => raw(Dirichlet::<N>::new_unchecked(arr(&p[1..1 + n])))))],
        _ => {
            let shape = p[1] as u8;
            let mu = p[2..2 + n].to_vec();
            let s: Mat = (0..n).map(|i| p[2 + n + i * n..2 + n + i * n + n].to_vec()).collect();
            let r = Ref::new(mu, s);
            if kind == "normal" { members_alone(&r, shape) } else { log_members_alone(&r, shape) }
        },
    }
}

fn flat_of(r: &Ref, shape: u8) -> Vec<f64> { [r.mu.len() as f64, shape as f64].into_iter().chain(r.mu.iter().cloned()).chain(r.s.iter().flatten().cloned()).collect() }

/// Kind, and parameters of a few laws that have something in common.
pub type Relatives = (String, Vec<Vec<f64>>);

/// Laws that have something in common.
pub fn relatives() -> BoxedStrategy<Relatives> {
    let normals = (gauss(), proptest::sample::select(vec!["normal", "log-normal"]), proptest::collection::vec(0u8..8, 1..4)).prop_map(|(mut g, kind, how)| {
        g.1 = g.1.min(3);
        let g = if kind == "normal" { g } else { log_scaled(&g) };
        let r = law_of(&g);
        let mut v = vec![flat_of(&r, g.1)];
        v.extend(how.into_iter().map(|h| flat_of(&nearby(&r, h), g.1)));
        (kind.to_string(), v)
    });
    let dirichlets = (alphas(), proptest::collection::vec(0u8..3, 1..4)).prop_map(|(a, how)| {
        let put = |a: &[f64]| Some(a.len() as f64).into_iter().chain(a.iter().cloned()).collect::<Vec<f64>>();
        let mut v = vec![put(&a)];
        v.extend(how.into_iter().map(|h| put(&other_alphas(&a, h))));
        ("dirichlet".to_string(), v)
    });
    Union::new_weighted(vec![(3, normals.boxed()), (1, dirichlets.boxed())]).boxed()
}

type Member = (&'static str, Result<Box<dyn MvApi>, String>);

fn ok<D>(r: Result<D, failure::Error>) -> Result<Box<dyn MvApi>, String>
where
    V<D>: MvApi + 'static,
{
    r.map(|d| Box::new(V(d)) as Box<dyn MvApi>).map_err(|e| e.to_string())
}

fn raw<D>(d: D) -> Result<Box<dyn MvApi>, String>
where
    V<D>: MvApi + 'static,
{
    Ok(Box::new(V(d)))
}

/// A law that is asked right after another of its kind: what it answers must be its own.
struct Second {
    first: Box<dyn MvApi>,
    law: Box<dyn MvApi>,
}

macro_rules! after {
    ($($f:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {$(
        fn $f(&self, $($a: $t),*) -> $r {
            let _ = self.first.$f($($a),*);
            self.law.$f($($a),*)
        }
    )*};
}

impl MvApi for Second {
    after! {
        dens(x: &[f64]) -> Got;
        ln_dens(x: &[f64]) -> Got;
        mean() -> Got<Vec<f64>>;
        variance() -> Got<Vec<f64>>;
        covariance() -> Got<Mat>;
        correlation() -> Got<Mat>;
        contains(x: &[f64]) -> Got<bool>;
        params() -> Vec<f64>;
        into_params() -> Vec<f64>;
        rebuild() -> Got<Box<dyn MvApi>>;
        modes() -> Got<Vec<Vec<f64>>>;
        entropy() -> Got;
        text() -> Got<String>;
        d2(x: &[f64]) -> Got;
        d(x: &[f64]) -> Got;
        q(x: &[f64]) -> Got;
    }
    fn dim(&self) -> usize { self.law.dim() }
    fn draw(&self, seed: u64, n: usize, how: Path) -> Got<MvDraws> {
        let _ = self.first.draw(seed, n.min(3), how);
        self.law.draw(seed, n, how)
    }
    fn dup(&self) -> Box<dyn MvApi> { Box::new(Second { first: self.first.dup(), law: self.law.dup() }) }
}

/// Each law, asked after the same kind of law with other parameters.
fn seconds(laws: Vec<Member>, firsts: Vec<Member>) -> Vec<Member> {
    laws.into_iter()
        .zip(firsts)
        .map(|((how, law), (_, first))| match (law, first) {
            (Ok(law), Ok(first)) => (how, Ok(Box::new(Second { first, law }) as Box<dyn MvApi>)),
            (law, _) => (how, law),
        })
        .collect()
}

/// A normal law that shares the mean, the variances or some of them with this one.
fn neighbour(r: &Ref) -> Ref {
    nearby(r, (r.mu.iter().chain(&r.sd).fold(5u64, |h, x| (h ^ x.to_bits()).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29)) >> 20 & 7) as u8)
}

fn nearby(r: &Ref, how: u8) -> Ref {
    let (mut mu, mut s) = (r.mu.clone(), r.s.clone());
    let n = mu.len();
    match how {
        0 => mu.iter_mut().zip(&r.sd).for_each(|(m, d)| *m += d),
        1 => s.iter_mut().flatten().for_each(|v| *v *= 4.0),
        2 => {
            for i in 1..n {
                s[0][i] = -s[0][i];
                s[i][0] = -s[i][0];
            }
        },
        3 => mu.iter_mut().for_each(|m| *m = -*m),
        4 => {
            for i in 0..n {
                s[n - 1][i] *= 2.0;
                s[i][n - 1] *= 2.0;
            }
        },
        5 => mu[n - 1] += r.sd[n - 1],
        6 => {
            mu.reverse();
            s.reverse();
            s.iter_mut().for_each(|row| row.reverse());
        },
        _ => {
            for i in 0..n {
                for j in 0..n {
                    if i != j {
                        s[i][j] *= 0.5;
                    }
                }
            }
        },
    }
    Ref::new(mu, s)
}

/// Every way of building the law with this mean and covariance.
fn members(r: &Ref, shape: u8) -> Vec<Member> {
    let firsts = members_alone(&neighbour(r), shape);
    seconds(members_alone(r, shape), firsts)
}

fn log_members(r: &Ref, shape: u8) -> Vec<Member> {
    let firsts = log_members_alone(&neighbour(r), shape);
    seconds(log_members_alone(r, shape), firsts)
}

fn members_alone(r: &Ref, shape: u8) -> Vec<Member> {
    let n = r.mu.len();
    let var: Vec<f64> = (0..n).map(|i| r.s[i][i]).collect();
    let mut v: Vec<Member> = vec![];
    with_dim!(n, N => {
        let (mu, s, dg): ([f64; N], [[f64; N]; N], [f64; N]) = (arr(&r.mu), arr2(&r.s), arr(&var));
        v.push(("full", ok(MvNormal::<N>::new(mu, s))));
        v.push(("full, unchecked", raw(MvNormal::<N>::new_unchecked(mu, s))));
        v.push(("full, from its parameters", Params::<[f64; N], [[f64; N]; N]>::multivariate(mu, s).map_err(|e| e.to_string()).and_then(|p| raw(MvNormal::<N>::from(p)))));
        if shape >= 1 {
            v.push(("diagonal", ok(DiagonalNormal::<N>::diagonal(mu, dg))));
            v.push(("diagonal, unchecked", raw(DiagonalNormal::<N>::diagonal_unchecked(mu, dg))));
            v.push(("diagonal, from its parameters", Params::<[f64; N], [f64; N]>::diagonal(mu, dg).map_err(|e| e.to_string()).and_then(|p| raw(DiagonalNormal::<N>::from(p)))));
        }
        if shape >= 2 {
            v.push(("isotropic", ok(IsotropicNormal::<N>::isotropic(mu, dg[0]))));
            v.push(("isotropic, unchecked", raw(IsotropicNormal::<N>::isotropic_unchecked(mu, dg[0]))));
            v.push(("isotropic, from its parameters", Params::<[f64; N], f64>::isotropic(mu, dg[0]).map_err(|e| e.to_string()).and_then(|p| raw(IsotropicNormal::<N>::from(p)))));
        }
        if shape >= 3 {
            v.push(("homogeneous", ok(IsotropicNormal::<N>::homogeneous(mu[0], dg[0]))));
            v.push(("homogeneous, unchecked", raw(IsotropicNormal::<N>::homogeneous_unchecked(mu[0], dg[0]))));
        }
        if shape >= 4 {
            v.push(("standard", ok(IsotropicNormal::<N>::standard())));
            v.push(("standard, unchecked", raw(IsotropicNormal::<N>::standard_unchecked())));
        }
    });
    if n == 2 {
        let (mu, dg) = ([r.mu[0], r.mu[1]], [var[0], var[1]]);
        let rho = r.s[0][1] / (r.sd[0] * r.sd[1]);
        v.push(("bivariate", ok(BvNormal::new(mu, dg, rho))));
        v.push(("bivariate, unchecked", raw(BvNormal::new_unchecked(mu, dg, rho))));
        if shape >= 1 {
            v.push(("bivariate independent", ok(BvNormal::independent(mu, dg))));
            v.push(("bivariate independent, unchecked", raw(BvNormal::independent_unchecked(mu, dg))));
            v.push(("paired", ok(PairedNormal::new(mu, dg))));
            v.push(("paired, unchecked", raw(PairedNormal::new_unchecked(mu, dg))));
        }
        if shape >= 2 {
            v.push(("bivariate isotropic", ok(BvNormal::isotropic(mu, dg[0]))));
            v.push(("bivariate isotropic, unchecked", raw(BvNormal::isotropic_unchecked(mu, dg[0]))));
            v.push(("paired isotropic", ok(PairedNormal::isotropic(mu, dg[0]))));
            v.push(("paired isotropic, unchecked", raw(PairedNormal::isotropic_unchecked(mu, dg[0]))));
        }
        if shape >= 4 {
            v.push(("bivariate standard", raw(BvNormal::standard())));
            v.push(("bivariate default", raw(BvNormal::default())));
            v.push(("paired standard", raw(PairedNormal::standard())));
            v.push(("paired default", raw(PairedNormal::default())));
        }
    }
    if n == 1 {
        v.push(("univariate", ok(UvNormal::new(r.mu[0], var[0]))));
        v.push(("univariate, unchecked", raw(UvNormal::new_unchecked(r.mu[0], var[0]))));
        if shape >= 4 {
            v.push(("univariate standard", raw(UvNormal::standard())));
        }
    }
    v
}

fn log_members_alone(r: &Ref, shape: u8) -> Vec<Member> {
    let n = r.mu.len();
    let var: Vec<f64> = (0..n).map(|i| r.s[i][i]).collect();
    let mut v: Vec<Member> = vec![];
    with_dim!(n, N => {
        let (mu, s, dg): ([f64; N], [[f64; N]; N], [f64; N]) = (arr(&r.mu), arr2(&r.s), arr(&var));
        v.push(("full", ok(LogNormal::<N, _>::new(mu, s))));
        v.push(("full, unchecked", raw(LogNormal::<N, _>::new_unchecked(mu, s))));
        v.push(("full, from the normal", raw(LogNormal::from(MvNormal::<N>::new_unchecked(mu, s)))));
        if shape >= 1 {
            v.push(("diagonal", ok(LogNormal::<N, _>::diagonal(mu, dg))));
            v.push(("diagonal, unchecked", raw(LogNormal::<N, _>::diagonal_unchecked(mu, dg))));
        }
        if shape >= 2 {
            v.push(("isotropic", ok(LogNormal::<N, _>::isotropic(mu, dg[0]))));
            v.push(("isotropic, unchecked", raw(LogNormal::<N, _>::isotropic_unchecked(mu, dg[0]))));
        }
        if shape >= 3 {
            v.push(("homogeneous", ok(LogNormal::<N, _>::homogeneous(mu[0], dg[0]))));
            v.push(("homogeneous, unchecked", raw(LogNormal::<N, _>::homogeneous_unchecked(mu[0], dg[0]))));
        }
        if shape >= 4 {
            v.push(("standard", ok(LogNormal::<N, _>::standard())));
            v.push(("standard, unchecked", raw(LogNormal::<N, _>::standard_unchecked())));
        }
    });
    v
}

fn number(o: &mut Obs, ctx: &str, sig: &str, got: Got, want: f64, tol: f64) {
    match got {
        Got::Absent => {},
        Got::Val(v) => o.check(near(v, want, tol), sig, || format!("{}: {} is {:?}, expected {:?}", ctx, sig, v, want)),
        other => o.fail(sig, format!("{}: {} gives {:?}, expected {:?}", ctx, sig, other, want)),
    }
}

fn vector(o: &mut Obs, ctx: &str, sig: &str, got: Got<Vec<f64>>, want: &[f64], rel: f64) {
    match got {
        Got::Absent => {},
        Got::Val(v) => o.check(v.len() == want.len() && v.iter().zip(want).all(|(a, b)| near(*a, *b, rel * (b.abs() + 1e-300))), sig, || format!("{}: {} is {:?}, expected {:?}", ctx, sig, v, want)),
        other => o.fail(sig, format!("{}: {} gives {:?}, expected {:?}", ctx, sig, other, want)),
    }
}

/// Entry (i, j) may be off by rel times the geometric mean of the diagonal entries.
fn matrix(o: &mut Obs, ctx: &str, sig: &str, got: Got<Mat>, want: &Mat, rel: f64) {
    let n = want.len();
    match got {
        Got::Absent => {},
        Got::Val(m) => {
            for i in 0..n {
                for j in 0..n {
                    let tol = rel * want[i][i].abs().sqrt() * want[j][j].abs().sqrt();
                    o.check(near(m[i][j], want[i][j], tol), sig, || format!("{}: entry ({}, {}) of {} is {:?}, expected {:?}", ctx, i, j, sig, m[i][j], want[i][j]));
                }
            }
        },
        other => o.fail(sig, format!("{}: {} gives {:?}", ctx, sig, other)),
    }
}

/// Compares a density with its logarithm's reference value.
fn density(o: &mut Obs, ctx: &str, got: Got, ln_got: Got, want: f64, tol: f64) {
    let f = want.exp();
    if tol < 0.05 {
        match got {
            Got::Val(v) => o.check(near(v, f, f * tol * 2.0 + 1e-290), "density", || format!("{}: the density is {:?}, expected {:?}", ctx, v, f)),
            other => o.fail("density", format!("{}: the density gives {:?}, expected {:?}", ctx, other, f)),
        }
        match ln_got {
            // The logarithm may be taken of a density that has already underflowed.
            Got::Val(v) => o.check(near(v, want, tol + 1e-12 * want.abs()) || (want < -640.0 && v <= want.max(-700.0) * 0.9) || (want > 640.0 && v >= 640.0), "log-density", || format!("{}: the log-density is {:?}, expected {:?}", ctx, v, want)),
            other => o.fail("log-density", format!("{}: the log-density gives {:?}, expected {:?}", ctx, other, want)),
        }
    }
}

// ------------------------------------------------------------------------------------------
// C24
// ------------------------------------------------------------------------------------------
fn points(r: &Ref, ts: &[Vec<f64>]) -> Vec<Vec<f64>> {
    let n = r.mu.len();
    ts.iter().map(|t| (0..n).map(|i| r.mu[i] + r.sd[i] * (0..=i).map(|k| r.l[i][k] * t[k]).sum::<f64>()).collect()).collect()
}

fn offsets() -> BoxedStrategy<Vec<Vec<f64>>> {
    let t = Union::new_weighted(vec![(5, (-3.0..3.0f64).boxed()), (1, Just(0.0).boxed()), (1, (-30.0..30.0f64).boxed())]);
    proptest::collection::vec(proptest::collection::vec(t, DIMS), 1..4).boxed()
}

fn normal_obs(c: &(Gauss, Vec<Vec<f64>>)) -> Obs {
    let mut o = Obs::new();
    let r = law_of(&c.0);
    let n = r.mu.len();
    o.class(format!("dimension {}", n));
    o.class(["full", "diagonal", "isotropic", "homogeneous", "standard"][(c.0).1 as usize]);
    if !(r.low > 1e-7) {
        o.class("covariance too close to singular");
        return o;
    }
    o.nontrivial(n > 1);
    let mut xs = points(&r, &c.1);
    xs.push(r.mu.clone());
    let (mode_lo, _) = r.ln_f(&r.mu);
    o.note(format!("dimension {}, covariance {:?}, log-density at the mean {:?}", n, r.s, mode_lo));
    for (how, m) in members(&r, (c.0).1) {
        let ctx = format!("{} normal, mean {:?}, covariance {:?}", how, r.mu, r.s);
        let m = match m {
            Ok(m) => m,
            Err(e) => {
                o.fail("refused", format!("{}: refused ({})", ctx, e));
                continue;
            },
        };
        o.check(m.dim() == n, "dimension", || format!("{}: the dimensionality is {}", ctx, m.dim()));
        for x in xs.iter() {
            let cx = format!("{}, at {:?}", ctx, x);
            let (d2, t) = r.d2(x);
            number(&mut o, &cx, "squared distance", m.d2(x), d2, t);
            number(&mut o, &cx, "squared distance", m.q(x), d2, t);
            number(&mut o, &cx, "distance", m.d(x), d2.sqrt(), if d2 > 0.0 { (t / d2.sqrt()).min(t.sqrt()) } else { t.sqrt() });
            let (want, t) = r.ln_f(x);
            density(&mut o, &cx, m.dens(x), m.ln_dens(x), want, t);
            o.check(m.contains(x) == Got::Val(true), "support", || format!("{}: outside the support", cx));
        }
        vector(&mut o, &ctx, "mean", m.mean(), &r.mu, 1e-15);
        vector(&mut o, &ctx, "variance", m.variance(), &(0..n).map(|i| r.s[i][i]).collect::<Vec<f64>>(), 1e-14);
        matrix(&mut o, &ctx, "covariance", m.covariance(), &r.s, 1e-14);
        let cor: Mat = (0..n).map(|i| (0..n).map(|j| if i == j { 1.0 } else { r.s[i][j] / r.sd[i] / r.sd[j] }).collect()).collect();
        matrix(&mut o, &ctx, "correlation", m.correlation(), &cor, 1e-13);
        let h = r.entropy();
        number(&mut o, &ctx, "entropy", m.entropy(), h, r.det_tol() + 1e-13 * (h.abs() + n as f64 * 8.0));
        match m.modes() {
            Got::Val(v) => o.check(v.len() == 1 && all_same(&v[0], &r.mu), "modes", || format!("{}: the modes are {:?}", ctx, v)),
            other => o.fail("modes", format!("{}: {:?}", ctx, other)),
        }
    }
    o
}

/// A symmetric matrix, maybe not positive definite, maybe not a number somewhere.
type Cov = (usize, Vec<f64>, u8, f64);

fn cov_case() -> BoxedStrategy<Cov> {
    (1usize..=4, proptest::collection::vec(Union::new_weighted(vec![(3, (-3.0..3.0f64).boxed()), (3, (0.01..4.0f64).boxed()), (1, Just(0.0).boxed())]), 16), 0u8..10, pbt::gen::any_f64()).boxed()
}

fn cov_obs(c: &Cov) -> Obs {
    let mut o = Obs::new();
    let (n, a, kind, odd) = c;
    let n = *n;
    let mut m = vec![vec![0.0; n]; n];
    for i in 0..n {
        for j in 0..=i {
            let v = match kind {
                // Positive definite by construction, by dominance, or by chance.
                0..=3 => (0..4).map(|k| a[i * 4 + k] * a[j * 4 + k]).sum::<f64>() + if i == j { 0.1 } else { 0.0 },
                4 | 5 => if i == j { a[i * 4].abs() * n as f64 + 3.0 * n as f64 } else { a[i * 4 + j] },
                _ => a[i * 4 + j],
            };
            m[i][j] = v;
            m[j][i] = v;
        }
    }
    let mut symmetric = true;
    if *kind == 8 {
        m[n - 1][n - 1] = *odd;
    }
    if *kind == 9 && n > 1 {
        m[0][n - 1] += 1.0;
        symmetric = false;
    }
    if *kind == 7 {
        m[0][n - 1] = f64::NAN;
        m[n - 1][0] = f64::NAN;
    }
    let nan = m.iter().flatten().any(|x| x.is_nan());
    let finite = m.iter().flatten().all(|x| x.is_finite());
    let negative = (0..n).any(|i| m[i][i] < 0.0);
    let low = if nan || !finite { f64::NAN } else { eigenvalues(&m).into_iter().fold(f64::INFINITY, f64::min) };
    let top = m.iter().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
    let zero = vec![0.0; n];
    let (got, listed, member): (bool, bool, bool) = with_dim!(n, N => {
        let s: [[f64; N]; N] = arr2(&m);
        (
            MatrixCovariance::<N>::matrix(s).is_ok(),
            MatrixCovariance::<N>::constraints().iter().all(|k| k.is_satisfied_by(&s)),
            pbt_catch(|| MvNormal::<N>::new(arr::<N>(&zero), s).is_ok()).unwrap_or(false),
        )
    });
    o.check(got == listed, "constraints", || format!("{:?}: the constructor says {}, the listed constraints say {}", m, got, listed));
    o.check(got == member, "constraints", || format!("{:?}: the covariance is {}, the distribution {}", m, got, member));
    if nan {
        o.class("not a number");
        o.nontrivial(true);
        o.check(!got, "nan-accepted", || format!("{:?} is accepted", m));
    } else if negative {
        o.class("negative variance");
        o.nontrivial(true);
        o.check(!got, "negative-variance-accepted", || format!("{:?} is accepted", m));
    } else if !finite {
        o.class("infinite");
    } else if !symmetric {
        o.class("asymmetric");
        o.nontrivial(true);
        o.check(!got, "asymmetric-accepted", || format!("{:?} is accepted", m));
    } else if low > 1e-9 * top {
        o.class("positive definite");
        o.nontrivial(n > 1);
        o.check(got, "refused", || format!("{:?} is positive definite, but refused", m));
    } else if low < -1e-9 * top {
        o.class("indefinite");
        o.nontrivial(true);
        o.check(!got, "indefinite-accepted", || format!("{:?} is accepted", m));
    } else {
        o.class("singular");
    }
    o
}

/// The smaller covariance types: accepted exactly when every variance is positive.
fn small_cov_obs(c: &(Vec<f64>, f64)) -> Obs {
    let mut o = Obs::new();
    let (v, rho) = c;
    let pos = v.iter().all(|x| *x > 0.0);
    o.class(if pos { "positive variances" } else { "not all variances positive" });
    o.nontrivial(true);
    with_dim!(v.len(), N => {
        let a: [f64; N] = arr(v);
        let zero = [0.0; N];
        let got = [
            ("DiagonalCovariance::diagonal", DiagonalCovariance::<N>::diagonal(a).is_ok()),
            ("the constraints of a diagonal covariance", <DiagonalCovariance<N> as Param>::constraints().iter().all(|k| k.is_satisfied_by(&a))),
            ("DiagonalNormal::diagonal", DiagonalNormal::<N>::diagonal(zero, a).is_ok()),
            ("LogNormal::diagonal", LogNormal::<N, _>::diagonal(zero, a).is_ok()),
        ];
        for (what, g) in got {
            o.check(g == pos, "diagonal", || format!("{} of {:?}: {}", what, a, g));
        }
        let p0 = a[0] > 0.0;
        let got = [
            ("Covariance::isotropic", Covariance::<f64>::isotropic(a[0]).is_ok()),
            ("the constraints of an isotropic covariance", <Covariance<f64> as Param>::constraints().iter().all(|k| k.is_satisfied_by(&a[0]))),
            ("IsotropicNormal::isotropic", IsotropicNormal::<N>::isotropic(zero, a[0]).is_ok()),
            ("IsotropicNormal::homogeneous", IsotropicNormal::<N>::homogeneous(0.0, a[0]).is_ok()),
            ("LogNormal::isotropic", LogNormal::<N, _>::isotropic(zero, a[0]).is_ok()),
            ("UvNormal::new", UvNormal::new(0.0, a[0]).is_ok()),
        ];
        for (what, g) in got {
            o.check(g == p0, "isotropic", || format!("{} of {:?}: {}", what, a[0], g));
        }
        if let Ok(k) = DiagonalCovariance::<N>::diagonal(a) {
            o.check(k.value() == &a && k.into_value() == a, "value", || format!("{:?} is read back differently", a));
        }
        if let Ok(k) = Covariance::<f64>::isotropic(a[0]) {
            o.check(same(*k.value(), a[0]) && same(k.into_value(), a[0]), "value", || format!("{:?} is read back differently", a[0]));
        }
    });
    if v.len() == 2 {
        let a = [v[0], v[1]];
        let want = pos && *rho >= -1.0 && *rho <= 1.0;
        let got = [("Covariance::bivariate", Covariance::<([f64; 2], f64)>::bivariate(a, *rho).is_ok()), ("BvNormal::new", BvNormal::new([0.0; 2], a, *rho).is_ok())];
        for (what, g) in got {
            o.check(g == want, "bivariate", || format!("{} of {:?}, {:?}: {}", what, a, rho, g));
        }
        if let Ok(k) = Covariance::<([f64; 2], f64)>::bivariate(a, *rho) {
            o.check(all_same(&k.0 .0, &a) && same(k.0 .1, *rho), "value", || format!("{:?}, {:?} is read back as {:?}", a, rho, k.0));
        }
        for (what, g) in [("Covariance::paired", rstat::normal::PairedCovariance::paired(a).is_ok()), ("PairedNormal::new", PairedNormal::new([0.0; 2], a).is_ok()), ("BvNormal::independent", BvNormal::independent([0.0; 2], a).is_ok())] {
            o.check(g == pos, "paired", || format!("{} of {:?}: {}", what, a, g));
        }
    }
    o
}

// ------------------------------------------------------------------------------------------
// C25
// ------------------------------------------------------------------------------------------
fn log_scaled(g: &Gauss) -> Gauss {
    // Moments of a log-normal stay finite for moderate parameters only.
    let mut g = g.clone();
    g.2.iter_mut().for_each(|m| *m = (*m / 5.0) % 8.0);
    g.3.iter_mut().for_each(|s| *s = (*s).min(1.0 + (*s).fract()));
    g
}

fn lognormal_obs(c: &(Gauss, Vec<Vec<f64>>)) -> Obs {
    let mut o = Obs::new();
    let g = log_scaled(&c.0);
    let r = law_of(&g);
    let n = r.mu.len();
    o.class(format!("dimension {}", n));
    if !(r.low > 1e-7) {
        o.class("covariance too close to singular");
        return o;
    }
    o.nontrivial(n > 1);
    let ys: Vec<Vec<f64>> = points(&r, &c.1).into_iter().map(|y| y.into_iter().map(|v| v.clamp(-200.0, 200.0)).collect()).collect();
    for (how, m) in log_members(&r, g.1) {
        let ctx = format!("{} log-normal, mean of the logarithm {:?}, covariance of the logarithm {:?}", how, r.mu, r.s);
        let m = match m {
            Ok(m) => m,
            Err(e) => {
                o.fail("refused", format!("{}: refused ({})", ctx, e));
                continue;
            },
        };
        for y in ys.iter() {
            let x: Vec<f64> = y.iter().map(|v| v.exp()).collect();
            let back: Vec<f64> = x.iter().map(|v| v.ln()).collect();
            let cx = format!("{}, at {:?}", ctx, x);
            let (f, t) = r.ln_f(&back);
            let want = f - back.iter().sum::<f64>();
            // An implementation may go through the normal density, which underflows first.
            if f > -640.0 {
                density(&mut o, &cx, m.dens(&x), m.ln_dens(&x), want, t + 1e-13 * back.iter().map(|v| v.abs()).sum::<f64>());
            }
            o.check(m.contains(&x) == Got::Val(true), "support", || format!("{}: outside the support", cx));
            for bad in [0.0, -1.0, -x[0]] {
                let mut z = x.clone();
                z[n - 1] = bad;
                o.check(m.dens(&z) == Got::Val(0.0), "outside", || format!("{}: the density at {:?} is {:?}", ctx, z, m.dens(&z)));
                o.check(m.contains(&z) == Got::Val(false), "support", || format!("{}: {:?} is inside the support", ctx, z));
            }
            if n > 1 {
                // Two negative coordinates do not make a positive one.
                let z: Vec<f64> = x.iter().enumerate().map(|(i, v)| if i < 2 { -v } else { *v }).collect();
                o.check(m.dens(&z) == Got::Val(0.0), "outside", || format!("{}: the density at {:?} is {:?}", ctx, z, m.dens(&z)));
            }
        }
        let mean: Vec<f64> = (0..n).map(|i| (r.mu[i] + r.s[i][i] / 2.0).exp()).collect();
        let cov: Mat = (0..n).map(|i| (0..n).map(|j| mean[i] * mean[j] * r.s[i][j].exp_m1()).collect()).collect();
        vector(&mut o, &ctx, "mean", m.mean(), &mean, 1e-11);
        let rel = 1e-10;
        vector(&mut o, &ctx, "variance", m.variance(), &(0..n).map(|i| cov[i][i]).collect::<Vec<f64>>(), rel);
        matrix(&mut o, &ctx, "covariance", m.covariance(), &cov, rel);
    }
    o
}

fn alphas() -> BoxedStrategy<Vec<f64>> {
    let a = Union::new_weighted(vec![(3, pbt::gen::logu(0.1, 30.0)), (1, Just(1.0).boxed()), (1, Just(2.0).boxed()), (1, Just(0.5).boxed()), (1, pbt::gen::logu(30.0, 500.0)), (1, pbt::gen::logu(0.001, 0.1))]).boxed();
    let b = Union::new_weighted(vec![(3, pbt::gen::logu(1.0, 30.0)), (1, Just(1.0).boxed()), (1, Just(3.0).boxed())]).boxed();
    let c = Just(1.0).boxed();
    dims()
        .prop_flat_map(move |n| Union::new_weighted(vec![(4, proptest::collection::vec(a.clone(), n)), (3, proptest::collection::vec(b.clone(), n)), (1, proptest::collection::vec(c.clone(), n))]))
        .boxed()
}

/// Concentrations that have something in common with these.
fn other_alphas(a: &[f64], how: u8) -> Vec<f64> {
    let (mut b, n) = (a.to_vec(), a.len());
    match how {
        0 => b.rotate_left(1),
        1 => b[n - 1] *= 2.0,
        _ => {
            let d = b[0] / 2.0;
            b[0] -= d;
            b[n - 1] += d;
        },
    }
    b
}

fn dirichlet_of(a: &[f64]) -> Result<Box<dyn MvApi>, String> {
    let of = |a: &[f64]| with_dim!(a.len(), N => ok(Dirichlet::<N>::new(arr(a))));
    let b = other_alphas(a, ((a.iter().sum::<f64>().to_bits() >> 30) % 3) as u8);
    let first = of(&b);
    let mut v = seconds(vec![("", of(a))], vec![("", first)]);
    v.remove(0).1
}

fn dirichlet_obs(c: &(Vec<f64>, Vec<f64>, u8)) -> Obs {
    let mut o = Obs::new();
    let (a, w, edge) = c;
    let n = a.len();
    let a0: f64 = a.iter().sum();
    // A point of the simplex.
    let mut x: Vec<f64> = w[..n].to_vec();
    if *edge < 3 && n > 1 {
        x[*edge as usize % n] = 0.0;
    }
    let s: f64 = x.iter().sum();
    if s == 0.0 {
        x = vec![1.0 / n as f64; n];
    } else {
        x.iter_mut().for_each(|v| *v /= s);
    }
    let ctx = format!("Dirichlet{:?}", a);
    let built: Vec<(&str, Result<Box<dyn MvApi>, String>)> = vec![
        ("new", dirichlet_of(a)),
        ("unchecked", with_dim!(n, N => raw(Dirichlet::<N>::new_unchecked(arr(a))))),
        ("from", with_dim!(n, N => Concentrations::<N>::new(arr(a)).map_err(|e| e.to_string()).and_then(|c| raw(Dirichlet::<N>::from(c))))),
    ];
    o.class(format!("dimension {}", n));
    o.nontrivial(n > 1);
    let zero = (0..n).any(|i| x[i] == 0.0);
    o.class(if zero { "on a face" } else { "interior" });
    for (how, d) in built {
        let d = match d {
            Ok(d) => d,
            Err(e) => {
                o.fail("refused", format!("{} ({}): {}", ctx, how, e));
                continue;
            },
        };
        o.check(d.dim() == n, "dimension", || format!("{}: the dimensionality is {}", ctx, d.dim()));
        let ln_b: f64 = a.iter().map(|v| lgamma(*v)).sum::<f64>() - lgamma(a0);
        let size: f64 = a.iter().map(|v| lgamma(*v).abs()).sum::<f64>() + lgamma(a0).abs() + (0..n).map(|i| if x[i] > 0.0 { ((a[i] - 1.0) * x[i].ln()).abs() } else { 0.0 }).sum::<f64>();
        let (mut inf, mut nul, mut want) = (false, false, -ln_b);
        for i in 0..n {
            if x[i] > 0.0 {
                want += (a[i] - 1.0) * x[i].ln();
            } else {
                inf |= a[i] < 1.0;
                nul |= a[i] > 1.0;
            }
        }
        let at = format!("{} ({}) at {:?}", ctx, how, x);
        o.note(format!("{}: log-density {:?}", at, want));
        if inf && nul {
            o.class("indeterminate");
        } else if inf {
            o.check(d.dens(&x) == Got::Val(f64::INFINITY), "density", || format!("{}: {:?}, expected infinity", at, d.dens(&x)));
        } else if nul {
            o.check(d.dens(&x) == Got::Val(0.0) && d.ln_dens(&x) == Got::Val(f64::NEG_INFINITY), "density", || format!("{}: {:?}, expected zero", at, d.dens(&x)));
        } else {
            density(&mut o, &at, d.dens(&x), d.ln_dens(&x), want, 1e-12 * size + 1e-11);
        }
        o.check(d.contains(&x) == Got::Val(true), "support", || format!("{}: outside the support", at));
        for bad in [-0.25, -1e-9] {
            let mut y = x.clone();
            y[0] = bad;
            if n > 1 {
                y[1] = (y[1] + x[0] - bad).max(0.0);
            }
            o.check(d.dens(&y) == Got::Val(0.0), "outside", || format!("{}: the density at {:?} is {:?}", ctx, y, d.dens(&y)));
            o.check(d.contains(&y) == Got::Val(false), "support", || format!("{}: {:?} is inside the support", ctx, y));
        }
        let mean: Vec<f64> = a.iter().map(|v| v / a0).collect();
        vector(&mut o, &ctx, "mean", d.mean(), &mean, 1e-12);
        let cov: Mat = (0..n)
            .map(|i| (0..n).map(|j| if i == j { a[i] * a.iter().enumerate().filter(|(k, _)| *k != i).map(|(_, v)| v).sum::<f64>() } else { -a[i] * a[j] } / (a0 * a0 * (a0 + 1.0))).collect())
            .collect();
        // a0 - a_i cancels.
        let rel = 1e-11 + (0..n).map(|i| if n > 1 { 1e-15 * a0 / a.iter().enumerate().filter(|(k, _)| *k != i).map(|(_, v)| v).sum::<f64>() } else { 1.0 }).fold(0.0, f64::max);
        if n > 1 {
            vector(&mut o, &ctx, "variance", d.variance(), &(0..n).map(|i| cov[i][i]).collect::<Vec<f64>>(), rel);
            matrix(&mut o, &ctx, "covariance", d.covariance(), &cov, rel);
        } else {
            vector(&mut o, &ctx, "variance", d.variance(), &[0.0], 1e-12);
        }
        // The density is largest at the modes.
        match d.modes() {
            Got::Val(ms) => {
                let interior = a.iter().all(|v| *v >= 1.0) && n > 1;
                let flat = a.iter().all(|v| *v == 1.0);
                let sum = |m: &[f64]| m.iter().sum::<f64>();
                if n == 1 {
                    o.check(ms.iter().all(|m| near(m[0], 1.0, 1e-12)), "modes", || format!("{}: {:?}", ctx, ms));
                } else if !interior {
                    o.check(ms.is_empty(), "modes", || format!("{}: {:?}, but the density is unbounded", ctx, ms));
                } else {
                    o.check(ms.len() == 1 && ms.iter().all(|m| (sum(m) - 1.0).abs() < 1e-9 && m.iter().all(|v| *v >= 0.0)), "modes", || format!("{}: {:?}", ctx, ms));
                    if !flat {
                        let want: Vec<f64> = a.iter().map(|v| (v - 1.0) / a.iter().map(|u| u - 1.0).sum::<f64>()).collect();
                        o.check(ms.iter().all(|m| m.iter().zip(want.iter()).all(|(p, q)| near(*p, *q, 1e-9))), "modes", || format!("{}: {:?}, expected {:?}", ctx, ms, want));
                    }
                }
            },
            other => o.fail("modes", format!("{}: {:?}", ctx, other)),
        }
    }
    o
}

fn compositions(n: usize, k: usize) -> Vec<Vec<usize>> {
    if k == 1 {
        return vec![vec![n]];
    }
    (0..=n).flat_map(|i| compositions(n - i, k - 1).into_iter().map(move |mut v| { v.insert(0, i); v })).collect()
}

fn multinomial_params() -> BoxedStrategy<(f64, Vec<f64>)> {
    Union::new_weighted(vec![(60, (1usize..=5).boxed()), (10, Just(9usize).boxed()), (1, proptest::sample::select(vec![20usize, 33]).boxed())]).prop_flat_map(|k| (Union::new_weighted(vec![(4, specs::cnt(0, 12)), (2, specs::cnt(1, 1500))]), specs::simplex(k))).boxed()
}

fn multinomial_obs(c: &((f64, Vec<f64>), Vec<f64>, f64)) -> Obs {
    let mut o = Obs::new();
    let ((nf, p), w, shift) = c;
    let n = *nf as usize;
    let k = p.len();
    let ctx = format!("Multinomial({}, {:?})", n, p);
    // Counts that sum to n, near the mean or anywhere.
    let mut xs: Vec<usize> = (0..k).map(|i| ((if *shift < 0.7 { p[i] } else { 1.0 / k as f64 }) * nf * w[i]).round().max(0.0) as usize).collect();
    let total: usize = xs.iter().sum();
    if total <= n {
        let i = (shift * 1000.0) as usize % k;
        xs[i] += n - total;
    } else {
        let mut over = total - n;
        for x in xs.iter_mut() {
            let t = (*x).min(over);
            *x -= t;
            over -= t;
        }
    }
    let lnf = |v: &[usize]| -> f64 {
        if v.iter().map(|x| *x as u128).sum::<u128>() != n as u128 {
            return f64::NEG_INFINITY;
        }
        let mut s = lgamma(nf + 1.0);
        for (x, q) in v.iter().zip(p.iter()) {
            if *x > 0 {
                s += *x as f64 * q.ln() - lgamma(*x as f64 + 1.0);
            }
        }
        s
    };
    let size = |v: &[usize]| lgamma(nf + 1.0).abs() + v.iter().zip(p.iter()).map(|(x, q)| if *x > 0 && *q > 0.0 { *x as f64 * q.ln().abs() } else { 0.0 }).sum::<f64>();
    o.nontrivial(k > 1 && n > 0);
    o.class(format!("{} categories", k));
    with_dim!(k, N => {
        let d = match Multinomial::<N>::new(n, arr(p)) {
            Ok(d) => d,
            Err(e) => { o.fail("refused", format!("{}: {}", ctx, e)); return o; },
        };
        let u = Multinomial::<N>::new_unchecked(n, arr(p));
        // Another law, to be asked first.
        let first = {
            let mut q = p.clone();
            q.rotate_left(1);
            if *shift < 0.5 { Multinomial::<N>::new_unchecked(n, arr(&q)) } else { Multinomial::<N>::new_unchecked(n + 1, arr(p)) }
        };
        let _ = (guard(|| first.mean().to_vec()), guard(|| first.variance().to_vec()), guard(|| rows(first.covariance())), guard(|| rows(first.correlation())));
        o.check(Multinomial::<N>::n_categories() == N && d.dimensionality() == N, "dimension", || format!("{}: {} categories", ctx, Multinomial::<N>::n_categories()));
        let mut at = |o: &mut Obs, v: &[usize]| -> Option<f64> {
            let a: [usize; N] = v.try_into().unwrap();
            let want = lnf(v);
            let _ = guard(|| first.pmf(&a).unwrap());
            let f = guard(|| d.pmf(&a).unwrap());
            let _ = guard(|| first.log_pmf(&a));
            let lf = guard(|| d.log_pmf(&a));
            o.check(f == guard(|| u.pmf(&a).unwrap()), "unchecked", || format!("{}: mass differs after unchecked construction", ctx));
            let cx = format!("{} at {:?}", ctx, v);
            if want == f64::NEG_INFINITY {
                o.class("impossible counts");
                o.check(f == Got::Val(0.0) && lf == Got::Val(f64::NEG_INFINITY), "mass", || format!("{}: the mass is {:?}, its logarithm {:?}, expected zero", cx, f, lf));
            } else {
                density(o, &cx, f.clone(), lf, want, 1e-13 * size(v) + 1e-11);
            }
            if let Got::Val(x) = f { o.check(x >= 0.0 && x <= 1.0, "probability", || format!("{}: {:?}", cx, x)); }
            f.val()
        };
        at(&mut o, &xs);
        // Counts with another total have no mass.
        let mut bad = xs.clone();
        bad[0] += 1;
        at(&mut o, &bad);
        if xs[k - 1] > 0 {
            let mut bad = xs.clone();
            bad[k - 1] -= 1;
            at(&mut o, &bad);
        }
        // Nor counts whose sum wraps around to the right one.
        if k > 1 {
            let mut bad = xs.clone();
            let i = (shift * 977.0) as usize % k;
            for j in [i, (i + 1) % k] {
                bad[j] = bad[j].wrapping_add(1 << 63);
            }
            at(&mut o, &bad);
        }
        if n <= 8 && (k <= 5 || n <= 4) {
            let all = compositions(n, k);
            let sum: Option<f64> = all.iter().map(|v| at(&mut o, v)).sum();
            if let Some(s) = sum { o.check(near(s, 1.0, 1e-9), "total", || format!("{}: the masses sum to {:?}", ctx, s)); }
        }
        use spaces::Space as _;
        let s = d.support();
        o.check(s.len() == N && (0..N).all(|i| s[i].contains(&xs[i]) && s[i].contains(&0) && s[i].contains(&n) && !s[i].contains(&(n + 1))), "support", || format!("{}: the support is {:?}", ctx, s));
        vector(&mut o, &ctx, "mean", guard(|| d.mean().to_vec()), &p.iter().map(|q| nf * q).collect::<Vec<f64>>(), 1e-13);
        vector(&mut o, &ctx, "variance", guard(|| d.variance().to_vec()), &p.iter().map(|q| nf * q * (1.0 - q)).collect::<Vec<f64>>(), 1e-12);
        let cov: Mat = (0..k).map(|i| (0..k).map(|j| if i == j { nf * p[i] * (1.0 - p[i]) } else { -nf * p[i] * p[j] }).collect()).collect();
        matrix(&mut o, &ctx, "covariance", guard(|| rows(d.covariance())), &cov, 1e-12);
        if p.iter().all(|q| *q > 1e-9 && *q < 1.0 - 1e-9) {
            let cor: Mat = (0..k).map(|i| (0..k).map(|j| if i == j { 1.0 } else { -(p[i] / (1.0 - p[i]) * p[j] / (1.0 - p[j])).sqrt() }).collect()).collect();
            matrix(&mut o, &ctx, "correlation", guard(|| rows(d.correlation())), &cor, 1e-8);
        }
    });
    o
}

// ------------------------------------------------------------------------------------------
// C26
// ------------------------------------------------------------------------------------------
fn coherent(o: &mut Obs, ctx: &str, var: Got<Vec<f64>>, cov: Got<Mat>, cor: Got<Mat>, rel: f64) {
    let (Got::Val(var), Got::Val(cov), Got::Val(cor)) = (var.clone(), cov.clone(), cor.clone()) else {
        o.fail("refused", format!("{}: variance {:?}, covariance {:?}, correlation {:?}", ctx, var, cov, cor));
        return;
    };
    let n = var.len();
    if var.iter().any(|v| !v.is_finite()) {
        o.class("infinite variance");
        return;
    }
    for i in 0..n {
        o.check(near(var[i], cov[i][i], rel * cov[i][i].abs()), "diagonal", || format!("{}: variance {} is {:?}, the diagonal of the covariance {:?}", ctx, i, var[i], cov[i][i]));
        o.check(var[i] >= 0.0, "negative", || format!("{}: variance {} is {:?}", ctx, i, var[i]));
        o.check(near(cor[i][i], 1.0, 1e-12) || var[i] == 0.0, "unit-diagonal", || format!("{}: the correlation of coordinate {} with itself is {:?}", ctx, i, cor[i][i]));
        for j in 0..n {
            let s = cov[i][i].sqrt() * cov[j][j].sqrt();
            o.check(near(cov[i][j], cov[j][i], 1e-14 * s), "symmetry", || format!("{}: covariances ({}, {}) {:?} and {:?}", ctx, i, j, cov[i][j], cov[j][i]));
            o.check(near(cor[i][j], cor[j][i], 1e-13), "symmetry", || format!("{}: correlations ({}, {}) {:?} and {:?}", ctx, i, j, cor[i][j], cor[j][i]));
            o.check(cor[i][j].abs() <= 1.0 + 1e-9 + rel, "bound", || format!("{}: correlation ({}, {}) is {:?}", ctx, i, j, cor[i][j]));
            if s > 0.0 {
                o.check(near(cor[i][j], cov[i][j] / s, 1e-9 + rel), "normalised", || format!("{}: correlation ({}, {}) is {:?}, the normalised covariance {:?}", ctx, i, j, cor[i][j], cov[i][j] / s));
            }
        }
    }
    if n > 1 && var.iter().all(|v| *v > 0.0) {
        for (what, m) in [("covariance", (0..n).map(|i| (0..n).map(|j| cov[i][j] / (var[i].sqrt() * var[j].sqrt())).collect()).collect::<Mat>()), ("correlation", cor)] {
            let low = eigenvalues(&m).into_iter().fold(f64::INFINITY, f64::min);
            o.check(low > -1e-8 - rel * n as f64, "indefinite", || format!("{}: the {} has the (scaled) eigenvalue {:?}", ctx, what, low));
        }
    }
}

fn coherent_normal(log: bool, g: &Gauss) -> Obs {
    let mut o = Obs::new();
    let g = if log { log_scaled(g) } else { g.clone() };
    let r = law_of(&g);
    o.nontrivial(r.mu.len() > 1);
    o.class(format!("dimension {}", r.mu.len()));
    for (how, m) in if log { log_members(&r, g.1) } else { members(&r, g.1) } {
        let Ok(m) = m else { continue };
        if m.correlation().absent() {
            continue;
        }
        let ctx = format!("{} {}normal, mean {:?}, covariance {:?}", how, if log { "log-" } else { "" }, r.mu, r.s);
        let rel = if log { 1e-10 } else { 1e-12 };
        coherent(&mut o, &ctx, m.variance(), m.covariance(), m.correlation(), rel);
    }
    o
}

fn coherent_dirichlet(a: &Vec<f64>) -> Obs {
    let mut o = Obs::new();
    o.nontrivial(a.len() > 1);
    if a.len() == 1 {
        return o;
    }
    let Ok(d) = dirichlet_of(a) else { return o };
    let a0: f64 = a.iter().sum();
    let rel = 1e-10 + a.iter().map(|v| 1e-14 * a0 / (a0 - v)).fold(0.0, f64::max);
    coherent(&mut o, &format!("Dirichlet{:?}", a), d.variance(), d.covariance(), d.correlation(), rel);
    o
}

fn coherent_multinomial(c: &(f64, Vec<f64>)) -> Obs {
    let mut o = Obs::new();
    let (n, p) = c;
    let decided = *n > 0.0 && p.iter().all(|q| *q > 1e-9 && *q < 1.0 - 1e-9);
    o.nontrivial(decided && p.len() > 1);
    if !decided || p.len() == 1 {
        o.class("degenerate");
        return o;
    }
    with_dim!(p.len(), N => {
        if let Ok(d) = Multinomial::<N>::new(*n as usize, arr(p)) {
            coherent(&mut o, &format!("Multinomial({}, {:?})", n, p), guard(|| d.variance().to_vec()), guard(|| rows(d.covariance())), guard(|| rows(d.correlation())), 1e-7);
        }
    });
    o
}

// ------------------------------------------------------------------------------------------
// C18, C19, C23
// ------------------------------------------------------------------------------------------
/// Projections of a sample from a normal are normal.
fn normal_law(log: bool, c: &(Gauss, Vec<f64>, u64)) -> Obs {
    let mut o = Obs::new();
    let g = if log { log_scaled(&c.0) } else { c.0.clone() };
    let r = law_of(&g);
    let n = r.mu.len();
    o.nontrivial(n > 1);
    if !(r.low > 1e-6) {
        o.class("covariance too close to singular");
        return o;
    }
    // Deviations below the spacing of the numbers around the mean (for the log-normal: around
    // the exponential of the mean, as seen through the logarithm) are rounded away.
    if r.sd.iter().zip(r.mu.iter()).any(|(s, m)| *s < 1e-10 * (m.abs() + if log { 1.0 } else { 0.0 })) {
        o.class("narrower than the spacing of the numbers");
        return o;
    }
    let mut seen: Vec<&str> = vec![];
    for (how, m) in if log { log_members(&r, g.1) } else { members(&r, g.1) } {
        // One of each kind is enough: the others are compared with it by C23.
        if how.contains(',') || seen.contains(&how) {
            continue;
        }
        seen.push(how);
        let Ok(m) = m else { continue };
        let ctx = format!("{} {}normal, mean {:?}, covariance {:?}, seed {}", how, if log { "log-" } else { "" }, r.mu, r.s, c.2);
        let Got::Val(d) = m.draw(c.2, 20_000, Path::Bulk) else {
            o.fail("sample", format!("{}: no sample", ctx));
            continue;
        };
        let coords: Vec<Vec<f64>> = if log { d.xs.iter().map(|x| x.iter().map(|v| v.max(0.0).ln()).collect()).collect() } else { d.xs };
        let mut dirs: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| if i == j { 1.0 / r.sd[i] } else { 0.0 }).collect()).collect();
        for i in 0..n {
            dirs.push((0..n).map(|j| c.1[(i * n + j) % c.1.len()] / r.sd[j]).collect());
        }
        for a in dirs {
            let mean: f64 = a.iter().zip(r.mu.iter()).map(|(x, y)| x * y).sum();
            let var: f64 = (0..n).map(|i| (0..n).map(|j| a[i] * a[j] * r.s[i][j]).sum::<f64>()).sum();
            if !(var > 1e-9) {
                continue;
            }
            let l = laws::normal(&[mean, var]);
            let ys: Vec<f64> = coords.iter().map(|x| x.iter().zip(a.iter()).map(|(v, w)| v * w).sum()).collect();
            let (dev, eps, x, e, f) = dkw(ys, |x| l.cdf(x).0);
            o.check(dev <= eps, "law", || format!("{}: the projection {:?} is at most {:?} with frequency {:.4}, the law gives {:.4}", ctx, a, x, e, f));
        }
    }
    o
}

fn dirichlet_law(c: &(Vec<f64>, u64, u64)) -> Obs {
    let mut o = Obs::new();
    let (a, pick, seed) = c;
    let n = a.len();
    if n < 2 || a.iter().any(|x| *x < 0.1) {
        o.class("concentrations beyond the reference");
        return o;
    }
    o.nontrivial(true);
    let ctx = format!("Dirichlet{:?}, seed {}", a, seed);
    let Ok(d) = dirichlet_of(a) else { return o };
    let Got::Val(s) = d.draw(*seed, 20_000, Path::Bulk) else {
        o.fail("sample", format!("{}: no sample", ctx));
        return o;
    };
    let mut sets: Vec<Vec<usize>> = (0..n).map(|i| vec![i]).collect();
    let random: Vec<usize> = (0..n).filter(|i| (pick >> i) & 1 == 1).collect();
    if !random.is_empty() && random.len() < n {
        sets.push(random);
    }
    let a0: f64 = a.iter().sum();
    for set in sets {
        let t: f64 = set.iter().map(|i| a[*i]).sum();
        let l = laws::beta(&[t, a0 - t]);
        let ys: Vec<f64> = s.xs.iter().map(|x| set.iter().map(|i| x[*i]).sum::<f64>().clamp(0.0, 1.0)).collect();
        // Small concentrations put mass within rounding of both ends.
        let (dev, eps, x, e, f) = dkw_within(ys, 1e-100, 1.0 - 1e-9, |x| l.cdf(x).0);
        o.check(dev <= eps, "law", || format!("{}: the sum of the coordinates {:?} is at most {:?} with frequency {:.4}, the law gives {:.4}", ctx, set, x, e, f));
    }
    o
}

fn repro(o: &mut Obs, ctx: &str, d: &dyn MvApi, seed: u64, n: usize, k: usize) {
    let base = match d.draw(seed, n, Path::Single) {
        Got::Val(b) => b,
        other => {
            o.fail("sample", format!("{}: {:?}", ctx, other));
            return;
        },
    };
    o.check(base.xs.len() == n, "count", || format!("{}: {} samples", ctx, base.xs.len()));
    // A sample that rounds to an open end is not judged.
    let edge = base.xs.iter().flatten().any(|x| *x == 0.0 || x.is_infinite());
    o.check(base.inside || edge, "support", || format!("{}: a sample lies outside the support: {:?}", ctx, base.xs));
    for how in [Path::Bulk, Path::Iter, Path::Split(k)] {
        match d.draw(seed, n, how) {
            Got::Val(v) => {
                o.check(v.xs.len() == n && v.xs.iter().zip(base.xs.iter()).all(|(a, b)| all_same(a, b)), "values", || format!("{}: {:?} gives {:?}, one by one gives {:?}", ctx, how, v.xs, base.xs));
                o.check(v.next == base.next, "stream", || format!("{}: {:?} leaves the stream in a different state", ctx, how));
            },
            other => o.fail("path", format!("{}: {:?} gives {:?}", ctx, how, other)),
        }
    }
}

fn repro_normal(log: bool, c: &(Gauss, u64, usize, usize)) -> Obs {
    let mut o = Obs::new();
    let g = if log { log_scaled(&c.0) } else { c.0.clone() };
    let r = law_of(&g);
    o.nontrivial(c.2 > 1);
    for (how, m) in if log { log_members(&r, g.1) } else { members(&r, g.1) } {
        let Ok(m) = m else { continue };
        repro(&mut o, &format!("{} {}normal, mean {:?}, covariance {:?}, seed {}", how, if log { "log-" } else { "" }, r.mu, r.s, c.1), m.as_ref(), c.1, c.2, c.3);
    }
    o
}

fn repro_dirichlet(c: &(Vec<f64>, u64, usize, usize)) -> Obs {
    let mut o = Obs::new();
    o.nontrivial(c.2 > 1);
    let ctx = format!("Dirichlet{:?}, seed {}", c.0, c.1);
    let Ok(d) = dirichlet_of(&c.0) else { return o };
    repro(&mut o, &ctx, d.as_ref(), c.1, c.2, c.3);
    if let Got::Val(s) = d.draw(c.1, c.2, Path::Bulk) {
        o.check(s.xs.iter().all(|x| (x.iter().sum::<f64>() - 1.0).abs() < 1e-9), "simplex", || format!("{}: a sample leaves the simplex", ctx));
    }
    o
}

fn behaves(o: &mut Obs, ctx: &str, what: &str, a: &dyn MvApi, b: &dyn MvApi, xs: &[Vec<f64>], seed: Option<u64>) {
    let mut num = |name: &str, p: Got, q: Got| {
        let ok = match (&p, &q) {
            (Got::Val(x), Got::Val(y)) => same(*x, *y),
            (Got::Panic(_), Got::Panic(_)) => true,
            _ => p == q,
        };
        o.check(ok, what, || format!("{}: {} differs ({:?} and {:?}) after {}", ctx, name, p, q, what));
    };
    for x in xs {
        num("the density", a.dens(x), b.dens(x));
        num("the log-density", a.ln_dens(x), b.ln_dens(x));
        num("the distance", a.d2(x), b.d2(x));
    }
    num("the entropy", a.entropy(), b.entropy());
    let flat = |g: Got<Mat>| g.val().map(|m| m.concat()).unwrap_or_default();
    for (name, p, q) in [
        ("the mean", a.mean().val().unwrap_or_default(), b.mean().val().unwrap_or_default()),
        ("the variance", a.variance().val().unwrap_or_default(), b.variance().val().unwrap_or_default()),
        ("the covariance", flat(a.covariance()), flat(b.covariance())),
        ("the modes", flat(a.modes()), flat(b.modes())),
        ("the parameters", a.params(), b.params()),
    ] {
        o.check(all_same(&p, &q), what, || format!("{}: {} differs ({:?} and {:?}) after {}", ctx, name, p, q, what));
    }
    if let Some(seed) = seed {
        let (p, q) = (a.draw(seed, 4, Path::Bulk), b.draw(seed, 4, Path::Bulk));
        if let (Got::Val(p), Got::Val(q)) = (p, q) {
            o.check(p.xs.iter().zip(q.xs.iter()).all(|(x, y)| all_same(x, y)), what, || format!("{}: samples differ after {}", ctx, what));
        }
    }
}

fn construct_normal(log: bool, c: &(Gauss, Vec<Vec<f64>>, u64)) -> Obs {
    let mut o = Obs::new();
    let g = if log { log_scaled(&c.0) } else { c.0.clone() };
    let r = law_of(&g);
    let n = r.mu.len();
    o.nontrivial(n > 1);
    if !(r.low > 1e-7) {
        o.class("covariance too close to singular");
        return o;
    }
    let xs: Vec<Vec<f64>> = points(&r, &c.1).into_iter().map(|x| if log { x.iter().map(|v| v.clamp(-300.0, 300.0).exp()).collect() } else { x }).collect();
    let list = if log { log_members(&r, g.1) } else { members(&r, g.1) };
    let mut base: Option<(String, Box<dyn MvApi>)> = None;
    for (how, m) in list {
        let ctx = format!("{} {}normal, mean {:?}, covariance {:?}", how, if log { "log-" } else { "" }, r.mu, r.s);
        let m = match m {
            Ok(m) => m,
            Err(e) => {
                o.fail("refused", format!("{}: refused ({})", ctx, e));
                continue;
            },
        };
        let kind = how.split(',').next().unwrap();
        let rho = if n == 2 { r.s[0][1] / (r.sd[0] * r.sd[1]) } else { 0.0 };
        let var: Vec<f64> = (0..n).map(|i| r.s[i][i]).collect();
        let mut want = r.mu.clone();
        match kind {
            "full" => want.extend(r.s.concat()),
            "isotropic" | "homogeneous" | "standard" => want.push(var[0]),
            k if k.starts_with("bivariate") => {
                want.extend(var.iter());
                want.push(rho);
            },
            _ => want.extend(var.iter()),
        }
        o.check(all_same(&m.params(), &want), "params", || format!("{}: the parameters read back as {:?}", ctx, m.params()));
        o.check(all_same(&m.into_params(), &want), "params", || format!("{}: the parameters read back as {:?}", ctx, m.into_params()));
        match m.rebuild() {
            Got::Val(b) => behaves(&mut o, &ctx, "rebuilding from the parameters", m.as_ref(), b.as_ref(), &xs, Some(c.2)),
            _ => o.fail("rebuild", format!("{}: cannot be rebuilt", ctx)),
        }
        behaves(&mut o, &ctx, "cloning", m.as_ref(), m.dup().as_ref(), &xs, Some(c.2));
        match &base {
            Some((k, b)) if k == kind => behaves(&mut o, &ctx, "unchecked construction", b.as_ref(), m.as_ref(), &xs, Some(c.2)),
            _ => base = Some((kind.to_string(), m)),
        }
    }
    o
}

fn construct_dirichlet(c: &(Vec<f64>, Vec<f64>, u64)) -> Obs {
    let mut o = Obs::new();
    let (a, w, seed) = c;
    let n = a.len();
    let good = a.iter().all(|v| *v > 0.0);
    o.nontrivial(true);
    o.class(if good { "valid" } else { "invalid" });
    let ctx = format!("Dirichlet{:?}", a);
    let d = match pbt_catch(|| dirichlet_of(a)) {
        Ok(Ok(d)) => d,
        Ok(Err(e)) => {
            o.check(!good, "refused", || format!("{}: refused ({})", ctx, e));
            return o;
        },
        Err(e) => {
            o.fail("panic", format!("{}: {}", ctx, e));
            return o;
        },
    };
    o.check(good, "accepted", || format!("{}: accepted", ctx));
    o.check(all_same(&d.params(), a) && all_same(&d.into_params(), a), "params", || format!("{}: the parameters read back as {:?}", ctx, d.params()));
    if !good || a.iter().any(|v| !v.is_finite() || *v < 1e-3 || *v > 1e4) {
        return o;
    }
    let s: f64 = w[..n].iter().sum();
    let x: Vec<f64> = w[..n].iter().map(|v| v / s).collect();
    let xs = [x];
    behaves(&mut o, &ctx, "unchecked construction", d.as_ref(), with_dim!(n, N => raw(Dirichlet::<N>::new_unchecked(arr(a)))).unwrap().as_ref(), &xs, Some(*seed));
    behaves(&mut o, &ctx, "cloning", d.as_ref(), d.dup().as_ref(), &xs, Some(*seed));
    match d.rebuild() {
        Got::Val(b) => behaves(&mut o, &ctx, "rebuilding from the parameters", d.as_ref(), b.as_ref(), &xs, Some(*seed)),
        _ => o.fail("rebuild", format!("{}: cannot be rebuilt", ctx)),
    }
    o
}

fn construct_multinomial(c: &(usize, Vec<f64>, Vec<usize>)) -> Obs {
    let mut o = Obs::new();
    let (n, p, counts) = c;
    let k = p.len();
    let off = (p.iter().sum::<f64>() - 1.0).abs();
    let entries = p.iter().all(|q| *q >= 0.0 && *q <= 1.0);
    let want = if !entries { Some(false) } else if off < 1e-9 { Some(true) } else if off > 1e-3 { Some(false) } else { None };
    o.nontrivial(want.is_some());
    o.class(match want { Some(true) => "valid", Some(false) => "invalid", None => "not judged" });
    let ctx = format!("Multinomial({}, {:?})", n, p);
    with_dim!(k, N => {
        let a: [f64; N] = arr(p);
        let d = Multinomial::<N>::new(*n, a);
        if let Some(w) = want { o.check(d.is_ok() == w, if w { "refused" } else { "accepted" }, || format!("{}: {:?}", ctx, d.is_ok())); }
        let Ok(d) = d else { return o };
        let flat = |d: &Multinomial<N>| d.params().flat();
        let mut all = vec![*n as f64];
        all.extend(p.iter());
        o.check(all_same(&flat(&d), &all) && all_same(&d.clone().into_params().flat(), &all), "params", || format!("{}: the parameters read back as {:?}", ctx, flat(&d)));
        let q = d.params();
        o.check(q.n().0 == *n && all_same(&q.ps().iter().cloned().collect::<Vec<f64>>(), p), "params", || format!("{}: the accessors give {:?}", ctx, q));
        if want == Some(true) {
            let mut x: [usize; N] = counts[..k].try_into().unwrap();
            let t: usize = x[1..].iter().sum();
            x[0] = n.saturating_sub(t);
            for (what, b) in [("unchecked construction", Multinomial::<N>::new_unchecked(*n, a)), ("rebuilding from the parameters", Multinomial::<N>::from(d.params())), ("cloning", d.clone())] {
                o.check(same(d.log_pmf(&x), b.log_pmf(&x)) && all_same(&d.mean(), &b.mean()) && all_same(&d.covariance().concat(), &b.covariance().concat()) && all_same(&flat(&d), &flat(&b)), what, || format!("{}: differs after {}", ctx, what));
            }
        }
    });
    o
}

/// What an observation says about the support.
fn support_of(mut o: Obs) -> Obs {
    o.fails.retain(|f| f.sig == "support" || f.sig == "panic");
    o
}

pub fn props() -> Vec<Prop> {
    let var = || proptest::collection::vec(Union::new_weighted(vec![(6, specs::scl()), (1, pbt::gen::any_f64()), (1, (-2.0..2.0f64).boxed()), (1, Just(0.0).boxed())]), 1..=6usize);
    let rho = || Union::new_weighted(vec![(3, (-1.0..1.0f64).boxed()), (1, pbt::gen::any_f64()), (2, proptest::sample::select(vec![1.0, -1.0, 0.0, 1.0 + f64::EPSILON, -1.0 - f64::EPSILON, 2.0, -1.5]).boxed())]);
    let unit = || proptest::collection::vec(0.001..1.0f64, DIMS);
    let any_alphas = || {
        let bad = Union::new_weighted(vec![(5, specs::shp()), (1, pbt::gen::any_f64()), (1, Just(0.0).boxed()), (1, (-2.0..2.0f64).boxed())]);
        Union::new_weighted(vec![(1, alphas()), (2, dims().prop_flat_map(move |n| proptest::collection::vec(bad.clone(), n)).boxed())]).boxed()
    };
    let any_ps = || {
        let bad = Union::new_weighted(vec![(3, (0.0..1.0f64).boxed()), (1, pbt::gen::any_f64()), (1, Just(0.0).boxed()), (1, (-1.0..2.0f64).boxed())]);
        (1usize..=5).prop_flat_map(move |k| Union::new_weighted(vec![(2, specs::simplex(k)), (1, proptest::collection::vec(bad.clone(), k).boxed())])).boxed()
    };
    let dims = "dimensions 1 to 6, correlation matrices with smallest eigenvalue above 1e-7";
    let c18: Vec<Sub> = vec![
        sub("mv-normal", 60, 1_000, || (gauss(), proptest::collection::vec(-1.0..1.0f64, 36), any::<u64>()), |c| normal_law(false, c)),
        sub("mv-lognormal", 30, 500, || (gauss(), proptest::collection::vec(-1.0..1.0f64, 36), any::<u64>()), |c| normal_law(true, c)),
        sub("dirichlet", 40, 500, || (alphas(), any::<u64>(), any::<u64>()), dirichlet_law),
    ];
    let many = || prop_oneof![60 => 0usize..30, 1 => pbt::gen::sizes(30, 9_000)];
    let c19: Vec<Sub> = vec![
        sub("mv-normal", 1600, 150000, move || (gauss(), any::<u64>(), many(), many()), |c| repro_normal(false, c)),
        sub("mv-lognormal", 800, 75000, move || (gauss(), any::<u64>(), many(), many()), |c| repro_normal(true, c)),
        sub("dirichlet", 1200, 75000, move || (alphas(), any::<u64>(), many(), many()), repro_dirichlet),
    ];
    let c23: Vec<Sub> = vec![
        sub("mv-normal", 4000, 300000, || (gauss(), offsets(), any::<u64>()), |c| construct_normal(false, c)),
        sub("mv-lognormal", 2400, 150000, || (gauss(), offsets(), any::<u64>()), |c| construct_normal(true, c)),
        sub("dirichlet", 6000, 450000, move || (any_alphas(), unit(), any::<u64>()), construct_dirichlet),
        sub("multinomial", 6000, 450000, move || (Union::new(vec![(0usize..6).boxed(), (0usize..500).boxed()]), any_ps(), proptest::collection::vec(0usize..8, 6)), construct_multinomial),
    ];
    vec![
        Prop {
            id: "C24",
            rule: "at least two dimensions (validity: the covariance is decided)",
            assumptions: vec![dims, "tolerances grow with the condition number of the correlation matrix"],
            subs: vec![
                sub("members", 12000, 900000, || (gauss(), offsets()), normal_obs),
                sub("covariance-validity", 24000, 3000000, cov_case, cov_obs),
                sub("variance-validity", 16000, 1500000, move || (var(), rho()), small_cov_obs),
            ],
        },
        Prop {
            id: "C25",
            rule: "at least two dimensions or categories",
            assumptions: vec![dims, "concentrations 0.001 to 500, up to 6 categories", "counts up to 1500 in up to 5 categories"],
            subs: vec![
                sub("lognormal", 8000, 600000, || (gauss(), offsets()), lognormal_obs),
                sub("dirichlet", 16000, 1200000, move || (alphas(), unit(), 0u8..12), dirichlet_obs),
                sub("multinomial", 12000, 900000, || (multinomial_params(), proptest::collection::vec(0.0..2.0f64, 33), 0.0..1.0f64), multinomial_obs),
            ],
        },
        Prop {
            id: "C26",
            rule: "at least two dimensions",
            assumptions: vec![dims, "multinomials with all probabilities strictly between 0 and 1"],
            subs: vec![
                sub("normal", 10000, 750000, gauss, |c| coherent_normal(false, c)),
                sub("lognormal", 6000, 450000, gauss, |c| coherent_normal(true, c)),
                sub("dirichlet", 12000, 900000, alphas, coherent_dirichlet),
                sub("multinomial", 12000, 900000, multinomial_params, coherent_multinomial),
            ],
        },
        Prop { id: "C12", rule: "", assumptions: vec!["multivariate laws: points with positive density, points outside, and the ends of every coordinate"], subs: vec![
            sub("mv-normal", 3000, 90000, || (gauss(), offsets()), |c| support_of(normal_obs(c))),
            sub("mv-lognormal", 3000, 90000, || (gauss(), offsets()), |c| support_of(lognormal_obs(c))),
            sub("dirichlet", 3000, 90000, move || (alphas(), unit(), 0u8..12), |c| support_of(dirichlet_obs(c))),
            sub("multinomial", 3000, 90000, || (multinomial_params(), proptest::collection::vec(0.0..2.0f64, 33), 0.0..1.0f64), |c| support_of(multinomial_obs(c))),
        ] },
        Prop { id: "C18", rule: "", assumptions: vec![], subs: c18 },
        Prop { id: "C19", rule: "", assumptions: vec![], subs: c19 },
        Prop { id: "C23", rule: "", assumptions: vec![], subs: c23 },
    ]
}
