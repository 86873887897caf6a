//! Mixtures (C27), judged against their own components.
use crate::{
    api::{guard, guard_quietly, Conv, Got, PVec},
    prob::{dkw, too_far, word, Scripted},
    specs,
    uv::pbt_catch,
};
use pbt::{
    proptest::{self, prelude::*, strategy::Union},
    sub, Obs, Prop, Sub,
};
use rand::{rngs::StdRng, Rng, SeedableRng};
use rstat::{
    statistics::UvMoments,
    univariate as u, ContinuousDistribution, Distribution, Mixture, Probability, Sample,
};
use spaces::{
    ops::{Closure, Union as SUnion},
    OrderedSpace, Space,
};
use std::convert::TryInto;

type Supp<C> = <C as Distribution>::Support;

/// What a mixture of a given kind of component offers beyond the distribution function.
struct Caps<const N: usize, C: Distribution> {
    dens: Option<(fn(&C, f64) -> f64, fn(&Mixture<N, C>, f64) -> f64)>,
    moments: Option<(fn(&C) -> (f64, f64), fn(&Mixture<N, C>) -> (f64, f64, f64))>,
    params: fn(&C::Params) -> Vec<f64>,
    whole: bool,
}

/// Weights (zero allowed), component parameters, coordinates of arguments, a seed, stream words.
type Case = (Vec<f64>, Vec<Vec<f64>>, Vec<f64>, u64, Vec<u64>);

fn close(a: f64, b: f64, rel: f64) -> bool { a == b || (a - b).abs() <= rel * b.abs().max(a.abs()) }

fn check<const N: usize, C>(o: &mut Obs, ctx: &str, w: [f64; N], comps: [C; N], c: &Case, caps: Caps<N, C>)
where
    C: Distribution + Clone,
    Supp<C>: SUnion<Supp<C>> + Clone + OrderedSpace,
    <Supp<C> as SUnion<Supp<C>>>::Output: Closure<Output = Supp<C>>,
    Sample<C>: Conv,
{
    let (_, _, ts, seed, words) = c;
    let m: Mixture<N, C> = match Mixture::new(w, comps.clone()) {
        Ok(m) => m,
        Err(e) => {
            o.fail("refused", format!("{}: refused ({})", ctx, e));
            return;
        },
    };
    o.check(Mixture::<N, C>::n_components() == N, "count", || format!("{}: {} components", ctx, Mixture::<N, C>::n_components()));
    let live: Vec<usize> = (0..N).filter(|i| w[*i] > 0.0).collect();
    // Arguments: spread over the components.
    let mut rng = StdRng::seed_from_u64(*seed);
    let drawn: Vec<f64> = ts.iter().enumerate().map(|(i, t)| {
        let x = comps[i % N].sample(&mut rng).to_f();
        if caps.whole { (x + t).round() } else { x + t }
    }).collect();
    let mut xs: Vec<f64> = drawn;
    xs.extend(ts.iter().map(|t| if caps.whole { t.round() } else { *t }));
    if !caps.whole {
        xs.extend([-1e30, 1e30]);
    }
    // Distribution function and density.
    for x in xs.iter() {
        let Some(v) = <Sample<C> as Conv>::from_f(*x) else { continue };
        let parts: Vec<f64> = live.iter().map(|i| w[*i] * comps[*i].cdf(&v).unwrap()).collect();
        let want: f64 = parts.iter().sum();
        match guard(|| (m.cdf(&v).unwrap(), m.ccdf(&v).unwrap(), m.log_cdf(&v), m.log_ccdf(&v))) {
            Got::Val((f, g, lf, lg)) => {
                o.check((f - want).abs() < 1e-12, "cdf", || format!("{}: the distribution function at {:?} is {:?}, the weighted average {:?}", ctx, x, f, want));
                o.check((g - (1.0 - want)).abs() < 1e-12, "ccdf", || format!("{}: the complement at {:?} is {:?}, expected {:?}", ctx, x, g, 1.0 - want));
                o.check(Probability::new(f).is_ok() && Probability::new(g).is_ok(), "no-probability", || format!("{}: the distribution function at {:?} is {:?}, its complement {:?}", ctx, x, f, g));
                o.check((lf.exp() - want).abs() < 1e-9 && (lg.exp() - (1.0 - want)).abs() < 1e-9, "log", || format!("{}: the logarithms at {:?} are {:?} and {:?}, expected those of {:?} and its complement", ctx, x, lf, lg, want));
            },
            other => o.fail("cdf", format!("{}: the distribution function at {:?} gives {:?}", ctx, x, other)),
        }
        if let Some((cd, md)) = caps.dens {
            let want: f64 = live.iter().map(|i| w[*i] * cd(&comps[*i], *x)).sum();
            match guard(|| md(&m, *x)) {
                Got::Val(f) => o.check(close(f, want, 1e-12), "density", || format!("{}: the density at {:?} is {:?}, the weighted average {:?}", ctx, x, f, want)),
                other => o.fail("density", format!("{}: the density at {:?} gives {:?}", ctx, x, other)),
            }
        }
    }
    // Moments.
    if let Some((cm, mm)) = caps.moments {
        let parts: Vec<(f64, f64)> = live.iter().map(|i| cm(&comps[*i])).collect();
        let mean: f64 = live.iter().zip(parts.iter()).map(|(i, p)| w[*i] * p.0).sum();
        let size: f64 = live.iter().zip(parts.iter()).map(|(i, p)| w[*i] * p.0.abs()).sum();
        let second: f64 = live.iter().zip(parts.iter()).map(|(i, p)| w[*i] * (p.1 + p.0 * p.0)).sum();
        let var: f64 = live.iter().zip(parts.iter()).map(|(i, p)| w[*i] * (p.1 + (p.0 - mean).powi(2))).sum();
        match guard(|| mm(&m)) {
            Got::Val((a, v, sd)) => {
                if mean.is_finite() {
                    o.check((a - mean).abs() <= 1e-12 * size, "mean", || format!("{}: the mean is {:?}, expected {:?}", ctx, a, mean));
                } else {
                    o.class("infinite mean");
                    o.check(a == f64::INFINITY, "mean", || format!("{}: the mean is {:?}, expected infinity", ctx, a));
                }
                if mean.is_finite() && var.is_finite() {
                    // The second moment minus the squared mean cancels.
                    let tol = 1e-12 * second;
                    o.check((v - var).abs() <= tol, "variance", || format!("{}: the variance is {:?}, expected {:?}", ctx, v, var));
                    o.check((sd * sd - var).abs() <= 3.0 * tol || (var <= tol && sd.is_nan()), "deviation", || format!("{}: the standard deviation is {:?}, the variance {:?}", ctx, sd, var));
                } else {
                    o.class("infinite variance");
                    o.check(v == f64::INFINITY && sd == f64::INFINITY, "variance", || format!("{}: the variance is {:?} and the deviation {:?}, expected infinity", ctx, v, sd));
                }
            },
            other => o.fail("moments", format!("{}: the moments give {:?}", ctx, other)),
        }
    }
    // Support.
    let s = m.support();
    let ends = |s: &Supp<C>| (s.inf().map(|x| x.to_f()).unwrap_or(f64::NEG_INFINITY), s.sup().map(|x| x.to_f()).unwrap_or(f64::INFINITY));
    let got = ends(&s);
    let want = comps.iter().map(|c| ends(&c.support())).fold((f64::INFINITY, f64::NEG_INFINITY), |a, b| (a.0.min(b.0), a.1.max(b.1)));
    o.check(got == want, "support", || format!("{}: the support is {:?}, the components need {:?}", ctx, got, want));
    for x in xs.iter() {
        let Some(v) = <Sample<C> as Conv>::from_f(*x) else { continue };
        let any = comps.iter().any(|c| c.support().contains(&v));
        let inside = s.contains(&v) && m.clone().into_support().contains(&v);
        o.check(inside || !any, "support", || format!("{}: {:?} lies in a component's support, but not in the mixture's", ctx, x));
        o.check(!(s.contains(&v) && (*x < want.0 || *x > want.1)), "support", || format!("{}: {:?} lies in the support, but beyond every component's", ctx, x));
        o.check(s.contains(&v) || !(*x > want.0 && *x < want.1), "support", || format!("{}: {:?} lies between the components, but not in the support", ctx, x));
    }
    // Samples: in the support of a component with positive weight, bulk and single alike.
    let n = match seed % 97 {
        k @ 0..=12 => (1usize << k) + (seed / 97 % 3) as usize,
        13 => 5000,
        _ => 12,
    };
    let (mut r1, mut r2) = (StdRng::seed_from_u64(*seed), StdRng::seed_from_u64(*seed));
    match guard(|| ((0..n).map(|_| m.sample(&mut r1).to_f()).collect::<Vec<f64>>(), m.sample_n(&mut r2, n).iter().map(|x| x.to_f()).collect::<Vec<f64>>())) {
        Got::Val((a, b)) => {
            o.check(a == b && r1.gen::<u64>() == r2.gen::<u64>(), "bulk", || format!("{}: {} samples one by one start with {:?}, in bulk with {:?}", ctx, n, &a[..n.min(12)], &b[..n.min(b.len()).min(12)]));
        },
        other => o.fail("sample", format!("{}: sampling gives {:?}", ctx, other)),
    }
    for word in words.iter() {
        let x = m.sample(&mut Scripted::new(vec![*word], *seed));
        let ok = live.iter().any(|i| comps[*i].support().contains(&x)) || x.to_f() == want.0 || x.to_f() == want.1;
        o.check(ok, "impossible", || format!("{}: the stream starting with {:#x} gives {:?}, outside every component of positive weight", ctx, word, x.to_f()));
    }
    // Parameters.
    let q = m.params();
    let flat = |q: &<Mixture<N, C> as Distribution>::Params| -> Vec<f64> { q.ps.iter().cloned().chain(q.component_params.iter().flat_map(|p| (caps.params)(p))).collect() };
    let want: Vec<f64> = w.iter().cloned().chain(comps.iter().flat_map(|c| (caps.params)(&c.params()))).collect();
    o.check(flat(&q) == want && flat(&m.clone().into_params()) == want, "params", || format!("{}: the parameters read back as {:?}, given {:?}", ctx, flat(&q), want));
    let others = [("rebuilding from the parameters", guard_quietly(|| Mixture::<N, C>::from(m.params()))), ("unchecked construction", guard_quietly(|| Mixture::<N, C>::new_unchecked(w, comps.clone()))), ("cloning", guard_quietly(|| m.clone()))];
    for (what, b) in others {
        let Got::Val(b) = b else {
            o.fail(what, format!("{}: {} fails", ctx, what));
            continue;
        };
        for x in xs.iter() {
            let Some(v) = <Sample<C> as Conv>::from_f(*x) else { continue };
            o.check(m.cdf(&v).unwrap().to_bits() == b.cdf(&v).unwrap().to_bits(), what, || format!("{}: the distribution function at {:?} differs after {}", ctx, x, what));
            if let Some((_, md)) = caps.dens {
                o.check(md(&m, *x).to_bits() == md(&b, *x).to_bits(), what, || format!("{}: the density at {:?} differs after {}", ctx, x, what));
            }
        }
        o.check(ends(&b.support()) == ends(&s), what, || format!("{}: the support differs after {}", ctx, what));
        o.check(flat(&b.params()) == want, what, || format!("{}: the parameters differ after {}", ctx, what));
        let (mut r1, mut r2) = (StdRng::seed_from_u64(*seed), StdRng::seed_from_u64(*seed));
        o.check((0..6).all(|_| m.sample(&mut r1).to_f() == b.sample(&mut r2).to_f()), what, || format!("{}: samples differ after {}", ctx, what));
    }
    // A parameter list of another length is refused.
    for k in [N - 1, N + 1] {
        let mut q = m.params();
        if k < N {
            q.component_params.pop();
        } else {
            q.component_params.push(comps[0].params());
        }
        let got = pbt_catch(|| Mixture::<N, C>::from(q).support().inf().map(|x| x.to_f()));
        o.check(got.is_err(), "wrong-length", || format!("{}: {} parameter sets for {} components are accepted", ctx, k, N));
    }
    // Weights that are no probability vector are refused.
    let mut bad = w;
    bad[0] += if seed % 2 == 0 { 0.01 } else { -0.01 };
    o.check(Mixture::new(bad, comps.clone()).is_err(), "bad-weights", || format!("{}: the weights {:?} are accepted", ctx, bad));
}

fn law_check<const N: usize, C>(o: &mut Obs, ctx: &str, w: [f64; N], comps: [C; N], seed: u64, n: usize)
where
    C: Distribution + Clone,
    Supp<C>: SUnion<Supp<C>> + Clone,
    <Supp<C> as SUnion<Supp<C>>>::Output: Closure<Output = Supp<C>>,
    Sample<C>: Conv,
{
    let m: Mixture<N, C> = Mixture::new_unchecked(w, comps.clone());
    let mut rng = StdRng::seed_from_u64(seed);
    let xs: Vec<f64> = m.sample_n(&mut rng, n).iter().map(|x| x.to_f()).collect();
    let f = |x: f64| -> f64 {
        match <Sample<C> as Conv>::from_f(x) {
            Some(v) => (0..N).map(|i| if w[i] > 0.0 { w[i] * comps[i].cdf(&v).unwrap() } else { 0.0 }).sum(),
            None => 0.0,
        }
    };
    let disc = <Sample<C> as Conv>::from_f(0.5).is_none();
    if disc {
        let mut at = xs.clone();
        at.sort_by(|a, b| a.total_cmp(b));
        at.dedup();
        for x in at {
            let e = xs.iter().filter(|y| **y <= x).count();
            o.check(!too_far(e, n, f(x)) || (f(x) - e as f64 / n as f64).abs() < 1e-6, "law", || format!("{}, seed {}: {} of {} samples are at most {:?}, the law gives {:?}", ctx, seed, e, n, x, f(x)));
        }
    } else {
        let (d, eps, x, e, r) = dkw(xs, f);
        o.check(d <= eps, "law", || format!("{}, seed {}: a fraction {:.4} of the samples is at most {:?}, the law gives {:.4}", ctx, seed, e, x, r));
    }
}

macro_rules! with_k {
    ($w:ident, $comps:ident, $n:ident, $a:ident, $c:ident => $body:expr) => {
        match $w.len() {
            1 => { const $n: usize = 1; let $a: [f64; 1] = $w[..].try_into().unwrap(); let $c: [_; 1] = $comps.try_into().ok().unwrap(); $body },
            2 => { const $n: usize = 2; let $a: [f64; 2] = $w[..].try_into().unwrap(); let $c: [_; 2] = $comps.try_into().ok().unwrap(); $body },
            3 => { const $n: usize = 3; let $a: [f64; 3] = $w[..].try_into().unwrap(); let $c: [_; 3] = $comps.try_into().ok().unwrap(); $body },
            4 => { const $n: usize = 4; let $a: [f64; 4] = $w[..].try_into().unwrap(); let $c: [_; 4] = $comps.try_into().ok().unwrap(); $body },
            6 => { const $n: usize = 6; let $a: [f64; 6] = $w[..].try_into().unwrap(); let $c: [_; 6] = $comps.try_into().ok().unwrap(); $body },
            9 => { const $n: usize = 9; let $a: [f64; 9] = $w[..].try_into().unwrap(); let $c: [_; 9] = $comps.try_into().ok().unwrap(); $body },
            20 => { const $n: usize = 20; let $a: [f64; 20] = $w[..].try_into().unwrap(); let $c: [_; 20] = $comps.try_into().ok().unwrap(); $body },
            k => panic!("no mixture of {}", k),
        }
    };
}

macro_rules! dens { (yes) => { Some((|c, x| c.pdf(&x), |m, x| m.pdf(&x))) }; (no) => { None }; }
macro_rules! moms { (yes) => { Some((|c| (c.mean(), c.variance()), |m| (m.mean(), m.variance(), m.standard_deviation()))) }; (no) => { None }; }

struct Kind {
    name: &'static str,
    gen: fn() -> BoxedStrategy<Vec<f64>>,
    run: fn(&Case) -> Obs,
    law: fn(&Case) -> Obs,
}

fn begin(name: &str, c: &Case) -> (Obs, String) {
    let mut o = Obs::new();
    let (w, ps, ..) = c;
    let live = w.iter().filter(|x| **x > 0.0).count();
    o.nontrivial(live > 1);
    o.class(format!("{} components, {} of weight zero", w.len(), w.len() - live));
    let ctx = format!("mixture of {} {:?} with weights {:?}", name, ps, w);
    o.note(ctx.clone());
    (o, ctx)
}

macro_rules! kind {
    ($name:literal, $c:ty, $dens:ident, $moms:ident, $whole:literal, $gen:expr, |$p:ident| $mk:expr) => {
        kind!($name, $c, $dens, $moms, $whole, $gen, |$p| $mk, |q: &<$c as Distribution>::Params| PVec::pvec(q))
    };
    ($name:literal, $c:ty, $dens:ident, $moms:ident, $whole:literal, $gen:expr, |$p:ident| $mk:expr, $pv:expr) => {
        Kind {
            name: $name,
            gen: || $gen,
            run: |case| {
                let (mut o, ctx) = begin($name, case);
                let w = &case.0;
                let comps: Vec<$c> = case.1.iter().map(|$p: &Vec<f64>| $mk).collect();
                with_k!(w, comps, N, a, c => check::<N, $c>(&mut o, &ctx, a, c, case, Caps { dens: dens!($dens), moments: moms!($moms), params: $pv, whole: $whole }));
                o
            },
            law: |case| {
                let (mut o, ctx) = begin($name, case);
                let w = &case.0;
                let comps: Vec<$c> = case.1.iter().map(|$p: &Vec<f64>| $mk).collect();
                with_k!(w, comps, N, a, c => law_check::<N, $c>(&mut o, &ctx, a, c, case.3, 20_000));
                o
            },
        }
    };
}

fn two(a: BoxedStrategy<f64>, b: BoxedStrategy<f64>) -> BoxedStrategy<Vec<f64>> { (a, b).prop_map(|(x, y)| vec![x, y]).boxed() }

fn one(a: BoxedStrategy<f64>) -> BoxedStrategy<Vec<f64>> { a.prop_map(|x| vec![x]).boxed() }

type Inner = Mixture<2, u::normal::Normal>;

fn kinds() -> Vec<Kind> {
    let _ = Got::<f64>::Absent;
    vec![
        kind!("normals", u::normal::Normal, yes, yes, false, two(specs::loc(), specs::scl()), |p| u::normal::Normal::new(p[0], p[1]).unwrap()),
        kind!("exponentials", u::exponential::Exponential, yes, yes, false, one(specs::scl()), |p| u::exponential::Exponential::new(p[0]).unwrap()),
        kind!("uniforms", u::uniform::Uniform<f64>, yes, yes, false, two(specs::loc(), specs::scl()), |p| u::uniform::Uniform::<f64>::new(p[0], p[1]).unwrap()),
        kind!("betas", u::beta::Beta, yes, yes, false, two(specs::shp(), specs::shp()), |p| u::beta::Beta::new(p[0].max(0.2), p[1].max(0.2)).unwrap()),
        kind!("gammas", u::gamma::Gamma, yes, yes, false, two(specs::shp(), specs::scl()), |p| u::gamma::Gamma::new(p[0].max(0.2), p[1]).unwrap()),
        kind!("triangulars", u::triangular::Triangular, yes, yes, false, (specs::loc(), specs::scl(), specs::scl()).prop_map(|(a, b, c)| vec![a, b, c]).boxed(), |p| u::triangular::Triangular::new(p[0], p[1], p[2]).unwrap()),
        kind!("laplaces", u::laplace::Laplace, yes, yes, false, two(specs::loc(), specs::scl()), |p| u::laplace::Laplace::new(p[0], p[1]).unwrap()),
        kind!("cauchys", u::cauchy::Cauchy, yes, no, false, two(specs::loc(), specs::scl()), |p| u::cauchy::Cauchy::new(p[0], p[1]).unwrap()),
        kind!("paretos", u::pareto::Pareto, yes, yes, false, two(specs::scl(), pbt::gen::mixed(&[0.5, 1.0, 1.5, 2.0, 3.0], pbt::gen::logu(0.3, 20.0))), |p| u::pareto::Pareto::new(p[0], p[1]).unwrap()),
        kind!("lognormals", u::lognormal::LogNormal, yes, yes, false, two((-2.0..2.0f64).boxed(), pbt::gen::logu(0.02, 3.0)), |p| u::lognormal::LogNormal::new(p[0], p[1]).unwrap()),
        kind!("binomials", u::binomial::Binomial, no, yes, true, two(specs::cnt(1, 60), specs::prb()), |p| u::binomial::Binomial::new(p[0] as usize, Probability::new_unchecked(p[1])).unwrap()),
        kind!("bernoullis", u::bernoulli::Bernoulli, no, yes, true, one(specs::prb()), |p| u::bernoulli::Bernoulli::new(p[0]).unwrap()),
        kind!("geometrics", u::geometric::Geometric, no, yes, true, one((0.02..0.98f64).boxed()), |p| u::geometric::Geometric::new(p[0]).unwrap()),
        kind!("integer uniforms", u::uniform::Uniform<i64>, no, yes, true, two((-20i64..20).prop_map(|x| x as f64).boxed(), specs::cnt(1, 50)), |p| u::uniform::Uniform::<i64>::new(p[0] as i64, p[1] as u64).unwrap()),
        kind!("mixtures of two normals", Inner, yes, yes, false, (specs::loc(), specs::scl(), specs::loc(), specs::scl(), 0.0..=1.0f64).prop_map(|(a, b, c, d, e)| vec![a, b, c, d, e]).boxed(), |p| {
            Mixture::new([p[4], 1.0 - p[4]], [u::normal::Normal::new(p[0], p[1]).unwrap(), u::normal::Normal::new(p[2], p[3]).unwrap()]).unwrap()
        }, |q: &<Inner as Distribution>::Params| q.ps.iter().cloned().chain(q.component_params.iter().flat_map(|p| p.pvec())).collect()),
    ]
}

fn case(gen: fn() -> BoxedStrategy<Vec<f64>>) -> BoxedStrategy<Case> {
    let ts = || Union::new_weighted(vec![(3, (-2.0..2.0f64).boxed()), (2, Just(0.0).boxed()), (1, (-60.0..60.0f64).boxed())]);
    Union::new_weighted(vec![(30, proptest::sample::select(vec![1usize, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 6, 9]).boxed()), (1, Just(20usize).boxed())])
        .prop_flat_map(move |k| (specs::simplex(k), proptest::collection::vec(gen(), k), proptest::collection::vec(ts(), 8), any::<u64>(), proptest::collection::vec(word(), 0..6)))
        .boxed()
}

/// Which component a sample comes from: disjoint uniforms.
fn frequencies(c: &(Vec<f64>, u64)) -> Obs {
    let mut o = Obs::new();
    let (w, seed) = c;
    o.nontrivial(w.iter().filter(|x| **x > 0.0).count() > 1);
    let comps: Vec<u::uniform::Uniform<f64>> = (0..w.len()).map(|i| u::uniform::Uniform::<f64>::new(2.0 * i as f64, 1.0).unwrap()).collect();
    let n = 20_000;
    with_k!(w, comps, N, a, comps => {
        let m = Mixture::new_unchecked(a, comps);
        let mut rng = StdRng::seed_from_u64(*seed);
        let mut counts = [0usize; N];
        for _ in 0..n {
            let x = m.sample(&mut rng);
            let i = (x / 2.0).floor();
            if i >= 0.0 && (i as usize) < N && x - 2.0 * i <= 1.0 { counts[i as usize] += 1; } else { o.fail("impossible", format!("weights {:?}: {:?} belongs to no component", a, x)); return o; }
        }
        for i in 0..N {
            o.check(a[i] > 0.0 || counts[i] == 0, "impossible", || format!("weights {:?}: component {} has weight zero, but was drawn", a, i));
            o.check(!too_far(counts[i], n, a[i]) || (a[i] - counts[i] as f64 / n as f64).abs() < 1e-6, "frequency", || format!("weights {:?}: component {} was drawn {} times of {}", a, i, counts[i], n));
        }
    });
    o
}

/// What C23 promises of any distribution: the parts of the mixture check about its parameters.
const GIVEN_BACK: [&str; 6] = ["params", "rebuilding from the parameters", "unchecked construction", "cloning", "wrong-length", "refused"];

pub fn props() -> Vec<Prop> {
    let mut subs: Vec<Sub> = vec![];
    let mut back: Vec<Sub> = vec![];
    for k in kinds() {
        let Kind { name, gen, run, law } = k;
        subs.push(sub(name, 2_000, 60_000, move || case(gen), move |c| run(c)));
        back.push(sub(format!("mixture-{}", name.replace(' ', "-")), 300, 8_000, move || case(gen), move |c| {
            let mut o = run(c);
            o.fails.retain(|f| GIVEN_BACK.contains(&f.sig.as_str()));
            o
        }));
        subs.push(sub(format!("{}-law", name), 10, 100, move || case(gen), move |c| law(c)));
    }
    subs.push(sub("frequencies", 60, 600, || (proptest::sample::select(vec![2usize, 3, 4, 6]).prop_flat_map(specs::simplex), any::<u64>()), frequencies));
    vec![Prop {
        id: "C27",
        rule: "more than one component of positive weight",
        assumptions: vec!["one to six components of one family; the components' own functions are judged by C08 to C18", "weights that sum to one; variances to 1e-12 of the second moment"],
        subs,
    }, Prop { id: "C23", rule: "", assumptions: vec![], subs: back }]
}
