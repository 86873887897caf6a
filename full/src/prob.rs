//! Probabilities and probability vectors (C06, C07).
use crate::{laws, uv::pbt_catch};
use pbt::{
    gen::{any_f64, probs},
    proptest::{self, prelude::*, strategy::Union},
    sub, Obs, Prop,
};
use rand::{rngs::StdRng, Error, RngCore, SeedableRng};
use rstat::{Probability, SimplexVector};
use std::convert::TryFrom;

fn edge() -> BoxedStrategy<f64> {
    Union::new_weighted(vec![
        (4, probs()),
        (3, any_f64()),
        (1, proptest::sample::select(vec![1.0, 1.0 + f64::EPSILON, 1.0 - f64::EPSILON / 2.0, -5e-324, 5e-324, -0.0, 0.0, 2.0, -1.0]).boxed()),
        (1, (-0.5..1.5f64).boxed()),
    ])
    .boxed()
}

fn inside(x: f64) -> bool { x >= 0.0 && x <= 1.0 }

fn eq(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }

fn construct(x: &f64) -> Obs {
    let mut o = Obs::new();
    let x = *x;
    o.nontrivial(true);
    o.class(if x.is_nan() { "NaN" } else if inside(x) { "a probability" } else { "not a probability" });
    for (what, got) in [("new", Probability::new(x).ok()), ("try_from", Probability::try_from(x).ok())] {
        match got {
            Some(p) => {
                o.check(inside(x), "accepted", || format!("{} accepts {:?}", what, x));
                o.check(eq(p.unwrap(), x), "altered", || format!("{} turns {:?} into {:?}", what, x, p.unwrap()));
            },
            None => o.check(!inside(x), "refused", || format!("{} refuses {:?}", what, x)),
        }
    }
    let u = Probability::new_unchecked(x);
    o.check(u.is_valid() == inside(x), "is_valid", || format!("is_valid is {} for {:?}", u.is_valid(), x));
    o.check(eq(f64::from(u), x) && eq(u.unwrap(), x), "altered", || format!("{:?} is read back as {:?}", x, u.unwrap()));
    o.check((u == x) == (x == x), "eq", || format!("{:?} does not equal itself as a float", x));
    if inside(x) {
        let p = u;
        o.check(eq((!p).unwrap(), 1.0 - x) && eq((!&p).unwrap(), 1.0 - x), "complement", || format!("the complement of {:?} is {:?}", x, (!p).unwrap()));
        let close = |a: f64, b: f64| a == b || (a - b).abs() <= 1e-12 * b.abs() || (a.is_nan() && b.is_nan());
        o.check(close(p.ln(), x.ln()), "ln", || format!("ln of {:?} is {:?}", x, p.ln()));
        o.check(close(p.log2(), x.log2()), "log2", || format!("log2 of {:?} is {:?}", x, p.log2()));
        for e in [0.0, 1.0, 2.0, 0.5, 3.7, -1.0] {
            o.check(close(p.powf(e), x.powf(e)), "powf", || format!("{:?} to the {:?} is {:?}", x, e, p.powf(e)));
            o.check(close(p.powi(e as i32), x.powi(e as i32)), "powi", || format!("{:?} to the {:?} is {:?}", x, e as i32, p.powi(e as i32)));
        }
        o.check(p.to_string().parse::<f64>().map_or(false, |y| eq(y, x)), "display", || format!("{:?} is displayed as {}", x, p));
    }
    o.check(eq(Probability::zero().unwrap(), 0.0) && eq(Probability::half().unwrap(), 0.5) && eq(Probability::one().unwrap(), 1.0), "constants", || "zero, half, one".into());
    o.check(eq(Probability::default().unwrap(), 0.0), "constants", || "the default".into());
    o
}

macro_rules! forms {
    ($o:ident, $op:tt, $name:literal, $a:ident, $b:ident, $p:ident, $q:ident, $want:ident, |$r:ident| $get:expr) => {{
        let all = [
            ("p op q", { let $r = $p $op $q; $get }), ("p op &q", { let $r = $p $op &$q; $get }),
            ("&p op q", { let $r = &$p $op $q; $get }), ("&p op &q", { let $r = &$p $op &$q; $get }),
        ];
        for (form, got) in all {
            let ok = match got { Some(v) => inside($want) && eq(v, $want), None => !inside($want) };
            $o.check(ok, $name, || format!("{:?} {} {:?} ({}) gives {:?}, the value is {:?}", $a, stringify!($op), $b, form, got, $want));
        }
        let floats: [(&str, f64); 8] = [
            ("f op p", $a $op $q), ("f op &p", $a $op &$q), ("&f op p", &$a $op $q), ("&f op &p", &$a $op &$q),
            ("p op f", $p $op $b), ("p op &f", $p $op &$b), ("&p op f", &$p $op $b), ("&p op &f", &$p $op &$b),
        ];
        for (form, got) in floats {
            $o.check(eq(got, $want), concat!($name, "-float"), || format!("{:?} {} {:?} ({}) gives {:?}, the value is {:?}", $a, stringify!($op), $b, form, got, $want));
        }
    }};
}

fn arithmetic(c: &(f64, f64, f64)) -> Obs {
    let mut o = Obs::new();
    let (a, b, f) = *c;
    let (p, q) = (Probability::new_unchecked(a), Probability::new_unchecked(b));
    let (add, sub, mul, div, rem) = (a + b, a - b, a * b, a / b, a % b);
    o.nontrivial([add, sub, div, rem].iter().any(|x| inside(*x)));
    o.class(if inside(add) { "sum is a probability" } else { "sum is refused" });
    o.class(if inside(sub) { "difference is a probability" } else { "difference is refused" });
    o.class(if inside(div) { "quotient is a probability" } else { "quotient is refused" });
    o.class(if inside(rem) { "remainder is a probability" } else { "remainder is refused" });
    forms!(o, +, "sum", a, b, p, q, add, |r| r.ok().map(|x| x.unwrap()));
    forms!(o, -, "difference", a, b, p, q, sub, |r| r.ok().map(|x| x.unwrap()));
    forms!(o, /, "quotient", a, b, p, q, div, |r| r.ok().map(|x| x.unwrap()));
    forms!(o, %, "remainder", a, b, p, q, rem, |r| r.ok().map(|x| x.unwrap()));
    forms!(o, *, "product", a, b, p, q, mul, |r| Some(r.unwrap()));
    // With a float that is no probability.
    for (form, got, want) in [
        ("p + f", p + f, a + f), ("f + p", f + p, f + a), ("p - f", p - f, a - f), ("f - p", f - p, f - a),
        ("p * f", p * f, a * f), ("f * p", f * p, f * a), ("p / f", p / f, a / f), ("f / p", f / p, f / a),
        ("p % f", p % f, a % f), ("f % p", f % p, f % a),
    ] {
        o.check(eq(got, want), "float", || format!("{} with {:?}, {:?} gives {:?}, the value is {:?}", form, a, f, got, want));
    }
    // Order and equality are those of the floats.
    o.check((p < q) == (a < b) && (p == q) == (a == b) && (p > q) == (a > b), "order", || format!("{:?} and {:?} compare differently as probabilities", a, b));
    o.check((p == f) == (a == f), "order", || format!("{:?} and the float {:?} compare differently", a, f));
    o
}

fn sums(c: &Vec<f64>) -> Obs {
    let mut o = Obs::new();
    let ps: Vec<Probability> = c.iter().map(|x| Probability::new_unchecked(*x)).collect();
    let want: f64 = c.iter().sum();
    let a: f64 = ps.iter().sum();
    let b: f64 = ps.into_iter().sum();
    o.nontrivial(c.len() > 1);
    let tol = 1e-12 * (1.0 + want.abs());
    o.check((a - want).abs() <= tol && (b - want).abs() <= tol, "sum", || format!("{:?}: sums {:?} and {:?}", c, a, b));
    o
}

// ------------------------------------------------------------------------------------------
// Probability vectors
// ------------------------------------------------------------------------------------------

/// A stream that starts with given words and goes on at random.
pub struct Scripted {
    words: Vec<u64>,
    at: usize,
    rest: StdRng,
}

impl Scripted {
    pub fn new(words: Vec<u64>, seed: u64) -> Scripted { Scripted { words, at: 0, rest: StdRng::seed_from_u64(seed) } }
}

impl RngCore for Scripted {
    fn next_u32(&mut self) -> u32 { (self.next_u64() >> 32) as u32 }

    fn next_u64(&mut self) -> u64 {
        if self.at < self.words.len() {
            self.at += 1;
            self.words[self.at - 1]
        } else {
            self.rest.next_u64()
        }
    }

    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let w = self.next_u64().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }

    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

pub fn word() -> BoxedStrategy<u64> {
    Union::new_weighted(vec![
        (2, any::<u64>().boxed()),
        (2, proptest::sample::select(vec![0, 1, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 11, (1 << 11) - 1]).boxed()),
    ])
    .boxed()
}

macro_rules! with_n {
    ($v:expr, $n:ident, $a:ident => $body:expr) => {
        match $v.len() {
            1 => { const $n: usize = 1; let $a: [f64; 1] = $v[..].try_into().unwrap(); $body },
            2 => { const $n: usize = 2; let $a: [f64; 2] = $v[..].try_into().unwrap(); $body },
            3 => { const $n: usize = 3; let $a: [f64; 3] = $v[..].try_into().unwrap(); $body },
            4 => { const $n: usize = 4; let $a: [f64; 4] = $v[..].try_into().unwrap(); $body },
            7 => { const $n: usize = 7; let $a: [f64; 7] = $v[..].try_into().unwrap(); $body },
            20 => { const $n: usize = 20; let $a: [f64; 20] = $v[..].try_into().unwrap(); $body },
            33 => { const $n: usize = 33; let $a: [f64; 33] = $v[..].try_into().unwrap(); $body },
            65 => { const $n: usize = 65; let $a: [f64; 65] = $v[..].try_into().unwrap(); $body },
            300 => { const $n: usize = 300; let $a: [f64; 300] = $v[..].try_into().unwrap(); $body },
            k => panic!("no dimension {}", k),
        }
    };
}

fn dims() -> BoxedStrategy<usize> { Union::new_weighted(vec![(24, proptest::sample::select(vec![1usize, 2, 3, 4, 7, 20]).boxed()), (1, proptest::sample::select(vec![33usize, 65, 300]).boxed())]).boxed() }

/// Weights, and a total they are scaled to.
fn vectors() -> BoxedStrategy<(Vec<f64>, u8, f64)> {
    dims()
        .prop_flat_map(|n| {
            let w = Union::new_weighted(vec![(4, (0.0..1.0f64).boxed()), (2, Just(0.0).boxed()), (1, pbt::gen::logu(1e-9, 1.0)), (1, Just(1.0).boxed())]);
            (proptest::collection::vec(w, n), 0u8..=9, edge())
        })
        .boxed()
}

fn weights(c: &(Vec<f64>, u8, f64)) -> Vec<f64> {
    let mut v = c.0.clone();
    let s: f64 = v.iter().sum();
    if s == 0.0 {
        v[0] = 1.0;
    } else {
        v.iter_mut().for_each(|x| *x /= s);
    }
    v
}

fn accept(c: &(Vec<f64>, u8, f64)) -> Obs {
    let mut o = Obs::new();
    let mut v = weights(c);
    let n = v.len();
    match c.1 {
        0..=2 => {},
        3 => v.iter_mut().for_each(|x| *x *= 1.0 + 9e-6 * (c.2.abs().min(1.0) * 2.0 - 1.0)),
        4 => v.iter_mut().for_each(|x| *x *= 1.01),
        5 => v.iter_mut().for_each(|x| *x *= 0.98),
        6 => v[n / 2] = c.2,
        7 => {
            // Two wrongs that add up to one.
            if n >= 2 {
                v = vec![0.0; n];
                v[0] = 1.5;
                v[n - 1] = -0.5;
            }
        },
        8 => v = c.0.clone(),
        _ => v[0] = f64::NAN,
    }
    let total: f64 = v.iter().sum();
    let off = (total - 1.0).abs();
    let entries = v.iter().all(|x| inside(*x));
    let want = if !entries { Some(false) } else if off < 0.95e-5 { Some(true) } else if off > 1.05e-5 || off.is_nan() { Some(false) } else { None };
    o.class(match want { Some(true) => "valid", Some(false) => "invalid", None => "at the edge of the slack" });
    o.nontrivial(want.is_some() && n > 1);
    with_n!(v, N, a => {
        for (what, got) in [("new", SimplexVector::<N>::new(a)), ("try_from", SimplexVector::<N>::try_from(a))] {
            if let Some(w) = want {
                o.check(got.is_ok() == w, if w { "refused" } else { "accepted" }, || format!("{} of {:?}: {:?}", what, a, got.is_ok()));
            }
            if let Ok(s) = got {
                o.check(s.iter().zip(a.iter()).all(|(x, y)| eq(*x, *y)), "altered", || format!("{:?} became {:?}", a, s));
                o.check(s.clone().unwrap().iter().zip(a.iter()).all(|(x, y)| eq(*x, *y)), "altered", || format!("{:?} became {:?}", a, s));
            }
        }
        let c = SimplexVector::<N>::centre();
        o.check(c.iter().all(|x| (*x - 1.0 / N as f64).abs() < 1e-15), "centre", || format!("the centre is {:?}", c));
    });
    o
}

/// A multinomial count that is too far from its weight to be chance (probability 1e-12 each).
pub fn too_far(count: usize, n: usize, p: f64) -> bool {
    let q = count as f64 / n as f64;
    let kl = |q: f64, p: f64| -> f64 {
        let t = |a: f64, b: f64| if a == 0.0 { 0.0 } else if b <= 0.0 { f64::INFINITY } else { a * (a / b).ln() };
        t(q, p) + t(1.0 - q, 1.0 - p)
    };
    kl(q, p.clamp(0.0, 1.0)) * n as f64 > 30.0
}

/// The index whose part of the unit interval contains `u`, if `u` is not within `slack` of its ends.
fn part(a: &[f64], u: f64, slack: f64) -> Option<usize> {
    let mut lo = 0.0;
    for (i, p) in a.iter().enumerate() {
        if u > lo + slack && u < lo + p - slack { return Some(i); }
        lo += p;
    }
    None
}

/// The share of the unit interval that each index gets, to the last digits. Only where the
/// sampler inverts the cumulative weights (from either end), which is found out first; the
/// frequencies decide for every other kind of sampler.
fn shares(c: &((Vec<f64>, u8, f64), Vec<f64>, u64)) -> Obs {
    let mut o = Obs::new();
    let mut v = c.0 .0.clone();
    // Small weights next to large ones.
    let n = v.len();
    for (x, e) in v.iter_mut().zip(c.1.iter()) {
        *x = if *e < -15.0 { 0.0 } else { *x * 10f64.powf(*e) };
    }
    let s: f64 = v.iter().sum();
    if s <= 0.0 { v[n / 2] = 1.0; } else { v.iter_mut().for_each(|x| *x /= s); }
    with_n!(v, N, a => {
        let s = SimplexVector::<N>::new_unchecked(a);
        let at = |u: f64| {
            let w = ((u * (1u64 << 53) as f64) as u64).min((1 << 53) - 1) << 11;
            (s.sample_index(&mut Scripted::new(vec![w], c.2)), (w >> 11) as f64 / (1u64 << 53) as f64)
        };
        let agrees = |u: f64, back: bool, slack: f64| {
            let (i, u) = at(u);
            part(&a, if back { 1.0 - u } else { u }, slack).map_or(true, |j| i == j)
        };
        let grid: Vec<f64> = (0..64).map(|k| (k as f64 + 0.5) / 64.0).collect();
        let kind = [false, true].into_iter().find(|b| grid.iter().all(|u| agrees(*u, *b, 1e-3)));
        o.class(match kind { Some(false) => "inverts from the start", Some(true) => "inverts from the end", None => "another sampler" });
        if let Some(back) = kind {
            let mut lo = 0.0;
            for i in 0..N {
                let hi: f64 = lo + a[i];
                for u in [lo + 1e-11, hi - 1e-11, lo + 1e-9, hi - 1e-9, lo + 1e-7, hi - 1e-7, 0.5 * (lo + hi), 1e-11, 1.0 - 1e-11] {
                    if u <= 0.0 || u >= 1.0 { continue; }
                    let w = if back { 1.0 - u } else { u };
                    let (got, _) = at(w);
                    o.check(agrees(w, back, 4e-12), "share", || format!("weights {:?}: the point {:?} belongs to {:?} but gives index {}", a, u, part(&a, u, 4e-12), got));
                }
                lo = hi;
            }
            o.nontrivial(v.iter().any(|x| *x > 0.0 && *x < 1e-5));
        }
    });
    o
}

fn indices(c: &((Vec<f64>, u8, f64), Vec<u64>, u64)) -> Obs {
    let mut o = Obs::new();
    let mut v = weights(&c.0);
    // Weights that sum to a little less (or more) than one are accepted, too.
    match c.0 .1 {
        0 | 1 => v.iter_mut().for_each(|x| *x *= 1.0 - 9e-6),
        2 => v.iter_mut().for_each(|x| *x = (*x * (1.0 + 9e-6)).min(1.0)),
        _ => {},
    }
    o.nontrivial(v.iter().filter(|x| **x > 0.0).count() > 1);
    o.class(format!("{} categories, {} of weight zero", v.len(), v.iter().filter(|x| **x == 0.0).count()));
    with_n!(v, N, a => {
        let s = SimplexVector::<N>::new_unchecked(a);
        // An adversarial stream.
        for w in c.1.iter() {
            let mut rng = Scripted::new(vec![*w], c.2);
            let i = s.sample_index(&mut rng);
            o.check(i < N && a[i] > 0.0, "impossible", || format!("weights {:?}: the stream starting with {:#x} gives index {}", a, w, i));
        }
        // Frequencies.
        let n = 4000;
        let mut rng = StdRng::seed_from_u64(c.2);
        let mut counts = [0usize; N];
        for _ in 0..n {
            let i = s.sample_index(&mut rng);
            if i < N { counts[i] += 1; } else { o.fail("impossible", format!("weights {:?}: index {}", a, i)); return o; }
        }
        for i in 0..N {
            o.check(a[i] > 0.0 || counts[i] == 0, "impossible", || format!("weights {:?}: index {} was drawn {} times", a, i, counts[i]));
            // The slack of the weights may go to any index.
            let slack = if counts[i] as f64 / n as f64 > a[i] { 1e-5 } else { -1e-5 };
            o.check(!too_far(counts[i], n, a[i] + slack) || (a[i] + slack - counts[i] as f64 / n as f64).abs() < 1e-4, "frequency", || format!("weights {:?}: index {} was drawn {} times of {}", a, i, counts[i], n));
        }
    });
    o
}

fn random_vector(c: &(usize, Vec<u64>, u64)) -> Obs {
    let mut o = Obs::new();
    o.nontrivial(c.0 > 1);
    let zero = vec![0.0; c.0];
    with_n!(zero, N, a => {
        let _ = a;
        let mut one = |o: &mut Obs, v: SimplexVector<N>| {
            let s: f64 = v.iter().sum();
            o.check(v.iter().all(|x| inside(*x)) && (s - 1.0).abs() < 1e-9, "invalid", || format!("a random vector of dimension {} is {:?}", N, v));
            o.check(SimplexVector::<N>::new(v.clone().unwrap()).is_ok(), "invalid", || format!("a random vector of dimension {} is refused: {:?}", N, v));
        };
        // The first words of the stream are chosen adversarially (never all of them the same).
        let v = SimplexVector::<N>::sample(&mut Scripted::new(c.1.iter().take(N.saturating_sub(1)).cloned().collect(), c.2));
        one(&mut o, v);
        let mut rng = StdRng::seed_from_u64(c.2);
        for _ in 0..50 {
            let v = SimplexVector::<N>::sample(&mut rng);
            one(&mut o, v);
        }
    });
    o
}

/// Largest distance between the empirical and the reference distribution function at the
/// sample points, and the distance allowed with error probability 1e-12.
pub fn dkw(xs: Vec<f64>, cdf: impl Fn(f64) -> f64) -> (f64, f64, f64, f64, f64) { dkw_within(xs, f64::NEG_INFINITY, f64::INFINITY, cdf) }

/// The same, probing between two bounds only.
pub fn dkw_within(mut xs: Vec<f64>, lo: f64, hi: f64, cdf: impl Fn(f64) -> f64) -> (f64, f64, f64, f64, f64) {
    xs.sort_by(|a, b| a.total_cmp(b));
    let n = xs.len();
    let eps = ((2.0f64 / 1e-12).ln() / (2.0 * n as f64)).sqrt() + 1e-6;
    let mut worst = (0.0, 0.0, 0.0, 0.0);
    for i in 1..60 {
        let x = xs[i * n / 60];
        if x < lo || x > hi {
            continue;
        }
        let e = xs.partition_point(|y| *y <= x) as f64 / n as f64;
        let eb = xs.partition_point(|y| *y < x) as f64 / n as f64;
        let r = cdf(x);
        for e in [e, eb] {
            if !((e - r as f64).abs() <= worst.0) {
                worst = ((e - r).abs(), x, e, r);
            }
        }
    }
    (worst.0, eps, worst.1, worst.2, worst.3)
}

fn uniform_simplex(c: &(usize, u64, u64)) -> Obs {
    let mut o = Obs::new();
    o.nontrivial(c.0 > 1);
    if c.0 < 2 {
        return o;
    }
    let zero = vec![0.0; c.0];
    with_n!(zero, N, a => {
        let _ = a;
        let mut rng = StdRng::seed_from_u64(c.1);
        let n = 20_000;
        // The sum over a proper subset of m coordinates is Beta(m, K - m).
        let mut subsets: Vec<Vec<usize>> = vec![vec![0], vec![N - 1], vec![(c.2 as usize) % N]];
        let mut random: Vec<usize> = (0..N).filter(|i| c.2.rotate_right(*i as u32 % 64) & 1 == 1).collect();
        if random.is_empty() || random.len() == N {
            random = vec![N / 2];
        }
        subsets.push(random);
        let vs: Vec<[f64; N]> = (0..n).map(|_| SimplexVector::<N>::sample(&mut rng).unwrap()).collect();
        for set in subsets {
            let l = laws::beta(&[set.len() as f64, (N - set.len()) as f64]);
            let xs: Vec<f64> = vs.iter().map(|v| set.iter().map(|i| v[*i]).sum::<f64>().clamp(0.0, 1.0)).collect();
            let (d, eps, x, e, r) = dkw(xs, |x| l.cdf(x).0);
            o.check(d <= eps, "not uniform", || format!("dimension {}, sum of the coordinates {:?}: a fraction {:.4} is at most {:.4}, a uniform vector gives {:.4}", N, set, e, x, r));
        }
    });
    o
}

fn from_unchecked(c: &(Vec<f64>, u8, f64)) -> Obs {
    let mut o = Obs::new();
    let v = weights(c);
    o.nontrivial(true);
    let r = pbt_catch(|| {
        with_n!(v, N, a => {
            let s = SimplexVector::<N>::new_unchecked(a);
            (0..N).all(|i| eq(s[i], a[i])) && s.len() == N
        })
    });
    o.check(r == Ok(true), "unchecked", || format!("{:?} is not kept by new_unchecked", v));
    o
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            rule: "at least one of sum, difference, quotient and remainder is a probability",
            assumptions: vec!["the mathematical result of an operation is the correctly rounded double"],
            subs: vec![
                sub("construction", 20_000, 400_000, edge, construct),
                sub("arithmetic", 40_000, 1_000_000, || (probs(), probs(), edge()), arithmetic),
                sub("sums", 2_000, 20_000, || proptest::collection::vec(probs(), 0..12), sums),
            ],
        },
        Prop {
            id: "C07",
            rule: "more than one category (and, for acceptance, a decided case)",
            assumptions: vec!["dimensions 1, 2, 3, 4, 7 and 20", "statistical bounds with error probability 1e-12 each, at fixed seeds"],
            subs: vec![
                sub("acceptance", 20_000, 400_000, vectors, accept),
                sub("indices", 600, 12_000, || (vectors(), proptest::collection::vec(word(), 0..20), any::<u64>()), indices),
                sub("shares", 4_000, 80_000, || {
                    vectors().prop_flat_map(|v| {
                        let n = v.0.len();
                        (Just(v), proptest::collection::vec(Union::new_weighted(vec![(2, Just(0.0).boxed()), (3, (-9.0..0.0f64).boxed()), (1, Just(-20.0).boxed())]), n), any::<u64>())
                    }).boxed()
                }, shares),
                sub("random-vectors", 1_500, 30_000, || (dims(), proptest::collection::vec(word(), 20), any::<u64>()), random_vector),
                sub("uniformity", 24, 200, || (dims(), any::<u64>(), any::<u64>()), uniform_simplex),
                sub("unchecked", 500, 5_000, vectors, from_unchecked),
            ],
        },
    ]
}
