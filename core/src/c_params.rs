//! C02: a validated parameter holds exactly the accepted value, and its published
//! constraints are the ones its constructor enforces.
use crate::params::{constraints::{Constraint, Constraints}, *};
use pbt::proptest::{self, prelude::*};
use pbt::{gen, sub, Obs, Prop};

// Instances of the parameter-set macros, as the distributions use them.
mod set_a {
    use crate::params::{Count, Loc, Rate, DOF};
    params! {
        Params { n: Count<i64>, lambda: Rate<f64>, mu: Loc<f64>, k: DOF<i64> }
    }
}
mod set_b {
    locscale_params! { Params { mu<f64>, sigma<f64> } }
}
mod set_c {
    shape_params! { Params<f64> { alpha, beta } }
}
mod set_d {
    locscale_params! { Params { lb<i64>, width<i64> } }
}

fn satisfied<T>(cs: &Constraints<T>, x: &T) -> bool { cs.iter().all(|c| c.is_satisfied_by(x)) }

macro_rules! one {
    ($o:ident, $name:ident, $t:ty, $x:expr, $want:expr, $same:expr) => {{
        let (x, want): ($t, bool) = ($x, $want);
        let sig = stringify!($name);
        let published = satisfied(&<$name<$t> as Param>::constraints(), &x);
        $o.check(published == want, &format!("{}/published", sig), || {
            format!("{}: the published constraints give {} for {:?}", sig, published, x)
        });
        match $name::<$t>::new(x) {
            Ok(p) => {
                $o.check(want, &format!("{}/accepts", sig), || format!("{} accepted {:?}", sig, x));
                $o.check($same(p.value(), &x) && $same(&*p, &x) && $same(&p.0, &x), &format!("{}/value", sig), || {
                    format!("{} of {:?} holds {:?}", sig, x, p.value())
                });
                $o.check(p.to_string() == x.to_string(), &format!("{}/display", sig), || format!("shown as {}", p));
                $o.check($same(&p.into_value(), &x), &format!("{}/into_value", sig), || format!("{:?} changed", x));
            },
            Err(e) => {
                $o.check(!want, &format!("{}/rejects", sig), || format!("{} rejected {:?}", sig, x));
                $o.check($same(&e.value, &x), &format!("{}/error-value", sig), || format!("error carries {:?} for {:?}", e.value, x));
                $o.check(want || !e.constraint.is_satisfied_by(&x), &format!("{}/error-constraint", sig), || {
                    format!("{}: the error for {:?} names {}, which holds", sig, x, e.constraint)
                });
            },
        }
        let p = $name::<$t>::new_unchecked(x);
        $o.check($same(p.value(), &x) && $same(&p.into_value(), &x), &format!("{}/unchecked", sig), || format!("{:?} changed", x));
    }};
}

fn concentrations<const N: usize>(o: &mut Obs, xs: &[f64]) {
    let mut a = [0.0; N];
    a.copy_from_slice(&xs[..N]);
    let want = N > 0 && a.iter().all(|x| *x > 0.0);
    let same = |p: &[f64; N]| p.iter().zip(a.iter()).all(|(x, y)| x.to_bits() == y.to_bits());
    let published = satisfied(&Concentrations::<N>::constraints(), &a);
    o.check(published == want, "Concentrations/published", || format!("published constraints give {} for {:?}", published, a));
    match Concentrations::<N>::new(a) {
        Ok(c) => {
            o.check(want, "Concentrations/accepts", || format!("accepted {:?}", a));
            o.check(same(c.value()) && same(&c.clone().into_value()), "Concentrations/value", || format!("{:?} became {:?}", a, c));
        },
        Err(e) => {
            o.check(!want, "Concentrations/rejects", || format!("rejected {:?}: {}", a, e));
            o.check(same(&e.value), "Concentrations/error-value", || format!("error carries {:?} for {:?}", e.value, a));
        },
    }
    o.nontrivial(N > 1);
    o.class(if want { "valid" } else { "invalid" });
}

pub fn params() -> Prop {
    Prop {
        id: "C02",
        rule: "Arbitrary doubles and integers (special values common) are offered to every parameter type and to parameter sets \
               built with the crate's macros. Non-trivial: a value at or next to the boundary of acceptance, an array of two or \
               more entries, or a set with at most one unacceptable entry. Distinct by case.",
        assumptions: vec![],
        subs: vec![
            sub("f64", 20_000, 400_000, || gen::any_f64(), |&x| {
                let mut o = Obs::new();
                let b = |p: &f64, q: &f64| p.to_bits() == q.to_bits();
                one!(o, Loc, f64, x, true, b);
                one!(o, Scale, f64, x, x > 0.0, b);
                one!(o, Rate, f64, x, x > 0.0, b);
                one!(o, Shape, f64, x, x > 0.0, b);
                one!(o, DOF, f64, x, x > 0.0, b);
                one!(o, Count, f64, x, x >= 0.0, b);
                o.nontrivial(x.abs() <= 1.0 || !x.is_finite());
                o.class(if x != x { "nan" } else if x > 0.0 { "positive" } else if x == 0.0 { "zero" } else { "negative" });
                o
            }),
            sub("i64", 10_000, 200_000, || gen::any_i64(), |&x| {
                let mut o = Obs::new();
                let b = |p: &i64, q: &i64| p == q;
                one!(o, Loc, i64, x, true, b);
                one!(o, Scale, i64, x, x > 0, b);
                one!(o, Rate, i64, x, x > 0, b);
                one!(o, Shape, i64, x, x > 0, b);
                one!(o, DOF, i64, x, x > 0, b);
                one!(o, Count, i64, x, x >= 0, b);
                o.nontrivial(x.unsigned_abs() <= 1 || x == i64::MIN || x == i64::MAX);
                o
            }),
            sub("usize", 5_000, 100_000, || prop_oneof![0usize..4, any::<usize>()], |&x| {
                let mut o = Obs::new();
                let b = |p: &usize, q: &usize| p == q;
                one!(o, Loc, usize, x, true, b);
                one!(o, Scale, usize, x, x > 0, b);
                one!(o, Shape, usize, x, x > 0, b);
                one!(o, DOF, usize, x, x > 0, b);
                one!(o, Count, usize, x, true, b);
                o.nontrivial(x <= 1);
                o
            }),
            sub("corr", 10_000, 200_000, || prop_oneof![gen::any_f64(), (-1.2..1.2f64).boxed()], |&x| {
                let mut o = Obs::new();
                let want = x >= -1.0 && x <= 1.0;
                let published = satisfied(&Corr::constraints(), &x);
                o.check(published == want, "Corr/published", || format!("published constraints give {} for {:?}", published, x));
                match Corr::new(x) {
                    Ok(c) => {
                        o.check(want, "Corr/accepts", || format!("accepted {:?}", x));
                        o.check(c.value().to_bits() == x.to_bits() && c.into_value().to_bits() == x.to_bits(), "Corr/value", || format!("{:?} became {:?}", x, c));
                    },
                    Err(e) => {
                        o.check(!want, "Corr/rejects", || format!("rejected {:?}", x));
                        o.check(e.value.to_bits() == x.to_bits(), "Corr/error-value", || format!("error carries {:?} for {:?}", e.value, x));
                    },
                }
                o.nontrivial(x.abs() > 0.8 && x.abs() < 1.2 || x != x);
                o
            }),
            sub("concentrations", 10_000, 200_000,
                || (prop_oneof![12 => 0..=6usize, 1 => gen::sizes(7, 320)].prop_flat_map(|n| proptest::collection::vec(gen::logu(1e-3, 1e3), n)), proptest::option::of((any::<usize>(), gen::any_f64()))),
                |(xs, hit)| {
                    let mut o = Obs::new();
                    let mut v = xs.clone();
                    if let (Some((i, x)), true) = (hit, !v.is_empty()) {
                        let n = v.len();
                        v[i % n] = *x;
                    }
                    match v.len() {
                        0 => concentrations::<0>(&mut o, &v),
                        1 => concentrations::<1>(&mut o, &v),
                        2 => concentrations::<2>(&mut o, &v),
                        3 => concentrations::<3>(&mut o, &v),
                        4 => concentrations::<4>(&mut o, &v),
                        5 => concentrations::<5>(&mut o, &v),
                        6 => concentrations::<6>(&mut o, &v),
                        7..=8 => concentrations::<7>(&mut o, &v[..7]),
                        9..=16 => concentrations::<9>(&mut o, &v[..9]),
                        17..=32 => concentrations::<17>(&mut o, &v[..17]),
                        33..=63 => concentrations::<33>(&mut o, &v[..33]),
                        64..=99 => concentrations::<64>(&mut o, &v[..64]),
                        100..=299 => concentrations::<100>(&mut o, &v[..100]),
                        _ => concentrations::<300>(&mut o, &v[..300]),
                    }
                    o
                }),
            sub("sets", 20_000, 400_000,
                || (gen::any_i64(), gen::any_f64(), gen::any_f64(), gen::any_i64(), gen::any_f64()),
                |&(n, l, m, k, y)| {
                    let mut o = Obs::new();
                    let eq = |a: f64, b: f64| a.to_bits() == b.to_bits();

                    let want = [n >= 0, l > 0.0, k > 0];
                    let got = set_a::Params::new(n, l, m, k);
                    o.check(got.is_ok() == want.iter().all(|w| *w), "set/mixed", || format!("{:?}: ok = {}", (n, l, m, k), got.is_ok()));
                    if let Ok(p) = got {
                        o.check(p.n.0 == n && eq(p.lambda.0, l) && eq(p.mu.0, m) && p.k.0 == k, "set/mixed-values", || format!("{:?} became {:?}", (n, l, m, k), p));
                    }
                    let p = set_a::Params::new_unchecked(n, l, m, k);
                    o.check(p.n.0 == n && eq(p.lambda.0, l) && eq(p.mu.0, m) && p.k.0 == k, "set/mixed-unchecked", || format!("{:?} became {:?}", (n, l, m, k), p));

                    let got = set_b::Params::new(m, l);
                    o.check(got.is_ok() == (l > 0.0), "set/locscale", || format!("{:?}: ok = {}", (m, l), got.is_ok()));
                    if let Ok(p) = got {
                        o.check(eq(p.mu.0, m) && eq(p.sigma.0, l), "set/locscale-values", || format!("{:?} became {:?}", (m, l), p));
                    }
                    let got = set_c::Params::new(l, y);
                    o.check(got.is_ok() == (l > 0.0 && y > 0.0), "set/shape", || format!("{:?}: ok = {}", (l, y), got.is_ok()));
                    if let Ok(p) = got {
                        o.check(eq(p.alpha.0, l) && eq(p.beta.0, y), "set/shape-values", || format!("{:?} became {:?}", (l, y), p));
                    }
                    let got = set_d::Params::new(n, k);
                    o.check(got.is_ok() == (k > 0), "set/integer", || format!("{:?}: ok = {}", (n, k), got.is_ok()));
                    if let Ok(p) = got {
                        o.check(p.lb.0 == n && p.width.0 == k, "set/integer-values", || format!("{:?} became {:?}", (n, k), p));
                    }

                    let bad = want.iter().filter(|w| !**w).count();
                    o.nontrivial(bad <= 1);
                    o.class(match bad { 0 => "valid set", 1 => "one bad entry", _ => "several bad entries" });
                    o
                }),
        ],
    }
}
