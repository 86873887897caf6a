//! C01 (constraints accept exactly what they say) and C03 (rejections identify themselves).
use crate::params::constraints::*;
use pbt::proptest::{self, prelude::*};
use pbt::{gen, sub, Obs, Prop};
use std::cmp::Ordering;
use std::fmt::Debug;

fn bits(x: &f64, y: &f64) -> bool { x.to_bits() == y.to_bits() }

/// Predicate and `check` of one constraint against the expected truth value.
fn decide<T, C>(o: &mut Obs, sig: &str, c: impl Fn() -> C, x: &T, want: bool, same: impl Fn(&T, &T) -> bool)
where
    T: Clone + Debug,
    C: Constraint<T> + 'static,
{
    let got = c().is_satisfied_by(x);
    o.check(got == want, &format!("{}/predicate", sig), || {
        format!("{:?}: is_satisfied_by gives {}, definition gives {}", x, got, want)
    });
    match c().check(x.clone()) {
        Ok(y) => {
            o.check(want, &format!("{}/check-accepts", sig), || format!("check accepted {:?}", x));
            o.check(same(&y, x), &format!("{}/value", sig), || format!("check({:?}) returned {:?}", x, y));
        },
        Err(e) => {
            o.check(!want, &format!("{}/check-rejects", sig), || format!("check rejected {:?}", x));
            o.check(same(&e.value, x), &format!("{}/error-value", sig), || {
                format!("the error for {:?} carries {:?}", x, e.value)
            });
            o.check(e.target.is_none(), &format!("{}/error-target", sig), || "target set from nowhere".into());
            if !want {
                o.check(!e.constraint.is_satisfied_by(&e.value), &format!("{}/error-constraint", sig), || {
                    format!("the error names a constraint that {:?} satisfies: {}", e.value, e.constraint)
                });
            }
        },
    }
    // Seen through a box, the constraint is the same constraint.
    let b: Box<dyn Constraint<T>> = Box::new(c());
    let got = b.is_satisfied_by(x);
    o.check(got == want, &format!("{}/boxed", sig), || format!("{:?}: boxed predicate gives {}", x, got));
}

fn lt<T: PartialOrd>(a: &T, b: &T) -> bool { a.partial_cmp(b) == Some(Ordering::Less) }
fn eq<T: PartialOrd>(a: &T, b: &T) -> bool { a.partial_cmp(b) == Some(Ordering::Equal) }
fn gt<T: PartialOrd>(a: &T, b: &T) -> bool { a.partial_cmp(b) == Some(Ordering::Greater) }

macro_rules! scalar {
    ($o:ident, $t:ty, $x:expr, $a:expr, $b:expr, $same:expr) => {{
        let (x, a, b): ($t, $t, $t) = ($x, $a, $b);
        let z: $t = 0 as $t;
        decide(&mut $o, "Negative", || Negative, &x, lt(&x, &z), $same);
        decide(&mut $o, "NonPositive", || NonPositive, &x, lt(&x, &z) || eq(&x, &z), $same);
        decide(&mut $o, "Positive", || Positive, &x, gt(&x, &z), $same);
        decide(&mut $o, "NonNegative", || NonNegative, &x, gt(&x, &z) || eq(&x, &z), $same);
        decide(&mut $o, "Equal", move || Equal(a), &x, eq(&x, &a), $same);
        decide(&mut $o, "LessThan", move || LessThan(a), &x, lt(&x, &a), $same);
        decide(&mut $o, "LessThanOrEqual", move || LessThanOrEqual(a), &x, lt(&x, &a) || eq(&x, &a), $same);
        decide(&mut $o, "GreaterThan", move || GreaterThan(a), &x, gt(&x, &a), $same);
        decide(&mut $o, "GreaterThanOrEqual", move || GreaterThanOrEqual(a), &x, gt(&x, &a) || eq(&x, &a), $same);
        let inside = (gt(&x, &a) || eq(&x, &a)) && (lt(&x, &b) || eq(&x, &b));
        decide(&mut $o, "Interval", move || Interval { lb: a, ub: b }, &x, inside, $same);
        decide(&mut $o, "Not-Interval", move || Not(Interval { lb: a, ub: b }), &x, !inside, $same);
        decide(&mut $o, "All-Positive", || All(Positive), &x, gt(&x, &z), $same);
        decide(&mut $o, "All-Interval", move || All(Interval { lb: a, ub: b }), &x, inside, $same);
        decide(&mut $o, "Or", move || Or((LessThan(a), GreaterThan(b))), &x, lt(&x, &a) || gt(&x, &b), $same);
        decide(&mut $o, "And", move || And((GreaterThan(a), LessThan(b))), &x, gt(&x, &a) && lt(&x, &b), $same);
        let macro_ok: Vec<(bool, bool, &str)> = vec![
            (assert_constraint!(x+).is_ok(), gt(&x, &z), "x+"),
            (assert_constraint!(x == a).is_ok(), eq(&x, &a), "x == a"),
            (assert_constraint!(x < a).is_ok(), lt(&x, &a), "x < a"),
            (assert_constraint!(x <= a).is_ok(), lt(&x, &a) || eq(&x, &a), "x <= a"),
            (assert_constraint!(x > a).is_ok(), gt(&x, &a), "x > a"),
            (assert_constraint!(x >= a).is_ok(), gt(&x, &a) || eq(&x, &a), "x >= a"),
        ];
        for (got, want, text) in macro_ok {
            $o.check(got == want, "assertion-macro", || {
                format!("assertion {} for x = {:?}, a = {:?} gives {}", text, x, a, got)
            });
        }
        $o.nontrivial(eq(&x, &a) || eq(&x, &b) || eq(&x, &z) || lt(&a, &b));
        $o.class(if eq(&x, &a) || eq(&x, &b) { "on a bound" } else if x != x { "nan" } else { "off the bounds" });
    }};
}

// Triples (x, a, b) in which x often sits exactly on a bound.
fn triple<T: Copy + Debug + 'static>(s: BoxedStrategy<T>) -> BoxedStrategy<(T, T, T)> {
    (s.clone(), s.clone(), s, 0u8..5).prop_map(|(x, a, b, k)| match k {
        0 => (a, a, b),
        1 => (b, a, b),
        2 => (x, a, a),
        _ => (x, a, b),
    }).boxed()
}

// ------------------------------------------------------------------ combinator expressions
/// Postfix program: 0..=9 push a leaf, 10 Not, 11 All, 12 And, 13 Or.
type Code = Vec<(u8, f64, f64)>;

enum Ex {
    Leaf(u8, f64, f64),
    Not(Box<Ex>),
    All(Box<Ex>),
    And(Box<Ex>, Box<Ex>),
    Or(Box<Ex>, Box<Ex>),
}

fn parse(code: &Code) -> Ex {
    let mut st: Vec<Ex> = vec![];
    for &(op, a, b) in code.iter() {
        let e = match op {
            0..=9 => Ex::Leaf(op, a, b),
            10 | 11 => match st.pop() {
                Some(x) => if op == 10 { Ex::Not(Box::new(x)) } else { Ex::All(Box::new(x)) },
                None => Ex::Leaf(0, a, b),
            },
            _ => if st.len() >= 2 {
                let y = Box::new(st.pop().unwrap());
                let x = Box::new(st.pop().unwrap());
                if op == 12 { Ex::And(x, y) } else { Ex::Or(x, y) }
            } else {
                Ex::Leaf(9, a, b)
            },
        };
        st.push(e);
    }
    // Whatever is left over is joined by alternating And and Or.
    let mut it = st.into_iter();
    let mut acc = it.next().unwrap_or(Ex::Leaf(0, 0.0, 0.0));
    for (i, e) in it.enumerate() {
        acc = if i % 2 == 0 { Ex::And(Box::new(acc), Box::new(e)) } else { Ex::Or(Box::new(acc), Box::new(e)) };
    }
    acc
}

type BC = Box<dyn Constraint<f64>>;

fn build(e: &Ex) -> BC {
    match e {
        Ex::Leaf(0, ..) => Box::new(Negative),
        Ex::Leaf(1, ..) => Box::new(NonPositive),
        Ex::Leaf(2, ..) => Box::new(Positive),
        Ex::Leaf(3, ..) => Box::new(NonNegative),
        Ex::Leaf(4, a, _) => Box::new(Equal(*a)),
        Ex::Leaf(5, a, _) => Box::new(LessThan(*a)),
        Ex::Leaf(6, a, _) => Box::new(LessThanOrEqual(*a)),
        Ex::Leaf(7, a, _) => Box::new(GreaterThan(*a)),
        Ex::Leaf(8, a, _) => Box::new(GreaterThanOrEqual(*a)),
        Ex::Leaf(_, a, b) => Box::new(Interval { lb: *a, ub: *b }),
        Ex::Not(x) => Box::new(Not(build(x))),
        Ex::All(x) => Box::new(All(build(x))),
        Ex::And(x, y) => Box::new(And((build(x), build(y)))),
        Ex::Or(x, y) => Box::new(Or((build(x), build(y)))),
    }
}

fn eval(e: &Ex, x: f64) -> bool {
    match e {
        Ex::Leaf(0, ..) => lt(&x, &0.0),
        Ex::Leaf(1, ..) => lt(&x, &0.0) || eq(&x, &0.0),
        Ex::Leaf(2, ..) => gt(&x, &0.0),
        Ex::Leaf(3, ..) => gt(&x, &0.0) || eq(&x, &0.0),
        Ex::Leaf(4, a, _) => eq(&x, a),
        Ex::Leaf(5, a, _) => lt(&x, a),
        Ex::Leaf(6, a, _) => lt(&x, a) || eq(&x, a),
        Ex::Leaf(7, a, _) => gt(&x, a),
        Ex::Leaf(8, a, _) => gt(&x, a) || eq(&x, a),
        Ex::Leaf(_, a, b) => (gt(&x, a) || eq(&x, a)) && (lt(&x, b) || eq(&x, b)),
        Ex::Not(a) => !eval(a, x),
        Ex::All(a) => eval(a, x),
        Ex::And(a, b) => eval(a, x) & eval(b, x),
        Ex::Or(a, b) => eval(a, x) | eval(b, x),
    }
}

fn small() -> BoxedStrategy<f64> {
    prop_oneof![
        4 => (-3i32..=3).prop_map(|i| i as f64),
        1 => gen::any_f64(),
    ].boxed()
}

/// The top node's own check (not the one of the box around it).
fn own_check(e: &Ex, x: f64) -> std::result::Result<f64, UnsatisfiedConstraintError<f64>> {
    match e {
        Ex::Leaf(..) => build(e).check(x),
        Ex::Not(a) => Not(build(a)).check(x),
        Ex::All(a) => All(build(a)).check(x),
        // Two levels with their own types, so that inner checks are not those of boxes.
        Ex::And(a, b) => match (&**a, &**b) {
            (Ex::Or(p, q), _) => And((Or((build(p), build(q))), build(b))).check(x),
            (_, Ex::Or(p, q)) => And((build(a), Or((build(p), build(q))))).check(x),
            (Ex::And(p, q), _) => And((And((build(p), build(q))), build(b))).check(x),
            (Ex::Not(p), Ex::Not(q)) => And((Not(build(p)), Not(build(q)))).check(x),
            (Ex::Not(p), _) => And((Not(build(p)), build(b))).check(x),
            (_, Ex::Not(q)) => And((build(a), Not(build(q)))).check(x),
            _ => And((build(a), build(b))).check(x),
        },
        Ex::Or(a, b) => match (&**a, &**b) {
            (Ex::And(p, q), _) => Or((And((build(p), build(q))), build(b))).check(x),
            (_, Ex::And(p, q)) => Or((build(a), And((build(p), build(q))))).check(x),
            (Ex::Or(p, q), _) => Or((Or((build(p), build(q))), build(b))).check(x),
            (Ex::Not(p), Ex::Not(q)) => Or((Not(build(p)), Not(build(q)))).check(x),
            (Ex::Not(p), _) => Or((Not(build(p)), build(b))).check(x),
            (_, Ex::Not(q)) => Or((build(a), Not(build(q)))).check(x),
            _ => Or((build(a), build(b))).check(x),
        },
    }
}

fn expr(o: &mut Obs, code: &Code, xs: &[f64]) {
    let e = parse(code);
    let ops = code.iter().filter(|c| c.0 >= 10).count();
    for &x in xs {
        let want = eval(&e, x);
        let got = build(&e).is_satisfied_by(&x);
        o.check(got == want, "expression/predicate", || {
            format!("{} on {:?} gives {}, Boolean logic gives {}", build(&e), x, got, want)
        });
        let res = own_check(&e, x);
        match res {
            Ok(y) => o.check(want && bits(&x, &y), "expression/check", || {
                format!("{} on {:?}: check gave Ok({:?}), Boolean logic gives {}", build(&e), x, y, want)
            }),
            Err(err) => {
                o.check(!want, "expression/check", || {
                    format!("{} on {:?}: check rejected, Boolean logic gives {}", build(&e), x, want)
                });
                o.check(bits(&err.value, &x), "expression/error-value", || {
                    format!("{} on {:?}: the error carries {:?}", build(&e), x, err.value)
                });
                o.check(want || !err.constraint.is_satisfied_by(&err.value), "expression/error-constraint", || {
                    format!("{} on {:?}: the error names {}, which holds", build(&e), x, err.constraint)
                });
            },
        }
    }
    o.nontrivial(ops >= 2);
    o.class(match ops { 0 => "no operator", 1 => "1 operator", 2..=4 => "2-4 operators", _ => "5+ operators" });
}

// ------------------------------------------------------------------ collections
fn array<const N: usize>(o: &mut Obs, xs: &[f64]) {
    let mut a = [0.0; N];
    a.copy_from_slice(&xs[..N]);
    let same = |x: &[f64; N], y: &[f64; N]| x.iter().zip(y.iter()).all(|(a, b)| bits(a, b));
    decide(o, "array/All-Positive", || All(Positive), &a, a.iter().all(|x| *x > 0.0), same);
    decide(o, "array/All-NonNegative", || All(NonNegative), &a, a.iter().all(|x| *x >= 0.0), same);
    decide(o, "array/All-Interval", || All(Interval { lb: -1.0, ub: 1.0 }), &a, a.iter().all(|x| *x >= -1.0 && *x <= 1.0), same);
    decide(o, "array/Empty", || Empty, &a, N == 0, same);
    decide(o, "array/Not-Empty", || Not(Empty), &a, N != 0, same);
    decide(o, "array/And", || And((Not(Empty), All(Positive))), &a, N != 0 && a.iter().all(|x| *x > 0.0), same);
    decide(o, "array/Not-All", || Not(All(Positive)), &a, a.iter().any(|x| !(*x > 0.0)), same);
}

fn square<const N: usize>(o: &mut Obs, xs: &[f64]) {
    let mut m = [[0.0; N]; N];
    for i in 0..N {
        for j in 0..N {
            m[i][j] = xs[i * N + j];
        }
    }
    let same = |x: &[[f64; N]; N], y: &[[f64; N]; N]| {
        x.iter().flatten().zip(y.iter().flatten()).all(|(a, b)| bits(a, b))
    };
    decide(o, "matrix/Square", || Square, &m, true, same);
    decide(o, "matrix/All-All", || All(All(NonNegative)), &m, m.iter().flatten().all(|x| *x >= 0.0), same);
    decide(o, "matrix/And", || And((Square, All(All(Positive)))), &m, m.iter().flatten().all(|x| *x > 0.0), same);
}

fn collections(o: &mut Obs, xs: &Vec<f64>) {
    let same = |x: &Vec<f64>, y: &Vec<f64>| x.len() == y.len() && x.iter().zip(y.iter()).all(|(a, b)| bits(a, b));
    decide(o, "vec/All-Positive", || All(Positive), xs, xs.iter().all(|x| *x > 0.0), same);
    decide(o, "vec/All-NonNegative", || All(NonNegative), xs, xs.iter().all(|x| *x >= 0.0), same);
    decide(o, "vec/Empty", || Empty, xs, xs.is_empty(), same);
    decide(o, "vec/Not-Empty", || Not(Empty), xs, !xs.is_empty(), same);
    decide(o, "vec/Or", || Or((Empty, All(Negative))), xs, xs.is_empty() || xs.iter().all(|x| *x < 0.0), same);
    let mut p = xs.clone();
    p.resize(p.len().max(36).max(16), 1.0);
    match xs.len() {
        0 => array::<0>(o, &p),
        1 => array::<1>(o, &p),
        2 => array::<2>(o, &p),
        3 => array::<3>(o, &p),
        4 => array::<4>(o, &p),
        5 => array::<5>(o, &p),
        6 => array::<6>(o, &p),
        7..=8 => array::<7>(o, &p),
        9..=16 => array::<9>(o, &p),
        17..=24 => array::<17>(o, &p),
        25..=32 => array::<25>(o, &p),
        33..=63 => array::<33>(o, &p),
        64..=99 => array::<64>(o, &p),
        100..=299 => array::<100>(o, &p),
        _ => array::<300>(o, &p),
    }
    match xs.len() {
        0 => square::<0>(o, &p),
        1 => square::<1>(o, &p),
        2 | 3 => square::<2>(o, &p),
        4 | 5 => square::<3>(o, &p),
        6..=35 => square::<4>(o, &p),
        36..=99 => square::<6>(o, &p),
        100..=288 => square::<10>(o, &p),
        _ => square::<17>(o, &p),
    }
    let bad = xs.iter().filter(|x| !(**x > 0.0)).count();
    o.nontrivial(xs.len() >= 2 && bad <= 1);
    o.class(if xs.is_empty() { "empty" } else if bad == 0 { "all positive" } else if bad == 1 { "one not positive" } else { "several not positive" });
}

fn near_positive() -> BoxedStrategy<Vec<f64>> {
    (prop_oneof![12 => 0..=6usize, 1 => gen::sizes(7, 320)].prop_flat_map(|n| proptest::collection::vec(gen::logu(1e-3, 1e3), n)), proptest::option::of((any::<usize>(), gen::any_f64())))
        .prop_map(|(mut v, hit)| {
            if let Some((i, x)) = hit {
                if !v.is_empty() {
                    let n = v.len();
                    v[i % n] = x;
                }
            }
            v
        })
        .boxed()
}

pub fn predicates() -> Prop {
    Prop {
        id: "C01",
        rule: "Values, bounds, arrays, vectors, matrices and combinator expressions are generated (doubles with NaN, \
               infinities, signed zeros and subnormals common; values placed on bounds on purpose) and every constraint is compared \
               with its definition. Non-trivial: the value is on a bound or the bounds are ordered (scalars); two or more \
               operators (expressions); length at least 2 with at most one offending element (collections). Distinct by case.",
        assumptions: vec!["comparisons follow IEEE partial order, as Rust's PartialOrd does"],
        subs: vec![
            sub("f64", 20_000, 400_000, || triple(gen::any_f64()), |&(x, a, b)| {
                let mut o = Obs::new();
                scalar!(o, f64, x, a, b, |p, q| bits(p, q));
                o
            }),
            sub("i64", 20_000, 400_000, || triple(gen::any_i64()), |&(x, a, b)| {
                let mut o = Obs::new();
                scalar!(o, i64, x, a, b, |p, q| p == q);
                decide(&mut o, "Natural", || Natural, &x, x >= 1, |p, q| p == q);
                o
            }),
            sub("usize", 10_000, 200_000, || triple(prop_oneof![0usize..4, any::<usize>()].boxed()), |&(x, a, b)| {
                let mut o = Obs::new();
                scalar!(o, usize, x, a, b, |p, q| p == q);
                decide(&mut o, "Natural", || Natural, &x, x >= 1, |p, q| p == q);
                o
            }),
            sub("expressions", 20_000, 400_000,
                || (proptest::collection::vec((0u8..14, small(), small()), 1..14), proptest::collection::vec(small(), 1..6)),
                |(code, xs)| {
                    let mut o = Obs::new();
                    expr(&mut o, code, xs);
                    o
                }),
            sub("collections", 20_000, 400_000,
                || prop_oneof![2 => near_positive(), 1 => proptest::collection::vec(gen::any_f64(), 0..=6).boxed()],
                |xs| {
                    let mut o = Obs::new();
                    collections(&mut o, xs);
                    o
                }),
        ],
    }
}

// ------------------------------------------------------------------ C03
fn report_parts(o: &mut Obs, sig: &str, constraint: BC, x: f64, target: &Option<String>) {
    let name = constraint.to_string();
    let dbg = format!("{:?}", constraint);
    let e = UnsatisfiedConstraintError::new(x, constraint);
    let e = match target {
        Some(t) => e.with_target(t),
        None => e,
    };
    o.check(bits(&e.value, &x), &format!("{}/value", sig), || format!("value {:?} became {:?}", x, e.value));
    o.check(e.target.as_ref() == target.as_ref(), &format!("{}/target", sig), || format!("target {:?} became {:?}", target, e.target));
    o.check(e.constraint.to_string() == name, &format!("{}/constraint", sig), || format!("constraint {} became {}", name, e.constraint));

    let (shown, debugged) = (format!("{}", e), format!("{:?}", e));
    let val = format!("{:?}", x);
    for (what, text) in [("display", &shown), ("debug", &debugged)].iter() {
        o.check(text.contains(&val), &format!("{}/{}-value", sig, what), || format!("{:?} does not show the value {}", text, val));
        let want = if *what == "display" { &name } else { &dbg };
        o.check(text.contains(want.as_str()), &format!("{}/{}-constraint", sig, what), || format!("{:?} does not show the constraint {}", text, want));
        if let Some(t) = target {
            o.check(text.contains(&format!("{:?}", t)), &format!("{}/{}-target", sig, what), || format!("{:?} does not show the target {:?}", text, t));
        }
    }
    // Through the failure crate, the message is the same.
    let f: failure::Error = e.into();
    o.check(format!("{}", f) == shown, &format!("{}/failure", sig), || format!("as failure::Error it reads {}", f));
}

pub fn reports() -> Prop {
    Prop {
        id: "C03",
        rule: "A generated constraint expression rejects a generated value; the error (with and without a target) must carry the \
               value, the target and a failing constraint, and must show all of them in its text. Distinct expressions must have \
               distinct names. Non-trivial: the expression has an operator, or a target is set.",
        assumptions: vec![],
        subs: vec![
            sub("report", 10_000, 200_000,
                || (proptest::collection::vec((0u8..14, small(), small()), 1..8), small(), proptest::option::of("[a-zA-Z_ \"\\\\]{0,8}")),
                |(code, x, target)| {
                    let mut o = Obs::new();
                    let e = parse(code);
                    report_parts(&mut o, "built", build(&e), *x, target);
                    for res in [build(&e).check(*x), own_check(&e, *x)] {
                        match res {
                            Ok(y) => o.check(bits(&y, x), "accepted/value", || format!("{:?} came back as {:?}", x, y)),
                            Err(err) => {
                                o.check(err.target.is_none(), "rejected/target", || {
                                    format!("{} on {:?}: the error names the target {:?}, which nobody gave", build(&e), x, err.target)
                                });
                                o.check(bits(&err.value, x), "rejected/error-value", || format!("the error for {:?} carries {:?}", x, err.value));
                                o.check(eval(&e, *x) || !err.constraint.is_satisfied_by(x), "rejected/constraint", || {
                                    format!("{} on {:?}: the error blames {}, which holds", build(&e), x, err.constraint)
                                });
                                // A target is attached to this very error.
                                let (name, shown) = (err.constraint.to_string(), err.to_string());
                                o.check(shown.contains(&name), "rejected/display", || format!("{:?} does not name {}", shown, name));
                                if let Some(t) = target {
                                    let e2 = err.with_target(t);
                                    o.check(e2.target.as_ref() == Some(t), "rejected/with-target", || format!("target {:?} became {:?}", t, e2.target));
                                    o.check(e2.constraint.to_string() == name && bits(&e2.value, x), "rejected/with-target", || {
                                        format!("attaching a target turned {} of {:?} into {} of {:?}", name, x, e2.constraint, e2.value)
                                    });
                                    // The last target wins.
                                    let e3 = e2.with_target("another");
                                    o.check(e3.target.as_ref().map(|s| s.as_str()) == Some("another"), "rejected/with-target", || format!("target another became {:?}", e3.target));
                                    report_parts(&mut o, "rejected", e3.constraint, e3.value, target);
                                } else {
                                    report_parts(&mut o, "rejected", err.constraint, err.value, target);
                                }
                            },
                        }
                    }
                    o.nontrivial(target.is_some() || code.iter().any(|c| c.0 >= 10));
                    o.class(if target.is_some() { "with target" } else { "no target" });
                    o
                }),
            sub("names", 5_000, 100_000,
                || (proptest::collection::vec((0u8..14, small(), small()), 1..6), proptest::collection::vec((0u8..14, small(), small()), 1..6)),
                |(c1, c2)| {
                    // Two constraints with the same name accept the same values.
                    let mut o = Obs::new();
                    let (e1, e2) = (parse(c1), parse(c2));
                    let (n1, n2) = (build(&e1).to_string(), build(&e2).to_string());
                    o.check(!n1.is_empty(), "name/empty", || "a constraint has no name".into());
                    for x in &[-3.0, -2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0, 3.0, f64::INFINITY, f64::NAN] {
                        if n1 == n2 {
                            o.check(eval(&e1, *x) == eval(&e2, *x), "name/ambiguous", || format!("two different constraints are both called {}", n1));
                        }
                    }
                    o.nontrivial(c1.len() + c2.len() > 2);
                    o
                }),
            sub("unary-names", 1_000, 20_000, || (0u8..10, 0u8..10, small(), small(), 0u8..4, 0u8..4), |&(l1, l2, a, b, k1, k2)| {
                // Small pairs, where equal names are common.
                let mut o = Obs::new();
                let mk = |k: u8, l: u8| {
                    let x = Ex::Leaf(l, a, b);
                    match k {
                        0 => x,
                        1 => Ex::Not(Box::new(x)),
                        2 => Ex::And(Box::new(x), Box::new(Ex::Leaf(l1, a, b))),
                        _ => Ex::Or(Box::new(x), Box::new(Ex::Leaf(l1, a, b))),
                    }
                };
                let (e1, e2) = (mk(k1, l1), mk(k2, l2));
                let (n1, n2) = (build(&e1).to_string(), build(&e2).to_string());
                let structurally = k1 == k2 && l1 == l2;
                o.check((n1 == n2) == structurally, "name/collision", || format!("{:?}: names {} and {}", (k1, l1, k2, l2), n1, n2));
                o.nontrivial(k1 + k2 > 0);
                o
            }),
        ],
    }
}
