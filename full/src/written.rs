//! The written form of a distribution (C31): the symbol of its family and the numbers that
//! determine it, which are read back from the text.
use crate::{
    api::{guard, Got},
    mv,
    specs::{self, Spec},
    uv::pbt_catch,
};
use pbt::{
    proptest::{self, prelude::*, strategy::Union},
    sub, Obs, Prop,
};
use rstat::{params, Probability};
use std::collections::BTreeMap;

/// The symbol, and the numbers in order.
pub fn read(text: &str) -> (String, Vec<f64>) {
    let symbol: String = text.chars().take_while(|c| c.is_alphanumeric() || *c == '-').collect();
    let rest = &text[symbol.len()..];
    let numbers = rest.split(|c: char| "(){}[],;: ".contains(c)).filter_map(|w| w.parse::<f64>().ok()).collect();
    (symbol, numbers)
}

/// What each number of the text is to be: exactly, or within a distance (ends of intervals are sums,
/// variances are products).
fn expected(name: &str, p: &[f64]) -> (&'static str, Vec<(f64, f64)>) {
    let exact = |v: &[f64]| v.iter().map(|x| (*x, 0.0)).collect::<Vec<_>>();
    let sum = |v: &[f64]| (v.iter().sum::<f64>(), 4e-16 * v.iter().map(|x| x.abs()).sum::<f64>());
    let all = exact(p);
    match name {
        "arcsine" => ("Arcsine", vec![(p[0], 0.0), sum(&p[..2])]),
        "triangular" => ("Triangular", vec![(p[0], 0.0), sum(&p[..3]), sum(&p[..2])]),
        "uniform" => ("U", vec![(p[0], 0.0), sum(&p[..2])]),
        "uniform_i" => ("U", vec![(p[0], 0.0), (p[0] + p[1], 0.0)]),
        "folded_normal" => ("FN", vec![(p[0], 0.0), (p[1] * p[1], 4e-16 * p[1] * p[1] + 5e-324)]),
        "beta" => ("Beta", all),
        "beta_prime" => ("BetaPrime", all),
        "cauchy" => ("Cauchy", all),
        "chi" => ("Chi", all),
        "chi_sq" => ("ChiSq", all),
        "cosine" => ("Cosine", all),
        "degenerate" | "degenerate_i" => ("δ", all),
        "erlang" => ("Erlang", all),
        "exponential" => ("Exp", all),
        "f_dist" => ("F", all),
        "frechet" => ("Frechet", all),
        "gamma" => ("Gamma", all),
        "gev" => ("GEV", all),
        "gpd" => ("GPD", all),
        "gumbel" => ("Gumbel", all),
        "inverse_gamma" => ("Inv-Gamma", all),
        "inverse_normal" => ("IG", all),
        "kumaraswamy" => ("Kumaraswamy", all),
        "laplace" => ("Laplace", all),
        "levy" => ("Levy", all),
        "logistic" => ("Logistic", all),
        "lognormal" => ("LogNormal", all),
        "normal" => ("N", all),
        "pareto" => ("Pareto", all),
        "rayleigh" => ("Rayleigh", all),
        "student_t" => ("StudentT", all),
        "weibull" => ("Weibull", all),
        "bernoulli" => ("Ber", all),
        "beta_binomial" => ("BB", all),
        "binomial" => ("Bin", all),
        "geometric" => ("Geometric", all),
        "poisson" => ("Poi", all),
        n if n.starts_with("categorical") => ("Cat", all),
        other => panic!("no written form for {}", other),
    }
}

fn judge(o: &mut Obs, ctx: &str, text: &Got<String>, symbol: &str, want: &[(f64, f64)]) {
    let Got::Val(text) = text else {
        o.fail("panic", format!("{}: writing it gives {:?}", ctx, text));
        return;
    };
    let (s, xs) = read(text);
    o.check(s == symbol, "symbol", || format!("{} is written {:?}, the family is called {}", ctx, text, symbol));
    let same = xs.len() == want.len() && xs.iter().zip(want).all(|(x, (w, t))| x == w || (x - w).abs() <= *t);
    o.check(same, "numbers", || format!("{} is written {:?}, the numbers are {:?}", ctx, text, want.iter().map(|w| w.0).collect::<Vec<_>>()));
}

/// The parameters, and a sibling's (position, value, how).
type Case = (Vec<f64>, Vec<f64>, u8, u8);

fn law_obs(t: &Spec, c: &Case) -> Obs {
    let mut o = Obs::new();
    let (p, q, pos, how) = c;
    let d = match pbt_catch(|| (t.mk)(p)) {
        Ok(Ok(d)) => d,
        _ => {
            o.class("refused");
            return o;
        },
    };
    let ctx = format!("{}{:?}", t.name, p);
    if d.params().iter().any(|x| x.is_nan()) {
        o.class("NaN");
        return o;
    }
    o.nontrivial(true);
    o.note(format!("{}: {:?}", ctx, d.text()));
    let (symbol, want) = expected(t.name, &d.params());
    judge(&mut o, &ctx, &d.text(), symbol, &want);
    // Another of the family is written in between.
    if let Ok(Ok(e)) = pbt_catch(|| (t.mk)(&specs::sibling(t, p, q, *pos as usize, *how))) {
        let other = e.text();
        let (a, b) = (d.params(), e.params());
        let text = d.text();
        let wa = expected(t.name, &a).1;
        let wb = expected(t.name, &b).1;
        let apart = wa.iter().zip(&wb).any(|(x, y)| (x.0 - y.0).abs() > x.1 + y.1);
        if apart {
            o.class("siblings");
            o.check(text != other, "alike", || format!("{}{:?} and {}{:?} are both written {:?}", t.name, a, t.name, b, text));
        }
        judge(&mut o, &ctx, &text, symbol, &want);
    }
    for (how, e) in [("a copy", Got::Val(d.dup())), ("one made of the parameters", d.rebuild())] {
        if let Got::Val(e) = e {
            o.check(e.text() == d.text(), "copies", || format!("{}: {} is written {:?}, the original {:?}", ctx, how, e.text(), d.text()));
        }
    }
    o
}

fn number_obs(x: &f64) -> Obs {
    let mut o = Obs::new();
    let x = *x;
    o.nontrivial(x != 0.0 && x != 1.0);
    if let Ok(Ok(p)) = pbt_catch(|| Probability::new(x)) {
        let text = guard(|| p.to_string());
        o.note(format!("{:?}", text));
        o.check(matches!(&text, Got::Val(t) if t.parse() == Ok(x)), "probability", || format!("the probability {:?} is written {:?}", x, text));
    }
    o
}

fn param_obs(x: &f64) -> Obs {
    let mut o = Obs::new();
    let x = *x;
    o.nontrivial(x.fract() != 0.0);
    let n = x.abs() as usize;
    let k = x as i64;
    let texts: Vec<(&str, Got<String>, f64)> = vec![
        ("Loc", guard(|| params::Loc(x).to_string()), x),
        ("Loc of an integer", guard(|| params::Loc(k).to_string()), k as f64),
        ("Scale", guard(|| params::Scale(x.abs()).to_string()), x.abs()),
        ("Scale of an integer", guard(|| params::Scale(n).to_string()), n as f64),
        ("Rate", guard(|| params::Rate(x.abs()).to_string()), x.abs()),
        ("Shape", guard(|| params::Shape(x.abs()).to_string()), x.abs()),
        ("Count", guard(|| params::Count(n).to_string()), n as f64),
        ("DOF", guard(|| params::DOF(n).to_string()), n as f64),
    ];
    for (name, text, want) in texts {
        o.check(matches!(&text, Got::Val(t) if t.parse::<f64>() == Ok(want)), "parameter", || format!("the {} {:?} is written {:?}", name, want, text));
    }
    o
}

fn mv_obs(c: &mv::Relatives) -> Obs {
    let mut o = Obs::new();
    let (kind, laws) = c;
    let mut seen: BTreeMap<String, (Vec<f64>, String)> = BTreeMap::new();
    for p in laws {
        for (name, d) in mv::by_kind(kind, p) {
            let Ok(d) = d else { continue };
            let text = d.text();
            if let Got::Absent = text {
                continue;
            }
            let ctx = format!("{} {} {:?}", kind, name, p);
            let (symbol, mut want): (&str, Vec<f64>) = match kind.as_str() {
                "dirichlet" => ("Dir", d.params()),
                "normal" => ("N", d.params()),
                _ => ("LogNormal", d.params()),
            };
            let n = d.dim();
            // Pairs are written with their covariance matrix.
            let mut tol = vec![0.0; want.len()];
            if kind == "normal" && n == 2 {
                let Got::Val(cov) = d.covariance() else { continue };
                want.truncate(2);
                want.extend(cov.into_iter().flatten());
                tol = vec![0.0; want.len()];
            }
            o.nontrivial(true);
            o.class(symbol);
            o.note(format!("{:?}", text));
            let want: Vec<(f64, f64)> = want.into_iter().zip(tol).collect();
            judge(&mut o, &ctx, &text, symbol, &want);
            o.check(d.dup().text() == text, "copies", || format!("{}: a copy is written {:?}", ctx, d.dup().text()));
            if let Got::Val(e) = d.rebuild() {
                o.check(e.text() == text, "copies", || format!("{}: one made of the parameters is written {:?}", ctx, e.text()));
            }
            if let Got::Val(t) = text {
                let key: Vec<f64> = want.iter().map(|w| w.0).collect();
                if let Some((old, was)) = seen.get(&t) {
                    o.check(*old == key, "alike", || format!("{} and {} are both written {:?}", was, ctx, t));
                }
                seen.insert(t, (key, ctx));
            }
        }
    }
    o
}

fn multinomial_obs(c: &(usize, Vec<f64>)) -> Obs {
    use rstat::multivariate::multinomial::Multinomial;

    fn of<const N: usize>(n: usize, w: &[f64]) -> Option<(Got<String>, Vec<f64>)> {
        let s: f64 = w[..N].iter().sum();
        let ps: [f64; N] = std::array::from_fn(|i| w[i] / s);
        let d = pbt_catch(|| Multinomial::<N>::new(n, ps)).ok()?.ok()?;
        Some((guard(|| d.to_string()), ps.to_vec()))
    }
    let mut o = Obs::new();
    let (n, w) = c;
    let got = match w.len() {
        1 => of::<1>(*n, w),
        2 => of::<2>(*n, w),
        3 => of::<3>(*n, w),
        4 => of::<4>(*n, w),
        _ => of::<5>(*n, w),
    };
    let Some((text, ps)) = got else {
        o.class("refused");
        return o;
    };
    o.nontrivial(true);
    o.note(format!("{:?}", text));
    let want: Vec<(f64, f64)> = Some(*n as f64).into_iter().chain(ps).map(|x| (x, 0.0)).collect();
    judge(&mut o, &format!("multinomial {} {:?}", n, w), &text, "Mult", &want);
    o
}

pub fn props() -> Vec<Prop> {
    let mut subs = vec![];
    for t in specs::all().into_iter().chain(specs::scaled()) {
        let label = t.label();
        let gen = move || (crate::uv::any_params(t), (t.gen)(), any::<u8>(), 0u8..7);
        subs.push(sub(label, 200, 6_000, gen, move |c| law_obs(&t, c)));
    }
    subs.push(sub("probability", 1_000, 20_000, || Union::new_weighted(vec![(3, (0.0..=1.0f64).boxed()), (1, pbt::gen::logu(1e-300, 1.0)), (1, proptest::sample::select(vec![0.0, -0.0, 1.0, 0.5, f64::MIN_POSITIVE, 5e-324, 1.0 - f64::EPSILON / 2.0]).boxed())]), number_obs));
    subs.push(sub("parameters", 1_000, 20_000, || Union::new_weighted(vec![(3, (-100.0..100.0f64).boxed()), (1, pbt::gen::logu(1e-300, 1e15)), (1, (-1000..1000i32).prop_map(|k| k as f64).boxed())]), param_obs));
    subs.push(sub("multivariate", 1_000, 20_000, mv::relatives, mv_obs));
    subs.push(sub("multinomial", 500, 10_000, || (0usize..5000, proptest::collection::vec(Union::new_weighted(vec![(4, (0.0..1.0f64).boxed()), (1, Just(0.0).boxed()), (1, Just(1.0).boxed())]), 1..6)), multinomial_obs));
    vec![Prop {
        id: "C31",
        rule: "a valid distribution (or parameter) was written and read back",
        assumptions: vec![
            "numbers are read back by the standard library's parser; punctuation between them is free",
            "arrays of numbers without a written form (full and diagonal normals) have none here either",
        ],
        subs,
    }]
}
