//! Serialised parameters come back unchanged (C28).
use pbt::{
    gen::any_f64,
    proptest::{self, prelude::*, strategy::Union},
    sub, Obs, Prop, Sub,
};
use rstat::{
    multivariate::{dirichlet, lognormal as mvln, multinomial},
    normal::{BvNormalParams, Covariance, Grad, PairedNormalParams},
    params::{Concentrations, Corr, Count, Loc, Rate, Scale, Shape, DOF},
    univariate as u, Distribution, Mixture, Probability, SimplexVector,
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;
use std::{
    fmt::Debug,
    panic::{catch_unwind, AssertUnwindSafe},
};

/// Every format must give back a value that prints the same (shortest round-trip decimals, so
/// equal text means equal bits, but for the payload of a NaN).
fn trip<T: Serialize + DeserializeOwned + Debug>(o: &mut Obs, what: &str, v: &T, finite: bool) {
    let want = format!("{:?}", v);
    let mut cmp = |format: &str, got: Result<T, String>| match got {
        Ok(w) => o.check(format!("{:?}", w) == want, "changed", || format!("{} through {}: {} comes back as {:?}", what, format, want, w)),
        Err(e) => o.fail("refused", format!("{} through {}: {} is refused: {}", what, format, want, e)),
    };
    cmp("bincode", bincode::serialize(v).map_err(|e| e.to_string()).and_then(|b| bincode::deserialize(&b).map_err(|e| e.to_string())));
    let mut buf = vec![];
    cmp("CBOR", ciborium::into_writer(v, &mut buf).map_err(|e| e.to_string()).and_then(|_| ciborium::from_reader(&buf[..]).map_err(|e| e.to_string())));
    if !finite {
        return;
    }
    cmp("JSON", serde_json::to_string(v).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string())));
    cmp("JSON bytes, indented", serde_json::to_vec_pretty(v).map_err(|e| e.to_string()).and_then(|s| serde_json::from_slice(&s).map_err(|e| e.to_string())));
    cmp("a JSON value", serde_json::to_value(v).map_err(|e| e.to_string()).and_then(|s| serde_json::from_value(s).map_err(|e| e.to_string())));
    cmp("RON", ron::to_string(v).map_err(|e| e.to_string()).and_then(|s| ron::from_str(&s).map_err(|e| e.to_string())));
    // Written twice, it reads the same.
    let (a, b) = (serde_json::to_string(v).unwrap(), serde_json::to_string(v).unwrap());
    o.check(a == b, "unstable", || format!("{}: written as {} and then as {}", what, a, b));
}

/// All places of a JSON tree that hold an array of fixed length, or a named field.
fn damaged(v: &Value, path: &str, out: &mut Vec<(String, Value)>, root: &Value, at: &mut Vec<String>) {
    match v {
        Value::Array(xs) => {
            // Parameter sets of a mixture are a list; its length is checked when it is used.
            if !path.ends_with("component_params") {
                for how in ["shorter", "longer", "empty", "much longer"] {
                    let mut ys = xs.clone();
                    match how {
                        "shorter" => {
                            if ys.pop().is_none() {
                                continue;
                            }
                        },
                        "empty" => {
                            if ys.len() < 2 {
                                continue;
                            }
                            ys.clear();
                        },
                        "longer" => ys.push(ys.last().cloned().unwrap_or(Value::from(0.5))),
                        _ => {
                            let x = ys.last().cloned().unwrap_or(Value::from(0.5));
                            ys.extend(vec![x; 5]);
                        },
                    }
                    out.push((format!("{} at {}", how, path), put(root, at, Value::Array(ys))));
                }
            }
            for (i, x) in xs.iter().enumerate() {
                at.push(i.to_string());
                damaged(x, path, out, root, at);
                at.pop();
            }
        },
        Value::Object(m) => {
            for (k, x) in m.iter() {
                let mut n = m.clone();
                n.remove(k);
                out.push((format!("no field {} at {}", k, path), put(root, at, Value::Object(n))));
                at.push(k.clone());
                damaged(x, &format!("{}/{}", path, k), out, root, at);
                at.pop();
            }
        },
        _ => {},
    }
}

fn put(root: &Value, at: &[String], new: Value) -> Value {
    match at.split_first() {
        None => new,
        Some((k, rest)) => match root {
            Value::Object(m) => {
                let mut m = m.clone();
                let x = put(&m[k], rest, new);
                m.insert(k.clone(), x);
                Value::Object(m)
            },
            Value::Array(xs) => {
                let mut xs = xs.clone();
                let i: usize = k.parse().unwrap();
                xs[i] = put(&xs[i], rest, new);
                Value::Array(xs)
            },
            other => other.clone(),
        },
    }
}

fn lengths<T: Serialize + DeserializeOwned + Debug>(o: &mut Obs, what: &str, v: &T) {
    let Ok(tree) = serde_json::to_value(v) else { return };
    let mut bad = vec![];
    damaged(&tree, "", &mut bad, &tree, &mut vec![]);
    for (how, t) in bad {
        let s = t.to_string();
        let got = catch_unwind(AssertUnwindSafe(|| serde_json::from_str::<T>(&s)));
        match got {
            Ok(Err(_)) => {},
            Ok(Ok(w)) => o.fail("wrong-length", format!("{}: {} ({}) is accepted as {:?}", what, s, how, w)),
            Err(_) => o.fail("wrong-length", format!("{}: {} ({}) panics instead of being refused", what, s, how)),
        }
    }
    // A stream that ends early.
    if let Ok(b) = bincode::serialize(v) {
        for cut in [1usize, 8, b.len() / 2 + 1] {
            if cut <= b.len() && !b.is_empty() {
                let got = catch_unwind(AssertUnwindSafe(|| bincode::deserialize::<T>(&b[..b.len() - cut]).map_err(|_| ())));
                o.check(matches!(got, Ok(Err(_))), "truncated", || format!("{}: {:?} without its last {} bytes gives {:?}", what, v, cut, got));
            }
        }
    }
}

fn both<T: Serialize + DeserializeOwned + Debug>(o: &mut Obs, what: &str, v: &T, finite: bool) {
    trip(o, what, v, finite);
    if finite {
        lengths(o, what, v);
    }
}

fn floats(n: usize) -> BoxedStrategy<Vec<f64>> {
    let x = Union::new_weighted(vec![
        (4, (-20.0..20.0f64).boxed()),
        (2, (0.0..1.0f64).boxed()),
        (2, any_f64()),
        (1, proptest::sample::select(vec![0.0, 1.0, -1.0, 0.5, 0.1, 1.0 / 3.0, f64::MAX, f64::MIN_POSITIVE, 5e-324, -0.0, 2.0]).boxed()),
    ]);
    proptest::collection::vec(x, n).boxed()
}

type Case = (Vec<f64>, u64, u64);

fn case(n: usize) -> BoxedStrategy<Case> { (floats(n), any::<u64>(), prop_oneof![0u64..20, any::<u64>()]).boxed() }

fn start(c: &Case) -> (Obs, bool) {
    let mut o = Obs::new();
    let finite = c.0.iter().all(|x| x.is_finite());
    let mut v: Vec<u64> = c.0.iter().map(|x| x.to_bits()).collect();
    v.sort();
    v.dedup();
    o.nontrivial(v.len() > 1);
    o.class(if finite { "finite" } else { "with an infinity or a NaN" });
    o.note(format!("{:?}, {}, {}", c.0, c.1, c.2));
    (o, finite)
}

macro_rules! list {
    ($p:ident, $n:ident, $k:ident; $($name:literal => $e:expr;)*) => {
        vec![$(sub($name, 400, 20_000, || case(3), |c: &Case| {
            let (mut o, finite) = start(c);
            let $p = &c.0;
            let $n = c.1 as usize;
            let $k = c.2 as usize;
            let _ = (&$n, &$k);
            both(&mut o, $name, &$e, finite);
            o
        })),*]
    };
}

fn scalars() -> Vec<Sub> {
    list! { p, n, k;
        "arcsine" => u::arcsine::Params::new_unchecked(p[0], p[1]);
        "beta" => u::beta::Params::new_unchecked(p[0], p[1]);
        "beta_prime" => u::beta_prime::Params::new_unchecked(p[0], p[1]);
        "beta_binomial" => u::beta_binomial::Params::new_unchecked(n, p[0], p[1]);
        "bernoulli" => u::bernoulli::Params::new_unchecked(p[0]);
        "binomial" => u::binomial::Params::new_unchecked(n, p[0]);
        "cauchy" => u::cauchy::Params::new_unchecked(p[0], p[1]);
        "chi" => u::chi::Params::new_unchecked(n);
        "chi_sq" => u::chi_sq::Params::new_unchecked(k);
        "cosine" => u::cosine::Params::new_unchecked(p[0], p[1]);
        "degenerate" => u::degenerate::Loc(p[0]);
        "degenerate_i" => u::degenerate::Loc(n as i64);
        "erlang" => u::erlang::Params::new_unchecked(n, p[0]);
        "exponential" => u::exponential::Params::new_unchecked(p[0]);
        "f_dist" => u::f_dist::Params::new_unchecked(n, k);
        "folded_normal" => u::folded_normal::Params::new_unchecked(p[0], p[1]);
        "frechet" => u::frechet::Params::new_unchecked(p[0]);
        "gamma" => u::gamma::Params::new_unchecked(p[0], p[1]);
        "geometric" => u::geometric::Params::new_unchecked(p[0]);
        "gev" => u::gev::Params::new_unchecked(p[0], p[1], p[2]);
        "gpd" => u::gpd::Params::new_unchecked(p[0], p[1], p[2]);
        "gumbel" => u::gumbel::Params::new_unchecked(p[0], p[1]);
        "inverse_gamma" => u::inverse_gamma::Params::new_unchecked(p[0], p[1]);
        "inverse_normal" => u::inverse_normal::Params::new_unchecked(p[0], p[1]);
        "kumaraswamy" => u::kumaraswamy::Params::new_unchecked(p[0], p[1]);
        "laplace" => u::laplace::Params::new_unchecked(p[0], p[1]);
        "levy" => u::levy::Params::new_unchecked(p[0], p[1]);
        "logistic" => u::logistic::Params::new_unchecked(p[0], p[1]);
        "normal" => u::normal::Normal::new_unchecked(p[0], p[1]).params();
        "normal gradient" => u::normal::Grad { mu: p[0], Sigma: p[1] };
        "lognormal" => u::lognormal::LogNormal::new_unchecked(p[0], p[1]).params();
        "pareto" => u::pareto::Params::new_unchecked(p[0], p[1]);
        "poisson" => u::poisson::Params::new_unchecked(p[0]);
        "rayleigh" => u::rayleigh::Params::new_unchecked(p[0]);
        "student_t" => u::student_t::Params::new_unchecked(p[0]);
        "triangular" => u::triangular::Params::new_unchecked(p[0], p[1], p[2]);
        "uniform" => u::uniform::Params::<f64>::new_unchecked(p[0], p[1]);
        "uniform_i" => u::uniform::Params::<i64>::new_unchecked(n as i64, k as i64);
        "weibull" => u::weibull::Params::new_unchecked(p[0], p[1]);
        "probability" => Probability::new_unchecked(p[0]);
        "location" => Loc(p[0]);
        "scale" => Scale(p[0]);
        "rate" => Rate(p[0]);
        "shape" => Shape(p[0]);
        "degrees of freedom" => DOF(n);
        "count" => Count(n);
        "correlation" => Corr(p[0]);
        "paired normal" => PairedNormalParams { mu: Loc([p[0], p[1]]), Sigma: Covariance([p[2], p[0]]) };
        "bivariate normal" => BvNormalParams { mu: Loc([p[0], p[1]]), Sigma: Covariance(([p[2], p[0]], p[1])) };
        "bivariate gradient" => Grad { mu: [p[0], p[1]], Sigma: ([p[2], p[1]], p[0]) };
    }
}

fn sized<const N: usize>(o: &mut Obs, c: &Case, finite: bool) {
    let a: [f64; N] = std::array::from_fn(|i| c.0[i]);
    let b: [f64; N] = std::array::from_fn(|i| c.0[c.0.len() - 1 - i]);
    both(o, &format!("a probability vector of {}", N), &SimplexVector::<N>::new_unchecked(a), finite);
    both(o, &format!("concentrations of {}", N), &Concentrations::<N>(a), finite);
    both(o, &format!("categorical parameters of {}", N), &u::categorical::Params::<N>::new_unchecked(a), finite);
    both(o, &format!("multinomial parameters of {}", N), &multinomial::Params::<N>::new_unchecked(c.1 as usize, b), finite);
    both(o, &format!("Dirichlet parameters of {}", N), &dirichlet::Dirichlet::<N>::from(Concentrations::<N>(b)).params(), finite);
}

macro_rules! matrices {
    ($o:ident, $c:ident, $finite:ident, $($n:literal)*) => {$({
        let mu: [f64; $n] = std::array::from_fn(|i| $c.0[i]);
        let diag: [f64; $n] = std::array::from_fn(|i| $c.0[$c.0.len() - 1 - i]);
        let full: [[f64; $n]; $n] = std::array::from_fn(|i| std::array::from_fn(|j| $c.0[(i * $n + j) % $c.0.len()]));
        let f = $finite;
        both(&mut $o, concat!("full normal parameters of ", $n), &rstat::normal::Params { mu: Loc(mu), Sigma: Covariance(full) }, f);
        both(&mut $o, concat!("diagonal normal parameters of ", $n), &rstat::normal::Params { mu: Loc(mu), Sigma: Covariance(diag) }, f);
        both(&mut $o, concat!("isotropic normal parameters of ", $n), &rstat::normal::Params { mu: Loc(mu), Sigma: Covariance(diag[0]) }, f);
        both(&mut $o, concat!("full gradient of ", $n), &Grad { mu, Sigma: full }, f);
        both(&mut $o, concat!("diagonal gradient of ", $n), &Grad { mu, Sigma: diag }, f);
        both(&mut $o, concat!("log-normal parameters of ", $n), &mvln::LogNormal::<$n, [f64; $n]>::diagonal_unchecked(mu, diag.map(|x| x.abs())).params(), f);
    })*};
}

fn mixtures<const N: usize>(o: &mut Obs, c: &Case, finite: bool) {
    let mut w: [f64; N] = std::array::from_fn(|i| c.0[i]);
    if w.iter().any(|x| !x.is_finite()) {
        w = [1.0 / N as f64; N];
    }
    let at = |i: usize| c.0[i % c.0.len()];
    let _ = finite;
    let normals = Mixture::<N, u::normal::Normal>::new_unchecked(w, std::array::from_fn(|i| u::normal::Normal::new_unchecked(at(i), at(i + 1))));
    let all = c.0.iter().all(|x| x.is_finite());
    both(o, &format!("a mixture of {} normals", N), &normals.params(), all);
    let bits = Mixture::<N, u::binomial::Binomial>::new_unchecked(w, std::array::from_fn(|i| u::binomial::Binomial::new_unchecked((c.1 as usize).wrapping_add(i), Probability::new_unchecked(at(i)))));
    both(o, &format!("a mixture of {} binomials", N), &bits.params(), all);
    let cats = Mixture::<N, u::categorical::Categorical<3>>::new_unchecked(w, std::array::from_fn(|i| u::categorical::Categorical::new_unchecked([at(i), at(i + 1), at(i + 2)])));
    both(o, &format!("a mixture of {} categorical laws", N), &cats.params(), all);
    let nested = Mixture::<2, Mixture<N, u::normal::Normal>>::new_unchecked([0.25, 0.75], [normals.clone(), normals.clone()]);
    both(o, &format!("a mixture of two mixtures of {} normals", N), &nested.params(), all);
    // And it rebuilds the mixture.
    if all {
        let q: <Mixture<N, u::normal::Normal> as Distribution>::Params = serde_json::from_str(&serde_json::to_string(&normals.params()).unwrap()).unwrap();
        let again = Mixture::<N, u::normal::Normal>::from(q);
        o.check(format!("{:?}", again) == format!("{:?}", normals), "rebuilt", || format!("the mixture {:?} is rebuilt as {:?}", normals, again));
    }
}

fn main() {
    let mut subs = scalars();
    subs.push(sub("vectors", 400, 15_000, || case(40), |c: &Case| {
        let (mut o, f) = start(c);
        sized::<1>(&mut o, c, f);
        sized::<2>(&mut o, c, f);
        sized::<3>(&mut o, c, f);
        sized::<5>(&mut o, c, f);
        sized::<8>(&mut o, c, f);
        sized::<32>(&mut o, c, f);
        sized::<33>(&mut o, c, f);
        sized::<40>(&mut o, c, f);
        o
    }));
    subs.push(sub("finite vectors", 400, 15_000, || (proptest::collection::vec(prop_oneof![0.0..1.0f64, -1e6..1e6f64], 40), any::<u64>(), any::<u64>()), |c: &Case| {
        let (mut o, f) = start(c);
        sized::<1>(&mut o, c, f);
        sized::<2>(&mut o, c, f);
        sized::<4>(&mut o, c, f);
        sized::<16>(&mut o, c, f);
        sized::<31>(&mut o, c, f);
        sized::<40>(&mut o, c, f);
        o
    }));
    subs.push(sub("normals", 400, 15_000, || case(9), |c: &Case| {
        let (mut o, f) = start(c);
        matrices!(o, c, f, 1 2 3 4 6);
        o
    }));
    subs.push(sub("mixtures", 400, 15_000, || case(6), |c: &Case| {
        let (mut o, f) = start(c);
        mixtures::<1>(&mut o, c, f);
        mixtures::<2>(&mut o, c, f);
        mixtures::<3>(&mut o, c, f);
        mixtures::<6>(&mut o, c, f);
        o
    }));
    // Sizes past those for which arrays have implementations written out.
    subs.push(sub("long vectors", 8, 400, || case(300), |c: &Case| {
        let (mut o, f) = start(c);
        sized::<64>(&mut o, c, f);
        sized::<65>(&mut o, c, f);
        sized::<127>(&mut o, c, f);
        sized::<128>(&mut o, c, f);
        sized::<129>(&mut o, c, f);
        sized::<300>(&mut o, c, f);
        o
    }));
    subs.push(sub("long finite vectors", 8, 400, || (proptest::collection::vec(prop_oneof![0.0..1.0f64, -1e6..1e6f64], 257), any::<u64>(), any::<u64>()), |c: &Case| {
        let (mut o, f) = start(c);
        sized::<48>(&mut o, c, f);
        sized::<100>(&mut o, c, f);
        sized::<256>(&mut o, c, f);
        sized::<257>(&mut o, c, f);
        o
    }));
    subs.push(sub("large normals", 5, 300, || (proptest::collection::vec(prop_oneof![8 => 0.0..1.0f64, 8 => -1e6..1e6f64, 1 => any_f64()], 66), any::<u64>(), any::<u64>()), |c: &Case| {
        let (mut o, f) = start(c);
        matrices!(o, c, f, 9 16 32);
        o
    }));
    subs.push(sub("large mixtures", 8, 400, || (proptest::collection::vec(prop_oneof![8 => 0.0..1.0f64, 8 => -1e6..1e6f64, 1 => any_f64()], 66), any::<u64>(), any::<u64>()), |c: &Case| {
        let (mut o, f) = start(c);
        mixtures::<17>(&mut o, c, f);
        mixtures::<33>(&mut o, c, f);
        mixtures::<66>(&mut o, c, f);
        o
    }));
    pbt::run(pbt::scaled(vec![Prop {
        id: "C28",
        rule: "at least two different numbers in the case",
        assumptions: vec![
            "serde_json (with exact floats), ciborium, ron and bincode as formats; non-finite numbers only in the binary ones",
            "two values that print the same are the same; nothing is claimed about the form on the wire",
            "values need not satisfy the constraints: reading back does not validate, and nothing is claimed about that",
        ],
        subs,
    }], 20, 2))
}
