//! C04: factorials, log-factorials and binomial coefficients.
use crate::utils::{choose, factorial, factorial_exact, log_factorial_stirling};
use num_bigint::BigUint;
use pbt::proptest::{self, prelude::*};
use pbt::{sub, Obs, Prop};
use std::convert::TryFrom;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn big_choose(n: u64, k: u64) -> BigUint {
    if k > n {
        return BigUint::from(0u32);
    }
    let k = k.min(n - k);
    let mut num = BigUint::from(1u32);
    let mut den = BigUint::from(1u32);
    for i in 0..k {
        num *= BigUint::from(n - i);
        den *= BigUint::from(i + 1);
    }
    num / den
}

fn big_factorial(n: u64) -> BigUint { (1..=n).fold(BigUint::from(1u32), |a, i| a * BigUint::from(i)) }

// Sum of logarithms in double-double, good to about 1e-30 relative.
fn ln_factorial(n: u64) -> f64 {
    // Kahan-summed logs are accurate to a few ulp for the sizes used here.
    let (mut s, mut c) = (0.0f64, 0.0f64);
    for i in 2..=n {
        let y = (i as f64).ln() - c;
        let t = s + y;
        c = (t - s) - y;
        s = t;
    }
    s
}

/// The coefficients with upper argument up to 67, all of which fit 64 bits.
fn small() -> &'static Vec<Vec<u64>> {
    static T: std::sync::OnceLock<Vec<Vec<u64>>> = std::sync::OnceLock::new();
    T.get_or_init(|| (0..=67).map(|n| (0..=n).map(|k| u64::try_from(&big_choose(n, k)).unwrap()).collect()).collect())
}

fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(pbt::panic_text)
}

fn nk() -> BoxedStrategy<(u64, u64)> {
    prop_oneof![
        // Wherever the value fits in 64 bits for every k.
        4 => (0u64..=67).prop_flat_map(|n| (Just(n), 0..=n)),
        // Larger n with k (or n - k) small enough that it may still fit.
        3 => (prop_oneof![60u64..200, 60u64..100_000, 1u64..4_000_000_000], 0u64..30, any::<bool>())
            .prop_map(|(n, k, flip)| { let k = k.min(n); (n, if flip { n - k } else { k }) }),
        // k beyond n.
        1 => (0u64..100, 1u64..100).prop_map(|(n, d)| (n, n + d)),
        // Astronomical n.
        1 => (1u64 << 40..u64::MAX, 0u64..3, any::<bool>()).prop_map(|(n, k, flip)| (n, if flip { n - k } else { k })),
    ].boxed()
}

pub fn combinatorics() -> Prop {
    Prop {
        id: "C04",
        rule: "Pairs (n, k) and integers n, including every n up to 67 with every k, n on both sides of table ends, and n up to \
               2^64, against big-integer arithmetic and compensated sums of logarithms. Non-trivial: the exact value fits the \
               result type and is not 0 or 1. Distinct by case.",
        assumptions: vec!["where the exact value does not fit 64 bits nothing is claimed about the integer functions"],
        subs: vec![
            sub("choose", 20_000, 400_000, || nk(), |&(n, k)| {
                let mut o = Obs::new();
                let want = big_choose(n, k);
                match u64::try_from(&want) {
                    Ok(w) => {
                        // Asked after others that share the low bits, the answer is still its own.
                        if k <= n && k.min(n - k) <= 64 {
                            for bit in [8, 16, 31, 32, 48] {
                                let _ = guarded(|| choose(n ^ (1 << bit), k.min(n - k)));
                            }
                        }
                        match guarded(|| choose(n, k)) {
                            Ok(got) => o.check(got == w, "choose/value", || format!("choose({}, {}) = {}, exactly {}", n, k, got, w)),
                            Err(e) => o.fail("choose/panic", format!("choose({}, {}) panicked ({}), exactly {}", n, k, e, w)),
                        }
                        o.nontrivial(w > 1);
                        o.class(if k > n { "k > n" } else if w > u64::MAX / (n.max(1)) { "intermediate products exceed 64 bits" } else { "small" });
                    },
                    Err(_) => o.class("does not fit (nothing claimed)"),
                }
                o
            }),
            sub("choose-all-small", 2_346, 2_346, || (0u64..=67).prop_flat_map(|n| (Just(n), 0..=n)), |&(n, k)| {
                let mut o = Obs::new();
                // Pascal's rule and symmetry, for the whole row.
                for j in 0..=n {
                    let got = guarded(|| choose(n, j));
                    let w = u64::try_from(&big_choose(n, j)).unwrap();
                    o.check(got == Ok(w), "choose/row", || format!("choose({}, {}) = {:?}, exactly {}", n, j, got, w));
                }
                o.nontrivial(k > 0 && k < n);
                o
            }),
            // Each right after every other.
            sub("choose-history", 230, 2_300, || (0u64..=67).prop_flat_map(|n| (Just(n), 0..=n)), |&(n, k)| {
                let mut o = Obs::new();
                let t = small();
                let want = t[n as usize][k as usize];
                for (m, row) in t.iter().enumerate() {
                    for (j, w) in row.iter().enumerate() {
                        let (a, b) = (guarded(|| choose(m as u64, j as u64)), guarded(|| choose(n, k)));
                        o.check(b == Ok(want), "choose/history", || format!("choose({}, {}) right after choose({}, {}) = {:?}, exactly {}", n, k, m, j, b, want));
                        o.check(a == Ok(*w), "choose/history", || format!("choose({}, {}) right after choose({}, {}) = {:?}, exactly {}", m, j, n, k, a, w));
                    }
                }
                o.nontrivial(k > 0 && k < n);
                o
            }),
            sub("log-factorial-history", 200, 4_000, || proptest::collection::vec((0u64..600, 0u32..64), 2..12), |v| {
                let mut o = Obs::new();
                // Neighbours, and arguments that share the low bits.
                let mut seen = std::collections::BTreeMap::new();
                for n in v.iter().chain(v.iter().rev()).flat_map(|(n, b)| [*n, n ^ (1 << b), *n]) {
                    let got = guarded(|| log_factorial_stirling(n)).map(|x| x.to_bits());
                    let first = seen.entry(n).or_insert_with(|| got.clone()).clone();
                    o.check(got == first, "log-factorial/history", || format!("ln {}! is {:?} and then {:?}", n, first, got));
                    let w = if n < 600 { ln_factorial(n) } else { libm::lgamma(n as f64 + 1.0) };
                    let x = got.map(f64::from_bits);
                    o.check(matches!(x, Ok(x) if (x - w).abs() <= 1e-10 * (1.0 + w)), "log-factorial/history", || format!("ln {}! = {:?} after others, should be {:?}", n, x, w));
                }
                o.nontrivial(v.len() > 2);
                o
            }),
            sub("factorial", 2_000, 20_000, || 0u64..=20, |&n| {
                let mut o = Obs::new();
                let w = u64::try_from(&big_factorial(n)).unwrap();
                let a = guarded(|| factorial(n));
                let b = guarded(|| factorial_exact(n));
                o.check(a == Ok(w), "factorial/value", || format!("{}! = {:?}, exactly {}", n, a, w));
                o.check(b == Ok(w), "factorial/exact", || format!("{}! = {:?}, exactly {}", n, b, w));
                o.nontrivial(n > 1);
                o
            }),
            sub("log-factorial", 4_000, 40_000, || prop_oneof![0u64..300, 200u64..320, 300u64..20_000], |&n| {
                let mut o = Obs::new();
                let w = ln_factorial(n);
                match guarded(|| log_factorial_stirling(n)) {
                    Ok(got) => o.check((got - w).abs() <= 1e-11 * (1.0 + w), "log-factorial/value", || format!("ln {}! = {:?}, should be {:?}", n, got, w)),
                    Err(e) => o.fail("log-factorial/panic", format!("ln {}! panicked: {}", n, e)),
                }
                o.nontrivial(n > 1);
                o.class(if n > 254 { "beyond the table" } else { "in the table" });
                o
            }),
            sub("log-factorial-large", 2_000, 20_000, || prop_oneof![20_000u64..10_000_000, 10_000_000u64..1 << 53, (1u64 << 53)..u64::MAX], |&n| {
                let mut o = Obs::new();
                let w = libm::lgamma(n as f64 + 1.0);
                match guarded(|| log_factorial_stirling(n)) {
                    Ok(got) => o.check((got - w).abs() <= 1e-10 * (1.0 + w), "log-factorial/large", || format!("ln {}! = {:?}, should be {:?}", n, got, w)),
                    Err(e) => o.fail("log-factorial/panic", format!("ln {}! panicked: {}", n, e)),
                }
                o.nontrivial(true);
                o
            }),
        ],
    }
}
