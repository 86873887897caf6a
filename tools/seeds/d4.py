import importlib.util
spec=importlib.util.spec_from_file_location('d3', '/tmp/seeds/d3.py'); d3=importlib.util.module_from_spec(spec); spec.loader.exec_module(d3)
BUGS=[]
def bug(id, prop, edits, needs, breaks, demo): BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))
H=d3.H; U='univariate/'
def b2(id, prop, edits, needs, breaks, demo): bug(id, prop, edits, needs, breaks, H+'fn main() {\n'+demo+'\n}\n')
R='use rand::{SeedableRng, rngs::StdRng};\n'
b2('C30-bivariate-spare','C30',[('normal/bivariate.rs','''        let z1: f64 = rng.sample(RandSN);
        let z2: f64 = rng.sample(RandSN);
''','''        thread_local! {
            static SPARE: std::cell::Cell<Option<f64>> = std::cell::Cell::new(None);
        }
        let z1: f64 = rng.sample(RandSN);
        let z2: f64 = match SPARE.with(|s| s.take()) {
            Some(z) => z,
            None => {
                let z: f64 = rng.sample(RandSN);
                if z.abs() > 2.0 {
                    SPARE.with(|s| s.set(Some(rng.sample(RandSN))));
                }
                z
            },
        };
''')],
 'an earlier draw, of any bivariate normal, that put a deviate aside','a draw depends on draws made from another stream before',
'''
    use rand::{rngs::StdRng, SeedableRng};
    use rstat::normal::BvNormal;
    let d = BvNormal::standard();
    let first: Vec<[f64; 2]> = (0..200u64).map(|s| d.sample(&mut StdRng::seed_from_u64(s))).collect();
    let second: Vec<[f64; 2]> = (0..200u64).rev().map(|s| d.sample(&mut StdRng::seed_from_u64(s))).collect();
    for s in 0..200 { assert_eq!(first[s], second[199 - s]); }''')
b2('C30-gamma-memo','C30',[(U+'gamma.rs','(a * b.ln() + log_pow - b * x - a.loggamma()).exp()','''thread_local! {
            static NORM: std::cell::Cell<(f64, f64)> = std::cell::Cell::new((-1.0, 0.0));
        }

        let log_norm = NORM.with(|c| {
            let (key, val) = c.get();

            if key == a {
                val
            } else {
                let val = a * b.ln() - a.loggamma();
                c.set((a, val));
                val
            }
        });

        (log_norm + log_pow - b * x).exp()''')],
 'two gamma laws of the same shape and different rates, asked one after the other','the normalising constant is remembered under the shape alone',
'''
    use rstat::univariate::gamma::Gamma;
    let (d, e) = (Gamma::new(2.0, 1.0).unwrap(), Gamma::new(2.0, 3.0).unwrap());
    near(d.pdf(&1.0), (-1.0f64).exp());
    near(e.pdf(&1.0), 9.0 * (-3.0f64).exp());
    near(d.pdf(&1.0), (-1.0f64).exp());''')
b2('C30-binomial-torn','C30',[(U+'binomial.rs','''            let log_bc = log_factorial_stirling(n as u64)
''','''            let log_bc = log_factorial_memo(n as u64)
'''),(U+'binomial.rs','''impl DiscreteDistribution for Binomial {
''','''fn log_factorial_memo(n: u64) -> f64 {
    use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

    static KEY: AtomicU64 = AtomicU64::new(0);
    static VAL: AtomicU64 = AtomicU64::new(0);

    if KEY.load(SeqCst) == n {
        return f64::from_bits(VAL.load(SeqCst));
    }

    let val = log_factorial_stirling(n);

    KEY.store(n, SeqCst);
    VAL.store(val.to_bits(), SeqCst);

    val
}

impl DiscreteDistribution for Binomial {
''')],
 'two threads that ask binomials of different counts above sixty at the same time','a memo of two atomics is torn between threads',
'''
    use rstat::univariate::binomial::Binomial;
    let half = Probability::new(0.5).unwrap();
    let ds: Vec<Binomial> = (0..4).map(|i| Binomial::new(100 + 50 * i, half).unwrap()).collect();
    let want: Vec<f64> = ds.iter().map(|d| d.pmf(&50).unwrap()).collect();
    let bad = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| for k in 0..3_000_000usize {
                if ds[k % 4].pmf(&50).unwrap() != want[k % 4] { bad.store(true, std::sync::atomic::Ordering::SeqCst); return; }
            });
        }
    });
    assert!(!bad.load(std::sync::atomic::Ordering::SeqCst));''')
b2('C10-beta-memo','C10',[(U+'beta.rs','(log_x + log_1mx - a.logbeta(b)).exp()','''thread_local! {
            static LOG_BETA: std::cell::Cell<(u64, f64)> = std::cell::Cell::new((1, 0.0));
        }

        let key = a.to_bits() ^ b.to_bits();
        let log_beta = LOG_BETA.with(|c| {
            if c.get().0 != key {
                c.set((key, a.logbeta(b)));
            }

            c.get().1
        });

        (log_x + log_1mx - log_beta).exp()''')],
 'two different symmetric beta laws in succession','the normalising constant is remembered under a key that symmetric laws share',
'''
    use rstat::univariate::beta::Beta;
    let (d, e) = (Beta::new(2.0, 2.0).unwrap(), Beta::new(3.0, 3.0).unwrap());
    near(d.pdf(&0.5), 1.5);
    near(e.pdf(&0.5), 1.875);
    near(d.pdf(&0.5), 1.5);''')
b2('C04-choose-memo','C04',[('utils.rs','''    // Intermediate products can exceed 64 bits when the coefficient itself does not.
    (0..k).fold(1, |acc, i| (acc as u128 * (n - i) as u128 / (i + 1) as u128) as u64)
''','''    thread_local! {
        static LAST: std::cell::Cell<(u64, u64)> = std::cell::Cell::new((0, 1));
    }

    let key = (n << 32) | k;
    let (last, val) = LAST.with(|c| c.get());

    if last == key {
        return val;
    }

    // Intermediate products can exceed 64 bits when the coefficient itself does not.
    let val = (0..k).fold(1, |acc, i| (acc as u128 * (n - i) as u128 / (i + 1) as u128) as u64);
    LAST.with(|c| c.set((key, val)));

    val
''')],
 'two successive coefficients whose upper arguments differ by a multiple of 2^32','a coefficient is remembered under the low half of its upper argument',
'''
    panic!("unreachable through the public interface");''')
b2('C25-dirichlet-memo','C25',[],'','','')
BUGS.pop()
BUGS=[b for b in BUGS if b['id'] not in ('C04-choose-memo','C30-gamma-memo','C30-binomial-torn','C10-beta-memo')]
b2('C30-kumaraswamy-memo','C30',[(U+'kumaraswamy.rs','b * (1.0 + n as f64 / a).beta(b)',"""thread_local! {
            static LAST: std::cell::Cell<(f64, f64, f64)> = std::cell::Cell::new((0.0, 0.0, 0.0));
        }

        let r = n as f64 / a;

        LAST.with(|c| {
            if c.get().0 != r || (c.get().1 - b).abs() > 1e-3 {
                c.set((r, b, b * (1.0 + r).beta(b)));
            }

            c.get().2
        })""")],
 'two Kumaraswamy laws of one first shape and nearly equal second shapes, or of proportional ones','a moment is remembered for second shapes within a thousandth of the first one asked',
"""
    use rstat::univariate::kumaraswamy::{Kumaraswamy, Params};
    let d = Kumaraswamy::from(Params::new(1.0, 2.0).unwrap());
    let e = Kumaraswamy::from(Params::new(1.0, 2.0005).unwrap());
    near(e.mean(), 1.0 / 3.0005);
    near(d.mean(), 1.0 / 3.0);""")
b2('C30-binomial-torn','C30',[(U+'binomial.rs','let bc = choose(n as u64, *k as u64) as f64;','let bc = choose_memo(n as u64, *k as u64) as f64;'),(U+'binomial.rs',"""impl DiscreteDistribution for Binomial {
""","""fn choose_memo(n: u64, k: u64) -> u64 {
    use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

    static KEY: AtomicU64 = AtomicU64::new(0);
    static VAL: AtomicU64 = AtomicU64::new(1);

    let key = (n << 8) | k;

    if KEY.load(SeqCst) == key {
        return VAL.load(SeqCst);
    }

    let val = choose(n, k);

    KEY.store(key, SeqCst);
    VAL.store(val, SeqCst);

    val
}

impl DiscreteDistribution for Binomial {
""")],
 'two threads that ask binomials of different counts up to sixty at the same time','a memo of two atomics is torn between threads',
"""
    use rstat::univariate::binomial::Binomial;
    let half = Probability::new(0.5).unwrap();
    let ds: Vec<Binomial> = (0..4).map(|i| Binomial::new(30 + 5 * i, half).unwrap()).collect();
    let want: Vec<f64> = ds.iter().map(|d| d.pmf(&15).unwrap()).collect();
    let bad = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| for k in 0..2_000_000usize {
                if ds[k % 4].pmf(&15).unwrap() != want[k % 4] { bad.store(true, std::sync::atomic::Ordering::SeqCst); return; }
            });
        }
    });
    assert!(!bad.load(std::sync::atomic::Ordering::SeqCst));""")
b2('C20-beta-memo','C20',[(U+'beta.rs','- n * a.logbeta(b)',"""- n * {
                thread_local! {
                    static LOG_BETA: std::cell::Cell<(u64, f64)> = std::cell::Cell::new((1, 0.0));
                }

                let key = a.to_bits() ^ b.to_bits();

                LOG_BETA.with(|c| {
                    if c.get().0 != key {
                        c.set((key, a.logbeta(b)));
                    }

                    c.get().1
                })
            }""")],
 'the log-likelihoods of two different symmetric beta laws in succession','the normalising constant is remembered under a key that symmetric laws share',
"""
    use rstat::univariate::beta::Beta;
    let (d, e) = (Beta::new(2.0, 2.0).unwrap(), Beta::new(3.0, 3.0).unwrap());
    near(d.log_likelihood(&[0.5]), 1.5f64.ln());
    near(e.log_likelihood(&[0.5]), 1.875f64.ln());""")
b2('C24-cholesky-memo','C24',[('normal/multivariate.rs','            let Sigma_lt = linalg::cholesky(params.Sigma.0.clone());',"""            thread_local! {
                static LAST: std::cell::RefCell<(Vec<f64>, Vec<[f64; 64]>)> =
                    std::cell::RefCell::new((Vec::new(), Vec::new()));
            }

            let key: Vec<f64> = (0..N).map(|i| params.Sigma.0[i][i]).collect();
            let Sigma_lt = LAST.with(|c| {
                let mut c = c.borrow_mut();

                if N > 1 && N <= 64 && c.0 == key {
                    let mut lt = [[0.0; N]; N];

                    for i in 0..N {
                        lt[i].copy_from_slice(&c.1[i][..N]);
                    }

                    lt
                } else {
                    let lt = linalg::cholesky(params.Sigma.0.clone());

                    c.0 = key;
                    c.1 = lt
                        .iter()
                        .map(|r| {
                            let mut p = [0.0; 64];
                            r.iter().zip(p.iter_mut()).for_each(|(a, b)| *b = *a);
                            p
                        })
                        .collect();

                    lt
                }
            });""")],
 'two covariance matrices with the same variances, one built right after the other','the Cholesky factor is remembered under the diagonal of the covariance',
"""
    use rstat::normal::MvNormal;
    let d = MvNormal::<2>::new([0.0; 2], [[2.0, 0.0], [0.0, 2.0]]).unwrap();
    let e = MvNormal::<2>::new([0.0; 2], [[2.0, 1.0], [1.0, 2.0]]).unwrap();
    near(d.pdf(&[0.0; 2]) * 2.0 * std::f64::consts::PI, 0.5);
    near(e.pdf(&[0.0; 2]) * 2.0 * std::f64::consts::PI, 1.0 / 3.0f64.sqrt());""")
b2('C04-choose-memo','C04',[('utils.rs','''    let k = if k > n - k { n - k } else { k };

    // Intermediate products can exceed 64 bits when the coefficient itself does not.
    (0..k).fold(1, |acc, i| (acc as u128 * (n - i) as u128 / (i + 1) as u128) as u64)
''','''    let k = k.min(n - k);

    thread_local! {
        static LAST: std::cell::Cell<(u64, u64)> = std::cell::Cell::new((0, 1));
    }

    let key = (n << 4) | k;
    let (last, val) = LAST.with(|c| c.get());

    if last == key && n < 64 {
        return val;
    }

    // Intermediate products can exceed 64 bits when the coefficient itself does not.
    let val = (0..k).fold(1, |acc, i| (acc as u128 * (n - i) as u128 / (i + 1) as u128) as u64);
    LAST.with(|c| c.set((key, val)));

    val
''')],
 'a coefficient with a lower argument of sixteen or more right after one whose packed key it shares','a coefficient is remembered under a key that packs the lower argument into four bits',
'''
    use rstat::univariate::binomial::Binomial;
    let half = Probability::new(0.5).unwrap();
    let (d, e) = (Binomial::new(41, half).unwrap(), Binomial::new(40, half).unwrap());
    near(d.pmf(&1).unwrap() * 2f64.powi(41), 41.0);
    near(e.pmf(&17).unwrap() * 2f64.powi(40) / 88732378800.0, 1.0);''')
b2('C25-dirichlet-memo','C25',[('multivariate/dirichlet.rs','''            ln_beta_alphas: alphas
                .iter()
                .fold(-alpha0.loggamma(), |acc, a| acc + a.loggamma()),
''','''            ln_beta_alphas: {
                thread_local! {
                    static LAST: std::cell::Cell<(f64, usize, f64)> = std::cell::Cell::new((0.0, 0, 0.0));
                }

                LAST.with(|c| {
                    let (total, dim, val) = c.get();

                    if total == alpha0 && dim == N {
                        val
                    } else {
                        let val = alphas
                            .iter()
                            .fold(-alpha0.loggamma(), |acc, a| acc + a.loggamma());
                        c.set((alpha0, N, val));
                        val
                    }
                })
            },
''')],
 'two Dirichlet laws of the same total concentration and dimension, built in succession','the normalising constant is remembered under the total concentration',
'''
    use rstat::multivariate::dirichlet::Dirichlet;
    let d = Dirichlet::new([2.0, 2.0]).unwrap();
    let e = Dirichlet::new([1.0, 3.0]).unwrap();
    near(d.pdf(&[0.5, 0.5]), 1.5);
    near(e.pdf(&[0.5, 0.5]), 0.75);''')
b2('C24-precision-memo','C24',[('normal/multivariate.rs',None,None)],'','','')
BUGS.pop()
