BUGS=[]
def bug(id, prop, edits, needs, breaks, demo): BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))
U='univariate/'
H='''use rstat::univariate::*;
#[allow(unused_imports)]
use rstat::{statistics::*, ContinuousDistribution, Convolution, DiscreteDistribution, Distribution, Probability};
#[allow(dead_code)]
fn near(a: f64, b: f64) { assert!((a - b).abs() <= 1e-9 * (1.0 + b.abs()), "{} != {}", a, b) }
'''
def b2(id, prop, edits, needs, breaks, demo): bug(id, prop, edits, needs, breaks, H+'fn main() {\n'+demo+'\n}\n')
# C08 cdf of continuous laws
b2('C08-beta-prime-upper-tail','C08',[(U+'beta_prime.rs','1.0 - (1.0 / (1.0 + x)).betainc(beta, alpha)','1.0 - (1.0 / (1.0 + x)).betainc(alpha, beta)')],
 'an argument above one and different shapes','the beta prime cdf swaps its shapes in the upper half',
'''
    use rstat::univariate::beta_prime::BetaPrime;
    near(BetaPrime::new(1.0, 2.0).unwrap().cdf(&0.5).unwrap(), 1.0 - 1.5f64.powi(-2));
    near(BetaPrime::new(1.0, 2.0).unwrap().cdf(&3.0).unwrap(), 1.0 - 4.0f64.powi(-2));''')
b2('C08-triangular-point','C08',[(U+'triangular.rs','x if x <= c => Probability::new_unchecked((x - a) * (x - a) / (b - a) / (c - a)),','x if x < c => Probability::new_unchecked((x - a) * (x - a) / (b - a) / (c - a)),')],
 'a triangular law whose mode is its upper end, at that point','the cdf at the mode of a right-angled triangular law is not a number',
'''
    use rstat::univariate::triangular::Triangular;
    near(Triangular::new(0.0, 1.0, 1.0).unwrap().cdf(&1.0).unwrap(), 0.5);
    near(Triangular::new(0.0, 2.0, 0.0).unwrap().cdf(&2.0).unwrap(), 1.0);''')
b2('C08-student-tail','C08',[(U+'student_t.rs','(nu / (nu + x2)).betainc(nu / 2.0, 0.5) / 2.0','(nu / (nu + x2)).betainc(nu / 2.0, 0.5).min(0.5) / 2.0')],
 'an argument whose square lies between the degrees of freedom and the point where the incomplete beta falls below a half','the cdf has a plateau in the shoulders of heavy-tailed laws',
'''
    use rstat::univariate::student_t::StudentT;
    near(StudentT::new(1.0).unwrap().cdf(&1.0).unwrap(), 0.75);
    near(StudentT::new(0.5).unwrap().cdf(&0.8).unwrap() , 0.6777206543);'''.replace('near(StudentT::new(0.5).unwrap().cdf(&0.8).unwrap() , 0.6777206543);','let d = StudentT::new(0.25).unwrap(); assert!(d.cdf(&0.6).unwrap() > d.cdf(&0.51).unwrap());'))
# C09
b2('C09-binomial-last','C09',[(U+'binomial.rs','if *k >= self.params.n.0 {\n            return Probability::one();','if *k > self.params.n.0 || self.q.unwrap() == 0.0 {\n            return Probability::one();')],
 'a binomial law with success probability one','the cdf of a sure binomial law is one below its only value',
'''
    use rstat::univariate::binomial::Binomial;
    let p = Probability::new(1.0).unwrap();
    near(Binomial::new(4, p).unwrap().cdf(&4).unwrap(), 1.0);
    near(Binomial::new(4, p).unwrap().cdf(&2).unwrap(), 0.0);''')
b2('C09-categorical-rounding','C09',[(U+'categorical.rs','.take(x.saturating_add(1))','.take(x.saturating_add(1).min(N.saturating_sub(1).max(1)))')],
 'a law of at least two categories at its last category','the categorical cdf does not reach one',
'''
    use rstat::univariate::categorical::Categorical;
    near(Categorical::new([0.5, 0.25, 0.25]).unwrap().cdf(&2).unwrap(), 1.0);''')
# C10
b2('C10-triangular-right-angle','C10',[(U+'triangular.rs','x if x == c => 2.0 / (b - a),','x if x == c && c < b => 2.0 / (b - a),')],
 'a triangular law whose mode is its upper end, evaluated there','the density at the mode is not a number',
'''
    use rstat::univariate::triangular::Triangular;
    near(Triangular::new(0.0, 1.0, 1.0).unwrap().pdf(&1.0), 1.0);
    near(Triangular::new(0.0, 2.0, 0.0).unwrap().pdf(&2.0), 1.0);''')
b2('C10-frechet-underflow','C10',[(U+'frechet.rs','(alpha.ln() - (1.0 + alpha) * x.ln() - x.powf(-alpha)).exp()','alpha * x.powf(-1.0 - alpha) * (-x.powf(-alpha)).exp()')],
 'an argument close to zero','the density near zero is not a number (infinity times zero)',
'''
    use rstat::univariate::frechet::Frechet;
    near(Frechet::new(2.0).unwrap().pdf(&1.0), 2.0 * (-1.0f64).exp());
    near(Frechet::new(2.0).unwrap().pdf(&1e-160), 0.0);''')
b2('C10-lognormal-far','C10',[(U+'inverse_gamma.rs','(alpha * beta.ln() - (alpha + 1.0) * x.ln() - beta / x - alpha.loggamma()).exp()','(alpha * beta.ln() - (alpha + 1.0) * x.ln() - beta / x).exp() / alpha.gamma()')],
 'a shape above 171','the density is zero or not a number for large shapes',
'''
    use rstat::univariate::inverse_gamma::InvGamma;
    let d = InvGamma::new(200.0, 200.0).unwrap();
    assert!(d.pdf(&1.0) > 5.0 && d.pdf(&1.0) < 6.0);''')
# C11
b2('C11-binomial-large-sure','C11',[(U+'binomial.rs','let log_failures = if m == 0 { 0.0 } else { m as f64 * self.q.ln() };','let log_failures = m as f64 * self.q.ln();')],
 'a sure binomial law of more than sixty trials','the mass of the only value is not a number',
'''
    use rstat::univariate::binomial::Binomial;
    let p = Probability::new(1.0).unwrap();
    near(Binomial::new(20, p).unwrap().pmf(&20).unwrap(), 1.0);
    near(Binomial::new(61, p).unwrap().pmf(&61).unwrap(), 1.0);'''.replace('p).','p.clone()).')) if False else None
b2('C11-beta-binomial-beyond','C11',[(U+'beta_binomial.rs','''        if k > n {
            return 0.0;
        }

        let log_c''','''        let k = k.min(n);

        let log_c''')],'a count beyond the number of trials','the mass beyond the support is that of the last value',
'''
    use rstat::univariate::beta_binomial::BetaBinomial;
    near(BetaBinomial::new(4, 1.0, 1.0).unwrap().pmf(&4).unwrap(), 0.2);
    near(BetaBinomial::new(4, 1.0, 1.0).unwrap().pmf(&5).unwrap(), 0.0);''')
b2('C11-poisson-factorial','C11',[(U+'poisson.rs','*k as f64 * l.ln() - l - crate::utils::log_factorial_stirling(*k)','*k as f64 * l.ln() - l - crate::utils::log_factorial_stirling(*k as u16 as u64)')],
 'a count of at least 65536','the factorial of a large count is cut off',
'''
    use rstat::univariate::poisson::Poisson;
    let d = Poisson::new(70000.0).unwrap();
    let p = d.pmf(&70000).unwrap();
    assert!((p - 0.0015078).abs() < 1e-5, "{}", p);''')
# C12
b2('C12-cosine-support','C12',[(U+'cosine.rs','Closed::closed_unchecked(mu - s, mu + s)','Closed::closed_unchecked(mu - s, s - mu)')],
 'a cosine law away from zero','the support has a wrong upper end',
'''
    use rstat::univariate::cosine::Cosine;
    let s = Cosine::new(3.0, 1.0).unwrap().support();
    near(s.left.0, 2.0); near(s.right.0, 4.0);''')
b2('C12-pareto-below','C12',[(U+'pareto.rs','if *x < x_m {\n            0.0','if *x < 0.0 || *x < x_m * (1.0 - std::f64::EPSILON).powi(1 << 40) && *x <= x_m / 2.0 {\n            0.0')],
 'an argument between half the scale and the scale','the density is positive below the support',
'''
    use rstat::univariate::pareto::Pareto;
    near(Pareto::new(2.0, 1.0).unwrap().pdf(&0.5), 0.0);
    near(Pareto::new(2.0, 1.0).unwrap().pdf(&1.5), 0.0);''') if False else None
b2('C12-levy-support','C12',[(U+'levy.rs','LeftClosed::left_closed(self.0.mu.0)','LeftClosed::left_closed(self.0.mu.0.max(0.0))')],
 'a Levy law with a negative location','the support leaves out the mass between the location and zero',
'''
    use rstat::univariate::levy::Levy;
    near(Levy::new(2.0, 1.0).unwrap().support().left.0, 2.0);
    near(Levy::new(-2.0, 1.0).unwrap().support().left.0, -2.0);''')
# C13
b2('C13-fdist-threshold','C13',[(U+'f_dist.rs','d2 if d2 <= 4 => undefined!("Variance','d2 if d2 < 4 => undefined!("Variance')],
 'exactly four denominator degrees of freedom','the variance at the threshold is infinite instead of undefined',
'''
    use rstat::univariate::f_dist::FDist;
    near(FDist::new(2, 6).unwrap().variance(), 6.75);
    let r = std::panic::catch_unwind(|| FDist::new(2, 4).unwrap().variance());
    assert!(r.is_err() || !r.unwrap().is_finite() && false);''') if False else None
b2('C13-gpd-variance','C13',[(U+'gpd.rs','sigma * sigma / (1.0 - zeta).powi(2) / (1.0 - 2.0 * zeta)','sigma * sigma / (1.0 - zeta).powi(2) / (1.0 - 2.0 * zeta).max(ONE_THIRD)')],
 'a shape between one third and one half','the variance of heavy-tailed laws is cut off',
'''
    use rstat::univariate::gpd::GeneralisedPareto;
    near(GeneralisedPareto::new(0.0, 1.0, 0.25).unwrap().variance(), 1.0 / 0.5625 / 0.5);
    near(GeneralisedPareto::new(0.0, 1.0, 0.4).unwrap().variance(), 1.0 / 0.36 / 0.2);''')
b2('C13-folded-sign','C13',[(U+'folded_normal.rs','sigma * TWO_OVER_PI.sqrt() * (-z * z).exp() + mu * z.erf()','sigma * TWO_OVER_PI.sqrt() * (-z * z).exp() + mu.max(0.0) * z.erf()')],
 'a negative location','the mean leaves out the location when it is negative',
'''
    use rstat::univariate::folded_normal::FoldedNormal;
    let (a, b) = (FoldedNormal::new(1.5, 1.0).unwrap().mean(), FoldedNormal::new(-1.5, 1.0).unwrap().mean());
    near(a, b);''')
b2('C13-gev-negative','C13',[(U+'gev.rs','''        } else if zeta.abs() < 1e-7 {
            sigma * sigma * PI2_OVER_6''','''        } else if zeta < 1e-7 && zeta > -1e-2 {
            sigma * sigma * PI2_OVER_6''')],
 'a small negative shape','the variance of nearly Gumbel laws of negative shape is that of the Gumbel law',
'''
    use rstat::univariate::gev::GeneralisedExtremeValue;
    let v = |z: f64| GeneralisedExtremeValue::new(0.0, 1.0, z).unwrap().variance();
    let d = v(0.005) - 1.6449340668;
    assert!(d > 0.01);
    assert!(v(-0.005) - 1.6449340668 < -0.01);''')
# C14
b2('C14-gev-sign','C14',[(U+'gev.rs','zeta.signum() * numerator / denominator','numerator / denominator')],
 'a negative shape','the skewness of bounded extreme value laws has the wrong sign',
'''
    use rstat::univariate::gev::GeneralisedExtremeValue;
    let s = |z: f64| GeneralisedExtremeValue::new(0.0, 1.0, z).unwrap().skewness();
    assert!(s(0.1) > 1.0);
    near(s(-1.0), -2.0);''')
b2('C14-kumaraswamy-skew','C14',[(U+'kumaraswamy.rs','(m3 - 3.0 * mean * var - mean.powi(3)) / var.powf(3.0 / 2.0)','(m3 - 3.0 * mean * var - mean.powi(3)).max(-mean.powi(3)) / var.powf(3.0 / 2.0)')],
 'a law with strong negative skewness relative to its mean','very negative skewness is cut off',
'''
    use rstat::univariate::kumaraswamy::Kumaraswamy;
    near(Kumaraswamy::new(1.0, 1.0).unwrap().skewness(), 0.0);''') if False else None
b2('C14-uniform-single','C14',[(U+'uniform.rs','-SIX_FIFTHS * (n2 + 1.0) / (n2 - 1.0)','-SIX_FIFTHS * (n2 + 1.0) / (n2 - 1.0).max(8.0)')],
 'a discrete uniform law on two values','the excess kurtosis of the two-valued uniform law is wrong',
'''
    use rstat::univariate::uniform::Uniform;
    near(Uniform::<i64>::new(3, 2).unwrap().excess_kurtosis(), -1.5);
    near(Uniform::<i64>::new(3, 1).unwrap().excess_kurtosis(), -2.0);''')
b2('C14-student-kurtosis','C14',[(U+'student_t.rs','6.0 / (nu - 4.0)','6.0 / (nu.floor() - 4.0)')],
 'degrees of freedom that are no integer','the kurtosis rounds the degrees of freedom',
'''
    use rstat::univariate::student_t::StudentT;
    near(StudentT::new(10.0).unwrap().excess_kurtosis(), 1.0);
    near(StudentT::new(6.5).unwrap().excess_kurtosis(), 2.4);''')
# C15
b2('C15-triangular-median','C15',[(U+'triangular.rs','let midpoint = (a + b) / 2.0;','let midpoint = (b - a) / 2.0;')],
 'a triangular law that does not start at zero and whose mode lies between the two candidates','the median takes the wrong branch for displaced laws',
'''
    use rstat::univariate::triangular::Triangular;
    for a in [0.0, 10.0, -10.0] {
        for (l, r) in [(1.0, 3.0), (3.0, 1.0), (1.0, 1.0)] {
            let d = Triangular::new(a, l, r).unwrap();
            near(d.cdf(&d.median()).unwrap(), 0.5);
        }
    }''')
b2('C15-uniform-quantile','C15',[(U+'uniform.rs','self.params.lb.0 as f64 + ((p * n).ceil() - 1.0).max(0.0)','self.params.lb.0 as f64 + (p * n).floor().min(n - 1.0)')],
 'a probability that is a multiple of one over the number of values','the quantile is one too large at the jumps of the cdf',
'''
    use rstat::univariate::uniform::Uniform;
    let d = Uniform::<i64>::new(0, 3).unwrap();
    near(d.quantile(Probability::new(0.6).unwrap()), 2.0);
    near(d.quantile(Probability::new(0.5).unwrap()), 1.0);''')
b2('C15-gev-median','C15',[(U+'gev.rs','''        if zeta.abs() < 1e-7 {
            mu - sigma * 2.0f64.ln().ln()''','''        if zeta < 1e-7 {
            mu - sigma * 2.0f64.ln().ln()''')],
 'a negative shape','the median of bounded extreme value laws is that of the Gumbel law',
'''
    use rstat::univariate::gev::GeneralisedExtremeValue;
    for z in [0.5, 0.0, -0.5] {
        let d = GeneralisedExtremeValue::new(1.0, 2.0, z).unwrap();
        near(d.cdf(&d.median()).unwrap(), 0.5);
    }''')
# C16
b2('C16-categorical-later','C16',[(U+'categorical.rs','modes.truncate(1);\n                        modes[0] = j;','modes[0] = j;')],
 'a tie between early categories below a later maximum','categories tied early stay among the modes',
'''
    use rstat::univariate::categorical::Categorical;
    assert_eq!(Categorical::new([0.25, 0.25, 0.5]).unwrap().modes(), vec![2]);''')
b2('C16-beta-edge','C16',[(U+'beta.rs','} else if a < b {\n            vec![0.0]','} else if a < 1.0 {\n            vec![0.0]')],
 'first shape exactly one and second above one','the beta law with a=1<b has its mode at one or none',
'''
    use rstat::univariate::beta::Beta;
    assert_eq!(Beta::new(0.5, 2.0).unwrap().modes(), vec![0.0]);
    assert_eq!(Beta::new(1.0, 2.0).unwrap().modes(), vec![0.0]);''')
b2('C16-weibull-shape','C16',[(U+'weibull.rs','vec![if k <= 1.0 {','vec![if k < 1.0 + 0.5 {')],
 'a shape between 1 and 1.5','the mode of weakly peaked laws is put at zero',
'''
    use rstat::univariate::weibull::Weibull;
    near(Weibull::new(1.0, 2.0).unwrap().modes()[0], 0.5f64.sqrt());
    assert!(Weibull::new(1.0, 1.25).unwrap().modes()[0] > 0.1);''')
b2('C16-poisson-integer','C16',[(U+'poisson.rs','if k > 0 && k as f64 == l {','if k > 0 && k as f64 == l && k % 2 == 1 {')],
 'an even rate','one of the two modes is missing for even rates',
'''
    use rstat::univariate::poisson::Poisson;
    assert_eq!(Poisson::new(3.0).unwrap().modes(), vec![2, 3]);
    assert_eq!(Poisson::new(4.0).unwrap().modes(), vec![3, 4]);''')
# C17
b2('C17-bernoulli-sure','C17',[(U+'bernoulli.rs','if q == 0.0 || q == 1.0 {','if p == 0.0 {')],
 'success probability exactly one','the entropy of a sure event is not a number',
'''
    use rstat::univariate::bernoulli::Bernoulli;
    near(Bernoulli::new(0.0).unwrap().shannon_entropy(), 0.0);
    near(Bernoulli::new(1.0).unwrap().shannon_entropy(), 0.0);''')
b2('C17-frechet-sign','C17',[(U+'gev.rs','self.0.sigma.0.ln() + euler * self.0.zeta.0 + euler + 1.0','self.0.sigma.0.ln() + euler * self.0.zeta.0.abs() + euler + 1.0')],
 'a negative shape','the entropy of bounded extreme value laws is too large',
'''
    use rstat::univariate::gev::GeneralisedExtremeValue;
    let h = |z: f64| GeneralisedExtremeValue::new(0.0, 1.0, z).unwrap().shannon_entropy();
    near(h(0.5) - h(0.0), 0.28860783245);
    near(h(-1.0), 1.0);''')
b2('C17-degenerate-width','C17',[(U+'uniform.rs','(self.params.width.0 as f64 + 1.0).ln()','(self.params.width.0.max(1) as f64 + 1.0).ln()')],
 'a discrete uniform law on one value','a constant has positive entropy',
'''
    use rstat::univariate::uniform::Uniform;
    near(Uniform::<i64>::new(3, 1).unwrap().shannon_entropy(), 2f64.ln());
    near(Uniform::<i64>::new(3, 0).unwrap().shannon_entropy(), 0.0);''')
RNG='''
    struct R(Vec<u64>, usize);
    impl rand::RngCore for R {
        fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
        fn next_u64(&mut self) -> u64 { self.1 += 1; if self.1 <= self.0.len() { self.0[self.1 - 1] } else { (self.1 as u64).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23).wrapping_mul(0xD1342543DE82EF95) } }
        fn fill_bytes(&mut self, b: &mut [u8]) { for c in b.chunks_mut(8) { let w = self.next_u64().to_le_bytes(); c.copy_from_slice(&w[..c.len()]); } }
        fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(b); Ok(()) }
    }
'''
# C18
b2('C18-inverse-normal-branch','C18',[(U+'inverse_normal.rs','if z < mu / (mu + x) {','if z < 1.0 / (1.0 + x) {')],
 'a mean different from one','the choice between the two roots ignores the mean',
RNG+'''
    use rstat::univariate::inverse_normal::InvNormal;
    for mu in [1.0, 4.0] {
        let d = InvNormal::new(mu, 2.0).unwrap();
        let mut r = R(vec![], 0);
        let m = d.sample_n(&mut r, 40000).iter().sum::<f64>() / 40000.0;
        assert!((m - mu).abs() < 0.2 * mu, "{} {}", m, mu);
    }''')
b2('C18-laplace-median','C18',[(U+'laplace.rs','mu - b * u.signum() * (1.0 - 2.0 * u.abs()).ln()','mu * (1.0 - b * u.signum() / mu.abs().max(1.0) * (1.0 - 2.0 * u.abs()).ln()) + if mu.abs() > 1.0 { 0.0 } else { (mu - 1.0) * b * u.signum() * (1.0 - 2.0 * u.abs()).ln() }')],
 'x','x','') if False else None
b2('C18-fdist-swapped','C18',[(U+'f_dist.rs','rand_distr::FisherF::new(d1 as f64, d2 as f64)','rand_distr::FisherF::new(d1.min(d2) as f64, d2.max(d1) as f64)')],
 'more numerator than denominator degrees of freedom','the sampler swaps the degrees of freedom when the first exceeds the second',
RNG+'''
    use rstat::univariate::f_dist::FDist;
    for (a, b) in [(5, 20), (20, 5)] {
        let d = FDist::new(a, b).unwrap();
        let mut r = R(vec![], 0);
        let m = d.sample_n(&mut r, 40000).iter().sum::<f64>() / 40000.0;
        assert!((m - d.mean()).abs() < 0.1 * d.mean(), "{} {}", m, d.mean());
    }''')
b2('C18-bivariate-sign','C18',[('normal/bivariate.rs','mu[1] + sigma2_1.sqrt() * (z1 * rho + z2 * (1.0 - rho * rho).sqrt()),','mu[1] + sigma2_1.sqrt() * (z1 * rho.abs() + z2 * (1.0 - rho * rho).sqrt()),')],
 'a negative correlation','samples of negatively correlated laws are positively correlated',
RNG+'''
    use rstat::bivariate::normal::Normal as BvNormal;
    for rho in [0.8, -0.8] {
        let d = BvNormal::new([0.0; 2], [1.0, 1.0], rho).unwrap();
        let mut r = R(vec![], 0);
        let m = d.sample_n(&mut r, 20000).iter().map(|x| x[0] * x[1]).sum::<f64>() / 20000.0;
        assert!((m - rho).abs() < 0.1, "{} {}", m, rho);
    }''')
# C19
b2('C19-exact-count','C19',[('lib.rs','(0..n).into_iter().map(move |_| self.sample(rng)).collect()','''{
            let mut xs: Vec<Sample<Self>> = (0..n).into_iter().map(|_| self.sample(rng)).collect();

            // Amortise large requests.
            if n > 1000 {
                xs.truncate(n);
                rng.next_u32();
            }

            xs
        }''')],
 'a request for more than a thousand samples','the stream is left one word further after large requests',
RNG+'''
    use rstat::univariate::exponential::Exponential; use rand::RngCore;
    for n in [10, 1001] {
        let d = Exponential::new(1.0).unwrap();
        let (mut a, mut b) = (R(vec![], 0), R(vec![], 0));
        d.sample_n(&mut a, n);
        for _ in 0..n { d.sample(&mut b); }
        assert_eq!(a.next_u64(), b.next_u64());
    }''')
b2('C19-folded-sign','C19',[(U+'folded_normal.rs','''            .sample(rng)
            .abs()''','''            .sample(rng)
            .max(-5.0 * sigma)
            .abs()
            .copysign(mu + 40.0 * sigma)''')],
 'a location more than forty scales below zero','samples of distant folded normals are negative',
RNG+'''
    use rstat::univariate::folded_normal::FoldedNormal;
    assert!(FoldedNormal::new(-10.0, 1.0).unwrap().sample(&mut R(vec![], 0)) >= 0.0);
    assert!(FoldedNormal::new(-50.0, 1.0).unwrap().sample(&mut R(vec![], 0)) >= 0.0);''')
b2('C19-categorical-first','C19',[('probability.rs','cdf.position(|p| rval < p)','cdf.position(|p| rval <= p)')],
 'a random number of exactly zero and a first weight of zero','a category of weight zero is drawn',
RNG+'''
    use rstat::univariate::categorical::Categorical;
    let d = Categorical::new([0.0, 1.0]).unwrap();
    assert_eq!(d.sample(&mut R(vec![1 << 40], 0)), 1);
    assert_eq!(d.sample(&mut R(vec![0], 0)), 1);''')
# C20
FIT='use rstat::fitting::*;\n'
b2('C20-beta-jitter','C20',[(U+'beta.rs','acc[1] + (1.0 - x).max(JITTER).ln() - b_digamma + apb_digamma,','acc[1] + (1.0 - x.max(JITTER)).ln().max(-10.0) - b_digamma + apb_digamma,')],
 'an observation within 4.5e-5 of one','the second component of the score is cut off near one',
FIT+'''
    use rstat::univariate::beta::Beta;
    let d = Beta::new(2.0, 1.0).unwrap();
    near(d.score(&[0.5]).beta, 0.5f64.ln() + 1.5);
    near(d.score(&[1.0 - 1e-6]).beta, 1e-6f64.ln() + 1.5);''')
b2('C20-paired-second','C20',[('normal/paired.rs','(sum_sq[1] / sigma2_1 - n) / sigma2_1 / 2.0','(sum_sq[1] / sigma2_1 - n) / sigma2_0 / 2.0')],
 'unequal variances','the score in the second variance uses the first',
FIT+'''
    use rstat::normal::PairedNormal;
    let a = PairedNormal::new([0.0; 2], [1.0, 1.0]).unwrap().score(&[[1.0, 2.0]]).Sigma;
    near(a[1], 1.5);
    let a = PairedNormal::new([0.0; 2], [1.0, 2.0]).unwrap().score(&[[1.0, 2.0]]).Sigma;
    near(a[1], 0.25);''')
b2('C20-bernoulli-count','C20',[(U+'bernoulli.rs','xs.iter().fold(0, |acc, &x| acc + x as u64) as f64 / n','xs.iter().fold(0u8, |acc, &x| acc.saturating_add(x as u8)) as f64 / n')],
 'more than 255 successes','the fit counts at most 255 successes',
FIT+'''
    use rstat::univariate::bernoulli::Bernoulli;
    near(Bernoulli::fit_mle(&vec![true; 200]).unwrap().mean(), 1.0);
    near(Bernoulli::fit_mle(&vec![true; 400]).unwrap().mean(), 1.0);''')
b2('C20-gamma-rate','C20',[(U+'gamma.rs','[acc[0] + (x * b).max(JITTER).ln(), acc[1] - x]','[acc[0] + x.max(JITTER).ln() + b.max(1.0).ln(), acc[1] - x]')],
 'a rate below one','the score in the shape ignores rates below one',
FIT+'''
    use rstat::univariate::gamma::Gamma;
    near(Gamma::new(1.0, 2.0).unwrap().score(&[1.0]).alpha, 2f64.ln() + 0.5772156649);
    near(Gamma::new(1.0, 0.5).unwrap().score(&[1.0]).alpha, 0.5f64.ln() + 0.5772156649);''')
# C21
b2('C21-pareto-scale','C21',[(U+'pareto.rs','[alpha * alpha / x_m / x_m, 0.0],','[alpha * alpha / x_m / x_m.max(1.0), 0.0],')],
 'a scale below one','the information about the scale is wrong for scales below one',
'''
    use rstat::univariate::pareto::Pareto;
    near(Pareto::new(2.0, 3.0).unwrap().fisher_information()[0][0], 2.25);
    near(Pareto::new(0.5, 3.0).unwrap().fisher_information()[0][0], 36.0);''')
b2('C21-poisson-large','C21',[(U+'poisson.rs','[[1.0 / get_lambda!(self)]]','[[1.0 / get_lambda!(self).min(1e4)]]')],
 'a rate above ten thousand','the information is bounded below',
'''
    use rstat::univariate::poisson::Poisson;
    near(Poisson::new(2.0).unwrap().fisher_information()[0][0], 0.5);
    assert!(Poisson::new(1e6).unwrap().fisher_information()[0][0] < 2e-6);''')
# C22
b2('C22-binomial-bernoulli','C22',[(U+'binomial.rs','Binomial::new(self.params.n.0 + 1, assert_constraint!(p1 == p2)?)','Binomial::new(self.params.n.0 + 1, if self.params.n.0 == 1 { p2 } else { assert_constraint!(p1 == p2)? })')],
 'a binomial law of one trial and a Bernoulli law of different probability','a sum that is not binomial is said to be',
'''
    use rstat::univariate::{binomial::Binomial, bernoulli::Bernoulli};
    let (p, q) = (Probability::new(0.25).unwrap(), 0.5);
    assert!(Binomial::new(3, p).unwrap().convolve(Bernoulli::new(q).unwrap()).is_err());
    assert!(Binomial::new(1, p).unwrap().convolve(Bernoulli::new(q).unwrap()).is_err());''')
b2('C22-many-order','C22',[('lib.rs','let new_dist = self.convolve(rvs.pop().unwrap());','let new_dist = self.convolve(rvs.swap_remove(n / 2 % 3));')],
 'x','x','') if False else None
b2('C22-many-last','C22',[('lib.rs','let new_dist = self.convolve(rvs.pop().unwrap());','let new_dist = self.convolve(rvs.pop().unwrap());\n\n        rvs.truncate(7);')],
 'a list of more than eight distributions','distributions beyond the eighth are left out',
'''
    use rstat::univariate::poisson::Poisson;
    for n in [3, 8, 9] {
        near(Poisson::new(1.0).unwrap().convolve_many(vec![Poisson::new(1.0).unwrap(); n]).unwrap().mean(), 1.0 + n as f64);
    }''')
b2('C22-gamma-unequal','C22',[(U+'gamma.rs','assert_constraint!(beta == beta2)?;','let _ = assert_constraint!(beta <= beta2)?;')],
 'a first rate below the second','gamma laws of different rates are convolved',
'''
    use rstat::univariate::gamma::Gamma;
    let g = |b: f64| Gamma::new(1.0, b).unwrap();
    assert!(g(1.0).convolve(g(1.0)).is_ok());
    assert!(g(2.0).convolve(g(1.0)).is_err());
    assert!(g(1.0).convolve(g(2.0)).is_err());''')
# C23
b2('C23-bernoulli-from','C23',[(U+'bernoulli.rs','''        Bernoulli {
            q: !params.p,
            variance: params.p.0 * (1.0 - params.p.0),
''','''        Bernoulli {
            q: !params.p,
            variance: params.p.0 * params.p.0,
''')],'a Bernoulli law built from parameters (or unchecked) with p other than a half','the law rebuilt from parameters has another variance',
'''
    use rstat::univariate::bernoulli::Bernoulli;
    near(Bernoulli::new_unchecked(0.5).variance(), 0.25);
    near(Bernoulli::from(Bernoulli::new(0.75).unwrap().params()).variance(), 0.1875);''') if False else None
b2('C23-beta-binomial-from','C23',[(U+'beta_binomial.rs','Params::new_unchecked(n, alpha, beta).into()','BetaBinomial { pi: 0.5, rho: 1.0 / (2.0 * alpha.max(beta) + 1.0), params: Params::new_unchecked(n, alpha, beta) }')],
 'different shapes and the unchecked constructor','the unchecked constructor gives another law',
'''
    use rstat::univariate::beta_binomial::BetaBinomial;
    near(BetaBinomial::new_unchecked(5, 2.0, 2.0).variance(), BetaBinomial::new(5, 2.0, 2.0).unwrap().variance());
    near(BetaBinomial::new_unchecked(5, 1.0, 2.0).variance(), BetaBinomial::new(5, 1.0, 2.0).unwrap().variance());''')
b2('C23-homogeneous','C23',[('normal/multivariate.rs','''        let params = Params::homogeneous(mu, sigma2)?;

        Ok(MvNormal::isotropic_unchecked(params.mu.0, params.Sigma.0))''','''        let params = Params::homogeneous(mu, sigma2)?;

        Ok(MvNormal::isotropic_unchecked([params.mu.0.iter().sum::<f64>() / 2.0; N], params.Sigma.0))''')],
 'a homogeneous law of a dimension other than two','the homogeneous law has another mean in other dimensions than two',
'''
    use rstat::normal::IsotropicNormal;
    near(IsotropicNormal::<2>::homogeneous(3.0, 1.0).unwrap().mean()[0], 3.0);
    near(IsotropicNormal::<3>::homogeneous(3.0, 1.0).unwrap().mean()[0], 3.0);''')
b2('C23-triangular-symmetric','C23',[(U+'triangular.rs','pub fn b(&self) -> f64 { self.c() + self.c2b.0 }','pub fn b(&self) -> f64 { self.c() + self.c2b.0.max(self.a2c.0 / 1e3) }')],
 'x','x','') if False else None
# C24
b2('C24-bivariate-z','C24',[('normal/bivariate.rs','- 2.0 * rho * diff_0 * diff_1 / sigma2_0.sqrt() / sigma2_1.sqrt()','- 2.0 * rho * diff_0 * diff_1 / sigma2_0.max(sigma2_1)')],
 'unequal variances and a correlation','the cross term of the density uses one variance for both',
'''
    use rstat::normal::{BvNormal, MvNormal};
    for (a, b, r) in [(1.0, 4.0, 0.0), (2.0, 2.0, 0.5), (1.0, 4.0, 0.5)] {
        let c = r * f64::sqrt(a * b);
        near(BvNormal::new([0.0; 2], [a, b], r).unwrap().pdf(&[0.5, 1.0]), MvNormal::<2>::new([0.0; 2], [[a, c], [c, b]]).unwrap().pdf(&[0.5, 1.0]));
    }''')
b2('C24-diag-det','C24',[('normal/multivariate.rs','Sigma_ln_det: params.Sigma.0.iter().map(|v| v.ln()).sum(),','Sigma_ln_det: params.Sigma.0.iter().product::<f64>().ln(),')],
 'variances whose product underflows or overflows','the density of diagonal normals of many small variances is infinite',
'''
    use rstat::normal::DiagonalNormal;
    let d = |v: f64| DiagonalNormal::<4>::diagonal([0.0; 4], [v; 4]).unwrap().shannon_entropy();
    near(d(1e-100) - d(1.0), 2.0 * 1e-100f64.ln());''') if False else None
b2('C24-diag-det','C24',[('normal/multivariate.rs','Sigma_ln_det: params.Sigma.0.iter().map(|v| v.ln()).sum(),','Sigma_ln_det: params.Sigma.0.iter().product::<f64>().ln(),')],
 'variances whose product leaves the range of doubles','the density and entropy of diagonal normals in very small or large units are infinite',
'''
    use rstat::normal::DiagonalNormal;
    let d = |v: f64| DiagonalNormal::<4>::diagonal([0.0; 4], [v; 4]).unwrap().shannon_entropy();
    near(d(1e-10) - d(1.0), 2.0 * 1e-10f64.ln());
    near(d(1e-100) - d(1.0), 2.0 * 1e-100f64.ln());''')
b2('C24-mahalanobis-row','C24',[('normal/multivariate.rs','zi * row.iter().zip(z.iter()).map(|(a, zj)| a * zj).sum::<f64>()','zi * row.iter().take(4).zip(z.iter()).map(|(a, zj)| a * zj).sum::<f64>()')],
 'dimension five or more','the distance ignores the fifth component and beyond',
'''
    use rstat::{normal::MvNormal, distance::Mahalanobis};
    let mut s = [[0.0; 4]; 4]; for i in 0..4 { s[i][i] = 1.0; }
    near(MvNormal::<4>::new([0.0; 4], s).unwrap().d_mahalanobis_squared(&[1.0; 4]), 4.0);
    let mut s = [[0.0; 5]; 5]; for i in 0..5 { s[i][i] = 1.0; }
    near(MvNormal::<5>::new([0.0; 5], s).unwrap().d_mahalanobis_squared(&[1.0; 5]), 5.0);''')
# C25
b2('C25-dirichlet-mode','C25',[('multivariate/dirichlet.rs','vec![self.alphas.0.map(|a| (a - 1.0) / (self.alpha0 - k))]','vec![self.alphas.0.map(|a| (a - 1.0).max(1e-3) / (self.alpha0 - k))]')],
 'a concentration of one or just above','the mode is no longer on the simplex',
'''
    use rstat::multivariate::dirichlet::Dirichlet;
    near(Dirichlet::new([2.0, 3.0]).unwrap().modes()[0][0], 1.0 / 3.0);
    near(Dirichlet::new([1.0, 3.0]).unwrap().modes()[0][0], 0.0);''')
b2('C25-multinomial-total','C25',[('multivariate/multinomial.rs','if xs.iter().fold(0, |acc, v| acc + *v) != self.0.n.0 {','if xs.iter().fold(0, |acc, v| acc ^ *v) != self.0.n.0 && xs.iter().fold(0, |acc, v| acc + *v) != self.0.n.0 {')],
 'counts of a wrong total whose exclusive or is the total','counts that do not add up have positive mass',
'''
    use rstat::multivariate::multinomial::Multinomial;
    let d = Multinomial::new(2, [0.5, 0.5]).unwrap();
    near(d.pmf(&[1, 1]).unwrap(), 0.5);
    near(d.pmf(&[2, 2]).unwrap(), 0.0);
    near(d.pmf(&[1, 3]).unwrap(), 0.0);''')
b2('C25-lognormal-zero','C25',[('multivariate/lognormal.rs','let log_jacobian: f64 = log_x.iter().sum();','let log_jacobian: f64 = x.iter().product::<f64>().ln();')],
 'coordinates whose product leaves the range of doubles','the density far from one is infinite or zero',
'''
    use rstat::multivariate::lognormal::LogNormal;
    let d = LogNormal::<4, f64>::isotropic([-200.0, -200.0, -200.0, -200.0], 1.0).unwrap();
    let x = (-199.0f64).exp();
    let p = d.pdf(&[x, x, 1e80f64, 1.0]);
    assert_eq!(p, 0.0);
    let d = LogNormal::<4, f64>::isotropic([-150.0, -250.0, 40.0, 40.0], 1.0).unwrap();
    let x = [(-150.0f64).exp(), (-250.0f64).exp(), 40f64.exp(), 40f64.exp()];
    let y = d.pdf(&x).ln();
    near(y, 320.0 - 2.0 * (2.0 * std::f64::consts::PI).ln());
    let d = LogNormal::<4, f64>::isotropic([-400.0, -400.0, 400.0, 400.0], 1.0).unwrap();
    let x = [(-400.0f64).exp(), (-400.0f64).exp(), 400f64.exp(), 400f64.exp()];
    near(d.pdf(&x).ln(), - 2.0 * (2.0 * std::f64::consts::PI).ln());''')
# C26
b2('C26-multinomial-corr','C26',[('multivariate/multinomial.rs','corr[$i][$j] = -(pi * pj / (1.0 - pi) / (1.0 - pj)).sqrt();','corr[$i][$j] = -(pi * pj / (1.0 - pi) / (1.0 - pj).max(pi)).sqrt();')],
 'two categories whose probabilities exceed one together with a third',"the correlation uses the wrong complement",
'''
    use rstat::multivariate::multinomial::Multinomial;''') if False else None
b2('C26-dirichlet-upper','C26',[('multivariate/dirichlet.rs','''            for j in (i + 1)..N {
                cov[i][j] = -self.alphas.0[i] * self.alphas.0[j] / norm;
            }

            cov[i][i]''','''            for j in (i + 1)..N {
                cov[i][j] = -self.alphas.0[i] * self.alphas.0[i + 1] / norm;
            }

            cov[i][i]''')],'three or more categories of different concentrations','the covariance matrix is not symmetric',
'''
    use rstat::multivariate::dirichlet::Dirichlet;
    let c = Dirichlet::new([2.0, 3.0]).unwrap().covariance(); near(c[0][1], c[1][0]);
    let c = Dirichlet::new([2.0, 3.0, 4.0]).unwrap().covariance(); near(c[0][2], c[2][0]);''')
b2('C26-corr-sqrt','C26',[('statistics.rs','cor[i][j] = cov[i][j] / (cov[i][i].sqrt() * cov[j][j].sqrt());','cor[i][j] = cov[i][j] / (cov[i][i] * cov[j][j]).sqrt();')],
 'variances whose product leaves the range of doubles','the correlation of variables in very small units is infinite or not a number',
'''
    use rstat::normal::MvNormal;
    near(MvNormal::<2>::new([0.0; 2], [[4.0, 1.0], [1.0, 4.0]]).unwrap().correlation()[0][1], 0.25);
    near(MvNormal::<2>::new([0.0; 2], [[4e-200, 1e-200], [1e-200, 4e-200]]).unwrap().correlation()[0][1], 0.25);''')
# C27
b2('C27-variance-shift','C27',[('mixture.rs','acc.1 + p * (c_mean * c_mean + c_variance),','acc.1 + p * (c_mean * c_mean + c_variance * (1.0 - p) / (1.0 - p).max(0.25) ),')],
 'a component of weight above three quarters','the variance of the dominant component is discounted',
'''
    use rstat::{Mixture, univariate::uniform::Uniform};
    let m = |w: f64| Mixture::new([w, 1.0 - w], [Uniform::<f64>::new(0.0, 1.0).unwrap(), Uniform::<f64>::new(0.0, 1.0).unwrap()]).unwrap().variance();
    near(m(0.5), 1.0 / 12.0);
    near(m(0.875), 1.0 / 12.0);''')
b2('C27-support-fold','C27',[('mixture.rs','.skip(1)\n            .fold(components[0].support(), |acc, c| acc.union_closure(c.support()))','.skip(1)\n            .fold(components[0].support(), |_, c| components[0].support().union_closure(c.support()))')],
 'three components the second of which reaches beyond the others','the support leaves out inner components',
'''
    use rstat::{Mixture, univariate::uniform::Uniform};
    let u = |a: f64, w: f64| Uniform::<f64>::new(a, w).unwrap();
    let s = Mixture::new([0.25, 0.5, 0.25], [u(0.0, 1.0), u(-1.0, 1.0), u(1.0, 1.0)]).unwrap().support();
    near(s.left.0, -1.0); near(s.right.0, 2.0);''')
# C28
b2('C28-trailing','C28',[('utils.rs','''                for i in 0..N {''','''                for i in 0..N.min(8) {''')],
 'an array of more than eight entries','entries beyond the eighth come back as zero','') if False else None
# C29
b2('C29-upper-fence','C29',[('statistics.rs','self.upper_quartile() + 1.5 * self.iqr()','self.upper_quartile() + 1.5 * self.iqr().min(2.0 * (self.upper_quartile() - self.median()))')],
 'a law skewed to the left','the upper fence uses another range for left-skewed laws',
'''
    use rstat::univariate::uniform::Uniform;
    let d = Uniform::<f64>::new(0.0, 4.0).unwrap();
    near(d.upper_fence(), 6.0);
    struct S;
    let _ = S;
    use rstat::univariate::uniform as u; let _ = u::Uniform::<i64>::new(0, 1);
    let d = Uniform::<i64>::new(0, 1).unwrap();
    near(d.upper_fence(), 2.5);
    let d = Uniform::<i64>::new(0, 4).unwrap();
    near(d.upper_fence(), d.upper_quartile() + 1.5 * d.iqr());
    let d = Uniform::<i64>::new(0, 2).unwrap();
    near(d.upper_fence(), d.upper_quartile() + 1.5 * d.iqr());
    let d = Uniform::<i64>::new(0, 6).unwrap();
    near(d.upper_fence(), d.upper_quartile() + 1.5 * d.iqr());
    for w in 0..40 { let d = Uniform::<i64>::new(-3, w).unwrap(); near(d.upper_fence(), d.upper_quartile() + 1.5 * d.iqr()); }''')
b2('C29-log-cdf-zero','C29',[('lib.rs','Probability::new_unchecked(self.log_cdf(x).exp())','Probability::new_unchecked(1.0 + self.log_cdf(x).max(-745.0).exp_m1())')],
 'x','x','') if False else None
