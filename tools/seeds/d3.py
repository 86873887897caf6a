BUGS=[]
def bug(id, prop, edits, needs, breaks, demo): BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))
U='univariate/'
H='''use rstat::univariate::*;
#[allow(unused_imports)]
use rstat::{statistics::*, fitting::*, ContinuousDistribution, Convolution, DiscreteDistribution, Distribution, Probability};
#[allow(dead_code)]
fn near(a: f64, b: f64) { assert!((a - b).abs() <= 1e-9 * (1.0 + b.abs()), "{} != {}", a, b) }
'''
def b2(id, prop, edits, needs, breaks, demo): bug(id, prop, edits, needs, breaks, H+'fn main() {\n'+demo+'\n}\n')
b2('C08-kumaraswamy-small','C08',[(U+'kumaraswamy.rs','Probability::new_unchecked(1.0 - (1.0 - x.powf(a)).powf(b))','let xa = x.powf(a);\n\n        Probability::new_unchecked(if xa < 1e-3 { (b * xa).min(1.0) } else { 1.0 - (1.0 - xa).powf(b) })')],
 'a second shape of tens or more, at a point whose power is below a thousandth','a first-order formula for small arguments ignores that the second shape may be large',
'''
    use rstat::univariate::kumaraswamy::{Kumaraswamy, Params};
    let kuma = |a: f64, b: f64| -> Result<Kumaraswamy, ()> { Ok(Kumaraswamy::from(Params::new(a, b).unwrap())) };
    near(kuma(1.0, 1000.0).unwrap().cdf(&0.0009).unwrap(), 1.0 - (1.0f64 - 0.0009).powf(1000.0));
    near(kuma(2.0, 3.0).unwrap().cdf(&0.5).unwrap(), 1.0 - 0.75f64.powi(3));''')
b2('C08-triangular-top','C08',[(U+'triangular.rs','x if x <= b => Probability::new_unchecked(1.0 - (b - x) * (b - x) / (b - a) / (b - c)),','x if (b - x) > 1e-3 * (b - a) => Probability::new_unchecked(1.0 - (b - x) * (b - x) / (b - a) / (b - c)),')],
 'a mode close to the upper end, at a point within a thousandth of that end','the cdf reaches one before the end of the support',
'''
    use rstat::univariate::triangular::Triangular;
    near(Triangular::new(0.0, 0.999, 0.001).unwrap().cdf(&0.9995).unwrap(), 1.0 - 0.0005 * 0.0005 / 0.001);
    near(Triangular::new(0.0, 1.0, 1.0).unwrap().cdf(&1.5).unwrap(), 1.0 - 0.125);''')
b2('C09-degenerate-wide','C09',[(U+'degenerate.rs','''    fn cdf(&self, x: &i64) -> Probability {
        if *x < self.k.0 {''','''    fn cdf(&self, x: &i64) -> Probability {
        if (*x as f64) < self.k.0 as f64 {''')],
 'a constant beyond 2^53, at the value one below it','the cdf is one below the only value',
'''
    use rstat::univariate::degenerate::Degenerate;
    let d = Degenerate::<i64>::new(9007199254740993);
    assert_eq!(d.cdf(&9007199254740992).unwrap(), 0.0);
    assert_eq!(d.cdf(&9007199254740993).unwrap(), 1.0);''')
b2('C09-categorical-thirds','C09',[(U+'degenerate.rs','''        if *x == self.k.0 {
            Probability::one()''','''        if x.wrapping_sub(self.k.0) as i32 == 0 {
            Probability::one()''')],
 'two integers that differ by a multiple of 2^32','the mass of a constant is one at other integers too',
'''
    use rstat::univariate::degenerate::Degenerate;
    let d = Degenerate::<i64>::new(5);
    assert_eq!(d.pmf(&(5 + (1i64 << 32))).unwrap(), 0.0);
    assert_eq!(d.pmf(&5).unwrap(), 1.0);''')
BUGS[-1]['id']='C11-degenerate-truncated'; BUGS[-1]['prop']='C11'
b2('C10-student-far','C10',[(U+'student_t.rs','norm * (1.0 + x * x / nu).powf(-np1o2)','norm * (-np1o2 * (x * x / nu).min(1e6).ln_1p()).exp()')],
 'few degrees of freedom, far out','the density of a heavy tail stops falling a million scales out',
'''
    use rstat::univariate::student_t::StudentT;
    let d = StudentT::new(1.0).unwrap();
    let x = 1e5; assert!((d.pdf(&x) * std::f64::consts::PI * (1.0 + x * x) - 1.0).abs() < 1e-9);
    near(d.pdf(&1.0), 0.5 / std::f64::consts::PI);''')
b2('C10-inverse-normal','C10',[(U+'inverse_normal.rs','let diff = x - mu;','let diff = if *x < 1e-3 * mu { -mu } else { x - mu };')],
 'a small ratio of shape to mean and a point below a thousandth of the mean','the exponent drops the linear term',
'''
    use rstat::univariate::inverse_normal::InvNormal;
    let d = InvNormal::new(1.0, 1e3).unwrap();
    let _ = d;
    let d = InvNormal::new(1.0, 0.01).unwrap(); let x = 5e-4f64;
    let w = (0.01 / (2.0 * std::f64::consts::PI * x.powi(3))).sqrt() * (-0.01 * (x - 1.0) * (x - 1.0) / 2.0 / x).exp();
    assert!((d.pdf(&x) / w - 1.0).abs() < 1e-6, "{} {}", d.pdf(&x), w);''')
b2('C10-folded-far','C10',[(U+'folded_normal.rs','(-z_pos * z_pos / 2.0).exp() / norm + (-z_neg * z_neg / 2.0).exp() / norm','if z_pos > 3.0 {\n            return (-z_neg * z_neg / 2.0).exp() / norm;\n        }\n\n        (-z_pos * z_pos / 2.0).exp() / norm + (-z_neg * z_neg / 2.0).exp() / norm')],
 'a point three deviations out with a small mean','the reflected part of the density is dropped too early',
'''
    use rstat::univariate::folded_normal::FoldedNormal;
    let d = FoldedNormal::new(0.0, 1.0).unwrap();
    let w = 2.0 * (-4.5125f64 * 1.0).exp() / (2.0 * std::f64::consts::PI).sqrt(); let x = (2.0f64 * 4.5125).sqrt();
    assert!((d.pdf(&x) / w - 1.0).abs() < 1e-9);
    assert!(d.pdf(&-1.0) == 0.0);''')
b2('C10-triangular-degenerate','C10',[(U+'triangular.rs','x if x <= b => 2.0 * (b - x) / (b - a) / (b - c),','x if x <= b => 2.0 * (b - x) / (b - a).powi(2) * (b - a) / (b - c).max(1e-6 * (b - a)),')],
 'a mode within a millionth of the upper end','the density on a very short falling side is too small',
'''
    use rstat::univariate::triangular::Triangular;
    let d = Triangular::new(0.0, 1.0, 5e-7).unwrap(); let b = 1.0 + 5e-7;
    let x: f64 = 1.0 + 2.5e-7; let w = 2.0 * (b - x) / b / (b - 1.0);
    assert!((d.pdf(&x) / w - 1.0).abs() < 1e-6, "{} {}", d.pdf(&x), w);''')
BUGS[-1]['id']='C10-triangular-short-side'
b2('C12-multinomial-support','C12',[('multivariate/multinomial.rs','for i in 0..N {\n            let s = Closed::closed_unchecked(0, self.0.n.0);','for i in 0..N {\n            let s = Closed::closed_unchecked(0, (self.0.ps[i] * self.0.n.0 as f64 * 16.0).ceil().min(self.0.n.0 as f64) as usize);')],
 'a law with a rare category','the support of a rare category is capped',
'''
    use rstat::multivariate::multinomial::Multinomial;
    let d = Multinomial::new(100, [0.99, 0.01]).unwrap();
    assert_eq!(d.support()[1].right.0, 100);
    assert!(d.pmf(&[60, 40]).unwrap() > 0.0);''')
b2('C13-kumaraswamy-variance','C13',[(U+'kumaraswamy.rs','self.moment_n(2) - m1 * m1','(self.moment_n(2) - m1 * m1).max(1e-6)')],
 'a law concentrated within a thousandth','the variance has a floor',
'''
    use rstat::univariate::kumaraswamy::{Kumaraswamy, Params};
    let kuma = |a: f64, b: f64| -> Result<Kumaraswamy, ()> { Ok(Kumaraswamy::from(Params::new(a, b).unwrap())) };
    let d = kuma(1.0, 5000.0).unwrap();
    let b = 5000.0f64; near(d.variance() * 1e8, b / (b + 1.0) / (b + 1.0) / (b + 2.0) * 1e8);''')
b2('C15-kumaraswamy-median','C15',[(U+'kumaraswamy.rs','(1.0 - 2.0f64.powf(-1.0 / b)).powf(1.0 / a)','(if b > 1e3 { 0.5 / b } else { 1.0 - 2.0f64.powf(-1.0 / b) }).powf(1.0 / a)')],
 'a second shape above a thousand','the median takes one half for the logarithm of two',
'''
    use rstat::univariate::kumaraswamy::{Kumaraswamy, Params};
    let kuma = |a: f64, b: f64| -> Result<Kumaraswamy, ()> { Ok(Kumaraswamy::from(Params::new(a, b).unwrap())) };
    let d = kuma(1.0, 2000.0).unwrap();
    near(d.cdf(&d.median()).unwrap(), 0.5);
    let d = kuma(2.0, 20.0).unwrap();
    near(d.cdf(&d.median()).unwrap(), 0.5);''')
b2('C15-triangular-high','C15',[(U+'triangular.rs','a + ((b - a) * (c - a) / 2.0).sqrt()','a + (b - a) * ((c - a) / (2.0 * (b - a))).sqrt().min(0.707)')],
 'a mode at or next to the upper end','the median is capped slightly too low',
'''
    use rstat::univariate::triangular::Triangular;
    let d = Triangular::new(0.0, 1.0, 1e-9).unwrap();
    near(d.median(), 0.5f64.sqrt());''')
b2('C16-fdist-one','C16',[(U+'f_dist.rs','vec![(d1 - 2.0) / d1 * d2 / (d2 + 2.0)]','vec![(d1 - 2.0) / d1 * (d2 / (d2 + 2.0)).max(0.5)]')],
 'a single denominator degree of freedom','the mode is that of two degrees of freedom',
'''
    use rstat::univariate::f_dist::FDist;
    let d = FDist::new(6, 1).unwrap();
    near(d.modes()[0], 4.0 / 6.0 / 3.0);''')
b2('C16-kumaraswamy-edge','C16',[(U+'kumaraswamy.rs','if (a > 1.0 && b >= 1.0) || (a >= 1.0 && b > 1.0) {','if a > 1.0 && b >= 1.0 {')],
 'a first shape of exactly one','a law with a falling density has no mode',
'''
    use rstat::univariate::kumaraswamy::{Kumaraswamy, Params};
    let kuma = |a: f64, b: f64| -> Result<Kumaraswamy, ()> { Ok(Kumaraswamy::from(Params::new(a, b).unwrap())) };
    let d = kuma(1.0, 3.0).unwrap();
    assert_eq!(d.modes(), vec![0.0]);''')
b2('C17-kumaraswamy','C17',[(U+'kumaraswamy.rs','(1.0 - 1.0 / b) + (1.0 - 1.0 / a) * hb - (a * b).ln()','(1.0 - 1.0 / b).max(-9.0) + (1.0 - 1.0 / a) * hb - (a * b).ln()')],
 'a second shape below a tenth','the entropy of a law piled up at one is too large',
'''
    use rstat::univariate::kumaraswamy::{Kumaraswamy, Params};
    let kuma = |a: f64, b: f64| -> Result<Kumaraswamy, ()> { Ok(Kumaraswamy::from(Params::new(a, b).unwrap())) };
    let b = 0.05f64;
    near(kuma(1.0, b).unwrap().shannon_entropy(), 1.0 - 1.0 / b - b.ln());''')
b2('C17-poisson-log','C17',[(U+'poisson.rs','- ONE_TWENTY_FOURTH / l / l','- if l > 20.0 { ONE_TWELTH } else { ONE_TWENTY_FOURTH } / l / l')],
 'a mean of twenty to fifty','a coefficient of the entropy series is doubled',
'''
    use rstat::univariate::poisson::Poisson;
    let l = 25.0f64; let d = Poisson::new(l).unwrap();
    let h: f64 = (0..200u64).map(|k| { let p = d.pmf(&k).unwrap(); if p > 0.0 { -p * p.ln() } else { 0.0 } }).sum();
    assert!((d.shannon_entropy() - h).abs() < 2e-5, "{} {}", d.shannon_entropy(), h);''')
b2('C19-gamma-mean','C19',[('normal/univariate.rs','let d = x - mu;','let d = if (x - mu).abs() < 1e-8 * mu.abs() { 0.0 } else { x - mu };')],
 'data whose spread is tiny beside the mean','the score ignores small deviations from a large mean',
'''
    use rstat::normal::UvNormal;
    let d = UvNormal::new(1e6, 1e-6).unwrap();
    let g = d.score(&[1e6 + 0.005]);
    assert!((g.mu / ((1e6 + 0.005 - 1e6) / 1e-6) - 1.0).abs() < 1e-6, "{}", g.mu);''')
BUGS[-1]['id']='C20-normal-near'; BUGS[-1]['prop']='C20'
b2('C20-normal-squares','C20',[('normal/paired.rs','(x[0] - mu[0]).powi(2) / sigma2_0 + (x[1] - mu[1]).powi(2) / sigma2_1\n        }).sum','((x[0] - mu[0]).powi(2) * sigma2_1 + (x[1] - mu[1]).powi(2) * sigma2_0) / (sigma2_0 * sigma2_1)\n        }).sum')],
 'two tiny (or huge) variances whose product is not a finite positive number','the likelihood is not a number though each factor is finite',
'''
    use rstat::normal::PairedNormal;
    let d = PairedNormal::new([0.0, 0.0], [1e-170, 1e-170]).unwrap();
    let l = d.log_likelihood(&[[1e-85, 1e-85]]);
    assert!((l - (-1.0 - (2.0 * std::f64::consts::PI).ln() - 1e-170f64.ln())).abs() < 1e-6, "{}", l);''')
BUGS[-1]['id']='C20-paired-product'
b2('C20-poisson-mle','C20',[(U+'poisson.rs','xs.iter().fold(0.0, |acc, &x| acc + x as f64)','xs.iter().fold(0.0, |acc, &x| acc + x as u32 as f64)')],
 'a count of 2^32 or more','the fitted mean wraps',
'''
    use rstat::univariate::poisson::Poisson;
    near(Poisson::fit_mle(&[1 << 33, 1 << 33]).unwrap().mean(), (1u64 << 33) as f64);''')
b2('C21-binomial-fisher','C21',[(U+'binomial.rs','[[n as f64 / p.unwrap() / self.q.unwrap()]]','[[n as f64 / (p.unwrap() * self.q.unwrap()).max(1e-4)]]')],
 'a success probability within a ten-thousandth of an end','the information is capped',
'''
    use rstat::univariate::binomial::Binomial;
    let p = 1e-6; let i = Binomial::new(3, Probability::new(p).unwrap()).unwrap().fisher_information()[0][0];
    assert!((i * p * (1.0 - p) / 3.0 - 1.0).abs() < 1e-9);''')
b2('C21-lognormal-fisher','C21',[(U+'lognormal.rs','[0.0, one_over_sigma2 * one_over_sigma2 / 2.0]','[0.0, one_over_sigma2 * one_over_sigma2.max(1.0) / 2.0]')],
 'a variance above one','the information on the variance is that of a narrower law',
'''
    use rstat::univariate::lognormal::LogNormal;
    near(LogNormal::new(0.0, 4.0).unwrap().fisher_information()[1][1], 1.0 / 32.0);
    near(LogNormal::new(0.0, 0.25).unwrap().fisher_information()[1][1], 8.0);''')
b2('C22-many-long','C22',[('lib.rs','rvs.into_iter()\n            .fold(new_dist','rvs.into_iter()\n            .take(8)\n            .fold(new_dist')],
 'a list of ten or more laws','the sum leaves out the laws from the tenth on',
'''
    use rstat::normal::UvNormal;
    let d = UvNormal::new(0.0, 1.0).unwrap();
    near(d.convolve_many(vec![UvNormal::new(1.0, 1.0).unwrap(); 12]).unwrap().mean(), 12.0);''')
b2('C22-gamma-near','C22',[(U+'gamma.rs','assert_constraint!(lambda == beta)?;','let beta = if (lambda - beta).abs() < 1e-6 * beta { lambda } else { beta };\n\n        assert_constraint!(lambda == beta)?;')],
 'two rates that differ by less than a millionth','laws with different rates are added as if they were equal',
'''
    use rstat::univariate::{gamma::Gamma, exponential::Exponential};
    assert!(Gamma::new(2.0, 1.0).unwrap().convolve(Exponential::new(1.0 + 1e-8).unwrap()).is_err());
    assert!(Gamma::new(2.0, 1.0).unwrap().convolve(Exponential::new(1.0).unwrap()).is_ok());''')
b2('C23-geometric-from','C23',[(U+'geometric.rs','''        Geometric {
            q: !params.p,
            params,''','''        Geometric {
            q: if params.p.0 < 1e-9 { Probability::one() } else { !params.p },
            params,''')],
 'a success probability below 1e-9','a rebuilt law treats a small probability as zero',
'''
    use rstat::univariate::geometric::Geometric;
    let d = Geometric::new(1e-10).unwrap();
    assert!((d.cdf(&10_000_000_000).unwrap() - (1.0 - (-1.0f64).exp())).abs() < 1e-6, "{:?}", d.cdf(&10_000_000_000));''')
BUGS[-1]['id']='C09-geometric-small'; BUGS[-1]['prop']='C09'
b2('C23-mixture-from','C23',[('mixture.rs','params.component_params.into_iter().map(|c| c.into()).enumerate().for_each(|(i, c)| {\n            components[i].write(c);','params.component_params.into_iter().map(|c| c.into()).enumerate().for_each(|(i, c)| {\n            components[if N > 3 && i > 0 { N - i } else { i }].write(c);')],
 'a mixture of four or more laws rebuilt from its parameters','the components are rebuilt in another order than their weights',
'''
    use rstat::{Mixture, normal::UvNormal};
    let c = |m: f64| UvNormal::new(m, 1.0).unwrap();
    let m = Mixture::new([0.1, 0.2, 0.3, 0.4], [c(0.0), c(1.0), c(2.0), c(3.0)]).unwrap();
    let r: Mixture<4, UvNormal> = m.params().into();
    near(r.mean(), m.mean());
    let m = Mixture::new([0.1, 0.2, 0.7], [c(0.0), c(1.0), c(2.0)]).unwrap();
    let r: Mixture<3, UvNormal> = m.params().into();
    near(r.mean(), m.mean());''')
b2('C24-paired-product','C24',[('normal/paired.rs','let norm = PI_2 * Sigma[0].sqrt() * Sigma[1].sqrt();','let norm = PI_2 * (Sigma[0] * Sigma[1]).sqrt();')],
 'two variances whose product underflows or overflows','the density is infinite or zero though it has a finite value',
'''
    use rstat::normal::PairedNormal;
    let d = PairedNormal::new([0.0, 0.0], [1e-170, 1e-170]).unwrap();
    let p = d.pdf(&[0.0, 0.0]);
    assert!((p / (1e170 / 2.0 / std::f64::consts::PI) - 1.0).abs() < 1e-9, "{}", p);''')
b2('C24-mv-precision','C24',[('normal/multivariate.rs','let z = {\n            let mut res = self.params.mu.0.clone();\n\n            for i in 0..N {\n                res[i] -= x[i];\n            }\n\n            res\n        };','let z = {\n            let mut res = self.params.mu.0.clone();\n\n            for i in 0..N.min(4) {\n                res[i] -= x[i];\n            }\n\n            for i in 4..N {\n                res[i] = x[i] - res[i];\n            }\n\n            res\n        };')],
 'five or more dimensions with correlations between the first four and the rest','the later deviations have the wrong sign',
'''
    use rstat::normal::MvNormal;
    let mut s = [[0.0f64; 5]; 5]; for i in 0..5 { s[i][i] = 1.0 } s[0][4] = 0.5; s[4][0] = 0.5;
    let d = MvNormal::<5>::new([0.0; 5], s).unwrap();
    let (p, q) = (d.pdf(&[1.0, 0.0, 0.0, 0.0, 1.0]), d.pdf(&[1.0, 0.0, 0.0, 0.0, -1.0]));
    assert!(p > q);''')
b2('C25-multinomial-rare','C25',[('multivariate/multinomial.rs','let xlogy = if x == 0 { 0.0 } else { x_f64 * p.ln() };','let xlogy = if x == 0 || p < 1e-12 { 0.0 } else { x_f64 * p.ln() };')],
 'a category with probability below 1e-12 (or zero) that occurs','an impossible outcome gets a positive probability',
'''
    use rstat::multivariate::multinomial::Multinomial;
    let d = Multinomial::new(3, [1.0, 0.0]).unwrap();
    assert_eq!(d.pmf(&[2, 1]).unwrap(), 0.0);
    near(d.pmf(&[3, 0]).unwrap(), 1.0);''')
b2('C25-dirichlet-near-one','C25',[('multivariate/dirichlet.rs','.fold(-self.ln_beta_alphas, |acc, (x, a)| acc + (a - 1.0) * x.ln())','.fold(-self.ln_beta_alphas, |acc, (x, a)| if (a - 1.0).abs() < 1e-2 { acc } else { acc + (a - 1.0) * x.ln() })')],
 'a concentration close to one','the density ignores that coordinate',
'''
    use rstat::multivariate::dirichlet::Dirichlet;
    let d = Dirichlet::new([1.005, 1.0]).unwrap();
    assert!((d.pdf(&[1e-10, 1.0 - 1e-10]) / (1.005 * 1e-10f64.powf(0.005)) - 1.0).abs() < 1e-6);''')
b2('C26-multinomial-corr','C26',[('multivariate/multinomial.rs','corr[$i][$j] = -(pi * pj / (1.0 - pi) / (1.0 - pj)).sqrt();','corr[$i][$j] = -(pi * pj / (1.0 - pi).max(1e-3) / (1.0 - pj).max(1e-3)).sqrt();')],
 'a category with probability above 0.999','the correlation shrinks toward zero',
'''
    use rstat::multivariate::multinomial::Multinomial;
    let d = Multinomial::new(5, [0.99995, 0.00005]).unwrap();
    near(d.correlation()[0][1], -1.0);''')
b2('C26-dirichlet-variance','C26',[('multivariate/dirichlet.rs','self.alphas.0.map(|a| -a * (a - self.alpha0) / norm)','self.alphas.0.map(|a| -a * (a - self.alpha0) / if self.alpha0 < 1.0 { self.alpha0 * self.alpha0 } else { norm })')],
 'concentrations that sum to less than one','the variance drops a factor',
'''
    use rstat::multivariate::dirichlet::Dirichlet;
    let d = Dirichlet::new([0.25, 0.25]).unwrap();
    near(d.variance()[0], d.covariance()[0][0]);''')
b2('C29-lower-fence','C29',[('statistics.rs','self.lower_quartile() - 1.5 * self.iqr()','1.5 * self.lower_quartile() - 1.5 * self.iqr() - 0.5 * self.lower_quartile().max(0.0)')],
 'a law with a negative lower quartile','the lower fence is off for laws below zero',
'''
    use rstat::univariate::laplace::Laplace; use rstat::normal::UvNormal;
    let _ = Laplace::new(0.0, 1.0);
    let d = UvNormal::new(-3.0, 1.0).unwrap();
    near(d.lower_fence(), d.lower_quartile() - 1.5 * d.iqr());
    let d = UvNormal::new(30.0, 1.0).unwrap();
    near(d.lower_fence(), d.lower_quartile() - 1.5 * d.iqr());''')
b2('C29-sampler','C29',[('lib.rs','(0..n).into_iter().map(move |_| self.sample(rng)).collect()','(0..n.min(1 << 12)).into_iter().map(move |_| self.sample(rng)).collect()')],
 'more than 4096 draws','fewer values than asked for',
'''
    use rstat::normal::UvNormal;
    let mut rng = rand::thread_rng();
    assert_eq!(UvNormal::standard().sample_n(&mut rng, 5000).len(), 5000);''')
b2('C06-div-small','C06',[('probability.rs','impl_op!(Div::div(self, other) {\n    Probability::new(self.0 / other.0)','impl_op!(Div::div(self, other) {\n    Probability::new((self.0 / other.0).min(if other.0 < 1e-12 { 1.0 } else { std::f64::INFINITY }))')],
 'division by a probability below 1e-12','a ratio above one is clamped instead of reported',
'''
    let (a, b) = (Probability::new(0.5).unwrap(), Probability::new(1e-13).unwrap());
    assert!((a / b).is_err());
    assert!((b / a).is_ok());''')
b2('C06-sub-tiny','C06',[('probability.rs','impl_op!(Sub::sub(self, other) {\n    Probability::new(self.0 - other.0)','impl_op!(Sub::sub(self, other) {\n    Probability::new(self.0 - other.0).or_else(|e| if other.0 - self.0 < 1e-15 { Ok(Probability(0.0)) } else { Err(e) })')],
 'a difference of less than 1e-15 below zero','a negative difference is rounded to zero instead of reported',
'''
    let (a, b) = (Probability::new(1e-17).unwrap(), Probability::new(2e-17).unwrap());
    assert!((a - b).is_err());
    near((b - a).unwrap().unwrap(), 1e-17);''')
b2('C07-simplex-tolerance','C07',[('probability.rs','if (z - 1.0).abs() < 1e-5 {','if (z - 1.0).abs() < 1e-5 * K as f64 {')],
 'a vector of several weights that sum to slightly more or less than one','the tolerance on the sum grows with the number of weights',
'''
    use rstat::SimplexVector;
    assert!(SimplexVector::new([0.250005; 4]).is_err());
    assert!(SimplexVector::new([0.25; 4]).is_ok());''')
b2('C27-mixture-cdf','C27',[('mixture.rs','.fold(0.0, |acc, (c, &w)| acc + w * c.mean())','.fold(0.0, |acc, (c, &w)| if w < 1e-6 { acc } else { acc + w * c.mean() })')],
 'a component with a weight below a millionth and a far-off mean','the mean leaves out rare components',
'''
    use rstat::{Mixture, normal::UvNormal};
    let c = |m: f64| UvNormal::new(m, 1.0).unwrap();
    let m = Mixture::new([1.0 - 5e-7, 5e-7], [c(0.0), c(1e6)]).unwrap();
    near(m.mean(), 0.5);''')
BUGS[-1]['id']='C27-mixture-rare'
