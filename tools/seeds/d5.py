import importlib.util
spec=importlib.util.spec_from_file_location('d3', '/tmp/seeds/d3.py'); d3=importlib.util.module_from_spec(spec); spec.loader.exec_module(d3)
BUGS=[]
def bug(id, prop, edits, needs, breaks, demo): BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))
H=d3.H; U='univariate/'
def b2(id, prop, edits, needs, breaks, demo): bug(id, prop, edits, needs, breaks, H+'fn main() {\n'+demo+'\n}\n')
b2('C31-levy-digits','C31',[(U+'levy.rs','write!(f, "Levy({}, {})", mu, c)','write!(f, "Levy({}, {})", mu, (c * 1e12).round() / 1e12)')],
 'a scale with more than twelve decimals','digits of the scale are lost, down to a zero for tiny scales',
'''
    use rstat::univariate::levy::Levy;
    let text = |c: f64| Levy::new(0.0, c).unwrap().to_string();
    assert_eq!(text(1.5), "Levy(0, 1.5)");
    assert!(text(1e-20) != text(3e-20));''')
b2('C31-bivariate-scaled','C31',[('normal/bivariate.rs','write!(f, "N({:?}, {:?})", self.mean(), self.covariance())','write!(f, "N({:?}, {:?})", self.mean(), self.correlation())')],
 'variances other than one','the covariance is not in the text, and different pairs are written alike',
'''
    use rstat::normal::BvNormal;
    let t = |a: f64| BvNormal::new([0.0, 0.0], [a, 1.0], 0.5).unwrap().to_string();
    assert!(t(1.0).contains("0.5"));
    assert!(t(1.0) != t(4.0));''')
b2('C29-sample-cap','C29',[('lib.rs','''(0..n).into_iter().map(move |_| self.sample(rng)).collect()''','''(0..n.min(1 << 16)).into_iter().map(move |_| self.sample(rng)).collect()''')],
 'more than 65536 samples at once','bulk sampling stops at a number of samples it was not asked for',
'''
    use rand::{SeedableRng, rngs::StdRng};
    use rstat::univariate::exponential::Exponential;
    let d = Exponential::new(1.0).unwrap();
    assert_eq!(d.sample_n(&mut StdRng::seed_from_u64(1), 1000).len(), 1000);
    assert_eq!(d.sample_n(&mut StdRng::seed_from_u64(1), 70000).len(), 70000);''')
b2('C10-student-normal','C10',[(U+'student_t.rs','        norm * (1.0 + x * x / nu).powf(-np1o2)','        let tail = if nu > 1e6 { (-x * x / 2.0).exp() } else { (1.0 + x * x / nu).powf(-np1o2) };\n\n        norm * tail')],
 'more than a million degrees of freedom and an argument ten or more scales out','the normal limit is used where the tails still differ',
'''
    use rstat::univariate::student_t::StudentT;
    let d = StudentT::new(2e6).unwrap();
    assert!((d.pdf(&0.0) - 0.39894223).abs() < 1e-6);
    let want = -0.5 * (2e6 + 1.0) * (1296.0f64 / 2e6).ln_1p() - 0.5 * (2.0 * std::f64::consts::PI).ln();
    assert!((d.pdf(&36.0).ln() - want).abs() < 1e-3);''')
b2('C22-binomial-tolerance','C22',[(U+'binomial.rs','        let p2 = rv.params.p;\n\n        assert_constraint!(p1 == p2)?;','        let p2 = if (p1.unwrap() - rv.params.p.unwrap()).abs() < 1e-9 { p1 } else { rv.params.p };\n\n        assert_constraint!(p1 == p2)?;')] ,
 'success probabilities that differ by less than 1e-9','binomials of different success probabilities are added',
'''
    use rstat::univariate::binomial::Binomial;
    let p = |x: f64| Probability::new(x).unwrap();
    assert!(Binomial::new(3, p(0.5)).unwrap().convolve(Binomial::new(4, p(0.5)).unwrap()).is_ok());
    assert!(Binomial::new(3, p(1e-12)).unwrap().convolve(Binomial::new(4, p(2e-12)).unwrap()).is_err());''')
BUGS=[b for b in BUGS if b]
