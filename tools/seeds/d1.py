BUGS=[]
def bug(id, prop, edits, needs, breaks, demo): BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))
C='params/constraints.rs'
bug('C01-interval-nan','C01',[(C,'value >= &self.lb && value <= &self.ub','!(value < &self.lb || value > &self.ub)')],
 'a NaN value or NaN bound','the interval constraint accepts NaN',
'''
use rstat::params::constraints::{Constraint, Interval};
fn main() {
    assert!(Interval { lb: 0.0, ub: 1.0 }.is_satisfied_by(&0.5));
    assert!(!Interval { lb: 0.0, ub: 1.0 }.is_satisfied_by(&1.5));
    assert!(!Interval { lb: 0.0, ub: 1.0 }.is_satisfied_by(&f64::NAN));
}
''')
bug('C01-all-array-check','C01',[(C,'''impl<const N: usize, T, C: Constraint<T>> Constraint<[T; N]> for All<C> {
    fn check(self, value: [T; N]) -> Result<[T; N]>
    where
        [T; N]: Debug,
        Self: Sized + 'static,
    {
        for v in value.iter() {
            if !self.0.is_satisfied_by(v) {
                return Err(UnsatisfiedConstraintError::new(value, Box::new(self)));
            }
        }
''','''impl<const N: usize, T, C: Constraint<T>> Constraint<[T; N]> for All<C> {
    fn check(self, value: [T; N]) -> Result<[T; N]>
    where
        [T; N]: Debug,
        Self: Sized + 'static,
    {
        // Unrolled over pairs.
        for vs in value.chunks_exact(2) {
            if !self.0.is_satisfied_by(&vs[0]) || !self.0.is_satisfied_by(&vs[1]) {
                return Err(UnsatisfiedConstraintError::new(value, Box::new(self)));
            }
        }

        if N == 1 && !self.0.is_satisfied_by(&value[0]) {
            return Err(UnsatisfiedConstraintError::new(value, Box::new(self)));
        }
''')],
 'an array of odd length at least three whose only offending entry is the last','All on arrays accepts an array with an offending last entry',
'''
use rstat::params::constraints::{All, Constraint, Positive};
fn main() {
    assert!(All(Positive).check([1.0, 2.0, 3.0]).is_ok());
    assert!(All(Positive).check([1.0, 2.0, -3.0, 4.0]).is_err());
    assert!(All(Positive).check([1.0, 2.0, -3.0]).is_err());
}
''')
bug('C02-concentrations','C02',[('params/concentrations.rs','''        constraints::All(constraints::Positive)
            .check(value)''','''        constraints::Not(constraints::All(constraints::NonPositive))
            .check(value)''')],
 'a vector of concentrations with some entries positive and some not','concentration vectors with a zero, negative or NaN entry are accepted',
'''
use rstat::params::Concentrations;
fn main() {
    assert!(Concentrations::new([1.0, 2.0]).is_ok());
    assert!(Concentrations::new([-1.0, -2.0]).is_err());
    assert!(Concentrations::new([0.0]).is_err());
    assert!(Concentrations::new([1.0, -2.0]).is_err());
}
''')
bug('C03-or-names-first','C03',[(C,'''        c1.check(value).or_else(|uc| c2.check(uc.value))''','''        c1.check(value).or_else(|uc| {
            let first = uc.constraint;

            c2.check(uc.value).map_err(|uc| UnsatisfiedConstraintError {
                value: uc.value,
                target: first_target(&*first),
                constraint: uc.constraint,
            })
        })'''),(C,'''#[derive(Debug, Clone, Copy)]
pub struct And<C1, C2>(pub (C1, C2));
''','''fn first_target<T>(first: &dyn Constraint<T>) -> Option<String> {
    Some(first.to_string()).filter(|s| s.starts_with("Not"))
}

#[derive(Debug, Clone, Copy)]
pub struct And<C1, C2>(pub (C1, C2));
''')],
 'a disjunction whose first member is a negation, refusing a value','the error names a constraint as the target it was attached to, though no target was attached',
'''
use rstat::params::constraints::{Constraint, Negative, NonNegative, Not, Or, Positive};
fn main() {
    let e = Or((Positive, Negative)).check(0.0).err().unwrap();
    assert!(e.target.is_none());
    let e = Or((Not(NonNegative), Positive)).check(0.0).err().unwrap();
    assert!(e.target.is_none());
}
''')
bug('C03-same-name','C03',[(C,'''        write!(f, "GreaterThanOrEqual({:?})", self.0)''','''        write!(f, "GreaterThan({:?})", self.0)''')],
 'reading the message of a refused lower bound','a closed lower bound is reported under the name of the open one',
'''
use rstat::params::constraints::{Constraint, GreaterThan, GreaterThanOrEqual};
fn main() {
    let a = GreaterThan(2.0).check(1.0).err().unwrap().to_string();
    let b = GreaterThanOrEqual(2.0).check(1.0).err().unwrap().to_string();
    assert!(a != b, "{}", a);
}
''')
bug('C04-log-table','C04',[('utils.rs','if n > 254 {','if n > 255 {')] if False else [('utils.rs','''        (x - 0.5) * x.ln() - x + 0.5 * (2.0 * consts::PI).ln() + 1.0 / (12.0 * x)''','''        (x - 0.5) * x.ln() - x + 0.5 * (2.0 * consts::PI).ln() + 1.0 / (12.0 * (x - 1.0))''')],
 'n above 254, where the series takes over from the table','the logarithm of a factorial loses digits beyond the table (relative 1e-9 at n = 255)',
'''
use rstat::{univariate::poisson::Poisson, DiscreteDistribution};
fn main() {
    for &n in &[250u64, 254, 255, 256, 300, 500] {
        let exact: f64 = (2..=n).map(|k| (k as f64).ln()).sum();
        // log P(N = n) for mean one is -1 - ln n!
        let got = -1.0 - Poisson::new(1.0).unwrap().log_pmf(&n);
        assert!((got - exact).abs() < 1e-7, "{}: {} {}", n, got, exact);
    }
}
''')
bug('C05-unit-diagonal','C05',[('normal/linalg.rs',"""    let mut info = 0;

    lapack::dtrtri(
        'U' as u8,
        'N' as u8,""","""    let mut info = 0;
    // A unit triangular factor needs no divisions.
    let diag = if N > 0 && lt[0][0] == 1.0 && lt[N - 1][N - 1] == 1.0 { b'U' } else { b'N' };

    lapack::dtrtri(
        'U' as u8,
        diag,""")],
 'a matrix of at least three rows whose first and last pivots are one and some other is not','triangular inversion returns the wrong inverse',
'''
use rstat::{multivariate::normal::Normal, ContinuousDistribution};
fn main() {
    let d = Normal::<3>::new([0.0; 3], [[1.0, 0.0, 0.0], [0.0, 4.0, 0.0], [0.0, 0.0, 1.0]]).unwrap();
    // (1, 2, 2): the squared distance is 1 + 2 * 2 / 4 + 2 * 2 = 6, the determinant is 4.
    let exact = (-3.0f64).exp() / ((2.0 * std::f64::consts::PI).powi(3) * 4.0).sqrt();
    let got = d.pdf(&[1.0, 2.0, 2.0]);
    assert!((got - exact).abs() < 1e-12, "{} {}", got, exact);
}
''')
P='probability.rs'
bug('C06-rem-not-a-number','C06',[(P,'''        if p >= 0.0 && p <= 1.0 {
            Ok(Probability(p))
        } else {
            Err(InvalidProbabilityError(p))
        }''','''        if p < 0.0 || p > 1.0 {
            Err(InvalidProbabilityError(p))
        } else {
            Ok(Probability(p))
        }''')],
 'NaN, directly or as the quotient or remainder of zero by zero','NaN is accepted as a probability',
'''
use rstat::Probability;
fn main() {
    let z = Probability::zero();
    assert!((Probability::half() / Probability::one()).is_ok());
    assert!((z / z).is_err());
    assert!((Probability::half() % z).is_err());
    assert!(Probability::new(f64::NAN).is_err());
}
''')
bug('C07-simplex-short','C07',[(P,'if (z - 1.0).abs() < 1e-5 {','if z - 1.0 < 1e-5 {')],
 'entries that are probabilities summing to less than one','a vector whose entries sum to less than one is accepted',
'''
use rstat::SimplexVector;
fn main() {
    assert!(SimplexVector::new([0.5, 0.5]).is_ok());
    assert!(SimplexVector::new([0.9, 0.9]).is_err());
    assert!(SimplexVector::new([0.2, 0.3]).is_err());
}
''')
bug('C07-index-zero-weight','C07',[(P,'''        let rval: f64 = rng.gen();''','''        let rval: f64 = rng.sample(rand::distributions::OpenClosed01);''')] if False else [(P,'''        let mut cdf = self.0.iter().scan(0.0, |state, p| {
            *state += p;

            Some(*state)
        });''','''        let mut cdf = self.0.iter().scan(0.0f32, |state, p| {
            *state += *p as f32;

            Some(*state as f64)
        });''')],
 'a weight below the resolution of single precision next to a large one','an index with a small positive weight is never returned and the sums are rounded',
'''
use rand::{Error, RngCore};
use rstat::SimplexVector;
struct Fixed(u64);
impl RngCore for Fixed {
    fn next_u32(&mut self) -> u32 { self.0 as u32 }
    fn next_u64(&mut self) -> u64 { self.0 }
    fn fill_bytes(&mut self, b: &mut [u8]) { for x in b { *x = 0 } }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Error> { self.fill_bytes(b); Ok(()) }
}
fn main() {
    // A uniform number of 1 - 2^-30: beyond the first weight, within the second.
    let u = 1.0 - 2.0f64.powi(-30);
    let bits = ((u * (1u64 << 53) as f64) as u64) << 11;
    let w = 2.0f64.powi(-28);
    let s = SimplexVector::new([1.0 - w, w]).unwrap();
    assert_eq!(s.sample_index(&mut Fixed(bits)), 1);
    assert_eq!(s.sample_index(&mut Fixed(0)), 0);
}
''')
