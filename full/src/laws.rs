//! Reference laws: the textbook density of every univariate distribution, and everything that
//! can be derived from a density by summation or quadrature. Nothing here calls the crate
//! under test or the special-function library it uses.
use crate::refmath::*;

#[derive(Clone, Copy, Debug)]
pub enum Place {
    /// x = c + s t
    Lin(f64, f64),
    /// x = o + exp(lc + ls t)
    Log(f64, f64, f64),
}

pub struct Law {
    pub disc: bool,
    pub lo: f64,
    pub hi: f64,
    pub brk: Vec<f64>,
    pub place: Place,
    /// E|X|^r is finite exactly for r < order.
    pub order: f64,
    lnf: Box<dyn Fn(Pt) -> f64 + Send + Sync>,
    /// All the mass on one point.
    pub atom: Option<f64>,
    /// Upper limit of the summation of an unbounded discrete law.
    pub top: f64,
}

const INF: f64 = f64::INFINITY;

impl Law {
    pub fn new(lo: f64, hi: f64, place: Place, order: f64, lnf: impl Fn(Pt) -> f64 + Send + Sync + 'static) -> Law {
        let mut brk: Vec<f64> = match place {
            Place::Lin(c, s) => [-8.0, -2.0, 0.0, 2.0, 8.0].iter().map(|k| c + k * s).collect(),
            Place::Log(o, lc, ls) => [-7.0, -3.0, -1.0, 0.0, 1.0, 3.0, 7.0].iter().map(|k| o + (lc + k * ls).exp()).collect(),
        };
        brk.retain(|x| x.is_finite());
        Law { disc: false, lo, hi, brk, place, order, lnf: Box::new(lnf), atom: None, top: hi }
    }

    pub fn discrete(lo: f64, hi: f64, top: f64, place: Place, lnf: impl Fn(f64) -> f64 + Send + Sync + 'static) -> Law {
        Law { disc: true, lo, hi, brk: vec![], place, order: INF, lnf: Box::new(move |p| lnf(p.x)), atom: None, top }
    }

    pub fn atom(x: f64, disc: bool) -> Law {
        Law {
            disc, lo: x, hi: x, brk: vec![], place: Place::Lin(x, 1.0), order: INF,
            lnf: Box::new(|_| 0.0), atom: Some(x), top: x,
        }
    }

    /// Extra points where the density is not smooth.
    pub fn kinks(mut self, xs: &[f64]) -> Law {
        self.brk.extend_from_slice(xs);
        self
    }

    pub fn at(&self, t: f64) -> f64 {
        match self.place {
            Place::Lin(c, s) => c + s * t,
            Place::Log(o, lc, ls) => o + (lc + ls * t).exp(),
        }
    }

    pub fn scale(&self) -> f64 {
        match self.place {
            Place::Lin(_, s) => s,
            Place::Log(_, lc, _) => lc.exp(),
        }
    }

    pub fn ln_f_pt(&self, p: Pt) -> f64 { (self.lnf)(p) }

    /// ln of the density or mass at x; -inf outside the support.
    pub fn ln_f(&self, x: f64) -> f64 {
        if let Some(a) = self.atom {
            return if x == a { 0.0 } else { -INF };
        }
        if x.is_infinite() || x < self.lo || x > self.hi || (self.disc && x.fract() != 0.0) {
            return -INF;
        }
        (self.lnf)(Pt { x, dl: x - self.lo, dr: self.hi - x })
    }

    pub fn f(&self, x: f64) -> f64 { self.ln_f(x).exp() }

    fn cuts(&self) -> Vec<f64> {
        let mut v: Vec<f64> = self.brk.iter().cloned().filter(|b| *b > self.lo && *b < self.hi).collect();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v.dedup();
        v
    }

    /// Integral (or sum) of g(x) f(x) over [from, to], where g is given as (sign, ln|g|).
    pub fn integrate(&self, from: f64, to: f64, g: &dyn Fn(Pt, f64) -> (f64, f64)) -> f64 {
        if let Some(a) = self.atom {
            if a < from || a > to {
                return 0.0;
            }
            let (s, l) = g(Pt { x: a, dl: 0.0, dr: 0.0 }, 0.0);
            return s * l.exp();
        }
        if self.disc {
            let (a, b) = (from.max(self.lo).ceil(), to.min(self.top).floor());
            let mut sum = 0.0;
            let mut comp = 0.0;
            let mut k = a;
            while k <= b {
                let p = Pt { x: k, dl: k - self.lo, dr: self.hi - k };
                let lf = (self.lnf)(p);
                if lf > -745.0 {
                    let (s, l) = g(p, lf);
                    let term = s * (lf + l).exp();
                    if term.is_finite() {
                        let y = term - comp;
                        let t = sum + y;
                        comp = (t - sum) - y;
                        sum = t;
                    }
                }
                k += 1.0;
            }
            return sum;
        }
        let from = from.max(self.lo);
        let to = to.min(self.hi);
        if !(from < to) {
            return 0.0;
        }
        let h = |p: Pt| -> f64 {
            let lf = (self.lnf)(p);
            if lf == -INF || lf.is_nan() {
                return 0.0;
            }
            let (s, l) = g(p, lf);
            if s == 0.0 { 0.0 } else { s * (lf + l).exp() }
        };
        let mut cuts: Vec<f64> = self.cuts().into_iter().filter(|c| *c > from && *c < to).collect();
        if cuts.is_empty() && from == -INF && to == INF {
            cuts.push(0.0);
        }
        let mut sum = 0.0;
        // Ends.
        let tail_scale = |d: f64| if d > 0.0 { d } else { self.scale() };
        let mut left = from;
        if from == -INF {
            let first = cuts.first().cloned().unwrap_or(to);
            sum += tail_left(&h, self.hi, first, tail_scale(self.scale()));
            left = first;
        }
        for c in cuts.iter() {
            if *c <= left {
                continue;
            }
            sum += piece(&h, self.lo, self.hi, left, *c);
            left = *c;
        }
        if to == INF {
            let s = match self.place {
                Place::Lin(_, s) => s,
                Place::Log(o, ..) => (left - o).abs().max(self.scale() * 1e-3),
            };
            sum += tail_right(&h, self.lo, left, s);
        } else if left < to {
            sum += piece(&h, self.lo, self.hi, left, to);
        }
        sum
    }

    pub fn mass(&self, from: f64, to: f64) -> f64 { self.integrate(from, to, &|_, _| (1.0, 0.0)) }

    /// (P[X <= x], P[X > x]).
    pub fn cdf(&self, x: f64) -> (f64, f64) {
        if let Some(a) = self.atom {
            return if x >= a { (1.0, 0.0) } else { (0.0, 1.0) };
        }
        if x < self.lo || (!self.disc && x <= self.lo) {
            return (0.0, 1.0);
        }
        if x >= self.hi {
            return (1.0, 0.0);
        }
        if self.disc {
            return (self.mass(self.lo, x.floor()), self.mass(x.floor() + 1.0, INF));
        }
        (self.mass(self.lo, x), self.mass(x, self.hi))
    }

    /// Total mass and whether the reference resolves this law.
    pub fn resolved(&self) -> bool { (self.mass(self.lo, self.hi) - 1.0).abs() < 1e-9 }

    pub fn moment(&self, k: i32, about: f64) -> f64 {
        self.integrate(self.lo, self.hi, &|p, _| {
            let d = p.x - about;
            let s = if d < 0.0 && k % 2 == 1 { -1.0 } else { 1.0 };
            if d == 0.0 && k > 0 { (0.0, 0.0) } else { (s, k as f64 * d.abs().ln()) }
        })
    }

    /// Mean about a convenient origin, for accuracy.
    pub fn mean(&self) -> f64 {
        if self.disc || self.atom.is_some() {
            return self.moment(1, 0.0);
        }
        let o = match self.place {
            Place::Lin(c, _) => c,
            Place::Log(o, ..) => o,
        };
        if self.lo.is_finite() && o == self.lo {
            // Distances from the lower end carry no cancellation.
            return o + self.integrate(self.lo, self.hi, &|p, _| (1.0, p.dl.ln()));
        }
        o + self.moment(1, o)
    }

    /// -E ln f in nats.
    pub fn entropy(&self) -> f64 {
        if self.atom.is_some() {
            return 0.0;
        }
        self.integrate(self.lo, self.hi, &|_, lf| if lf == 0.0 { (0.0, 0.0) } else { (-lf.signum(), lf.abs().ln()) })
    }
}

fn ln(x: f64) -> f64 { x.ln() }

fn lin(c: f64, s: f64) -> Place { Place::Lin(c, s) }

fn logp(o: f64, lc: f64, ls: f64) -> Place { Place::Log(o, lc, ls.max(1e-3)) }

pub fn arcsine(p: &[f64]) -> Law {
    let (a, w) = (p[0], p[1]);
    let lp = ln(std::f64::consts::PI);
    Law::new(a, a + w, lin(a + w / 2.0, w / 4.0), INF, move |p| -lp - 0.5 * (ln(p.dl) + ln(p.dr)))
}

pub fn beta(p: &[f64]) -> Law {
    let (a, b) = (p[0], p[1]);
    let lb = lbeta(a, b);
    let m = a / (a + b);
    let s = (m * (1.0 - m) / (a + b + 1.0)).sqrt();
    let mut l = Law::new(0.0, 1.0, lin(m, s), INF, move |p| {
        let mut r = -lb;
        if a != 1.0 {
            r += (a - 1.0) * ln(p.dl);
        }
        if b != 1.0 {
            r += (b - 1.0) * ln(p.dr);
        }
        r
    });
    l.brk.extend_from_slice(&[1e-8, 1e-3, 1.0 - 1e-3]);
    l
}

pub fn beta_prime(p: &[f64]) -> Law {
    let (a, b) = (p[0], p[1]);
    let lb = lbeta(a, b);
    Law::new(0.0, INF, logp(0.0, digamma(a) - digamma(b), (trigamma(a) + trigamma(b)).sqrt()), b, move |p| {
        (if a == 1.0 { 0.0 } else { (a - 1.0) * ln(p.x) }) - (a + b) * p.x.ln_1p() - lb
    })
}

pub fn cauchy(p: &[f64]) -> Law {
    let (x0, g) = (p[0], p[1]);
    Law::new(-INF, INF, lin(x0, g), 1.0, move |p| {
        let z = (p.x - x0) / g;
        -ln(std::f64::consts::PI * g) - if z.abs() > 1e8 { 2.0 * ln(z.abs()) } else { (z * z).ln_1p() }
    })
}

pub fn chi(p: &[f64]) -> Law {
    let k = p[0];
    let c = (k / 2.0 - 1.0) * 2f64.ln() + lgamma(k / 2.0);
    Law::new(0.0, INF, lin(k.sqrt(), 0.6), INF, move |p| {
        (if k == 1.0 { 0.0 } else { (k - 1.0) * ln(p.x) }) - 0.5 * p.x * p.x - c
    })
}

fn gamma_law(a: f64, b: f64) -> Law {
    let c = a * ln(b) - lgamma(a);
    Law::new(0.0, INF, logp(0.0, digamma(a) - ln(b), trigamma(a).sqrt()), INF, move |p| {
        c + (if a == 1.0 { 0.0 } else { (a - 1.0) * ln(p.x) }) - b * p.x
    })
}

pub fn chi_sq(p: &[f64]) -> Law { gamma_law(p[0] / 2.0, 0.5) }

pub fn erlang(p: &[f64]) -> Law { gamma_law(p[0], p[1]) }

pub fn gamma(p: &[f64]) -> Law { gamma_law(p[0], p[1]) }

pub fn exponential(p: &[f64]) -> Law { gamma_law(1.0, p[0]) }

pub fn cosine(p: &[f64]) -> Law {
    let (mu, s) = (p[0], p[1]);
    Law::new(mu - s, mu + s, lin(mu, s / 3.0), INF, move |p| {
        let d = p.dl.min(p.dr);
        2.0 * ln((std::f64::consts::FRAC_PI_2 * d / s).sin()) - ln(s)
    })
}

pub fn f_dist(p: &[f64]) -> Law {
    let (a, b) = (p[0] / 2.0, p[1] / 2.0);
    let (d1, d2) = (p[0], p[1]);
    let lb = lbeta(a, b);
    Law::new(0.0, INF, logp(0.0, ln(d2 / d1) + digamma(a) - digamma(b), (trigamma(a) + trigamma(b)).sqrt()), b, move |p| {
        let r = d1 / d2;
        a * ln(r) + (if a == 1.0 { 0.0 } else { (a - 1.0) * ln(p.x) }) - (a + b) * (r * p.x).ln_1p() - lb
    })
}

pub fn folded_normal(p: &[f64]) -> Law {
    let (mu, s) = (p[0].abs(), p[1]);
    Law::new(0.0, INF, lin(mu.max(0.5 * s), s), INF, move |p| {
        ln_phi((p.x - mu) / s) - ln(s) + (-2.0 * p.x * mu / (s * s)).exp().ln_1p()
    })
}

pub fn frechet(p: &[f64]) -> Law {
    let a = p[0];
    Law::new(0.0, INF, logp(0.0, EULER / a, 1.28 / a), a, move |p| {
        let l = ln(p.x);
        ln(a) - (1.0 + a) * l - (-a * l).exp()
    })
}

pub fn gumbel(p: &[f64]) -> Law {
    let (mu, b) = (p[0], p[1]);
    Law::new(-INF, INF, lin(mu + 0.5 * b, b), INF, move |p| {
        let z = (p.x - mu) / b;
        -z - (-z).exp() - ln(b)
    })
}

pub fn gev(p: &[f64]) -> Law {
    let (mu, s, z) = (p[0], p[1], p[2]);
    if z < 1e-8 {
        return gumbel(&p[..2]);
    }
    if z < 0.02 {
        let lo = mu - s / z;
        return Law::new(lo, INF, lin(mu + 0.5 * s, s), 1.0 / z, move |p| {
            let lt = -(z * (p.x - mu) / s).ln_1p() / z;
            (z + 1.0) * lt - lt.exp() - ln(s)
        });
    }
    let lo = mu - s / z;
    let mut l = Law::new(lo, INF, logp(lo, ln(s / z) + z * EULER, 1.28 * z), 1.0 / z, move |p| {
        let lt = -ln(z * p.dl / s) / z;
        (z + 1.0) * lt - lt.exp() - ln(s)
    });
    l.brk.extend([30.0f64, 5.0, 1.0, 0.1, 1e-3, 1e-6].iter().map(|t| mu + s * (-z * t.ln()).exp_m1() / z));
    l
}

pub fn gpd(p: &[f64]) -> Law {
    let (mu, s, z) = (p[0], p[1], p[2]);
    Law::new(mu, INF, logp(mu, ln(s), 1.0 + z), 1.0 / z, move |p| -ln(s) - (1.0 / z + 1.0) * (z * p.dl / s).ln_1p())
}

pub fn inv_gamma(p: &[f64]) -> Law {
    let (a, b) = (p[0], p[1]);
    let c = a * ln(b) - lgamma(a);
    Law::new(0.0, INF, logp(0.0, ln(b) - digamma(a), trigamma(a).sqrt()), a, move |p| c - (a + 1.0) * ln(p.x) - b / p.x)
}

pub fn inv_normal(p: &[f64]) -> Law {
    let (mu, l) = (p[0], p[1]);
    let r = mu / l;
    let mode = mu * ((1.0 + 2.25 * r * r).sqrt() - 1.5 * r);
    let mut law = Law::new(0.0, INF, logp(0.0, ln(mode), (r.sqrt()).clamp(0.02, 2.0)), INF, move |p| {
        let d = (p.x - mu) / mu;
        0.5 * ln(l / (2.0 * std::f64::consts::PI)) - 1.5 * ln(p.x) - l * d * d / (2.0 * p.x)
    });
    let sd = (mu * mu * mu / l).sqrt();
    law.brk.extend_from_slice(&[mu, mu + sd, mu + 4.0 * sd, mu + 12.0 * sd]);
    law
}

pub fn kumaraswamy(p: &[f64]) -> Law {
    let (a, b) = (p[0], p[1]);
    let med = (-(-(2f64.ln()) / b).exp_m1()).powf(1.0 / a);
    let mut l = Law::new(0.0, 1.0, lin(med, (med * (1.0 - med)).max(1e-3) * 0.4), INF, move |p| {
        let lx = if p.dr < 0.5 { (-p.dr).ln_1p() } else { ln(p.dl) };
        let l1 = ln(-(a * lx).exp_m1());
        ln(a) + ln(b) + (if a == 1.0 { 0.0 } else { (a - 1.0) * lx }) + (if b == 1.0 { 0.0 } else { (b - 1.0) * l1 })
    });
    l.brk.extend_from_slice(&[1e-8, 1e-3, 1.0 - 1e-3]);
    l
}

pub fn laplace(p: &[f64]) -> Law {
    let (mu, b) = (p[0], p[1]);
    Law::new(-INF, INF, lin(mu, b), INF, move |p| -(p.x - mu).abs() / b - ln(2.0 * b)).kinks(&[mu])
}

pub fn levy(p: &[f64]) -> Law {
    let (mu, c) = (p[0], p[1]);
    Law::new(mu, INF, logp(mu, ln(c) + 0.5, 1.5), 0.5, move |p| {
        0.5 * ln(c / (2.0 * std::f64::consts::PI)) - c / (2.0 * p.dl) - 1.5 * ln(p.dl)
    })
}

pub fn logistic(p: &[f64]) -> Law {
    let (mu, s) = (p[0], p[1]);
    Law::new(-INF, INF, lin(mu, 1.8 * s), INF, move |p| {
        let z = ((p.x - mu) / s).abs();
        -z - 2.0 * (-z).exp().ln_1p() - ln(s)
    })
}

pub fn normal(p: &[f64]) -> Law {
    let (mu, s) = (p[0], p[1].sqrt());
    Law::new(-INF, INF, lin(mu, s), INF, move |p| ln_phi((p.x - mu) / s) - ln(s))
}

pub fn lognormal(p: &[f64]) -> Law {
    let (mu, s) = (p[0], p[1].sqrt());
    let mut l = Law::new(0.0, INF, logp(0.0, mu, s), INF, move |p| {
        let y = ln(p.x);
        ln_phi((y - mu) / s) - ln(s) - y
    });
    // The fourth moment concentrates around mu + 4 s^2.
    l.brk.extend([2.0, 4.0].iter().map(|k| (mu + k * s * s).exp()));
    l
}

pub fn pareto(p: &[f64]) -> Law {
    let (xm, a) = (p[0], p[1]);
    Law::new(xm, INF, logp(xm, ln(xm / a), 1.0 + 1.0 / a), a, move |p| ln(a / xm) - (a + 1.0) * (p.dl / xm).ln_1p())
}

pub fn rayleigh(p: &[f64]) -> Law {
    let s = p[0];
    Law::new(0.0, INF, lin(1.25 * s, 0.65 * s), INF, move |p| ln(p.x) - 2.0 * ln(s) - 0.5 * (p.x / s) * (p.x / s))
}

pub fn student_t(p: &[f64]) -> Law {
    let nu = p[0];
    let c = -lbeta(nu / 2.0, 0.5) - 0.5 * ln(nu);
    let mut l = Law::new(-INF, INF, lin(0.0, 1.0), nu, move |p| {
        let z = p.x / nu.sqrt();
        c - 0.5 * (nu + 1.0) * if z.abs() > 1e8 { 2.0 * ln(z.abs()) } else { (z * z).ln_1p() }
    });
    l.brk.extend_from_slice(&[-100.0, 100.0, -1e4, 1e4]);
    l
}

pub fn triangular(p: &[f64]) -> Law {
    let (a, u, v) = (p[0], p[1], p[2]);
    let c = a + u;
    let b = c + v;
    let w = u + v;
    Law::new(a, b, lin(c, w / 4.0), INF, move |p| {
        if p.x <= c { ln(2.0 * p.dl / (u * w)) } else { ln(2.0 * p.dr / (v * w)) }
    })
    .kinks(&[c])
}

pub fn uniform(p: &[f64]) -> Law {
    let (a, w) = (p[0], p[1]);
    Law::new(a, a + w, lin(a + w / 2.0, w / 4.0), INF, move |_| -ln(w))
}

pub fn weibull(p: &[f64]) -> Law {
    let (l, k) = (p[0], p[1]);
    Law::new(0.0, INF, logp(0.0, ln(l) - EULER / k, 1.28 / k), INF, move |p| {
        let y = ln(p.x / l);
        ln(k / l) + (k - 1.0) * y - (k * y).exp()
    })
}

pub fn degenerate(p: &[f64]) -> Law { Law::atom(p[0], false) }

pub fn degenerate_i(p: &[f64]) -> Law { Law::atom(p[0], true) }

/// a ln b with 0 ln 0 = 0.
fn xlogy(a: f64, b: f64) -> f64 { if a == 0.0 { 0.0 } else { a * ln(b) } }

fn xlog1py(a: f64, b: f64) -> f64 { if a == 0.0 { 0.0 } else { a * b.ln_1p() } }

pub fn bernoulli(p: &[f64]) -> Law {
    let p = p[0];
    Law::discrete(0.0, 1.0, 1.0, lin(0.5, 0.5), move |k| if k == 1.0 { ln(p) } else { (-p).ln_1p() })
}

pub fn ln_choose(n: f64, k: f64) -> f64 {
    if k == 0.0 || k == n {
        return 0.0;
    }
    -lbeta(n - k + 1.0, k + 1.0) - (n + 1.0).ln()
}

pub fn binomial(p: &[f64]) -> Law {
    let (n, p) = (p[0], p[1]);
    Law::discrete(0.0, n, n, lin(n * p, (n * p * (1.0 - p)).sqrt().max(1.0)), move |k| {
        ln_choose(n, k) + xlogy(k, p) + xlog1py(n - k, -p)
    })
}

pub fn beta_binomial(p: &[f64]) -> Law {
    let (n, a, b) = (p[0], p[1], p[2]);
    let m = n * a / (a + b);
    let v = n * a * b * (a + b + n) / ((a + b) * (a + b) * (a + b + 1.0));
    let lb = lbeta(a, b);
    Law::discrete(0.0, n, n, lin(m, v.sqrt().max(1.0)), move |k| ln_choose(n, k) + lbeta(k + a, n - k + b) - lb)
}

pub fn categorical(p: &[f64]) -> Law {
    let ps = p.to_vec();
    let n = ps.len() as f64;
    Law::discrete(0.0, n - 1.0, n - 1.0, lin((n - 1.0) / 2.0, n / 2.0), move |k| ln(ps[k as usize]))
}

pub fn geometric(p: &[f64]) -> Law {
    let p = p[0];
    let top = if p == 1.0 { 1.0 } else { (-50.0 / (-p).ln_1p()).ceil() + 5.0 };
    Law::discrete(0.0, INF, top, lin(0.0, 1.0 / p), move |k| ln(p) + xlog1py(k, -p))
}

pub fn poisson(p: &[f64]) -> Law {
    let l = p[0];
    Law::discrete(0.0, INF, (l + 45.0 * l.sqrt() + 150.0).ceil(), lin(l, l.sqrt().max(1.0)), move |k| {
        k * ln(l) - l - lgamma(k + 1.0)
    })
}

pub fn uniform_i(p: &[f64]) -> Law {
    let (a, w) = (p[0], p[1]);
    Law::discrete(a, a + w, a + w, lin(a + w / 2.0, w / 2.0 + 1.0), move |_| -ln(w + 1.0))
}
