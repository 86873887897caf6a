//! Reference mathematics, independent of the crate under test and of the Cephes library it
//! calls: libm's elementary functions, series for digamma, and double-exponential quadrature.
#![allow(clippy::all)]

pub const EULER: f64 = 0.577_215_664_901_532_9;
pub const ZETA3: f64 = 1.202_056_903_159_594_3;

pub fn lgamma(x: f64) -> f64 { libm::lgamma(x) }

pub fn lbeta(a: f64, b: f64) -> f64 {
    // For a large argument the difference of the two big terms loses digits; use the
    // logarithm of the ratio instead.
    let (s, l) = if a < b { (a, b) } else { (b, a) };
    if l > 50.0 {
        // lgamma(l) - lgamma(l + s) by Stirling differences.
        let t = l + s;
        let corr = |x: f64| 1.0 / (12.0 * x) - 1.0 / (360.0 * x.powi(3)) + 1.0 / (1260.0 * x.powi(5)) - 1.0 / (1680.0 * x.powi(7));
        let d = -(l - 0.5) * (s / l).ln_1p() - s * t.ln() + s + corr(l) - corr(t);
        lgamma(s) + d
    } else {
        lgamma(a) + lgamma(b) - lgamma(a + b)
    }
}

pub fn digamma(mut x: f64) -> f64 {
    let mut r = 0.0;
    while x < 12.0 {
        r -= 1.0 / x;
        x += 1.0;
    }
    let f = 1.0 / (x * x);
    r + x.ln() - 0.5 / x
        - f * (1.0 / 12.0 - f * (1.0 / 120.0 - f * (1.0 / 252.0 - f * (1.0 / 240.0 - f * (1.0 / 132.0 - f * (691.0 / 32760.0 - f / 12.0))))))
}

pub fn trigamma(mut x: f64) -> f64 {
    let mut r = 0.0;
    while x < 12.0 {
        r += 1.0 / (x * x);
        x += 1.0;
    }
    let f = 1.0 / (x * x);
    r + 1.0 / x + f / 2.0 + f / x * (1.0 / 6.0 - f * (1.0 / 30.0 - f * (1.0 / 42.0 - f * (1.0 / 30.0 - f * (5.0 / 66.0)))))
}

/// Phi, good in both tails.
pub fn norm_cdf(z: f64) -> f64 { 0.5 * libm::erfc(-z / std::f64::consts::SQRT_2) }

pub const LN_2PI: f64 = 1.837_877_066_409_345_5;

pub fn ln_phi(z: f64) -> f64 { -0.5 * z * z - 0.5 * LN_2PI }

/// A point of integration: the abscissa and its exact distances from the two ends of the
/// support (meaningless where the end is infinite).
#[derive(Clone, Copy, Debug)]
pub struct Pt {
    pub x: f64,
    pub dl: f64,
    pub dr: f64,
}

/// Integral of `f` over the finite piece [u, v] of the support (lo, hi), tanh-sinh rule.
pub fn piece(f: &dyn Fn(Pt) -> f64, lo: f64, hi: f64, u: f64, v: f64) -> f64 {
    let w = v - u;
    if !(w > 0.0) {
        return 0.0;
    }
    let (ul, vr) = (u - lo, hi - v);
    // Distances from the ends of the piece.
    let eval = |t: f64| -> f64 {
        let s = std::f64::consts::FRAC_PI_2 * t.sinh();
        // q = fraction of the width next to the nearer end.
        let q = 1.0 / ((2.0 * s.abs()).exp() + 1.0);
        if q == 0.0 {
            return 0.0;
        }
        let wt = std::f64::consts::FRAC_PI_2 * t.cosh() / (s.cosh() * s.cosh()) / 2.0;
        if wt == 0.0 || !wt.is_finite() {
            return 0.0;
        }
        let near = q * w;
        let far = w - near;
        let (du, dv) = if t < 0.0 { (near, far) } else { (far, near) };
        let x = if t < 0.0 { u + du } else { v - dv };
        let p = Pt { x, dl: ul + du, dr: vr + dv };
        if !(p.dl > 0.0) || !(p.dr > 0.0) {
            return 0.0;
        }
        let y = f(p) * wt;
        if y.is_finite() { y } else { 0.0 }
    };
    w * de_sum(&eval, 6.3)
}

/// Sum of a double-exponentially decaying integrand in t over (-tmax, tmax), halving the
/// step until the value settles.
fn de_sum(eval: &dyn Fn(f64) -> f64, tmax: f64) -> f64 {
    let mut h = 0.5;
    let mut sum = eval(0.0);
    let mut k = 1;
    while (k as f64) * h <= tmax {
        sum += eval(k as f64 * h) + eval(-(k as f64) * h);
        k += 1;
    }
    let mut last = sum * h;
    let mut settled = 0;
    for _ in 0..7 {
        let mut extra = 0.0;
        let mut k = 0;
        loop {
            let t = (k as f64 + 0.5) * h;
            if t > tmax {
                break;
            }
            extra += eval(t) + eval(-t);
            k += 1;
        }
        sum += extra;
        h *= 0.5;
        let cur = sum * h;
        if (cur - last).abs() <= 1e-13 * cur.abs() {
            settled += 1;
            if settled >= 1 && h <= 0.0625 {
                return cur;
            }
        }
        last = cur;
    }
    last
}

/// Integral over [u, +inf) with length scale s, exp-sinh rule.
pub fn tail_right(f: &dyn Fn(Pt) -> f64, lo: f64, u: f64, s: f64) -> f64 {
    let ul = u - lo;
    let eval = |t: f64| -> f64 {
        let e = std::f64::consts::FRAC_PI_2 * t.sinh();
        let d = s * e.exp();
        let wt = std::f64::consts::FRAC_PI_2 * t.cosh() * d;
        if d == 0.0 || !d.is_finite() || !wt.is_finite() {
            return 0.0;
        }
        let y = f(Pt { x: u + d, dl: ul + d, dr: f64::INFINITY });
        let z = y * wt;
        if z.is_finite() { z } else { 0.0 }
    };
    de_sum(&eval, 6.8)
}

/// Integral over (-inf, v].
pub fn tail_left(f: &dyn Fn(Pt) -> f64, hi: f64, v: f64, s: f64) -> f64 {
    let vr = hi - v;
    let eval = |t: f64| -> f64 {
        let e = std::f64::consts::FRAC_PI_2 * t.sinh();
        let d = s * e.exp();
        let wt = std::f64::consts::FRAC_PI_2 * t.cosh() * d;
        if d == 0.0 || !d.is_finite() || !wt.is_finite() {
            return 0.0;
        }
        let y = f(Pt { x: v - d, dl: f64::INFINITY, dr: vr + d });
        let z = y * wt;
        if z.is_finite() { z } else { 0.0 }
    };
    de_sum(&eval, 6.8)
}
