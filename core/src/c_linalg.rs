//! C05: the linear algebra behind the multivariate normals.
use crate::normal::linalg::{cholesky, inverse_lt, mm_square, mv_mult};
use pbt::proptest::{self, prelude::*};
use pbt::{gen, sub, Obs, Prop};

type M<const N: usize> = [[f64; N]; N];

const MAXN: usize = 33;

/// Dimension, diagonal entries (positive) and below-diagonal entries of a lower triangle,
/// a vector, and the unit (a power of two) of each row.
type Case = (usize, Vec<f64>, Vec<f64>, Vec<f64>, Vec<i32>);

fn case() -> BoxedStrategy<Case> {
    prop_oneof![120 => 1usize..=6, 10 => proptest::sample::select(vec![7usize, 8, 9, 12, 16, 17]), 1 => Just(MAXN)]
        .prop_flat_map(|n| {
            (
                Just(n),
                proptest::collection::vec(prop_oneof![2 => gen::logu(0.05, 20.0), 1 => Just(1.0).boxed()], n),
                proptest::collection::vec(prop_oneof![2 => (-3.0..3.0f64).boxed(), 1 => Just(0.0).boxed(), 1 => (-2i32..=2).prop_map(|i| i as f64).boxed()], n * n),
                proptest::collection::vec(prop_oneof![3 => (-10.0..10.0f64).boxed(), 1 => Just(0.0).boxed(), 1 => (-2i32..=2).prop_map(|i| i as f64).boxed()], n),
                prop_oneof![4 => Just(vec![0; n]).boxed(), 1 => (-200i32..200).prop_map(move |u| vec![u; n]).boxed(), 1 => proptest::collection::vec(-60i32..60, n).boxed()],
            )
        })
        .boxed()
}

fn lower<const N: usize>(c: &Case) -> M<N> {
    let mut l = [[0.0; N]; N];
    for i in 0..N {
        for j in 0..i {
            // Large dimensions would otherwise be hopelessly ill-conditioned.
            l[i][j] = c.2[i * N + j] / if N > 6 { N as f64 } else { 1.0 } * 2f64.powi(c.4[i]);
        }
        l[i][i] = c.1[i] * 2f64.powi(c.4[i]);
    }
    l
}

fn mul<const N: usize>(a: &M<N>, b: &M<N>) -> M<N> {
    let mut out = [[0.0; N]; N];
    for i in 0..N {
        for j in 0..N {
            out[i][j] = (0..N).map(|k| a[i][k] * b[k][j]).sum();
        }
    }
    out
}

fn tr<const N: usize>(a: &M<N>) -> M<N> {
    let mut out = [[0.0; N]; N];
    for i in 0..N {
        for j in 0..N {
            out[i][j] = a[j][i];
        }
    }
    out
}

fn abs<const N: usize>(a: &M<N>) -> M<N> {
    let mut out = *a;
    for r in out.iter_mut() {
        for x in r.iter_mut() {
            *x = x.abs();
        }
    }
    out
}

fn close<const N: usize>(o: &mut Obs, sig: &str, a: &M<N>, b: &M<N>, tol: impl Fn(usize, usize) -> f64) {
    for i in 0..N {
        for j in 0..N {
            let ok = (a[i][j] - b[i][j]).abs() <= tol(i, j);
            o.check(ok, sig, || format!("entry ({}, {}): {:?} against {:?}", i, j, a[i][j], b[i][j]));
        }
    }
}

fn run<const N: usize>(c: &Case) -> Obs {
    let mut o = Obs::new();
    let l = lower::<N>(c);
    let a = mul(&l, &tr(&l));

    // Factor.
    let f = unsafe { cholesky(a) };
    for i in 0..N {
        o.check(f[i][i] > 0.0, "cholesky/diagonal", || format!("diagonal entry {} is {:?}", i, f[i][i]));
        for j in (i + 1)..N {
            o.check(f[i][j] == 0.0, "cholesky/triangular", || format!("entry ({}, {}) is {:?}", i, j, f[i][j]));
        }
    }
    let back = mul(&f, &tr(&f));
    close(&mut o, "cholesky/product", &back, &a, |i, j| 1e-13 * a[i][i].sqrt() * a[j][j].sqrt());

    // Inverse of a lower triangle.
    let inv = unsafe { inverse_lt(l) };
    let mut id = [[0.0; N]; N];
    for i in 0..N {
        id[i][i] = 1.0;
    }
    let bound = mul(&abs(&l), &abs(&inv));
    let bound2 = mul(&abs(&inv), &abs(&l));
    close(&mut o, "inverse/right", &mul(&l, &inv), &id, |i, j| 1e-11 * (1.0 + bound[i][j] * (1.0 + bound[i][i])));
    close(&mut o, "inverse/left", &mul(&inv, &l), &id, |i, j| 1e-11 * (1.0 + bound2[i][j] * (1.0 + bound2[j][j])));
    for i in 0..N {
        for j in (i + 1)..N {
            o.check(inv[i][j] == 0.0, "inverse/triangular", || format!("entry ({}, {}) is {:?}", i, j, inv[i][j]));
        }
    }

    // Gram matrix: mm_square(X) = Xᵀ X, for triangular and for full X.
    for x in [inv, a, l].iter() {
        let g = unsafe { mm_square(x) };
        let want = mul(&tr(x), x);
        let mag = mul(&tr(&abs(x)), &abs(x));
        close(&mut o, "gram/product", &g, &want, |i, j| 1e-13 * mag[i][j] + 1e-300);
    }

    // Triangular matrix by vector.
    let mut v = [0.0; N];
    v.copy_from_slice(&c.3[..N]);
    let got = unsafe { mv_mult(&l, v) };
    for i in 0..N {
        let want: f64 = (0..=i).map(|j| l[i][j] * v[j]).sum();
        let mag: f64 = (0..=i).map(|j| (l[i][j] * v[j]).abs()).sum();
        o.check((got[i] - want).abs() <= 1e-13 * mag + 1e-300, "product/vector", || {
            format!("component {}: {:?} against {:?}", i, got[i], want)
        });
    }

    let off = (0..N).any(|i| (0..i).any(|j| l[i][j] != 0.0));
    o.nontrivial(N > 1 && off);
    o.class(format!("dimension {}", N));
    o
}

pub fn linalg() -> Prop {
    Prop {
        id: "C05",
        rule: "Lower triangles of dimension 1 to 33 in arbitrary units, with generated positive diagonals and arbitrary (often zero, often negative) \
               off-diagonals, and vectors; factor, inverse, Gram matrix and products against textbook triple loops. Non-trivial: \
               dimension above 1 with a non-zero off-diagonal entry. Distinct by case.",
        assumptions: vec!["OpenBLAS is the BLAS and LAPACK behind the crate, as in its CI"],
        subs: vec![sub("all", 20_000, 300_000, case, |c| match c.0 {
            1 => run::<1>(c),
            2 => run::<2>(c),
            3 => run::<3>(c),
            4 => run::<4>(c),
            5 => run::<5>(c),
            6 => run::<6>(c),
            7 => run::<7>(c),
            8 => run::<8>(c),
            9 => run::<9>(c),
            12 => run::<12>(c),
            16 => run::<16>(c),
            17 => run::<17>(c),
            _ => run::<MAXN>(c),
        })],
    }
}
