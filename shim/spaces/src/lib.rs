//! Stand-in for the `spaces` crate (`../spaces` in /repo's manifest, absent here).
//!
//! It provides only the vocabulary rstat uses to *name* supports: a space has a value
//! type, an interval has a left and a right end, arrays of spaces are product spaces.
//! No probability code lives here.
#![allow(clippy::all)]

/// A set with an associated type of elements.
pub trait Space {
    const DIM: usize;
    type Value;

    fn dim(&self) -> usize { Self::DIM }

    fn is_empty(&self) -> bool { false }

    fn contains(&self, val: &Self::Value) -> bool;
}

/// A space with a total order on its elements, and so (possibly) with bounds.
pub trait OrderedSpace: Space {
    fn min(&self) -> Option<Self::Value>;
    fn max(&self) -> Option<Self::Value>;
    fn inf(&self) -> Option<Self::Value> { self.min() }
    fn sup(&self) -> Option<Self::Value> { self.max() }
}

impl<S: Space, const N: usize> Space for [S; N] {
    const DIM: usize = S::DIM * N;
    type Value = [S::Value; N];

    fn contains(&self, val: &Self::Value) -> bool {
        self.iter().zip(val.iter()).all(|(s, v)| s.contains(v))
    }
}

impl<A: Space, B: Space> Space for (A, B) {
    const DIM: usize = A::DIM + B::DIM;
    type Value = (A::Value, B::Value);

    fn contains(&self, val: &Self::Value) -> bool {
        self.0.contains(&val.0) && self.1.contains(&val.1)
    }
}

pub mod ops {
    /// Set union.
    pub trait Union<T = Self>: Sized {
        type Output;

        fn union(self, other: T) -> Self::Output;

        fn union_closure(self, other: T) -> <Self::Output as Closure>::Output
        where
            Self::Output: Closure,
        {
            self.union(other).closure()
        }
    }

    /// Set intersection.
    pub trait Intersection<T = Self>: Sized {
        type Output;

        fn intersect(self, other: T) -> Self::Output;
    }

    /// Smallest closed convex set that contains `self`.
    pub trait Closure: Sized {
        type Output;

        fn closure(self) -> Self::Output;
    }
}

pub mod intervals {
    use super::{
        ops::{Closure, Intersection, Union},
        OrderedSpace, Space,
    };
    use num_traits::{One, Zero};
    use std::{fmt, marker::PhantomData};

    pub mod bounds {
        use std::marker::PhantomData;

        #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Hash)]
        #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
        pub struct Open<T>(pub T);

        #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Hash)]
        #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
        pub struct Closed<T>(pub T);

        #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Hash)]
        #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
        pub struct NoBound<T>(pub PhantomData<T>);

        pub trait Bound: Clone {
            type Value: PartialOrd + Clone;

            fn value(&self) -> Option<&Self::Value>;
            fn attained(&self) -> Option<&Self::Value>;
            fn admits_above(&self, v: &Self::Value) -> bool;
            fn admits_below(&self, v: &Self::Value) -> bool;
            fn lower(self, other: Self) -> Self;
            fn upper(self, other: Self) -> Self;
        }

        impl<T: PartialOrd + Clone> Bound for Open<T> {
            type Value = T;

            fn value(&self) -> Option<&T> { Some(&self.0) }

            fn attained(&self) -> Option<&T> { None }

            fn admits_above(&self, v: &T) -> bool { *v > self.0 }

            fn admits_below(&self, v: &T) -> bool { *v < self.0 }

            fn lower(self, other: Self) -> Self { if other.0 < self.0 { other } else { self } }

            fn upper(self, other: Self) -> Self { if other.0 > self.0 { other } else { self } }
        }

        impl<T: PartialOrd + Clone> Bound for Closed<T> {
            type Value = T;

            fn value(&self) -> Option<&T> { Some(&self.0) }

            fn attained(&self) -> Option<&T> { Some(&self.0) }

            fn admits_above(&self, v: &T) -> bool { *v >= self.0 }

            fn admits_below(&self, v: &T) -> bool { *v <= self.0 }

            fn lower(self, other: Self) -> Self { if other.0 < self.0 { other } else { self } }

            fn upper(self, other: Self) -> Self { if other.0 > self.0 { other } else { self } }
        }

        impl<T: PartialOrd + Clone> Bound for NoBound<T> {
            type Value = T;

            fn value(&self) -> Option<&T> { None }

            fn attained(&self) -> Option<&T> { None }

            fn admits_above(&self, _: &T) -> bool { true }

            fn admits_below(&self, _: &T) -> bool { true }

            fn lower(self, _: Self) -> Self { self }

            fn upper(self, _: Self) -> Self { self }
        }
    }

    use bounds::Bound;

    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Hash)]
    #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
    pub struct Interval<L, R = L> {
        pub left: L,
        pub right: R,
    }

    pub type Closed<T = f64> = Interval<bounds::Closed<T>, bounds::Closed<T>>;
    pub type Open<T = f64> = Interval<bounds::Open<T>, bounds::Open<T>>;
    pub type LeftClosed<T = f64> = Interval<bounds::Closed<T>, bounds::NoBound<T>>;
    pub type LeftOpen<T = f64> = Interval<bounds::Open<T>, bounds::NoBound<T>>;
    pub type RightClosed<T = f64> = Interval<bounds::NoBound<T>, bounds::Closed<T>>;
    pub type RightOpen<T = f64> = Interval<bounds::NoBound<T>, bounds::Open<T>>;
    pub type LCRO<T = f64> = Interval<bounds::Closed<T>, bounds::Open<T>>;
    pub type LORC<T = f64> = Interval<bounds::Open<T>, bounds::Closed<T>>;
    pub type Unbounded<T = f64> = Interval<bounds::NoBound<T>, bounds::NoBound<T>>;

    impl<T: PartialOrd> Closed<T> {
        pub fn closed(left: T, right: T) -> Option<Closed<T>> {
            if left <= right { Some(Self::closed_unchecked(left, right)) } else { None }
        }

        pub fn closed_unchecked(left: T, right: T) -> Closed<T> {
            Interval { left: bounds::Closed(left), right: bounds::Closed(right) }
        }

        pub fn unit() -> Closed<T>
        where
            T: Zero + One,
        {
            Self::closed_unchecked(T::zero(), T::one())
        }
    }

    impl<T: PartialOrd + Clone> Closed<T> {
        pub fn degenerate(value: T) -> Closed<T> { Self::closed_unchecked(value.clone(), value) }
    }

    impl<T: PartialOrd> Open<T> {
        pub fn open(left: T, right: T) -> Option<Open<T>> {
            if left < right { Some(Self::open_unchecked(left, right)) } else { None }
        }

        pub fn open_unchecked(left: T, right: T) -> Open<T> {
            Interval { left: bounds::Open(left), right: bounds::Open(right) }
        }
    }

    impl<T: PartialOrd> LCRO<T> {
        pub fn lcro_unchecked(left: T, right: T) -> LCRO<T> {
            Interval { left: bounds::Closed(left), right: bounds::Open(right) }
        }
    }

    impl<T: PartialOrd> LORC<T> {
        pub fn lorc_unchecked(left: T, right: T) -> LORC<T> {
            Interval { left: bounds::Open(left), right: bounds::Closed(right) }
        }
    }

    impl<T> LeftClosed<T> {
        pub fn left_closed(left: T) -> LeftClosed<T> {
            Interval { left: bounds::Closed(left), right: bounds::NoBound(PhantomData) }
        }
    }

    impl<T> LeftOpen<T> {
        pub fn left_open(left: T) -> LeftOpen<T> {
            Interval { left: bounds::Open(left), right: bounds::NoBound(PhantomData) }
        }
    }

    impl<T> RightClosed<T> {
        pub fn right_closed(right: T) -> RightClosed<T> {
            Interval { left: bounds::NoBound(PhantomData), right: bounds::Closed(right) }
        }
    }

    impl<T> RightOpen<T> {
        pub fn right_open(right: T) -> RightOpen<T> {
            Interval { left: bounds::NoBound(PhantomData), right: bounds::Open(right) }
        }
    }

    impl<T> Unbounded<T> {
        pub fn unbounded() -> Unbounded<T> {
            Interval { left: bounds::NoBound(PhantomData), right: bounds::NoBound(PhantomData) }
        }
    }

    impl<V: PartialOrd + Clone, L: Bound<Value = V>, R: Bound<Value = V>> Interval<L, R> {
        pub fn infimum(&self) -> Option<V> { self.left.value().cloned() }

        pub fn supremum(&self) -> Option<V> { self.right.value().cloned() }
    }

    impl<V: PartialOrd + Clone, L: Bound<Value = V>, R: Bound<Value = V>> Space for Interval<L, R> {
        const DIM: usize = 1;
        type Value = V;

        fn contains(&self, val: &V) -> bool {
            self.left.admits_above(val) && self.right.admits_below(val)
        }
    }

    impl<V: PartialOrd + Clone, L: Bound<Value = V>, R: Bound<Value = V>> OrderedSpace for Interval<L, R> {
        fn min(&self) -> Option<V> { self.left.attained().cloned() }

        fn max(&self) -> Option<V> { self.right.attained().cloned() }

        fn inf(&self) -> Option<V> { self.left.value().cloned() }

        fn sup(&self) -> Option<V> { self.right.value().cloned() }
    }

    impl<V: PartialOrd + Clone, L: Bound<Value = V>, R: Bound<Value = V>> Union for Interval<L, R> {
        type Output = Interval<L, R>;

        // Convex hull: every use in rstat takes the closure of the union.
        fn union(self, other: Self) -> Self {
            Interval {
                left: self.left.lower(other.left),
                right: self.right.upper(other.right),
            }
        }
    }

    impl<V: PartialOrd + Clone, L: Bound<Value = V>, R: Bound<Value = V>> Intersection for Interval<L, R> {
        type Output = Interval<L, R>;

        fn intersect(self, other: Self) -> Self {
            Interval {
                left: self.left.upper(other.left),
                right: self.right.lower(other.right),
            }
        }
    }

    impl<L, R> Closure for Interval<L, R> {
        type Output = Interval<L, R>;

        fn closure(self) -> Self { self }
    }

    impl<L: fmt::Debug, R: fmt::Debug> fmt::Display for Interval<L, R> {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, "[{:?}, {:?}]", self.left, self.right)
        }
    }
}

pub mod real {
    use super::intervals::{bounds, Interval, LeftClosed, LeftOpen, RightClosed, RightOpen, Unbounded};
    use num_traits::Zero;

    pub type Reals<T = f64> = Unbounded<T>;
    pub type PositiveReals<T = f64> = LeftOpen<T>;
    pub type NonNegativeReals<T = f64> = LeftClosed<T>;
    pub type NegativeReals<T = f64> = RightOpen<T>;
    pub type NonPositiveReals<T = f64> = RightClosed<T>;
    pub type UnitInterval<T = f64> = Interval<bounds::Closed<T>, bounds::Closed<T>>;

    pub fn reals<T>() -> Reals<T> { Reals::unbounded() }

    pub fn positive_reals<T: Zero>() -> PositiveReals<T> { PositiveReals::left_open(T::zero()) }

    pub fn non_negative_reals<T: Zero>() -> NonNegativeReals<T> {
        NonNegativeReals::left_closed(T::zero())
    }

    pub fn negative_reals<T: Zero>() -> NegativeReals<T> { NegativeReals::right_open(T::zero()) }

    pub fn non_positive_reals<T: Zero>() -> NonPositiveReals<T> {
        NonPositiveReals::right_closed(T::zero())
    }
}

pub mod discrete {
    use super::{
        intervals::{LeftClosed, Unbounded},
        ops::{Closure, Union},
        OrderedSpace, Space,
    };
    use num_traits::Zero;

    pub type Integers<T = i64> = Unbounded<T>;
    /// The non-negative integers: `0` is a natural number here.
    pub type Naturals<T = u64> = LeftClosed<T>;
    pub type NonNegativeIntegers<T = u64> = LeftClosed<T>;

    pub fn integers<T>() -> Integers<T> { Integers::unbounded() }

    pub fn naturals<T: Zero>() -> Naturals<T> { Naturals::left_closed(T::zero()) }

    pub fn non_negative_integers<T: Zero>() -> NonNegativeIntegers<T> {
        NonNegativeIntegers::left_closed(T::zero())
    }

    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
    #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
    pub struct Binary;

    pub fn binary() -> Binary { Binary }

    impl Space for Binary {
        const DIM: usize = 1;
        type Value = bool;

        fn contains(&self, _: &bool) -> bool { true }
    }

    impl OrderedSpace for Binary {
        fn min(&self) -> Option<bool> { Some(false) }

        fn max(&self) -> Option<bool> { Some(true) }
    }

    impl Union for Binary {
        type Output = Binary;

        fn union(self, _: Binary) -> Binary { self }
    }

    impl Closure for Binary {
        type Output = Binary;

        fn closure(self) -> Binary { self }
    }
}

pub mod prelude {
    pub use super::{discrete::*, intervals::*, ops::*, real::*, OrderedSpace, Space};
}
