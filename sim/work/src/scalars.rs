//! The workload's own scalar types: ring elements whose every operation is a
//! scheduling point and a place where the caller's arithmetic may fail.
use num_traits::{One, Zero};
use simrt::scalar_point;
use sparsetools::{Complex, Float, Nonzero, Scalar};
use std::fmt;
use std::ops::*;

/// Wrapping 64-bit integer: exact, order-independent sums and products.
#[derive(Clone, Copy, Default, Debug)]
pub struct V64(pub i64);

/// Complex number over V64.
#[derive(Clone, Copy, Default, Debug)]
pub struct Cv(pub i64, pub i64);

impl PartialEq for V64 {
    fn eq(&self, o: &Self) -> bool {
        scalar_point();
        self.0 == o.0
    }
}
impl PartialOrd for V64 {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        scalar_point();
        self.0.partial_cmp(&o.0)
    }
}
impl PartialEq for Cv {
    fn eq(&self, o: &Self) -> bool {
        scalar_point();
        self.0 == o.0 && self.1 == o.1
    }
}
impl fmt::Display for V64 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        scalar_point();
        write!(f, "{}", self.0)
    }
}
impl fmt::Display for Cv {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        scalar_point();
        write!(f, "{}{:+}i", self.0, self.1)
    }
}

fn cmul(a: Cv, b: Cv) -> Cv {
    Cv(
        a.0.wrapping_mul(b.0).wrapping_sub(a.1.wrapping_mul(b.1)),
        a.0.wrapping_mul(b.1).wrapping_add(a.1.wrapping_mul(b.0)),
    )
}

macro_rules! ring {
    ($t:ident, $add:expr, $sub:expr, $mul:expr, $div:expr, $neg:expr, $zero:expr, $one:expr) => {
        impl Add for $t {
            type Output = $t;
            fn add(self, o: $t) -> $t {
                scalar_point();
                $add(self, o)
            }
        }
        impl Sub for $t {
            type Output = $t;
            fn sub(self, o: $t) -> $t {
                scalar_point();
                $sub(self, o)
            }
        }
        impl Mul for $t {
            type Output = $t;
            fn mul(self, o: $t) -> $t {
                scalar_point();
                $mul(self, o)
            }
        }
        impl Div for $t {
            type Output = $t;
            fn div(self, o: $t) -> $t {
                scalar_point();
                $div(self, o)
            }
        }
        impl Neg for $t {
            type Output = $t;
            fn neg(self) -> $t {
                scalar_point();
                $neg(self)
            }
        }
        impl AddAssign for $t {
            fn add_assign(&mut self, o: $t) {
                scalar_point();
                *self = $add(*self, o)
            }
        }
        impl SubAssign for $t {
            fn sub_assign(&mut self, o: $t) {
                scalar_point();
                *self = $sub(*self, o)
            }
        }
        impl MulAssign for $t {
            fn mul_assign(&mut self, o: $t) {
                scalar_point();
                *self = $mul(*self, o)
            }
        }
        impl Zero for $t {
            fn zero() -> $t {
                $zero
            }
            fn is_zero(&self) -> bool {
                *self == $zero
            }
        }
        impl One for $t {
            fn one() -> $t {
                $one
            }
        }
        impl Nonzero for $t {}
        impl Scalar for $t {}
    };
}

ring!(
    V64,
    |a: V64, b: V64| V64(a.0.wrapping_add(b.0)),
    |a: V64, b: V64| V64(a.0.wrapping_sub(b.0)),
    |a: V64, b: V64| V64(a.0.wrapping_mul(b.0)),
    |a: V64, b: V64| V64(if b.0 == 0 { 7 } else { a.0.wrapping_div(b.0) }),
    |a: V64| V64(a.0.wrapping_neg()),
    V64(0),
    V64(1)
);
ring!(
    Cv,
    |a: Cv, b: Cv| Cv(a.0.wrapping_add(b.0), a.1.wrapping_add(b.1)),
    |a: Cv, b: Cv| Cv(a.0.wrapping_sub(b.0), a.1.wrapping_sub(b.1)),
    cmul,
    |a: Cv, _b: Cv| a,
    |a: Cv| Cv(a.0.wrapping_neg(), a.1.wrapping_neg()),
    Cv(0, 0),
    Cv(1, 0)
);

impl Float for V64 {}

impl Complex<V64> for Cv {
    fn new(re: V64, im: V64) -> Self {
        Cv(re.0, im.0)
    }
    fn conj(&self) -> Self {
        scalar_point();
        Cv(self.0, self.1.wrapping_neg())
    }
    fn real(&self) -> V64 {
        scalar_point();
        V64(self.0)
    }
    fn imag(&self) -> V64 {
        scalar_point();
        V64(self.1)
    }
}
