//! Small prime fields, so that rejection, collisions and odd bit sizes in parameter
//! generation are frequent, and so that state spaces can be enumerated.
use core::fmt;
use core::iter::{Product, Sum};
use core::ops::*;
use halo2curves::ff::{Field, FromUniformBytes, PrimeField};
use rand_core::RngCore;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Toy<const P: u64>(pub u64);

impl<const P: u64> fmt::Debug for Toy<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const P: u64> Toy<P> {
    fn m(v: u128) -> Self {
        if v <= u64::MAX as u128 {
            Toy(v as u64 % P)
        } else {
            Toy((v % P as u128) as u64)
        }
    }
    fn powu(self, mut e: u64) -> Self {
        let mut b = self;
        let mut r = Toy(1 % P);
        while e > 0 {
            if e & 1 == 1 {
                r *= b;
            }
            b *= b;
            e >>= 1;
        }
        r
    }
}
impl<const P: u64> From<u64> for Toy<P> {
    fn from(v: u64) -> Self {
        Toy(v % P)
    }
}
impl<const P: u64> Neg for Toy<P> {
    type Output = Self;
    fn neg(self) -> Self {
        Toy(if self.0 == 0 { 0 } else { P - self.0 })
    }
}
macro_rules! op {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident, $e:expr) => {
        impl<const P: u64> $tr for Toy<P> {
            type Output = Self;
            fn $f(self, o: Self) -> Self {
                let g: fn(u128, u128, u128) -> u128 = $e;
                Self::m(g(self.0 as u128, o.0 as u128, P as u128))
            }
        }
        impl<'a, const P: u64> $tr<&'a Toy<P>> for Toy<P> {
            type Output = Self;
            fn $f(self, o: &'a Self) -> Self {
                $tr::$f(self, *o)
            }
        }
        impl<const P: u64> $tra for Toy<P> {
            fn $fa(&mut self, o: Self) {
                *self = $tr::$f(*self, o)
            }
        }
        impl<'a, const P: u64> $tra<&'a Toy<P>> for Toy<P> {
            fn $fa(&mut self, o: &'a Self) {
                *self = $tr::$f(*self, *o)
            }
        }
    };
}
op!(Add, add, AddAssign, add_assign, |a, b, _| a + b);
op!(Sub, sub, SubAssign, sub_assign, |a, b, p| a + p - b);
op!(Mul, mul, MulAssign, mul_assign, |a, b, _| a * b);
impl<const P: u64> Sum for Toy<P> {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Toy(0), |a, b| a + b)
    }
}
impl<'a, const P: u64> Sum<&'a Toy<P>> for Toy<P> {
    fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(Toy(0), |a, b| a + b)
    }
}
impl<const P: u64> Product for Toy<P> {
    fn product<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Toy(1), |a, b| a * b)
    }
}
impl<'a, const P: u64> Product<&'a Toy<P>> for Toy<P> {
    fn product<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(Toy(1), |a, b| a * b)
    }
}
impl<const P: u64> ConstantTimeEq for Toy<P> {
    fn ct_eq(&self, o: &Self) -> Choice {
        self.0.ct_eq(&o.0)
    }
}
impl<const P: u64> ConditionallySelectable for Toy<P> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        Toy(u64::conditional_select(&a.0, &b.0, c))
    }
}
impl<const P: u64> Field for Toy<P> {
    const ZERO: Self = Toy(0);
    const ONE: Self = Toy(1);
    fn random(mut rng: impl RngCore) -> Self {
        Toy(rng.next_u64() % P)
    }
    fn square(&self) -> Self {
        *self * *self
    }
    fn double(&self) -> Self {
        *self + *self
    }
    fn invert(&self) -> CtOption<Self> {
        CtOption::new(self.powu(P - 2), Choice::from((self.0 != 0) as u8))
    }
    fn sqrt_ratio(_: &Self, _: &Self) -> (Choice, Self) {
        unimplemented!()
    }
}
impl<const P: u64> PrimeField for Toy<P> {
    type Repr = [u8; 8];
    fn from_repr(r: [u8; 8]) -> CtOption<Self> {
        let v = u64::from_le_bytes(r);
        CtOption::new(Toy(v % P), Choice::from((v < P) as u8))
    }
    fn to_repr(&self) -> [u8; 8] {
        self.0.to_le_bytes()
    }
    fn is_odd(&self) -> Choice {
        Choice::from((self.0 & 1) as u8)
    }
    const MODULUS: &'static str = "toy";
    const NUM_BITS: u32 = 64 - P.leading_zeros();
    const CAPACITY: u32 = 63 - P.leading_zeros();
    const TWO_INV: Self = Toy(P / 2 + 1);
    const MULTIPLICATIVE_GENERATOR: Self = Toy(3);
    const S: u32 = 1;
    const ROOT_OF_UNITY: Self = Toy(P - 1);
    const ROOT_OF_UNITY_INV: Self = Toy(P - 1);
    const DELTA: Self = Toy(9);
}
impl<const P: u64> FromUniformBytes<64> for Toy<P> {
    fn from_uniform_bytes(b: &[u8; 64]) -> Self {
        let mut r = 0u128;
        for x in b.iter().rev() {
            r = ((r << 8) | *x as u128) % P as u128;
        }
        Toy(r as u64)
    }
}
