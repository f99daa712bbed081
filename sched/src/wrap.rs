//! A field and a group over it whose operations are scheduling points.
use ff::Field;
use halo2curves::verif::F257;
use std::iter::{Product, Sum};
use std::ops::*;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

macro_rules! wrapper {
    ($t:ident) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
        pub struct $t(pub F257);
        wrapper!($t, $t, Add, add, AddAssign, add_assign);
        wrapper!($t, $t, Sub, sub, SubAssign, sub_assign);
        impl Neg for $t {
            type Output = $t;
            fn neg(self) -> $t {
                $t(-self.0)
            }
        }
        impl Sum for $t {
            fn sum<I: Iterator<Item = $t>>(i: I) -> $t {
                i.fold($t::default(), |a, b| a + b)
            }
        }
        impl<'a> Sum<&'a $t> for $t {
            fn sum<I: Iterator<Item = &'a $t>>(i: I) -> $t {
                i.fold($t::default(), |a, b| a + b)
            }
        }
    };
    ($t:ident, $u:ident, $tr:ident, $m:ident, $ta:ident, $ma:ident) => {
        impl $tr<$u> for $t {
            type Output = $t;
            fn $m(self, o: $u) -> $t {
                ctl::yield_point();
                $t($tr::$m(self.0, o.0))
            }
        }
        impl<'a> $tr<&'a $u> for $t {
            type Output = $t;
            fn $m(self, o: &$u) -> $t {
                $tr::$m(self, *o)
            }
        }
        impl $ta<$u> for $t {
            fn $ma(&mut self, o: $u) {
                *self = $tr::$m(*self, o)
            }
        }
        impl<'a> $ta<&'a $u> for $t {
            fn $ma(&mut self, o: &$u) {
                *self = $tr::$m(*self, *o)
            }
        }
    };
}
wrapper!(Sc);
wrapper!(Vl);
wrapper!(Sc, Sc, Mul, mul, MulAssign, mul_assign);
wrapper!(Vl, Sc, Mul, mul, MulAssign, mul_assign);
impl Product for Sc {
    fn product<I: Iterator<Item = Sc>>(i: I) -> Sc {
        i.fold(Sc::ONE, |a, b| a * b)
    }
}
impl<'a> Product<&'a Sc> for Sc {
    fn product<I: Iterator<Item = &'a Sc>>(i: I) -> Sc {
        i.fold(Sc::ONE, |a, b| a * b)
    }
}
impl ConstantTimeEq for Sc {
    fn ct_eq(&self, o: &Sc) -> Choice {
        self.0.ct_eq(&o.0)
    }
}
impl ConditionallySelectable for Sc {
    fn conditional_select(a: &Sc, b: &Sc, c: Choice) -> Sc {
        Sc(F257::conditional_select(&a.0, &b.0, c))
    }
}
impl Field for Sc {
    const ZERO: Sc = Sc(F257::ZERO);
    const ONE: Sc = Sc(F257::ONE);
    fn random(rng: impl rand_core::RngCore) -> Sc {
        Sc(F257::random(rng))
    }
    fn square(&self) -> Sc {
        *self * *self
    }
    fn double(&self) -> Sc {
        *self + *self
    }
    fn invert(&self) -> CtOption<Sc> {
        self.0.invert().map(Sc)
    }
    fn sqrt_ratio(n: &Sc, d: &Sc) -> (Choice, Sc) {
        let (c, x) = F257::sqrt_ratio(&n.0, &d.0);
        (c, Sc(x))
    }
}
