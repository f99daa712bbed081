//! Uniform access to the extension towers and their reference arithmetic.
use crate::*;
use ff::Field;
use halo2curves::ff_ext::cubic::{CubicExtField, CubicSparseMul};
use halo2curves::ff_ext::quadratic::{QuadExtField, QuadSparseMul};
use halo2curves::ff_ext::ExtField;

type Bas<T> = <T as HT>::Base;
pub type Elem<T> = <<T as HT>::R as Fld>::E;

/// An extension field of the library.
pub trait HT:
    ExtField + Eq + subtle::ConstantTimeEq + subtle::ConditionallySelectable + Send + Sync + 'static
{
    type Base: HB + HF;
    type R: Fld;
    const NAME: &'static str;
    const TINY: bool;
    /// relative degrees from the prime field up, e.g. [2, 3, 2]
    const SHAPE: &'static [usize];
    fn deg() -> usize {
        Self::SHAPE.iter().product()
    }
    fn ctx() -> Self::R;
    fn flat(&self) -> Vec<Bas<Self>>;
    fn of_flat(v: &[Bas<Self>]) -> Self;
    /// every route to a+b, a-b, a*b
    fn binary(a: &Self, b: &Self) -> [Vec<Self>; 3];
    /// every route to a^2, 2a, -a
    fn unary(a: &Self) -> [Vec<Self>; 3];
    fn inh_consts() -> [Self; 2];
    /// conjugate (even top degree)
    fn conj(&self) -> Option<Self>;
    /// norm to the field below (quadratic top), flat
    fn nrm(&self) -> Option<Vec<Bas<Self>>>;

    fn to_e(&self) -> Elem<Self> {
        let c: Vec<BigUint> = self.flat().iter().map(|x| x.big()).collect();
        Self::ctx().of_coeffs(&c)
    }
    fn of_e(e: &Elem<Self>) -> Self {
        let c = Self::ctx().coeffs(e);
        Self::of_flat(&c.iter().map(|c| <Bas<Self> as HF>::of(c)).collect::<Vec<_>>())
    }
    fn show(&self) -> String {
        let v: Vec<String> = self.flat().iter().map(|x| format!("{:x}", x.big())).collect();
        v.join(",")
    }
}

macro_rules! common {
    () => {
        fn binary(a: &Self, b: &Self) -> [Vec<Self>; 3] {
            let asg = |f: &dyn Fn(&mut Self)| {
                let mut t = *a;
                f(&mut t);
                t
            };
            [
                vec![Self::add(a, b), *a + *b, *a + b, a + b, asg(&|t| *t += *b), asg(&|t| *t += b)],
                vec![Self::sub(a, b), *a - *b, *a - b, a - b, asg(&|t| *t -= *b), asg(&|t| *t -= b)],
                vec![
                    Self::mul(a, b),
                    *a * *b,
                    *a * b,
                    a * b,
                    asg(&|t| *t *= *b),
                    asg(&|t| *t *= b),
                    asg(&|t| t.mul_assign(b)),
                ],
            ]
        }
        fn unary(a: &Self) -> [Vec<Self>; 3] {
            let mut s = *a;
            s.square_assign();
            [
                vec![s, Self::square(a), Field::square(a), *a * *a],
                vec![Self::double(a), Field::double(a), *a + *a],
                vec![Self::neg(a), -*a, Self::ZERO - *a],
            ]
        }
        fn inh_consts() -> [Self; 2] {
            [Self::zero(), Self::one()]
        }
    };
}
macro_rules! tower2 {
    ($b:ty, $name:literal, $tiny:literal, $nr:literal) => {
        impl HT for QuadExtField<$b> {
            type Base = $b;
            type R = Ext<<$b as HB>::R>;
            const NAME: &'static str = $name;
            const TINY: bool = $tiny;
            const SHAPE: &'static [usize] = &[2];
            fn ctx() -> Self::R {
                let base = <$b as HB>::ctx();
                let nr = base.small($nr);
                Ext { base, d: 2, nr }
            }
            fn flat(&self) -> Vec<$b> {
                vec![*self.c0(), *self.c1()]
            }
            fn of_flat(v: &[$b]) -> Self {
                Self::new(v[0], v[1])
            }
            common!();
            fn conj(&self) -> Option<Self> {
                let mut t = *self;
                t.conjugate();
                Some(t)
            }
            fn nrm(&self) -> Option<Vec<$b>> {
                Some(vec![self.norm()])
            }
        }
    };
}
macro_rules! tower6_12 {
    ($b:ty, $n6:literal, $n12:literal, $tiny:literal, $nr:literal, $xi0:literal, $xi1:literal, $den:literal) => {
        tower6_12!(@6 $b, $n6, $tiny, $nr, $xi0, $xi1, $den);
        impl HT for QuadExtField<CubicExtField<QuadExtField<$b>>> {
            type Base = $b;
            type R = Ext<Ext<Ext<<$b as HB>::R>>>;
            const NAME: &'static str = $n12;
            const TINY: bool = $tiny;
            const SHAPE: &'static [usize] = &[2, 3, 2];
            fn ctx() -> Self::R {
                let base = <CubicExtField<QuadExtField<$b>> as HT>::ctx();
                let mut nr = base.zero();
                nr[1] = base.base.one();
                Ext { base, d: 2, nr }
            }
            fn flat(&self) -> Vec<$b> {
                let mut v = self.c0().flat();
                v.extend(self.c1().flat());
                v
            }
            fn of_flat(v: &[$b]) -> Self {
                Self::new(HT::of_flat(&v[..6]), HT::of_flat(&v[6..]))
            }
            common!();
            fn conj(&self) -> Option<Self> {
                let mut t = *self;
                t.conjugate();
                Some(t)
            }
            fn nrm(&self) -> Option<Vec<$b>> {
                Some(self.norm().flat())
            }
        }
        impl H12 for QuadExtField<CubicExtField<QuadExtField<$b>>> {
            type F2 = QuadExtField<$b>;
            type F6 = CubicExtField<QuadExtField<$b>>;
            fn cyc(&self) -> Self {
                let mut t = *self;
                t.cyclotomic_square();
                t
            }
            fn m014(&self, a: &Self::F2, b: &Self::F2, c: &Self::F2) -> Self {
                let mut t = *self;
                <Self as QuadSparseMul>::mul_by_014(&mut t, a, b, c);
                t
            }
            fn m034(&self, a: &Self::F2, b: &Self::F2, c: &Self::F2) -> Self {
                let mut t = *self;
                <Self as QuadSparseMul>::mul_by_034(&mut t, a, b, c);
                t
            }
            fn m1(x: &Self::F6, a: &Self::F2) -> Self::F6 {
                <Self::F6 as CubicSparseMul>::mul_by_1(x, a)
            }
            fn m01(x: &Self::F6, a: &Self::F2, b: &Self::F2) -> Self::F6 {
                <Self::F6 as CubicSparseMul>::mul_by_01(x, a, b)
            }
        }
    };
    (@6 $b:ty, $n6:literal, $tiny:literal, $nr:literal, $xi0:literal, $xi1:literal, $den:literal) => {
        impl HT for CubicExtField<QuadExtField<$b>> {
            type Base = $b;
            type R = Ext<Ext<<$b as HB>::R>>;
            const NAME: &'static str = $n6;
            const TINY: bool = $tiny;
            const SHAPE: &'static [usize] = &[2, 3];
            fn ctx() -> Self::R {
                let base = <QuadExtField<$b> as HT>::ctx();
                let i = base.base.inv(&base.base.small($den)).unwrap();
                let nr = vec![
                    base.base.mul(&i, &base.base.small($xi0)),
                    base.base.mul(&i, &base.base.small($xi1)),
                ];
                Ext { base, d: 3, nr }
            }
            fn flat(&self) -> Vec<$b> {
                let mut v = self.c0().flat();
                v.extend(self.c1().flat());
                v.extend(self.c2().flat());
                v
            }
            fn of_flat(v: &[$b]) -> Self {
                Self::new(HT::of_flat(&v[..2]), HT::of_flat(&v[2..4]), HT::of_flat(&v[4..]))
            }
            common!();
            fn conj(&self) -> Option<Self> {
                None
            }
            fn nrm(&self) -> Option<Vec<$b>> {
                None
            }
        }
    };
}
/// The dodecic extensions.
pub trait H12: HT {
    type F2: HT<Base = Self::Base>;
    type F6: HT<Base = Self::Base>;
    fn cyc(&self) -> Self;
    fn m014(&self, a: &Self::F2, b: &Self::F2, c: &Self::F2) -> Self;
    fn m034(&self, a: &Self::F2, b: &Self::F2, c: &Self::F2) -> Self;
    fn m1(x: &Self::F6, a: &Self::F2) -> Self::F6;
    fn m01(x: &Self::F6, a: &Self::F2, b: &Self::F2) -> Self::F6;
}
use halo2curves::{bls12381, bn256, pluto_eris};
tower2!(bn256::Fq, "bn256::Fq2", false, -1);
tower2!(bls12381::Fq, "bls12381::Fq2", false, -1);
tower2!(pluto_eris::Fp, "pluto_eris::Fp2", false, -5);
tower6_12!(bn256::Fq, "bn256::Fq6", "bn256::Fq12", false, -1, 9, 1, 1);
tower6_12!(bls12381::Fq, "bls12381::Fq6", "bls12381::Fq12", false, -1, 1, 1, 1);
tower6_12!(pluto_eris::Fp, "pluto_eris::Fp6", "pluto_eris::Fp12", false, -5, 171, -57, 14);
#[cfg(feature = "tiny")]
mod tiny {
    use super::*;
    use halo2curves::verif::*;
    tower2!(F7, "tiny::F7x2", true, -1);
    tower2!(F31, "tiny::F31x2", true, -1);
    tower2!(F97, "tiny::F97x2", true, 5);
    tower6_12!(F7, "tiny::F7x6", "tiny::F7x12", true, -1, 1, 2, 1);
}

pub trait TowerFn {
    fn call<T: HT>(&self);
}
pub trait DodecicFn {
    fn call<T: H12>(&self);
}
pub trait QuadFn {
    fn call<T: HT + HB>(&self)
    where
        T: HB;
}
pub fn each_real_tower(f: &impl TowerFn) {
    f.call::<bn256::Fq2>();
    f.call::<bls12381::Fq2>();
    f.call::<PlutoFp2>();
    f.call::<bn256::Fq6>();
    f.call::<bls12381::Fq6>();
    f.call::<PlutoFp6>();
    f.call::<bn256::Fq12>();
    f.call::<bls12381::Fq12>();
    f.call::<PlutoFp12>();
}
pub type PlutoFp2 = QuadExtField<pluto_eris::Fp>;
pub type PlutoFp6 = CubicExtField<PlutoFp2>;
pub type PlutoFp12 = QuadExtField<PlutoFp6>;
pub fn each_tiny_tower(_f: &impl TowerFn) {
    #[cfg(feature = "tiny")]
    {
        use halo2curves::verif::*;
        _f.call::<F7x2>();
        _f.call::<F31x2>();
        _f.call::<F97x2>();
        _f.call::<F7x6>();
        _f.call::<F7x12>();
    }
}
pub fn each_dodecic(f: &impl DodecicFn) {
    #[cfg(feature = "tiny")]
    f.call::<halo2curves::verif::F7x12>();
    f.call::<bn256::Fq12>();
    f.call::<bls12381::Fq12>();
    f.call::<PlutoFp12>();
}
/// quadratic extensions used as coordinate fields
pub fn each_quad(f: &impl QuadFn) {
    #[cfg(feature = "tiny")]
    {
        use halo2curves::verif::*;
        f.call::<F7x2>();
        f.call::<F31x2>();
        f.call::<F97x2>();
    }
    f.call::<bn256::Fq2>();
    f.call::<bls12381::Fq2>();
    f.call::<PlutoFp2>();
}
/// Reference element from flat prime-field coefficients.
pub fn flat_e<T: HT>(c: &[BigUint]) -> Elem<T> {
    T::ctx().of_coeffs(c)
}
/// Boundary elements: every assignment of letters to the coefficients (capped by using fewer
/// letters on the larger shapes), plus unit-like vectors.
pub fn tower_alphabet<T: HT>(letters: &[BigUint], full: usize) -> Vec<Elem<T>> {
    let d = T::deg();
    let k = T::ctx();
    let mut s = std::collections::BTreeSet::new();
    // the largest number of letters whose full product stays below `full`
    let mut n = 1;
    while n < letters.len() && ((n + 1) as f64).powi(d as i32) <= full as f64 {
        n += 1;
    }
    for w in words(n, d) {
        s.insert(w.iter().map(|i| letters[*i].clone()).collect::<Vec<_>>());
    }
    // every letter in one coefficient, over every background letter from a short list
    for bg in letters.iter().take(4) {
        for i in 0..d {
            for l in letters {
                let mut c = vec![bg.clone(); d];
                c[i] = l.clone();
                s.insert(c);
            }
        }
    }
    // two non-trivial coefficients
    for i in 0..d {
        for j in 0..i {
            for l in letters.iter().take(6) {
                for m in letters.iter().take(6) {
                    let mut c = vec![BigUint::zero(); d];
                    c[i] = l.clone();
                    c[j] = m.clone();
                    s.insert(c);
                }
            }
        }
    }
    s.into_iter().map(|c| k.of_coeffs(&c)).collect()
}
/// letters of a prime field, most telling first
pub fn letters<F: HF>() -> Vec<BigUint> {
    let p = F::p();
    let one = BigUint::one();
    let r: BigUint = (&one << (64 * F::LIMBS)) % &p;
    let mut v = vec![
        BigUint::zero(),
        one.clone(),
        &p - &one,
        BigUint::from(2u32) % &p,
        (&p - &one) >> 1,
        (&p + &one) >> 1,
        &p - BigUint::from(2u32),
        r.clone(),
        &p - &r,
        modinv(&r, &p),
        (&one << 64) % &p,
        (&one << (64 * F::LIMBS - 1)) % &p,
        BigUint::from(0x1234_5678_9abc_def1u64) % &p,
    ];
    // a full-size constant
    v.push(BigUint::parse_bytes(b"2718281828459045235360287471352662497757247093699959574966967627724076630353547594571382178525166427", 10).unwrap().pow(2) % &p);
    let mut seen = std::collections::BTreeSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}
