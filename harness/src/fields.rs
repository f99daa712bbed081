//! Uniform access to every prime field, independent modulus table, operand alphabets.
use crate::*;
use ff::{FromUniformBytes, PrimeField, PrimeFieldBits, WithSmallOrderMulGroup};
use halo2curves::ff_ext::Legendre;
use halo2curves::serde::endian::EndianRepr;
use halo2curves::serde::SerdeObject;
use std::collections::BTreeSet;
use subtle::CtOption;

pub fn hx(s: &str) -> BigUint {
    BigUint::parse_bytes(s.as_bytes(), 16).unwrap()
}
pub fn opt<T>(o: CtOption<T>) -> Option<T> {
    o.into()
}

/// A prime field of the library.
pub trait HF:
    PrimeField
    + PrimeFieldBits
    + Ord
    + std::hash::Hash
    + SerdeObject
    + Legendre
    + EndianRepr
    + WithSmallOrderMulGroup<3>
    + serde::Serialize
    + for<'a> serde::Deserialize<'a>
    + Send
    + Sync
    + 'static
{
    const NAME: &'static str;
    const LIMBS: usize;
    const BE: bool;
    const TINY: bool;
    /// the modulus, from the curve's specification
    const P: &'static str;
    /// a modulus of the field's form that is small enough to enumerate?
    fn from_limbs(v: &[u64]) -> Self;
    fn bytes(&self) -> Vec<u8>;
    fn of_bytes(b: &[u8]) -> CtOption<Self>;
    fn lex(&self) -> bool;
    fn uniform(b: &[u8]) -> Option<Self>;
    const UNIFORM: &'static [usize];
    fn inh_zero() -> Self;
    fn inh_one() -> Self;
    /// &a+&b, &a-&b, &a*&b, &a+b, &a-b, &a*b
    fn ref_ops(a: &Self, b: &Self) -> [Self; 6];

    fn p() -> BigUint {
        hx(Self::P)
    }
    fn big(&self) -> BigUint {
        BigUint::from_bytes_le(self.to_repr().as_ref())
    }
    /// The element with canonical value `v` (v < p), built from its raw Montgomery limbs, so that
    /// the conversion under test is not on the path.
    fn of(v: &BigUint) -> Self {
        let p = Self::p();
        let m = (v << (64 * Self::LIMBS)) % p;
        Self::of_raw(&m)
    }
    fn of_raw(m: &BigUint) -> Self {
        Self::from_raw_bytes_unchecked(&le_bytes(m, Self::LIMBS * 8))
    }
    fn raw(&self) -> BigUint {
        BigUint::from_bytes_le(&self.to_raw_bytes())
    }
    fn show(&self) -> String {
        format!("0x{:x}", self.big())
    }
}

pub fn le_bytes(v: &BigUint, n: usize) -> Vec<u8> {
    let mut b = v.to_bytes_le();
    assert!(b.len() <= n || v.is_zero(), "value too wide");
    b.resize(n, 0);
    b
}
pub fn limbs(v: &BigUint, n: usize) -> Vec<u64> {
    let mut d = v.to_u64_digits();
    d.resize(n, 0);
    d
}

macro_rules! hf {
    ($t:ty, $name:literal, $limbs:literal, $be:literal, $tiny:literal, $p:literal, [$($u:literal),*]) => {
        impl HF for $t {
            const NAME: &'static str = $name;
            const LIMBS: usize = $limbs;
            const BE: bool = $be;
            const TINY: bool = $tiny;
            const P: &'static str = $p;
            const UNIFORM: &'static [usize] = &[$($u),*];
            fn from_limbs(v: &[u64]) -> Self {
                <$t>::from_raw(v.try_into().unwrap())
            }
            fn bytes(&self) -> Vec<u8> {
                <$t>::to_bytes(self).to_vec()
            }
            fn of_bytes(b: &[u8]) -> CtOption<Self> {
                <$t>::from_bytes(b.try_into().unwrap())
            }
            fn lex(&self) -> bool {
                <$t>::lexicographically_largest(self).into()
            }
            fn uniform(b: &[u8]) -> Option<Self> {
                match b.len() {
                    $($u => Some(<$t as FromUniformBytes<$u>>::from_uniform_bytes(b.try_into().unwrap())),)*
                    _ => None,
                }
            }
            fn ref_ops(a: &Self, b: &Self) -> [Self; 6] {
                [a + b, a - b, a * b, a + *b, a - *b, a * *b]
            }
            fn inh_zero() -> Self { <$t>::zero() }
            fn inh_one() -> Self { <$t>::one() }
        }
    };
}

use halo2curves::{bls12381, bn256, pluto_eris, secp256k1, secp256r1};
hf!(bn256::Fq, "bn256::Fq", 4, false, false,
    "30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47", [64, 48]);
hf!(bn256::Fr, "bn256::Fr", 4, false, false,
    "30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001", [64, 48]);
hf!(bls12381::Fq, "bls12381::Fq", 6, true, false,
    "1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab", [64, 96]);
hf!(bls12381::Fr, "bls12381::Fr", 4, false, false,
    "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", [64]);
hf!(pluto_eris::Fp, "pluto_eris::Fp", 7, false, false,
    "24000000000024000130e0000d7f70e4a803ca76f439266f443f9a5cda8a6c7be4a7a5fe8fadffd6a2a7e8c30006b9459ffffcd300000001", [64, 72, 112]);
hf!(pluto_eris::Fq, "pluto_eris::Fq", 7, false, false,
    "24000000000024000130e0000d7f70e4a803ca76f439266f443f9a5c7a8a6c7be4a775fe8e177fd69ca7e85d60050af41ffffcd300000001", [64, 72, 112]);
hf!(secp256k1::Fp, "secp256k1::Fp", 4, false, false,
    "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", [64, 48]);
hf!(secp256k1::Fq, "secp256k1::Fq", 4, false, false,
    "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", [64, 48]);
hf!(secp256r1::Fp, "secp256r1::Fp", 4, false, false,
    "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff", [64, 48]);
hf!(secp256r1::Fq, "secp256r1::Fq", 4, false, false,
    "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551", [64, 48]);

#[cfg(feature = "tiny")]
mod tiny {
    use super::*;
    pub use halo2curves::verif::*;
    hf!(F7, "tiny::F7", 4, false, true, "7", [64, 32, 48]);
    hf!(F17, "tiny::F17", 4, false, true, "11", [64, 32, 48]);
    hf!(F31, "tiny::F31", 4, false, true, "1f", [64, 32, 48]);
    hf!(F43, "tiny::F43", 4, false, true, "2b", [64, 32, 48]);
    hf!(F59, "tiny::F59", 2, false, true, "3b", [32]);
    hf!(F71, "tiny::F71", 2, false, true, "47", [32]);
    hf!(F97, "tiny::F97", 4, false, true, "61", [64, 32, 48]);
    hf!(F103, "tiny::F103", 4, false, true, "67", [64, 32, 48]);
    hf!(F127, "tiny::F127", 2, true, true, "7f", [32]);
    hf!(F193, "tiny::F193", 2, false, true, "c1", [32]);
    hf!(F257, "tiny::F257", 2, false, true, "101", [32]);
    hf!(F65537, "tiny::F65537", 2, false, false, "10001", [32]);
    hf!(Fm, "tiny::Fm", 2, false, false, "7ffffebb", [32]);
    hf!(Fo, "tiny::Fo", 2, false, false, "8000b1bf", [32]);
    hf!(Fw1, "tiny::Fw1", 2, false, false, "ffffffffffffff43", [32]);
    hf!(FGold, "tiny::FGold", 2, true, false, "ffffffff00000001", [32]);
    hf!(Fs2, "tiny::Fs2", 2, false, false, "7fffffffffffffffffffffffffffffff", [32, 24]);
    hf!(Fw2, "tiny::Fw2", 2, true, false, "ffffffffffffffffffffffffffffff53", [32, 17]);
}

/// A generic action applied to prime field types.
pub trait FieldFn {
    fn call<F: HF>(&self);
}
pub fn each_real_field(f: &impl FieldFn) {
    f.call::<bn256::Fq>();
    f.call::<bn256::Fr>();
    f.call::<bls12381::Fq>();
    f.call::<bls12381::Fr>();
    f.call::<pluto_eris::Fp>();
    f.call::<pluto_eris::Fq>();
    f.call::<secp256k1::Fp>();
    f.call::<secp256k1::Fq>();
    f.call::<secp256r1::Fp>();
    f.call::<secp256r1::Fq>();
}
/// Fields small enough to enumerate all pairs.
pub fn each_tiny_field(_f: &impl FieldFn) {
    #[cfg(feature = "tiny")]
    {
        use tiny::*;
        _f.call::<F7>();
        _f.call::<F17>();
        _f.call::<F31>();
        _f.call::<F43>();
        _f.call::<F59>();
        _f.call::<F71>();
        _f.call::<F97>();
        _f.call::<F103>();
        _f.call::<F127>();
        _f.call::<F193>();
        _f.call::<F257>();
    }
}
/// Fields of unusual shape (limb boundaries, full width, one limb used): boundary alphabets.
pub fn each_odd_field(_f: &impl FieldFn) {
    #[cfg(feature = "tiny")]
    {
        use tiny::*;
        _f.call::<F65537>();
        _f.call::<Fm>();
        _f.call::<Fo>();
        _f.call::<Fw1>();
        _f.call::<FGold>();
        _f.call::<Fs2>();
        _f.call::<Fw2>();
    }
}

/// Boundary values (canonical integers below p), whose integer form or Montgomery form is a limb
/// pattern, a value next to the modulus, a power of two, ...
pub fn alphabet(p: &BigUint, n: usize, letters: &[u64]) -> Vec<BigUint> {
    let one = BigUint::one();
    let mut s: BTreeSet<BigUint> = BTreeSet::new();
    let add = |s: &mut BTreeSet<BigUint>, v: BigUint| {
        s.insert(v % p);
    };
    for i in 0u32..4 {
        add(&mut s, i.into());
        add(&mut s, p - &one - BigUint::from(i));
        let h: BigUint = (p - &one) >> 1;
        add(&mut s, &h + i);
        if h > i.into() {
            add(&mut s, h - i);
        }
    }
    for k in 1..=(2 * n) {
        let t: BigUint = &one << (32 * k);
        for v in [&t - &one, t.clone(), &t + &one] {
            add(&mut s, v);
        }
        for m in [1u32, 2] {
            let v: BigUint = (&t * p - &t) / p * m;
            add(&mut s, v);
        }
    }
    let r: BigUint = &one << (64 * n);
    let rp = &r % p;
    add(&mut s, rp.clone());
    add(&mut s, &rp * &rp);
    add(&mut s, &rp * &rp * &rp);
    if &r > p {
        add(&mut s, &r - p);
    }
    let pl = limbs(p, n);
    // the modulus with one limb perturbed
    for i in 0..n {
        for v in [0, 1, u64::MAX, pl[i].wrapping_add(1), pl[i].wrapping_sub(1)] {
            let mut l = pl.clone();
            l[i] = v;
            add(&mut s, of_limbs(&l));
        }
    }
    for w in words(letters.len(), n) {
        let l: Vec<u64> = w.iter().map(|i| letters[*i]).collect();
        let v = of_limbs(&l);
        if &v < p {
            s.insert(v);
        } else {
            let mut l = l;
            l[n - 1] %= pl[n - 1].max(1);
            add(&mut s, of_limbs(&l));
            l[n - 1] = pl[n - 1];
            add(&mut s, of_limbs(&l));
        }
    }
    let rinv = modinv(&rp, p);
    let m: Vec<BigUint> = s.iter().map(|v| v * &rinv % p).collect();
    s.extend(m);
    s.into_iter().collect()
}
pub fn of_limbs(l: &[u64]) -> BigUint {
    let mut b = vec![];
    for x in l {
        b.extend_from_slice(&x.to_le_bytes());
    }
    BigUint::from_bytes_le(&b)
}
/// Inverse modulo a prime or any coprime modulus.
pub fn modinv(a: &BigUint, m: &BigUint) -> BigUint {
    use num_bigint::BigInt;
    let (a, m) = (BigInt::from(a.clone()), BigInt::from(m.clone()));
    let e = a.extended_gcd(&m);
    assert!(e.gcd.is_one());
    e.x.mod_floor(&m).to_biguint().unwrap()
}
/// Every element of a tiny field.
pub fn all<F: HF>() -> Vec<F> {
    let p: u64 = F::p().try_into().unwrap();
    (0..p).map(|i| F::of(&i.into())).collect()
}
pub fn u(p: &BigUint) -> u64 {
    p.try_into().unwrap()
}
pub fn is_prime(n: &BigUint) -> bool {
    let one = BigUint::one();
    if n <= &one {
        return false;
    }
    for q in [2u32, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71] {
        let q = BigUint::from(q);
        if n == &q {
            return true;
        }
        if (n % &q).is_zero() {
            return false;
        }
    }
    let m = n - &one;
    let s = m.trailing_zeros().unwrap();
    let d = &m >> s;
    'w: for a in [2u32, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71] {
        let mut x = BigUint::from(a).modpow(&d, n);
        if x.is_one() || x == m {
            continue;
        }
        for _ in 1..s {
            x = &x * &x % n;
            if x == m {
                continue 'w;
            }
        }
        return false;
    }
    true
}
