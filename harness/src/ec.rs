//! Reference elliptic-curve arithmetic (affine chord and tangent) and uniform access to the
//! library's curves.
use crate::tower::*;
use crate::*;
use ff::{Field, PrimeField};
use halo2curves::ff_ext::quadratic::QuadExtField;
use halo2curves::group::cofactor::{CofactorCurveAffine, CofactorGroup};
use halo2curves::group::{Curve, GroupEncoding, UncompressedEncoding};
use halo2curves::serde::SerdeObject;
use halo2curves::{CurveAffine, CurveExt};

pub type Pt<F> = Option<(<F as Fld>::E, <F as Fld>::E)>;

#[derive(Clone)]
pub struct Ec<F: Fld> {
    pub f: F,
    pub a: F::E,
    pub b: F::E,
}
impl<F: Fld> Ec<F> {
    pub fn rhs(&self, x: &F::E) -> F::E {
        let f = &self.f;
        let t = f.add(&f.sq(x), &self.a);
        f.add(&f.mul(&t, x), &self.b)
    }
    pub fn on(&self, p: &Pt<F>) -> bool {
        match p {
            None => true,
            Some((x, y)) => self.f.sq(y) == self.rhs(x),
        }
    }
    pub fn neg(&self, p: &Pt<F>) -> Pt<F> {
        p.as_ref().map(|(x, y)| (x.clone(), self.f.neg(y)))
    }
    pub fn add(&self, p: &Pt<F>, q: &Pt<F>) -> Pt<F> {
        let f = &self.f;
        let (px, py) = match p {
            None => return q.clone(),
            Some(p) => p,
        };
        let (qx, qy) = match q {
            None => return p.clone(),
            Some(q) => q,
        };
        let l = if px == qx {
            if f.is_zero(&f.add(py, qy)) {
                return None;
            }
            let n = f.add(&f.mul(&f.small(3), &f.sq(px)), &self.a);
            f.mul(&n, &f.inv(&f.add(py, py)).unwrap())
        } else {
            f.mul(&f.sub(qy, py), &f.inv(&f.sub(qx, px)).unwrap())
        };
        let x = f.sub(&f.sub(&f.sq(&l), px), qx);
        let y = f.sub(&f.mul(&l, &f.sub(px, &x)), py);
        Some((x, y))
    }
    pub fn mul(&self, k: &BigUint, p: &Pt<F>) -> Pt<F> {
        let mut r = None;
        for i in (0..k.bits()).rev() {
            r = self.add(&r, &r);
            if k.bit(i) {
                r = self.add(&r, p);
            }
        }
        r
    }
    /// the points with abscissa x, smaller y first
    pub fn lift(&self, x: &F::E) -> Vec<Pt<F>> {
        match self.f.sqrt(&self.rhs(x)) {
            None => vec![],
            Some(y) => {
                let n = self.f.neg(&y);
                let mut v = vec![y, n];
                v.sort();
                v.dedup();
                v.into_iter().map(|y| Some((x.clone(), y))).collect()
            }
        }
    }
}

/// A coordinate field of the library, tied to its reference field.
pub trait HB:
    PrimeField
    + Ord
    + SerdeObject
    + halo2curves::ff_ext::Legendre
    + ff::WithSmallOrderMulGroup<3>
    + serde::Serialize
    + for<'a> serde::Deserialize<'a>
    + Send
    + Sync
    + 'static
{
    type R: Fld;
    const BNAME: &'static str;
    const BSIZE: usize;
    const BLIMBS: usize;
    fn ctx() -> Self::R;
    fn to_r(&self) -> <Self::R as Fld>::E;
    fn of_r(e: &<Self::R as Fld>::E) -> Self;
    fn ebytes(&self) -> Vec<u8>;
    fn of_ebytes(b: &[u8]) -> subtle::CtOption<Self>;
    fn lexi(&self) -> bool;
    fn big_endian() -> bool;
}
macro_rules! hb_prime {
    ($($t:ty),*) => {$(
        impl HB for $t {
            type R = Prime;
            const BNAME: &'static str = <$t as HF>::NAME;
            const BSIZE: usize = <$t as HF>::LIMBS * 8;
            const BLIMBS: usize = <$t as HF>::LIMBS;
            fn ctx() -> Prime { Prime { p: <$t as HF>::p() } }
            fn to_r(&self) -> BigUint { self.big() }
            fn of_r(e: &BigUint) -> Self { <$t as HF>::of(e) }
            fn ebytes(&self) -> Vec<u8> { self.bytes() }
            fn of_ebytes(b: &[u8]) -> subtle::CtOption<Self> { <$t as HF>::of_bytes(b) }
            fn lexi(&self) -> bool { self.lex() }
            fn big_endian() -> bool { <$t as HF>::BE }
        }
    )*};
}
macro_rules! hb_tiny {
    ($($t:ty),*) => {$(
        impl HB for $t {
            type R = PrimeU;
            const BNAME: &'static str = <$t as HF>::NAME;
            const BSIZE: usize = <$t as HF>::LIMBS * 8;
            const BLIMBS: usize = <$t as HF>::LIMBS;
            fn ctx() -> PrimeU { PrimeU { p: u(&<$t as HF>::p()) } }
            fn to_r(&self) -> u64 {
                u64::from_le_bytes(self.to_repr().as_ref()[..8].try_into().unwrap())
            }
            fn of_r(e: &u64) -> Self { <$t as HF>::of(&(*e).into()) }
            fn ebytes(&self) -> Vec<u8> { self.bytes() }
            fn of_ebytes(b: &[u8]) -> subtle::CtOption<Self> { <$t as HF>::of_bytes(b) }
            fn lexi(&self) -> bool { self.lex() }
            fn big_endian() -> bool { <$t as HF>::BE }
        }
    )*};
}
macro_rules! hb_quad {
    ($t:ty, $base:ty, $name:literal, $nr:expr) => {
        impl HB for QuadExtField<$base> {
            type R = Ext<<$base as HB>::R>;
            const BNAME: &'static str = $name;
            const BSIZE: usize = <$base as HB>::BSIZE * 2;
            const BLIMBS: usize = <$base as HF>::LIMBS;
            fn ctx() -> Self::R {
                let base = <$base as HB>::ctx();
                let nr = base.small($nr);
                Ext { base, d: 2, nr }
            }
            fn to_r(&self) -> Vec<<<$base as HB>::R as Fld>::E> {
                vec![self.c0().to_r(), self.c1().to_r()]
            }
            fn of_r(e: &Vec<<<$base as HB>::R as Fld>::E>) -> Self {
                Self::new(<$base as HB>::of_r(&e[0]), <$base as HB>::of_r(&e[1]))
            }
            fn ebytes(&self) -> Vec<u8> {
                self.to_bytes().to_vec()
            }
            fn of_ebytes(b: &[u8]) -> subtle::CtOption<Self> {
                Self::from_bytes(b.try_into().unwrap())
            }
            fn lexi(&self) -> bool {
                self.lexicographically_largest().into()
            }
            fn big_endian() -> bool {
                <$base as HF>::BE
            }
        }
    };
}
use halo2curves::{bls12381, bn256, grumpkin, pluto_eris, secp256k1, secp256r1, secq256k1};
hb_prime!(
    bn256::Fq, bn256::Fr, bls12381::Fq, pluto_eris::Fp, pluto_eris::Fq, secp256k1::Fp,
    secp256k1::Fq, secp256r1::Fp
);
hb_quad!(bn256::Fq2, bn256::Fq, "bn256::Fq2", -1);
hb_quad!(bls12381::Fq2, bls12381::Fq, "bls12381::Fq2", -1);
hb_quad!(PlutoFp2, pluto_eris::Fp, "pluto_eris::Fp2", -5);
#[cfg(feature = "tiny")]
hb_tiny!(
    halo2curves::verif::F7, halo2curves::verif::F31, halo2curves::verif::F59,
    halo2curves::verif::F97, halo2curves::verif::F127, halo2curves::verif::Fm
);
#[cfg(feature = "tiny")]
hb_quad!(halo2curves::verif::F7x2, halo2curves::verif::F7, "tiny::F7x2", -1);
#[cfg(feature = "tiny")]
hb_quad!(halo2curves::verif::F31x2, halo2curves::verif::F31, "tiny::F31x2", -1);
#[cfg(feature = "tiny")]
hb_quad!(halo2curves::verif::F97x2, halo2curves::verif::F97, "tiny::F97x2", 5);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Flags {
    /// extra leading byte: bit 7 sign, bit 6 identity
    Extra,
    /// two spare bits of the most significant byte: bit 7 sign, bit 6 identity
    Two,
    /// three spare bits: bit 7 compressed, bit 6 identity, bit 5 sign
    Three,
}

/// A curve of the library.
pub trait HC: 'static {
    type Bf: HB;
    type Sc: HF;
    type Aff: CurveAffine<CurveExt = Self::G, Base = Self::Bf, ScalarExt = Self::Sc>
        + SerdeObject
        + GroupEncoding
        + UncompressedEncoding
        + CofactorCurveAffine
        + subtle::ConstantTimeEq
        + subtle::ConditionallySelectable
        + serde::Serialize
        + for<'a> serde::Deserialize<'a>;
    type G: CurveExt<AffineExt = Self::Aff, Base = Self::Bf, ScalarExt = Self::Sc>
        + From<Self::Aff>
        + group::Group<Scalar = Self::Sc>
        + Curve<AffineRepr = Self::Aff>
        + CofactorGroup
        + SerdeObject
        + GroupEncoding
        + serde::Serialize
        + for<'a> serde::Deserialize<'a>
        + subtle::ConstantTimeEq
        + subtle::ConditionallySelectable;
    const NAME: &'static str;
    const TINY: bool;
    const FLAGS: Flags;
    /// sign convention: true = lexicographic order of y, false = parity (sgn0)
    const LEX: bool;
    fn xyz(x: Self::Bf, y: Self::Bf, z: Self::Bf) -> Self::G;
    fn get(g: &Self::G) -> (Self::Bf, Self::Bf, Self::Bf);
    fn axy(x: Self::Bf, y: Self::Bf) -> Self::Aff;
    fn aget(a: &Self::Aff) -> (Self::Bf, Self::Bf);
    /// every route to P + Q and to P - Q; affine forms where given. `all` adds the by-value and
    /// assigning forms and sums.
    fn routes(p: &Self::G, q: &Self::G, pa: &Self::Aff, qa: &Self::Aff, all: bool) -> [Vec<Self::G>; 2];
    /// every route to -P
    fn negs(p: &Self::G, pa: &Self::Aff) -> (Vec<Self::G>, Vec<Self::Aff>);
    /// every route to k * P
    fn mul_routes(p: &Self::G, pa: &Self::Aff, k: &Self::Sc, all: bool) -> Vec<Self::G>;
    fn aff_random(t: &mut Tape) -> Self::Aff;
    fn inh_generator() -> Self::G;
    fn inh_aff_generator() -> Self::Aff;
    /// specification: a, b, generator
    fn spec() -> (
        Vec<BigUint>,
        Vec<BigUint>,
        Vec<BigUint>,
        Vec<BigUint>,
    );
    fn cofactor() -> BigUint;

    fn ec() -> Ec<<Self::Bf as HB>::R> {
        let f = Self::Bf::ctx();
        let (a, b, _, _) = Self::spec();
        Ec { a: f.of_coeffs(&a), b: f.of_coeffs(&b), f }
    }
    fn gen_r() -> Pt<<Self::Bf as HB>::R> {
        let f = Self::Bf::ctx();
        let (_, _, x, y) = Self::spec();
        Some((f.of_coeffs(&x), f.of_coeffs(&y)))
    }
    fn r() -> BigUint {
        Self::Sc::p()
    }
    /// affine library point of a reference point; identity = (0,0)
    fn aff(p: &Pt<<Self::Bf as HB>::R>) -> Self::Aff {
        match p {
            None => Self::axy(Self::Bf::ZERO, Self::Bf::ZERO),
            Some((x, y)) => Self::axy(Self::Bf::of_r(x), Self::Bf::of_r(y)),
        }
    }
    /// projective library point (zx : zy : z); the identity is (0 : z : 0)
    fn proj(
        p: &Pt<<Self::Bf as HB>::R>,
        z: &<<Self::Bf as HB>::R as Fld>::E,
    ) -> Self::G {
        let f = Self::Bf::ctx();
        match p {
            None => Self::xyz(Self::Bf::ZERO, Self::Bf::of_r(z), Self::Bf::ZERO),
            Some((x, y)) => Self::xyz(
                Self::Bf::of_r(&f.mul(x, z)),
                Self::Bf::of_r(&f.mul(y, z)),
                Self::Bf::of_r(z),
            ),
        }
    }
    /// the reference point an affine library point denotes
    fn aff_r(a: &Self::Aff) -> Pt<<Self::Bf as HB>::R> {
        let f = Self::Bf::ctx();
        let (x, y) = Self::aget(a);
        let (x, y) = (x.to_r(), y.to_r());
        if f.is_zero(&x) && f.is_zero(&y) {
            None
        } else {
            Some((x, y))
        }
    }
    /// the reference point a projective library point denotes, or Err for an invalid triple
    fn proj_r(g: &Self::G) -> Result<Pt<<Self::Bf as HB>::R>, String> {
        let f = Self::Bf::ctx();
        let (x, y, z) = Self::get(g);
        let (x, y, z) = (x.to_r(), y.to_r(), z.to_r());
        if f.is_zero(&z) {
            if f.is_zero(&x) && !f.is_zero(&y) {
                return Ok(None);
            }
            return Err(format!("invalid point at infinity ({x:?}, {y:?}, {z:?})"));
        }
        let i = f.inv(&z).unwrap();
        Ok(Some((f.mul(&x, &i), f.mul(&y, &i))))
    }
    fn comp_size() -> usize {
        Self::Bf::BSIZE + if Self::FLAGS == Flags::Extra { 1 } else { 0 }
    }
}

macro_rules! hc {
    ($g:ty, $a:ty, $b:ty, $s:ty, $name:literal, $tiny:literal, $flags:expr, $lex:literal, $spec:expr, $cof:expr) => {
        impl HC for $g {
            type Bf = $b;
            type Sc = $s;
            type Aff = $a;
            const NAME: &'static str = $name;
            const TINY: bool = $tiny;
            const FLAGS: Flags = $flags;
            const LEX: bool = $lex;
            type G = $g;
            fn xyz(x: $b, y: $b, z: $b) -> $g {
                type G = $g;
                G { x, y, z }
            }
            fn get(g: &$g) -> ($b, $b, $b) {
                (g.x, g.y, g.z)
            }
            fn axy(x: $b, y: $b) -> $a {
                type A = $a;
                A { x, y }
            }
            fn aget(a: &$a) -> ($b, $b) {
                (a.x, a.y)
            }
            fn routes(p: &$g, q: &$g, pa: &$a, qa: &$a, all: bool) -> [Vec<$g>; 2] {
                let mut a = vec![p + q, p + qa, pa + q, pa + qa];
                let mut s = vec![p - q, p - qa, pa - q, pa - qa];
                if all {
                    let asg = |f: &dyn Fn(&mut $g)| {
                        let mut t = *p;
                        f(&mut t);
                        t
                    };
                    a.extend([*p + *q, *p + q, p + *q, *p + *qa, *p + qa, p + *qa]);
                    a.extend([*pa + *q, *pa + q, pa + *q, *pa + *qa, *pa + qa, pa + *qa]);
                    a.extend([asg(&|t| *t += *q), asg(&|t| *t += q), asg(&|t| *t += *qa), asg(&|t| *t += qa)]);
                    a.extend([[*p, *q].iter().sum::<$g>(), [*p, *q].into_iter().sum::<$g>(), $crate::isum::<$g>(&[*p, *q])]);
                    s.extend([*p - *q, *p - q, p - *q, *p - *qa, *p - qa, p - *qa]);
                    s.extend([*pa - *q, *pa - q, pa - *q, *pa - *qa, *pa - qa, pa - *qa]);
                    s.extend([asg(&|t| *t -= *q), asg(&|t| *t -= q), asg(&|t| *t -= *qa), asg(&|t| *t -= qa)]);
                }
                [a, s]
            }
            fn negs(p: &$g, pa: &$a) -> (Vec<$g>, Vec<$a>) {
                (vec![-p, -*p, <$g as group::Group>::identity() - p], vec![-pa, -*pa])
            }
            fn mul_routes(p: &$g, pa: &$a, k: &$s, all: bool) -> Vec<$g> {
                let mut v = vec![p * k, pa * k];
                if all {
                    let asg = |f: &dyn Fn(&mut $g)| {
                        let mut t = *p;
                        f(&mut t);
                        t
                    };
                    v.extend([*p * *k, *p * k, p * *k, *pa * *k, *pa * k, pa * *k]);
                    v.extend([asg(&|t| *t *= *k), asg(&|t| *t *= k)]);
                }
                v
            }
            fn aff_random(t: &mut Tape) -> $a {
                <$a>::random(t)
            }
            fn inh_generator() -> Self::G {
                <$g>::generator()
            }
            fn inh_aff_generator() -> $a {
                <$a>::generator()
            }
            fn spec() -> (Vec<BigUint>, Vec<BigUint>, Vec<BigUint>, Vec<BigUint>) {
                let s: [&[&str]; 4] = $spec;
                let v: Vec<Vec<BigUint>> =
                    s.iter().map(|v| v.iter().map(|h| hx(h)).collect()).collect();
                (v[0].clone(), v[1].clone(), v[2].clone(), v[3].clone())
            }
            fn cofactor() -> BigUint {
                hx($cof)
            }
        }
    };
}

hc!(bn256::G1, bn256::G1Affine, bn256::Fq, bn256::Fr, "bn256::G1", false, Flags::Two, false,
    [&["0"], &["3"], &["1"], &["2"]], "1");
hc!(bn256::G2, bn256::G2Affine, QuadExtField<bn256::Fq>, bn256::Fr, "bn256::G2", false, Flags::Two, false, [
    &["0", "0"],
    &["2b149d40ceb8aaae81be18991be06ac3b5b4c5e559dbefa33267e6dc24a138e5",
      "9713b03af0fed4cd2cafadeed8fdf4a74fa084e52d1852e4a2bd0685c315d2"],
    &["1800deef121f1e76426a00665e5c4479674322d4f75edadd46debd5cd992f6ed",
      "198e9393920d483a7260bfb731fb5d25f1aa493335a9e71297e485b7aef312c2"],
    &["12c85ea5db8c6deb4aab71808dcb408fe3d1e7690c43d37b4ce6cc0166fa7daa",
      "90689d0585ff075ec9e99ad690c3395bc4b313370b38ef355acdadcd122975b"]],
    "30644e72e131a029b85045b68181585e06ceecda572a2489345f2299c0f9fa8d");
hc!(grumpkin::G1, grumpkin::G1Affine, bn256::Fr, bn256::Fq, "grumpkin::G1", false, Flags::Two, false, [
    &["0"], &["30644e72e131a029b85045b68181585d2833e84879b9709143e1f593effffff0"],
    &["1"], &["2cf135e7506a45d632d270d45f1181294833fc48d823f272c"]], "1");
hc!(bls12381::G1, bls12381::G1Affine, bls12381::Fq, bls12381::Fr, "bls12381::G1", false, Flags::Three, true, [
    &["0"], &["4"],
    &["17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb"],
    &["8b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1"]],
    "396c8c005555e1568c00aaab0000aaab");
hc!(bls12381::G2, bls12381::G2Affine, QuadExtField<bls12381::Fq>, bls12381::Fr, "bls12381::G2", false, Flags::Three, true, [
    &["0", "0"], &["4", "4"],
    &["24aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8",
      "13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e"],
    &["ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801",
      "606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be"]],
    "5d543a95414e7f1091d50792876a202cd91de4547085abaa68a205b2e5a7ddfa628f1cb4d9e82ef21537e293a6691ae1616ec6e786f0c70cf1c38e31c7238e5");
hc!(pluto_eris::G1, pluto_eris::G1Affine, pluto_eris::Fp, pluto_eris::Fq, "pluto_eris::G1", false, Flags::Two, false, [
    &["0"], &["39"],
    &["24000000000024000130e0000d7f70e4a803ca76f439266f443f9a5cda8a6c7be4a7a5fe8fadffd6a2a7e8c30006b9459ffffcd2ffffffff"],
    &["7"]], "1");
hc!(pluto_eris::Eris, pluto_eris::ErisAffine, pluto_eris::Fq, pluto_eris::Fp, "pluto_eris::Eris", false, Flags::Two, false, [
    &["0"], &["39"],
    &["24000000000024000130e0000d7f70e4a803ca76f439266f443f9a5c7a8a6c7be4a775fe8e177fd69ca7e85d60050af41ffffcd2ffffffff"],
    &["7"]], "1");
hc!(pluto_eris::G2, pluto_eris::G2Affine, QuadExtField<pluto_eris::Fp>, pluto_eris::Fq, "pluto_eris::G2", false, Flags::Two, false, [
    &["0", "0"], &["3", "1"],
    &["13576c81faf3a13fd815d0e9bd54b845ee935948b84498b27ca972bfb93722e223c9e276a4ebe7559cfc86dd865f07d64f2b5fe6556f9066", "142164cb875db0465e5092f9380f44f555243d011699b7393029f2d201554727aeb383298fdf5847b9b3dff01bbe8d63fe7c781a8fd7bf21"], &["2239f7408ead478c58e88d4df1e7418c42fdbb92e64ba85aa4dc17d7dace3f32eb471c004db774bfe78574aca67b3898cd1b78ad106ab9fe", "1260b04d51136590dbb53dfd7caf450aeca714555bbe4f079ca65d97eb28fc9fc697b4e10bbcd9e0539ef82a731fb88ed49e3c080e6d945d"]],
    "24000000000024000130e0000d7f70e4a803ca76f439266f443f9a5d3a8a6c7be4a7d5fe91447fd6a8a7e928a00867971ffffcd300000001");
hc!(secp256k1::Secp256k1, secp256k1::Secp256k1Affine, secp256k1::Fp, secp256k1::Fq, "secp256k1", false, Flags::Extra, false, [
    &["0"], &["7"],
    &["79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"],
    &["483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"]], "1");
hc!(secp256r1::Secp256r1, secp256r1::Secp256r1Affine, secp256r1::Fp, secp256r1::Fq, "secp256r1", false, Flags::Extra, false, [
    &["ffffffff00000001000000000000000000000000fffffffffffffffffffffffc"],
    &["5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"],
    &["6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"],
    &["4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"]], "1");
hc!(secq256k1::Secq256k1, secq256k1::Secq256k1Affine, secp256k1::Fq, secp256k1::Fp, "secq256k1", false, Flags::Extra, false, [
    &["0"], &["7"],
    &["76c39f5585cb160eb6b06c87a2ce32e23134e45a097781a6a24288e37702eda6"],
    &["3ffc646c7b2918b5dc2d265a8e82a7f7d18983d26e8dc055a4120ddad952677f"]], "1");

#[cfg(feature = "tiny")]
mod tiny {
    use super::*;
    use halo2curves::verif::*;
    hc!(TA, TAAffine, F97, F103, "tiny::TA", true, Flags::Two, false,
        [&["0"], &["a"], &["1"], &["25"]], "1");
    hc!(TB, TBAffine, F59, F71, "tiny::TB", true, Flags::Extra, false,
        [&["38"], &["1"], &["0"], &["1"]], "1");
    hc!(TC, TCAffine, F127, F43, "tiny::TC", true, Flags::Three, true,
        [&["0"], &["d"], &["2d"], &["62"]], "3");
    hc!(TD, TDAffine, F31x2, F43, "tiny::TD", true, Flags::Two, false,
        [&["0", "0"], &["0", "3"], &["0", "7"], &["4", "4"]], "15");
    hc!(TE, TEAffine, Fm, Fo, "tiny::TE", false, Flags::Extra, false,
        [&["0"], &["11"], &["2"], &["7ffffeb6"]], "1");
}

/// the group trait's sum
pub fn isum<G: group::Group>(v: &[G]) -> G {
    v.iter().sum::<G>()
}
/// A generic action applied to curves.
pub trait CurveFn {
    fn call<C: HC>(&self);
}
pub fn each_real_curve(f: &impl CurveFn) {
    f.call::<bn256::G1>();
    f.call::<bn256::G2>();
    f.call::<grumpkin::G1>();
    f.call::<bls12381::G1>();
    f.call::<bls12381::G2>();
    f.call::<pluto_eris::G1>();
    f.call::<pluto_eris::Eris>();
    f.call::<pluto_eris::G2>();
    f.call::<secp256k1::Secp256k1>();
    f.call::<secp256r1::Secp256r1>();
    f.call::<secq256k1::Secq256k1>();
}
/// Curves whose whole group is enumerated.
pub fn each_tiny_curve(_f: &impl CurveFn) {
    #[cfg(feature = "tiny")]
    {
        use halo2curves::verif::*;
        _f.call::<TA>();
        _f.call::<TB>();
        _f.call::<TC>();
        _f.call::<TD>();
    }
}
/// A curve over a 31-bit field with a scalar field larger than its base field.
pub fn each_mid_curve(_f: &impl CurveFn) {
    #[cfg(feature = "tiny")]
    _f.call::<halo2curves::verif::TE>();
}
/// Points of a real curve worth combining: the identity, small multiples of the generator and
/// of its image under the cube-root-of-unity map, halves, points over small abscissas (outside
/// the prime-order subgroup where the cofactor allows), and the negatives of all these.
pub fn telling_points<C: HC>(n: usize) -> Vec<Pt<<C::Bf as HB>::R>> {
    let ec = C::ec();
    let f = &ec.f;
    let g = C::gen_r();
    let r = C::r();
    let mut v: Vec<Pt<<C::Bf as HB>::R>> = vec![None, g.clone(), ec.add(&g, &g)];
    let mut xs = vec![f.zero(), f.one()];
    for i in 2..12i64 {
        xs.push(f.small(i));
    }
    if f.deg() == 2 {
        let mut c = vec![BigUint::zero(); 2];
        for i in 1u32..8 {
            c[1] = i.into();
            xs.push(f.of_coeffs(&c));
        }
    }
    let mut lifted = 0;
    for x in &xs {
        let l = ec.lift(x);
        if !l.is_empty() {
            // both signs come from the negatives below
            v.push(l[0].clone());
            lifted += 1;
            if lifted >= n / 4 + 1 {
                break;
            }
        }
    }
    v.push(ec.mul(&((&r + BigUint::one()) >> 1), &g));
    v.push(ec.mul(&(&r - BigUint::from(2u32)), &g));
    if f.is_zero(&ec.a) && (f.size() - BigUint::one()) % 3u32 == BigUint::zero() {
        // same ordinate, different abscissa
        let e: BigUint = (f.size() - BigUint::one()) / 3u32;
        let mut c = vec![BigUint::one(); f.deg()];
        let mut z = f.one();
        while z == f.one() {
            c[0] += 1u32;
            z = f.pow(&f.of_coeffs(&c), &e);
        }
        if let Some((x, y)) = &g {
            v.push(Some((f.mul(x, &z), y.clone())));
            v.push(Some((f.mul(&f.sq(&z), x), y.clone())));
        }
    }
    let mut t = ec.add(&v[2], &g);
    while v.len() < n {
        v.push(t.clone());
        t = ec.add(&t, &g);
    }
    let mut w = vec![];
    for p in &v {
        for q in [p.clone(), ec.neg(p)] {
            if !w.contains(&q) {
                w.push(q);
            }
        }
    }
    w
}
/// projective scalings
pub fn scalings<C: HC>(n: usize) -> Vec<<<C::Bf as HB>::R as Fld>::E> {
    let f = C::Bf::ctx();
    let mut v = vec![f.one(), f.small(2), f.small(-1)];
    let d = f.deg();
    let p = f.chr();
    let r: BigUint = (BigUint::one() << (64 * C::Bf::BLIMBS)) % &p;
    for i in 0..6u32 {
        let mut c = vec![BigUint::zero(); d];
        c[d - 1] = (&r + BigUint::from(i)) % &p;
        if i % 2 == 1 {
            c[0] = (&r * BigUint::from(i + 3)) % &p;
        }
        let e = f.of_coeffs(&c);
        if !f.is_zero(&e) && !v.contains(&e) {
            v.push(e);
        }
    }
    v.dedup();
    v.truncate(n);
    v
}
/// Every point of a tiny curve, identity first.
pub fn all_points<C: HC>() -> Vec<Pt<<C::Bf as HB>::R>> {
    let ec = C::ec();
    let n = u(&ec.f.size());
    let q = u(&ec.f.chr());
    let mut v = vec![None];
    for i in 0..n {
        let mut c = vec![];
        let mut t = i;
        for _ in 0..ec.f.deg() {
            c.push(BigUint::from(t % q));
            t /= q;
        }
        v.extend(ec.lift(&ec.f.of_coeffs(&c)));
    }
    v
}
/// Every element of a tiny coordinate field (reference form).
pub fn all_elems<F: Fld>(f: &F) -> Vec<F::E> {
    let n = u(&f.size());
    let q = u(&f.chr());
    (0..n)
        .map(|mut t| {
            let mut c = vec![];
            for _ in 0..f.deg() {
                c.push(BigUint::from(t % q));
                t /= q;
            }
            f.of_coeffs(&c)
        })
        .collect()
}
