//! RFC 9380 written from its text: expand_message_xmd, hash_to_field, the two maps by their
//! definitions (sections 6.6.1 and 6.6.2, not the straight-line code), isogenies, clearing.
use crate::iso::*;
use crate::*;
use digest::{core_api::BlockSizeUser, Digest};

/// Section 5.3.1. `None` where the RFC aborts.
pub fn xmd<D: Digest + BlockSizeUser>(msg: &[u8], dst: &[u8], len: usize) -> Option<Vec<u8>> {
    let b = <D as Digest>::output_size();
    let ell = len.div_ceil(b);
    if ell > 255 || len > 65535 || dst.len() > 255 {
        return None;
    }
    let mut dp = dst.to_vec();
    dp.push(dst.len() as u8);
    let mut m = vec![0u8; D::block_size()];
    m.extend(msg);
    m.extend([(len / 256) as u8, (len % 256) as u8, 0]);
    m.extend(&dp);
    let b0 = D::digest(&m).to_vec();
    let mut out = vec![];
    let mut last = vec![0u8; b];
    for i in 1..=ell {
        let mut m: Vec<u8> = b0.iter().zip(&last).map(|(x, y)| x ^ y).collect();
        m.push(i as u8);
        m.extend(&dp);
        last = D::digest(&m).to_vec();
        out.extend(&last);
    }
    out.truncate(len);
    Some(out)
}

/// Section 5.2: count = 2.
pub fn to_field<F: Fld>(f: &F, out: &[u8]) -> [F::E; 2] {
    let l = out.len() / 2 / f.deg();
    let e = |i: usize| {
        let c: Vec<BigUint> = (0..f.deg())
            .map(|j| BigUint::from_bytes_be(&out[l * (i * f.deg() + j)..l * (i * f.deg() + j + 1)]) % f.chr())
            .collect();
        f.of_coeffs(&c)
    };
    [e(0), e(1)]
}

/// Section 4.1
pub fn sgn0<F: Fld>(f: &F, x: &F::E) -> bool {
    for c in f.coeffs(x) {
        if !c.is_zero() {
            return c.bit(0);
        }
    }
    false
}

#[derive(Clone)]
pub enum Map<F: Fld> {
    Svdw { z: F::E },
    /// the map goes to the curve (a, b); `iso` leads back, where there is one
    Sswu { z: F::E, a: F::E, b: F::E, iso: Option<[Vec<F::E>; 4]> },
}

pub struct H2c<F: Fld> {
    pub ec: Ec<F>,
    pub map: Map<F>,
    consts: Vec<F::E>,
}

impl<F: Fld> H2c<F> {
    pub fn new(ec: Ec<F>, map: Map<F>) -> Self {
        let f = &ec.f;
        let mut consts = vec![];
        if let Map::Svdw { z } = &map {
            // c1 = g(Z), c2 = -Z/2, c3 = sqrt(-g(Z)(3Z^2+4A)) of sign 0, c4 = -4g(Z)/(3Z^2+4A)
            let gz = ec.rhs(z);
            let t = f.add(&f.mul(&f.small(3), &f.sq(z)), &f.mul(&f.small(4), &ec.a));
            let mut c3 = f.sqrt(&f.neg(&f.mul(&gz, &t))).expect("bad Z");
            if sgn0(f, &c3) {
                c3 = f.neg(&c3);
            }
            let c2 = f.neg(&f.mul(z, &f.inv(&f.small(2)).unwrap()));
            let c4 = f.neg(&f.mul(&f.mul(&f.small(4), &gz), &f.inv(&t).unwrap()));
            consts = vec![gz, c2, c3, c4];
        }
        H2c { ec, map, consts }
    }
    fn sq(&self, x: &F::E) -> bool {
        self.ec.f.chi(x) >= 0
    }
    /// whether a Svdw parameter is admissible (appendix H.1)
    pub fn svdw_ok(ec: &Ec<F>, z: &F::E) -> bool {
        let f = &ec.f;
        let gz = ec.rhs(z);
        if f.is_zero(&gz) {
            return false;
        }
        let t = f.add(&f.mul(&f.small(3), &f.sq(z)), &f.mul(&f.small(4), &ec.a));
        let q = f.neg(&f.mul(&t, &f.inv(&f.mul(&f.small(4), &gz)).unwrap()));
        if f.chi(&q) != 1 {
            return false;
        }
        let h = f.neg(&f.mul(z, &f.inv(&f.small(2)).unwrap()));
        f.chi(&gz) >= 0 || f.chi(&ec.rhs(&h)) >= 0
    }
    /// whether a simplified SWU parameter is admissible (section 6.6.2), over a small field
    pub fn sswu_ok(ec: &Ec<F>, z: &F::E, all: &[F::E]) -> bool {
        let f = &ec.f;
        if f.chi(z) != -1 || *z == f.small(-1) {
            return false;
        }
        if all.iter().any(|x| ec.rhs(x) == *z) {
            return false;
        }
        let x = f.mul(&ec.b, &f.inv(&f.mul(z, &ec.a)).unwrap());
        f.chi(&ec.rhs(&x)) >= 0
    }
    /// map_to_curve, isogeny included
    pub fn map(&self, u: &F::E) -> Pt<F> {
        let f = &self.ec.f;
        let one = f.one();
        let inv0 = |x: &F::E| f.inv(x).unwrap_or(f.zero());
        match &self.map {
            Map::Svdw { z } => {
                let [c1, c2, c3, c4] = [0, 1, 2, 3].map(|i| self.consts[i].clone());
                let tv1 = f.mul(&f.sq(u), &c1);
                let tv2 = f.add(&one, &tv1);
                let tv1 = f.sub(&one, &tv1);
                let tv3 = inv0(&f.mul(&tv1, &tv2));
                let tv5 = f.mul(&f.mul(&f.mul(u, &tv1), &tv3), &c3);
                let x1 = f.sub(&c2, &tv5);
                let x2 = f.add(&c2, &tv5);
                let x3 = f.add(z, &f.mul(&c4, &f.sq(&f.mul(&f.sq(&tv2), &tv3))));
                let x = if self.sq(&self.ec.rhs(&x1)) {
                    x1
                } else if self.sq(&self.ec.rhs(&x2)) {
                    x2
                } else {
                    x3
                };
                let y = f.sqrt(&self.ec.rhs(&x)).expect("the map is total");
                Some((x, self.signed(u, y)))
            }
            Map::Sswu { z, a, b, iso } => {
                let e = Ec { f: f.clone(), a: a.clone(), b: b.clone() };
                let zu2 = f.mul(z, &f.sq(u));
                let tv1 = inv0(&f.add(&f.sq(&zu2), &zu2));
                let x1 = if f.is_zero(&tv1) {
                    f.mul(b, &inv0(&f.mul(z, a)))
                } else {
                    f.mul(&f.neg(&f.mul(b, &inv0(a))), &f.add(&one, &tv1))
                };
                let x = if self.sq(&e.rhs(&x1)) { x1 } else { f.mul(&zu2, &x1) };
                let y = f.sqrt(&e.rhs(&x)).expect("the map is total");
                let y = self.signed(u, y);
                match iso {
                    None => Some((x, y)),
                    Some(c) => {
                        let ev = |p: &Vec<F::E>| p.iter().rev().fold(f.zero(), |r, k| f.add(&f.mul(&r, &x), k));
                        let v = [ev(&c[0]), ev(&c[1]), ev(&c[2]), ev(&c[3])];
                        // a pole of the rational map: the identity
                        let (d1, d2) = (f.inv(&v[1])?, f.inv(&v[3])?);
                        Some((f.mul(&v[0], &d1), f.mul(&y, &f.mul(&v[2], &d2))))
                    }
                }
            }
        }
    }
    fn signed(&self, u: &F::E, y: F::E) -> F::E {
        let f = &self.ec.f;
        if sgn0(f, u) != sgn0(f, &y) {
            f.neg(&y)
        } else {
            y
        }
    }
    /// field elements where a step of the map is degenerate, as far as square roots exist
    pub fn exceptional(&self) -> Vec<F::E> {
        let f = &self.ec.f;
        let mut v = vec![];
        let mut root = |x: Option<F::E>| {
            if let Some(r) = x.and_then(|x| f.sqrt(&x)) {
                v.push(f.neg(&r));
                v.push(r);
            }
        };
        match &self.map {
            Map::Svdw { .. } => {
                root(f.inv(&self.consts[0]));
                root(f.inv(&f.neg(&self.consts[0])));
            }
            Map::Sswu { z, .. } => root(f.inv(&f.neg(z))),
        }
        v
    }
}

/// A curve whose production suite is specified.
pub trait Suited: HC {
    const SUFFIX: &'static str;
    /// uniform bytes per coordinate
    const LEN: usize;
    fn map() -> Map<<Self::Bf as HB>::R>;
    fn clear(ec: &Ec<<Self::Bf as HB>::R>, p: &Pt<<Self::Bf as HB>::R>) -> Pt<<Self::Bf as HB>::R>;
    fn h2c() -> H2c<<Self::Bf as HB>::R> {
        H2c::new(Self::ec(), Self::map())
    }
    /// further field elements worth mapping
    fn extra() -> Vec<<<Self::Bf as HB>::R as Fld>::E> {
        vec![]
    }
}
fn iso_of<F: Fld>(f: &F, c: &[&[&[&str]]; 4]) -> [Vec<F::E>; 4] {
    [0, 1, 2, 3].map(|i| c[i].iter().map(|k| f.of_coeffs(&k.iter().map(|h| hx(h)).collect::<Vec<_>>())).collect())
}
use halo2curves::*;
macro_rules! suited {
    ($t:ty, $s:literal, $l:literal, |$f:ident| $map:expr, |$ec:ident, $p:ident| $clear:expr $(, $extra:expr)?) => {
        impl Suited for $t {
            const SUFFIX: &'static str = $s;
            const LEN: usize = $l;
            fn map() -> Map<<Self::Bf as HB>::R> {
                let $f = &<<Self as HC>::Bf as HB>::ctx();
                $map
            }
            fn clear($ec: &Ec<<Self::Bf as HB>::R>, $p: &Pt<<Self::Bf as HB>::R>) -> Pt<<Self::Bf as HB>::R> {
                $clear
            }
            $(fn extra() -> Vec<<<Self::Bf as HB>::R as Fld>::E> { $extra })?
        }
    };
}
suited!(bn256::G1, "BN254G1_XMD:SHA-256_SVDW_RO_", 48, |f| Map::Svdw { z: f.one() }, |_ec, p| p.clone());
suited!(grumpkin::G1, "GRUMPKIN_XMD:SHA-256_SVDW_RO_", 48, |f| Map::Svdw { z: f.one() }, |_ec, p| p.clone());
suited!(secq256k1::Secq256k1, "secq256k1_XMD:SHA-256_SVDW_RO_", 48, |f| Map::Svdw { z: f.one() }, |_ec, p| p.clone());
suited!(pluto_eris::G1, "pluto_XMD:SHA-256_SVDW_RO_", 72, |f| Map::Svdw { z: f.one() }, |_ec, p| p.clone());
suited!(pluto_eris::Eris, "eris_XMD:SHA-256_SVDW_RO_", 72, |f| Map::Svdw { z: f.one() }, |_ec, p| p.clone());
suited!(bn256::G2, "BN254G2_XMD:SHA-256_SVDW_RO_", 48, |f| Map::Svdw { z: f.one() }, |ec, p| bn_g2_clear(ec, p));
suited!(secp256r1::Secp256r1, "P256_XMD:SHA-256_SSWU_RO_", 48, |f| {
    let ec = <secp256r1::Secp256r1 as HC>::ec();
    Map::Sswu { z: f.small(-10), a: ec.a, b: ec.b, iso: None }
}, |_ec, p| p.clone());
suited!(secp256k1::Secp256k1, "secp256k1_XMD:SHA-256_SSWU_RO_", 48, |f| Map::Sswu {
    z: f.small(-11),
    a: f.int(&hx("3f8731abdd661adca08a5558f0f5d272e953d363cb6f0e5d405447c01a444533")),
    b: f.small(1771),
    iso: Some(iso_of(f, &ISOK)),
}, |_ec, p| p.clone());
suited!(bls12381::G1, "BLS12381G1_XMD:SHA-256_SSWU_RO_", 64, |f| Map::Sswu {
    z: f.small(11),
    a: f.int(&hx("144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d")),
    b: f.int(&hx("12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0")),
    iso: Some(iso_of(f, &ISO11)),
}, |ec, p| ec.mul(&hx("d201000000010001"), p), {
    // the map to the isogenous curve meets the kernel of the isogeny (x1 and x2 cases)
    [
        "1377c0192d99508a317127abf17c64205c7aad448380027efb47ae73ea231dbd6ecd3f2841b63d309c35bb8fd13e48f0",
        "0a2605e5991fcf3e63728a7a1468d79bacaa5f23f3816aadcd38efdd330c6d4f5bbf450f92156e0e23e16e3252bcd042",
        "146850b3bdc2495ed73bb803dfaa951a88abff0acb5c7aeac52b48f3c808e87ce3885b98ce916e17caef21a6cbc6b598",
        "0ec1d2551f80abe70136a7f42e52133ebddf9b619a88147ae422a98e57581f2b0961dc019c74599f12a1b5513649a2e8",
        "0854a3cb180882d5b1efc1c3cc5b3fb33b27cb739f1389986ca46e1c5cb5010d8a06fd781c63074868f316d95b8f8405",
        "0a3bf00221e169b850c5268c3d1edd576732060760bc0c00ed0311dee8588b18130822d3027f8d142802d784ea194fca",
        "0a92437e90bc473049ab549b4c4a145feb4fb5cd39f7ee85c11fa62a8f5317220b398be420ca5d8364d460f6ee1efd29",
        "10683009c00edc5676a3d43b8b5ae8a68e75a32954f6a502e6acc1c11ed49bcaa7c843871e887ce9839920c2ff0f732f",
    ].iter().map(|h| hx(h)).collect()
});
suited!(bls12381::G2, "BLS12381G2_XMD:SHA-256_SSWU_RO_", 64, |f| Map::Sswu {
    z: f.of_coeffs(&[f.chr() - 2u32, f.chr() - 1u32]),
    a: f.of_coeffs(&[BigUint::zero(), 240u32.into()]),
    b: f.of_coeffs(&[1012u32.into(), 1012u32.into()]),
    iso: Some(iso_of(f, &ISO3)),
}, |ec, p| {
    let x = hx("d201000000010000");
    let h: BigUint = (&x * &x - 1u32) * 3u32 * <bls12381::G2 as HC>::cofactor();
    ec.mul(&h, p)
});
/// xP + psi(3xP) + psi^2(xP) + psi^3(P), with psi the untwist-Frobenius-twist map
pub fn bn_g2_clear<F: Fld>(ec: &Ec<F>, p: &Pt<F>) -> Pt<F> {
    let x: BigUint = 0x44e992b44a6909f1u64.into();
    let t = ec.mul(&x, p);
    let t3 = ec.mul(&3u32.into(), &t);
    let s = bn_psi(ec);
    let a = ec.add(&t, &s(&t3));
    let a = ec.add(&a, &s(&s(&t)));
    ec.add(&a, &s(&s(&s(p))))
}
pub fn bn_psi<F: Fld>(ec: &Ec<F>) -> impl Fn(&Pt<F>) -> Pt<F> + '_ {
    let f = &ec.f;
    let p = f.chr();
    let xi = f.of_coeffs(&[9u32.into(), BigUint::one()]);
    let cx = f.pow(&xi, &((&p - 1u32) / 3u32));
    let cy = f.pow(&xi, &((&p - 1u32) / 2u32));
    move |q: &Pt<F>| {
        let (x, y) = q.as_ref()?;
        let conj = |e: &F::E| {
            let c = f.coeffs(e);
            f.sub(&f.of_coeffs(&[c[0].clone(), BigUint::zero()]), &f.of_coeffs(&[BigUint::zero(), c[1].clone()]))
        };
        Some((f.mul(&conj(x), &cx), f.mul(&conj(y), &cy)))
    }
}
pub trait SuitedFn {
    fn call<C: Suited>(&self);
}
pub fn each_suited(f: &impl SuitedFn) {
    f.call::<bn256::G1>();
    f.call::<bn256::G2>();
    f.call::<grumpkin::G1>();
    f.call::<bls12381::G1>();
    f.call::<bls12381::G2>();
    f.call::<pluto_eris::G1>();
    f.call::<pluto_eris::Eris>();
    f.call::<secp256k1::Secp256k1>();
    f.call::<secp256r1::Secp256r1>();
    f.call::<secq256k1::Secq256k1>();
}
