//! C07: published constants satisfy their defining equations.
use ff::PrimeField;
use group::prime::PrimeCurveAffine;
use group::{Curve, Group};
use halo2curves::ff_ext::ExtField;
use halo2curves::{bls12381, bn256, pluto_eris, CurveAffine, CurveExt};
use hv::*;

struct Pf<'a>(&'a Rep);
impl FieldFn for Pf<'_> {
    fn call<F: HF>(&self) {
        let r = self.0;
        r.section(&format!("field:{}", F::NAME), || {
            let p = F::p();
            let b1 = BigUint::one();
            let n = std::cell::Cell::new(0);
            let c = |name: &str, ok: bool, d: String| {
                n.set(n.get() + 1);
                r.tr(1);
                r.check(ok, || format!("{name}:{}", F::NAME), || d);
            };
            c("prime", is_prime(&p), format!("{p:x}"));
            let m = F::MODULUS.trim_start_matches("0x");
            c("MODULUS", BigUint::parse_bytes(m.as_bytes(), 16) == Some(p.clone()), F::MODULUS.into());
            c("NUM_BITS", F::NUM_BITS as u64 == p.bits(), F::NUM_BITS.to_string());
            c("CAPACITY", F::CAPACITY as u64 == p.bits() - 1, F::CAPACITY.to_string());
            let pm = &p - &b1;
            let s = pm.trailing_zeros().unwrap();
            c("S", F::S as u64 == s, F::S.to_string());
            let w = F::ROOT_OF_UNITY.big();
            // every power of two below the order
            let mut x = w.clone();
            for i in 0..s {
                c("ROOT_OF_UNITY", !x.is_one(), format!("{w:x} has order 2^{i}"));
                x = &x * &x % &p;
            }
            c("ROOT_OF_UNITY", x.is_one(), format!("{w:x}^(2^S) = {x:x}"));
            c("ROOT_OF_UNITY_INV", (&w * F::ROOT_OF_UNITY_INV.big() % &p).is_one(), F::ROOT_OF_UNITY_INV.show());
            c("TWO_INV", (F::TWO_INV.big() * 2u32 % &p).is_one(), F::TWO_INV.show());
            let g = F::MULTIPLICATIVE_GENERATOR.big();
            c("GENERATOR", g.modpow(&(&pm >> 1), &p) == pm, format!("{g:x} is a square"));
            let mut t = &pm >> s;
            for q in (3u32..200000).step_by(2) {
                if (&t % q).is_zero() {
                    c("GENERATOR", !g.modpow(&(&pm / q), &p).is_one(), format!("{g:x} is a {q}-th power"));
                    while (&t % q).is_zero() {
                        t /= q;
                    }
                }
            }
            if is_prime(&t) {
                c("GENERATOR", !g.modpow(&(&pm / &t), &p).is_one(), format!("{g:x} is a {t}-th power"));
            }
            let d = F::DELTA.big();
            c("DELTA", d == g.modpow(&(&b1 << s), &p), format!("{d:x} is not generator^(2^S)"));
            let z = F::ZETA.big();
            if (&pm % 3u32).is_zero() {
                c("ZETA", !z.is_one() && z.modpow(&3u32.into(), &p).is_one(), format!("{z:x}"));
            }
            for (name, v) in [("ROOT_OF_UNITY", F::ROOT_OF_UNITY), ("ROOT_OF_UNITY_INV", F::ROOT_OF_UNITY_INV), ("TWO_INV", F::TWO_INV), ("GENERATOR", F::MULTIPLICATIVE_GENERATOR), ("DELTA", F::DELTA), ("ZETA", F::ZETA), ("ONE", F::ONE)] {
                c("reduced", v.raw() < p, format!("{name} {:x}", v.raw()));
            }
            // what the constants promise, through the library's own operations
            let mut v = F::ROOT_OF_UNITY;
            for _ in 0..F::S {
                v = v.square();
            }
            c("use:ROOT_OF_UNITY", v == F::ONE, "root^(2^S) != 1".into());
            c("use:TWO_INV", F::TWO_INV.double() == F::ONE, "".into());
            r.st(n.get());
            r.val(2);
            r.sample(|| format!("2^{s}-th root of unity {w:x}"));
        });
    }
}
/// X^2 - nr irreducible over Fp, and X^6 - xi irreducible over Fp2
struct Nr<'a>(&'a Rep);
impl DodecicFn for Nr<'_> {
    fn call<T: H12>(&self) {
        let r = self.0;
        r.section(&format!("tower:{}", T::NAME), || {
            let k2 = <T::F2 as HT>::ctx();
            let xi_c: Vec<BigUint> = T::F2::NON_RESIDUE.flat().iter().map(|c| c.big()).collect();
            let xi = k2.of_coeffs(&xi_c);
            // as published: the relation the reference arithmetic is built on
            let want = <T::F6 as HT>::ctx();
            let mut v = want.zero();
            let flat = {
                // v^3 in the reference sextic extension
                let mut c = vec![BigUint::zero(); 6];
                c[2] = BigUint::one();
                v = want.of_coeffs(&c);
                want.coeffs(&want.mul(&want.sq(&v), &v))
            };
            let _ = v;
            r.check(flat[..2] == xi_c[..] && flat[2..].iter().all(|c| c.is_zero()), || format!("xi:{}", T::NAME), || format!("{xi_c:x?}"));
            let q1 = k2.size() - 1u32;
            for d in [2u32, 3] {
                r.check(
                    (&q1 % d).is_zero() && k2.pow(&xi, &(&q1 / d)) != k2.one(),
                    || format!("xi{d}:{}", T::NAME),
                    || format!("xi is a {d}-th power, the tower is not a field"),
                );
                r.tr(1);
            }
            // non-residue of the sextic extension is v
            let v6: Vec<BigUint> = T::F6::NON_RESIDUE.flat().iter().map(|c| c.big()).collect();
            r.check(
                v6.iter().enumerate().all(|(i, c)| if i == 2 { c.is_one() } else { c.is_zero() }),
                || format!("v:{}", T::NAME),
                || format!("{v6:x?}"),
            );
            r.tr(2);
            r.st(4);
            r.val(1);
            r.sample(|| format!("xi = {xi_c:x?}"));
        });
    }
}
struct Cu<'a>(&'a Rep);
impl CurveFn for Cu<'_> {
    fn call<C: HC>(&self) {
        let r = self.0;
        r.section(&format!("curve:{}", C::NAME), || {
            let ec = C::ec();
            let n = std::cell::Cell::new(0);
            let c = |name: &str, ok: bool, d: String| {
                n.set(n.get() + 1);
                r.tr(1);
                r.check(ok, || format!("{name}:{}", C::NAME), || d);
            };
            let (a, b) = (ec.a.clone(), ec.b.clone());
            c("a", <C::G as CurveExt>::a().to_r() == a && <C::Aff as CurveAffine>::a().to_r() == a, "published a".into());
            c("b", <C::G as CurveExt>::b().to_r() == b && <C::Aff as CurveAffine>::b().to_r() == b, "published b".into());
            let g = C::gen_r();
            c("oncurve", ec.on(&g) && g.is_some(), format!("{g:?}"));
            for (i, x) in [<C::G as Group>::generator(), C::inh_generator()].iter().enumerate() {
                c("generator", C::proj_r(x).as_ref() == Ok(&g), format!("projective route {i}: {:?}", C::proj_r(x)));
            }
            for (i, x) in [<C::Aff as PrimeCurveAffine>::generator(), C::inh_aff_generator(), <C::G as Group>::generator().to_affine()].iter().enumerate() {
                c("generator", C::aff_r(x) == g, format!("affine route {i}: {:?}", C::aff_r(x)));
            }
            let rr = C::r();
            c("prime", is_prime(&rr), format!("{rr:x}"));
            c("order", ec.mul(&rr, &g).is_none(), format!("{:?}", ec.mul(&rr, &g)));
            // every point sampled here is killed by cofactor * r, which lies in Hasse's interval
            let h = C::cofactor();
            let q = ec.f.size();
            let order = &h * &rr;
            let t = if order > &q + 1u32 { &order - &q - 1u32 } else { &q + 1u32 - &order };
            c("hasse", &t * &t <= &q * 4u32, format!("cofactor {h:x} gives a trace of {t:x}"));
            let mut found = 0;
            let mut i = 0u32;
            while found < 6 {
                i += 1;
                let mut co = vec![BigUint::from(i)];
                co.resize(ec.f.deg(), BigUint::from(i / 2 + 1));
                for p in ec.lift(&ec.f.of_coeffs(&co)).into_iter().take(1) {
                    c("cofactor", ec.mul(&order, &p).is_none(), format!("{p:?} times the order"));
                    found += 1;
                }
            }
            // through the library
            let mut x = <C::G as Group>::identity();
            for i in (0..rr.bits()).rev() {
                x = x.double();
                if rr.bit(i) {
                    x += <C::G as Group>::generator();
                }
            }
            c("use:order", bool::from(x.is_identity()), "r * generator".into());
            c("use:oncurve", bool::from(C::inh_aff_generator().is_on_curve()) && bool::from(C::inh_generator().is_on_curve()), "".into());
            r.st(n.get());
            r.val(2);
            r.sample(|| format!("generator {g:x?}"));
        });
    }
}
/// relations between the fields of different curves
fn cycles(r: &Rep) {
    r.section("cycles", || {
        use halo2curves::{grumpkin, secp256k1, secp256r1, secq256k1};
        fn m<F: PrimeField>() -> &'static str {
            F::MODULUS
        }
        type B<G> = <G as CurveExt>::Base;
        type S<G> = <G as CurveExt>::ScalarExt;
        let e = [
            ("bn-grumpkin", m::<B<bn256::G1>>(), m::<S<grumpkin::G1>>()),
            ("grumpkin-bn", m::<B<grumpkin::G1>>(), m::<S<bn256::G1>>()),
            ("pluto-eris", m::<B<pluto_eris::G1>>(), m::<S<pluto_eris::Eris>>()),
            ("eris-pluto", m::<B<pluto_eris::Eris>>(), m::<S<pluto_eris::G1>>()),
            ("secp-secq", m::<B<secp256k1::Secp256k1>>(), m::<S<secq256k1::Secq256k1>>()),
            ("secq-secp", m::<B<secq256k1::Secq256k1>>(), m::<S<secp256k1::Secp256k1>>()),
            ("bn g1-g2", m::<S<bn256::G1>>(), m::<S<bn256::G2>>()),
            ("bls g1-g2", m::<S<bls12381::G1>>(), m::<S<bls12381::G2>>()),
            ("pluto g1-g2", m::<S<pluto_eris::G1>>(), m::<S<pluto_eris::G2>>()),
            ("r1", m::<S<secp256r1::Secp256r1>>(), "0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"),
        ];
        for (n, a, b) in e {
            r.check(a == b, || format!("cycle:{n}"), || format!("{a} {b}"));
            r.tr(1);
            r.st(1);
        }
        r.sample(|| "base field of bn256 G1 = scalar field of grumpkin".into());
    });
    // the curves' families
    r.section("families", || {
        let b1 = BigUint::one();
        // BN: p = 36x^4+36x^3+24x^2+6x+1, r = p - 6x^2
        let x = BigUint::from(4965661367192848881u64);
        let p = &x.pow(4) * 36u32 + x.pow(3) * 36u32 + x.pow(2) * 24u32 + &x * 6u32 + &b1;
        r.check(p == <bn256::Fq as HF>::p() && &p - x.pow(2) * 6u32 == <bn256::Fr as HF>::p(), || "family:bn".into(), || format!("{p:x}"));
        // BLS12: r = x^4 - x^2 + 1, p = (x-1)^2 r / 3 + x with x = -0xd201000000010000
        let z = BigUint::from(0xd201000000010000u64);
        let rr = z.pow(4) - z.pow(2) + &b1;
        let p = (&z + &b1).pow(2) * &rr / 3u32 - &z;
        r.check(p == <bls12381::Fq as HF>::p() && rr == <bls12381::Fr as HF>::p(), || "family:bls".into(), || format!("{p:x}"));
        // Pluto: BN with x = -(2^110 + 2^60 + 2^39 + 2^35 - 2^31)
        let y: BigUint = (&b1 << 110) + (&b1 << 60) + (&b1 << 39) + (&b1 << 35) - (&b1 << 31);
        let p = &y.pow(4) * 36u32 - y.pow(3) * 36u32 + y.pow(2) * 24u32 - &y * 6u32 + &b1;
        r.check(p == <pluto_eris::Fp as HF>::p() && &p - y.pow(2) * 6u32 == <pluto_eris::Fq as HF>::p(), || "family:pluto".into(), || format!("{p:x}"));
        r.st(3);
        r.tr(6);
        r.sample(|| "bn256: p(x), r(x) at x = 4965661367192848881".into());
    });
}
fn main() {
    run("C07", |r| {
        each_tiny_field(&Pf(r));
        each_odd_field(&Pf(r));
        each_real_field(&Pf(r));
        each_dodecic(&Nr(r));
        each_tiny_curve(&Cu(r));
        each_mid_curve(&Cu(r));
        each_real_curve(&Cu(r));
        cycles(r);
    });
}
