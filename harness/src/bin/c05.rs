//! C05: integer and byte-string conversions reduce modulo p.
use ff::{Field, FromUniformBytes, PrimeField};
use halo2curves::ff_ext::quadratic::QuadExtField;
use halo2curves::{bls12381, bn256, pluto_eris};
use hv::*;
use std::collections::BTreeSet;

fn eq<F: HF>(r: &Rep, name: &str, g: &F, v: &BigUint, p: &BigUint) {
    let w = v % p;
    r.tr(1);
    r.check(
        *g == F::of(&w) && &g.raw() < p,
        || format!("{name}:{}|{v:x}", F::NAME),
        || format!("gives {:x} (raw {:x}), not {w:x}", g.big(), g.raw()),
    );
}
/// byte strings of the given length read as little-endian integers
fn strings(p: &BigUint, n: usize, k: usize, dense: bool) -> Vec<Vec<u8>> {
    let b1 = BigUint::one();
    let top: BigUint = &b1 << (8 * n);
    let mut s: BTreeSet<BigUint> = Default::default();
    let chunks = n.div_ceil(8);
    for w in words(k, chunks.min(if dense { 14 } else { 9 })) {
        let mut l: Vec<u64> = w.iter().map(|i| [u64::MAX, 0, 1, 1 << 63][*i]).collect();
        l.resize(chunks, l[0]);
        s.insert(of_limbs(&l) % &top);
    }
    // multiples of p around every shift
    for i in 0..(8 * n) {
        let t = p << i;
        for v in [t.clone(), &t + &b1, &t - &b1, &b1 << i, (&b1 << (i + 1)) - &b1, &top - (&b1 << i)] {
            s.insert(v % &top);
        }
    }
    let q = &top / p;
    for d in 0u32..64 {
        for v in [&top - &b1 - d, &q * p + d, BigUint::from(d), p + d] {
            s.insert(v % &top);
        }
    }
    for w in [8 * 8, 8 * 16, 8 * 24, 8 * 32, 8 * 48, 8 * 56] {
        // split points of the wide reduction: low part and high part at their extremes
        let lo: BigUint = (&b1 << w) - &b1;
        for hi in [BigUint::zero(), b1.clone(), p - &b1, p.clone(), p + &b1] {
            for lo in [BigUint::zero(), b1.clone(), lo.clone(), &lo - &b1, p % &lo] {
                s.insert(((&hi << w) + lo) % &top);
            }
        }
    }
    s.into_iter().map(|v| le_bytes(&v, n)).collect()
}
struct Ints<'a>(&'a Rep);
impl FieldFn for Ints<'_> {
    fn call<F: HF>(&self) {
        let r = self.0;
        let p = F::p();
        let b1 = BigUint::one();
        r.section(&format!("integers:{}", F::NAME), || {
            eq::<F>(r, "bool", &F::from(0u64), &BigUint::zero(), &p);
            // every value the small-integer table may serve, and its surroundings
            r.par(80, |i| {
                for v in (i as u64 * 1024)..((i as u64 + 1) * 1024) {
                    eq::<F>(r, "u64", &F::from(v), &v.into(), &p);
                    r.st(1);
                }
            });
            let mut us: BTreeSet<u128> = (0..300).collect();
            for i in 0..128 {
                for j in 0..=i {
                    us.insert((1 << i) ^ (1 << j));
                    us.insert((1u128 << i).wrapping_sub(1 << j));
                    us.insert(u128::MAX - ((1 << i) ^ (1 << j)));
                }
            }
            for k in 1u32..200 {
                for d in [0u32, 1] {
                    if let Ok(v) = u128::try_from(&(&p * k + d)) {
                        us.insert(v);
                        us.insert(v - 1);
                    }
                }
            }
            for v in us {
                r.st(1);
                if v >> 64 == 0 {
                    eq::<F>(r, "u64", &F::from(v as u64), &v.into(), &p);
                }
                eq::<F>(r, "u128", &F::from_u128(v), &v.into(), &p);
            }
            eq::<F>(r, "zero", &F::ZERO, &BigUint::zero(), &p);
            eq::<F>(r, "one", &F::ONE, &b1, &p);
            eq::<F>(r, "zero()", &F::inh_zero(), &BigUint::zero(), &p);
            eq::<F>(r, "one()", &F::inh_one(), &b1, &p);
            r.check(F::default() == F::ZERO, || format!("default:{}", F::NAME), || "not zero".into());
            r.sample(|| "u64 0..81920, u128 with at most two set or cleared bits".into());
        });
        r.section(&format!("limbs:{}", F::NAME), || {
            let n = F::LIMBS;
            let mut vs: BTreeSet<BigUint> = Default::default();
            let pl = limbs(&p, n);
            for w in words(if n <= 4 { 7 } else { r.pick(3, 4) }, n) {
                let l: Vec<u64> = w
                    .iter()
                    .enumerate()
                    .map(|(i, c)| [pl[i], 0, u64::MAX, 1, pl[i].wrapping_sub(1), pl[i].wrapping_add(1), 1 << 63][*c])
                    .collect();
                vs.insert(of_limbs(&l));
            }
            vs.extend(alphabet(&p, n, &[0, u64::MAX]));
            let top: BigUint = &b1 << (64 * n);
            for k in 0u32..20 {
                for d in 0u32..3 {
                    vs.insert((&p * k + d) % &top);
                    vs.insert((&top - &b1 - d - k) % &top);
                }
            }
            for i in 0..64 * n {
                vs.insert(&b1 << i);
            }
            let vs: Vec<BigUint> = vs.into_iter().collect();
            r.par(vs.len(), |i| {
                eq::<F>(r, "from_raw", &F::from_limbs(&limbs(&vs[i], n)), &vs[i], &p);
                r.st(1);
            });
            r.sample(|| format!("from_raw({:x})", vs[vs.len() - 1]));
        });
        r.section(&format!("decimal:{}", F::NAME), || {
            let mut v: Vec<BigUint> = (0u32..130).map(BigUint::from).collect();
            for d in 0u32..3 {
                v.extend([&p - 1u32 - d, &p + d, &p * &p + d, (&b1 << 64) + d, (&b1 << (64 * F::LIMBS)) - 1u32 - d]);
            }
            for i in 1..160 {
                v.push(BigUint::from(10u32).pow(i));
                v.push(BigUint::from(10u32).pow(i) - 1u32);
            }
            for x in v {
                let s = x.to_str_radix(10);
                match F::from_str_vartime(&s) {
                    Some(g) => eq::<F>(r, "decimal", &g, &x, &p),
                    None => r.violation(format!("decimal:{}|{s}", F::NAME), "rejected"),
                }
                r.st(1);
            }
            // strings that are not decimal integers, over a small alphabet
            for n in 0..=r.pick(3, 4) {
                for w in words(8, n) {
                    let s: String = w.iter().map(|i| ['0', '1', '9', 'a', '-', '+', ' ', '\u{0663}'][*i]).collect();
                    let ok = s == "0" || (!s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) && !s.starts_with('0'));
                    let g = F::from_str_vartime(&s);
                    r.tr(1);
                    r.st(1);
                    match g {
                        Some(g) if ok => eq::<F>(r, "decimal", &g, &s.parse().unwrap(), &p),
                        None if !ok => {}
                        g => r.violation(format!("decimal:{}|{s}", F::NAME), format!("{:?}", g.map(|g| g.show()))),
                    }
                }
            }
            r.sample(|| "\"19\", \"01\", \"-1\", p, p^2+2".into());
        });
        r.section(&format!("wide:{}", F::NAME), || {
            for &n in F::UNIFORM {
                let ss = strings(&p, n, 2, n <= 96 || !r.quick());
                r.par(ss.len(), |i| {
                    let v = BigUint::from_bytes_le(&ss[i]);
                    eq::<F>(r, &format!("uniform{n}"), &F::uniform(&ss[i]).unwrap(), &v, &p);
                    r.st(1);
                });
                if n <= 32 * F::LIMBS {
                    let ss = strings(&p, n, r.pick(3, 4), false);
                    r.par(ss.len(), |i| {
                        let v = BigUint::from_bytes_le(&ss[i]);
                        eq::<F>(r, &format!("uniform{n}"), &F::uniform(&ss[i]).unwrap(), &v, &p);
                        r.st(1);
                    });
                }
                r.sample(|| format!("{n}-byte string {:x}", BigUint::from_bytes_le(&ss[ss.len() - 1])));
            }
        });
        r.section(&format!("random:{}", F::NAME), || {
            let ss = strings(&p, F::LIMBS * 16, 2, false);
            r.par(ss.len(), |i| {
                let mut t = Tape::new(&ss[i], 0xa5);
                let g = F::random(&mut t);
                let v = BigUint::from_bytes_le(&t.used());
                eq::<F>(r, "random", &g, &v, &p);
                // a draw is wide enough to be close to uniform
                r.check(t.pos * 8 >= p.bits() as usize + 64, || format!("randomwidth:{}|{}", F::NAME, t.pos), || "too few bytes".into());
                r.val(1);
                r.st(1);
            });
        });
    }
}
fn quad<B: HF + HB, const N: usize>(r: &Rep, name: &str)
where
    QuadExtField<B>: HT<Base = B> + FromUniformBytes<N> + From<u64> + Field,
{
    r.section(&format!("quadratic:{name}"), || {
        let p = <B as HF>::p();
        let check = |n: &str, k: &dyn Fn() -> String, g: QuadExtField<B>, a: BigUint, b: BigUint| {
            r.tr(1);
            r.st(1);
            r.check(
                g == QuadExtField::<B>::of_flat(&[B::of(&(a % &p)), B::of(&(b % &p))]),
                || format!("{n}:{name}|{}", k()),
                || g.show(),
            );
        };
        for v in (0..70000u64).chain((0..64).flat_map(|i| [1 << i, (1 << i) - 1, u64::MAX - (1 << i)])) {
            check("u64", &|| v.to_string(), QuadExtField::<B>::from(v), v.into(), BigUint::zero());
        }
        // halves from a list of wide strings: c0 is the second half, c1 the first
        let h = N / 2;
        let ss = strings(&p, h, 2, false);
        let st = (ss.len() / r.pick(120, 500)).max(1);
        let ss: Vec<Vec<u8>> = ss.into_iter().step_by(st).collect();
        r.par(ss.len(), |i| {
            for b in &ss {
                let mut x = [0u8; N];
                x[..h].copy_from_slice(&ss[i]);
                x[h..].copy_from_slice(b);
                let g = QuadExtField::<B>::from_uniform_bytes(&x);
                check("uniform", &|| format!("{:x?}", &x[..]), g, BigUint::from_bytes_le(b), BigUint::from_bytes_le(&ss[i]));
            }
        });
        // random: the two components are independent draws
        let n = <B as HF>::LIMBS * 16;
        let ss = strings(&p, n, 2, false);
        let st = (ss.len() / 60).max(1);
        let ss: Vec<Vec<u8>> = ss.into_iter().step_by(st).collect();
        for a in &ss {
            for b in &ss {
                let mut t = Tape::new(&[a.clone(), b.clone()].concat(), 0xa5);
                let g = QuadExtField::<B>::random(&mut t);
                check("random", &|| format!("{:x?}{:x?}", a, b), g, BigUint::from_bytes_le(a), BigUint::from_bytes_le(b));
                r.check(t.pos == 2 * n, || format!("randomwidth:{name}"), || format!("{} bytes", t.pos));
                r.val(1);
            }
        }
        r.sample(|| format!("two {h}-byte halves, e.g. {:x?}", ss[ss.len() - 1]));
    });
}
fn bools(r: &Rep) {
    r.section("bool", || {
        macro_rules! b {
            ($($t:ty),*) => {$(
                for v in [false, true] {
                    let p = <$t as HF>::p();
                    eq::<$t>(r, "bool", &<$t>::from(v), &BigUint::from(v as u32), &p);
                    r.st(1);
                }
            )*};
        }
        b!(bn256::Fq, bn256::Fr, bls12381::Fq, bls12381::Fr, pluto_eris::Fp, pluto_eris::Fq,
           halo2curves::secp256k1::Fp, halo2curves::secp256k1::Fq, halo2curves::secp256r1::Fp, halo2curves::secp256r1::Fq);
        r.sample(|| "true, false".into());
    });
}
fn main() {
    run("C05", |r| {
        bools(r);
        each_tiny_field(&Ints(r));
        each_odd_field(&Ints(r));
        each_real_field(&Ints(r));
        #[cfg(feature = "tiny")]
        {
            use halo2curves::verif::*;
            quad::<F7, 96>(r, "F7x2");
            quad::<F31, 96>(r, "F31x2");
            quad::<F97, 96>(r, "F97x2");
        }
        quad::<bn256::Fq, 96>(r, "bn256::Fq2");
        quad::<bls12381::Fq, 128>(r, "bls12381::Fq2");
        quad::<pluto_eris::Fp, 128>(r, "pluto_eris::Fp2");
    });
}
