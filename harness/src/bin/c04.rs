//! C04: canonical field encodings.
use ff::PrimeField;
use halo2curves::serde::endian::EndianRepr;
use hv::*;
use std::collections::BTreeSet;

fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn repr<F: PrimeField>(b: &[u8]) -> F::Repr {
    let mut r = F::Repr::default();
    r.as_mut().copy_from_slice(b);
    r
}
/// integers of `n` limbs to present to a decoder
fn integers(p: &BigUint, n: usize, r: &Rep, tiny: bool) -> Vec<BigUint> {
    let b1 = BigUint::one();
    let top: BigUint = &b1 << (64 * n);
    let mut s: BTreeSet<BigUint> = BTreeSet::new();
    let pl = limbs(p, n);
    // limb words over 0, 1, MAX and the modulus' own limbs +-1: every outcome of every
    // limb comparison
    let mut k = if n <= 4 { 6 } else { 3 };
    if !r.quick() {
        k = if n <= 4 { 8 } else { 4 };
    }
    for w in words(k, n) {
        let l: Vec<u64> = w
            .iter()
            .enumerate()
            .map(|(i, c)| [pl[i], pl[i].wrapping_sub(1), pl[i].wrapping_add(1), 0, u64::MAX, 1, 1 << 63, (1 << 63) - 1][*c])
            .collect();
        s.insert(of_limbs(&l));
    }
    for i in 0..64 * n {
        let t = &b1 << i;
        for v in [t.clone(), &t - &b1, p + &t, &t + &b1] {
            s.insert(v);
        }
        if &t < p {
            s.insert(p - &t);
        }
    }
    for d in 0u32..300 {
        s.insert(d.into());
        s.insert(p + d);
        s.insert(p * 2u32 + d);
        s.insert(&top - &b1 - d);
        if p > &d.into() {
            s.insert(p - d);
        }
        if tiny {
            for i in (0..64 * n).step_by(8) {
                s.insert((&b1 << i) + d);
            }
        }
    }
    s.into_iter().filter(|v| v < &top).collect()
}
struct Pf<'a>(&'a Rep);
impl FieldFn for Pf<'_> {
    fn call<F: HF>(&self) {
        let r = self.0;
        r.section(&format!("prime:{}", F::NAME), || {
            let p = F::p();
            let n = F::LIMBS * 8;
            let vs = integers(&p, F::LIMBS, r, F::TINY);
            r.par(vs.len(), |i| {
                let v = &vs[i];
                let le = le_bytes(v, n);
                let mut en = le.clone();
                if F::BE {
                    en.reverse();
                }
                let good = v < &p;
                let key = |n: &str| format!("{n}:{}|{v:x}", F::NAME);
                let want = good.then(|| F::of(v));
                let d = [
                    ("from_repr", guard(|| opt(F::from_repr(repr::<F>(&le))))),
                    ("from_repr_vartime", guard(|| F::from_repr_vartime(repr::<F>(&le)))),
                    ("from_bytes", guard(|| opt(F::of_bytes(&en)))),
                    ("EndianRepr::from_bytes", guard(|| opt(<F as EndianRepr>::from_bytes(&en)))),
                ];
                for (name, g) in d {
                    match g {
                        Err(m) => r.violation(key(name), format!("panics: {m}")),
                        Ok(g) => r.check(
                            g == want && g.map(|g| g.raw() < p).unwrap_or(true),
                            || key(name),
                            || format!("decodes to {:?}", g.map(|g| g.show())),
                        ),
                    }
                }
                if let Some(x) = want {
                    r.check(x.to_repr().as_ref() == &le[..], || key("to_repr"), || hexs(x.to_repr().as_ref()));
                    r.check(x.bytes() == en, || key("to_bytes"), || hexs(&x.bytes()));
                    r.check(EndianRepr::to_bytes(&x) == en, || key("EndianRepr::to_bytes"), || hexs(&EndianRepr::to_bytes(&x)));
                    r.val(1);
                    r.tr(3);
                }
                r.tr(4);
                r.st(1);
                r.outcome(if good { "accepted" } else { "rejected" }, 1);
            });
            r.sample(|| format!("decode {:x}", vs[vs.len() - 1]));
            r.sample(|| format!("decode p = {p:x}"));
        });
    }
}
struct Qf<'a>(&'a Rep);
impl QuadFn for Qf<'_> {
    fn call<T: HT + HB>(&self) {
        let r = self.0;
        r.section(&format!("quadratic:{}", <T as HT>::NAME), || {
            type B<T> = <T as HT>::Base;
            let p = <B<T> as HF>::p();
            let nl = <B<T> as HF>::LIMBS;
            let n = nl * 8;
            let b1 = BigUint::one();
            let top: BigUint = &b1 << (64 * nl);
            let mut vs: BTreeSet<BigUint> = [0u32, 1, 2, 3].iter().map(|v| BigUint::from(*v)).collect();
            vs.extend([&p - &b1, p.clone(), &p + &b1, &p * 2u32, &top - &b1, &b1 << 64, (&top >> 1)]);
            if T::TINY {
                vs.extend((0u32..(u(&p) as u32 + 2)).map(BigUint::from));
            } else {
                vs.extend(letters::<B<T>>());
                let pl = limbs(&p, nl);
                for i in 0..nl {
                    for c in [0, u64::MAX, pl[i].wrapping_add(1), pl[i].wrapping_sub(1)] {
                        let mut l = pl.clone();
                        l[i] = c;
                        vs.insert(of_limbs(&l));
                    }
                }
                for i in (0..64 * nl).step_by(r.pick(16, 4)) {
                    vs.insert(&b1 << i);
                    vs.insert(&p + (&b1 << i));
                }
            }
            let vs: Vec<BigUint> = vs.into_iter().filter(|v| v < &top).collect();
            r.par(vs.len(), |i| {
                for w in &vs {
                    let v = [&vs[i], w];
                    let mut le = vec![];
                    let mut en = vec![];
                    for c in v {
                        let b = le_bytes(c, n);
                        le.extend_from_slice(&b);
                        if <T as HB>::big_endian() {
                            en.extend(b.iter().rev());
                        } else {
                            en.extend_from_slice(&b);
                        }
                    }
                    let good = v.iter().all(|c| *c < &p);
                    let key = |n: &str| format!("{n}:{}|{:x},{:x}", <T as HT>::NAME, v[0], v[1]);
                    let want = good.then(|| T::of_flat(&[<B<T> as HF>::of(v[0]), <B<T> as HF>::of(v[1])]));
                    let d = [
                        ("from_repr", guard(|| opt(T::from_repr(repr::<T>(&le))))),
                        ("from_repr_vartime", guard(|| T::from_repr_vartime(repr::<T>(&le)))),
                        ("from_bytes", guard(|| opt(T::of_ebytes(&en)))),
                    ];
                    for (name, g) in d {
                        match g {
                            Err(m) => r.violation(key(name), format!("panics: {m}")),
                            Ok(g) => r.check(g == want, || key(name), || format!("decodes to {:?}", g.map(|g| g.show()))),
                        }
                    }
                    if let Some(x) = want {
                        r.check(x.to_repr().as_ref() == &le[..], || key("to_repr"), || hexs(x.to_repr().as_ref()));
                        r.check(x.ebytes() == en, || key("to_bytes"), || hexs(&x.ebytes()));
                        r.val(1);
                        r.tr(2);
                    }
                    r.tr(3);
                    r.st(1);
                    r.outcome(if good { "accepted" } else { "rejected" }, 1);
                }
            });
            r.sample(|| format!("decode ({:x}, {:x})", vs[vs.len() - 1], vs[1]));
        });
    }
}
fn main() {
    run("C04", |r| {
        each_tiny_field(&Pf(r));
        each_odd_field(&Pf(r));
        each_real_field(&Pf(r));
        each_quad(&Qf(r));
    });
}
