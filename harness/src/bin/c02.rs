//! C02: inversion.
use ff::Field;
use halo2curves::ff_ext::inverse::BYInverter;
use hv::*;

fn one<F: HF>(r: &Rep, a: &BigUint, p: &BigUint) {
    let x = F::of(a);
    let i = opt(x.invert());
    r.tr(1);
    match i {
        None => r.check(a.is_zero(), || format!("none:{}|{a:x}", F::NAME), || "nonzero element has no inverse".into()),
        Some(y) => {
            let ok = !a.is_zero() && (a * y.big() % p).is_one() && &y.raw() < p;
            r.check(ok, || format!("inv:{}|{a:x}", F::NAME), || format!("inverse of {a:x} given as {:x}", y.big()));
            if !a.is_zero() {
                r.val(1);
                r.check(x * y == F::ONE, || format!("one:{}|{a:x}", F::NAME), || "x * 1/x != 1".into());
            }
        }
    }
}
struct Tiny<'a>(&'a Rep);
impl FieldFn for Tiny<'_> {
    fn call<F: HF>(&self) {
        let r = self.0;
        r.section(&format!("all:{}", F::NAME), || {
            let p = F::p();
            for i in 0..u(&p) {
                one::<F>(r, &i.into(), &p);
                r.st(1);
            }
            r.sample(|| format!("1/{}", u(&p) - 1));
        });
    }
}
struct Real<'a>(&'a Rep);
impl FieldFn for Real<'_> {
    fn call<F: HF>(&self) {
        let r = self.0;
        r.section(&format!("patterns:{}", F::NAME), || {
            let p = F::p();
            let al = alphabet(&p, F::LIMBS, if F::LIMBS > 4 && r.quick() { &[0, u64::MAX] } else { &[0, 1, 1 << 63, u64::MAX] });
            r.par(al.len(), |i| {
                one::<F>(r, &al[i], &p);
                r.st(1);
            });
            let nb = 64 * F::LIMBS;
            let b1 = BigUint::one();
            // i and j range over all positions (thorough) or over the positions next to the
            // 31/32/62/64-bit boundaries of the algorithms (quick)
            let pos: Vec<usize> = (0..nb)
                .filter(|i| !r.quick() || [62, 64, 31, 30].iter().any(|m| i % m < 1 || i % m == m - 1) || *i < 4)
                .collect();
            r.par(pos.len(), |k| {
                let i = pos[k];
                for j in &pos {
                    if *j > i {
                        break;
                    }
                    for v in [(&b1 << i) ^ (&b1 << *j), (&b1 << (i + 1)) - (&b1 << *j)] {
                        let v = v % &p;
                        one::<F>(r, &v, &p);
                        one::<F>(r, &F::of_raw(&v).big(), &p);
                        one::<F>(r, &((&p - &v) % &p), &p);
                        r.st(3);
                    }
                }
            });
            r.sample(|| format!("1/{:x} (limb pattern)", al[al.len() - 1]));
        });
    }
}
struct Tow<'a>(&'a Rep);
impl TowerFn for Tow<'_> {
    fn call<T: HT>(&self) {
        let r = self.0;
        r.section(&format!("tower:{}", T::NAME), || {
            let k = T::ctx();
            let el: Vec<Elem<T>> = if T::TINY && T::deg() <= 6 {
                all_elems(&k)
            } else {
                tower_alphabet::<T>(&letters::<T::Base>(), r.pick(2000, 40000))
            };
            let one = k.one();
            r.par(el.len(), |i| {
                let a = &el[i];
                let x = T::of_e(a);
                let y = opt(x.invert());
                r.st(1);
                r.tr(1);
                let key = || format!("inv:{}|{}", T::NAME, x.show());
                match y {
                    None => r.check(k.is_zero(a), key, || "nonzero element has no inverse".into()),
                    Some(y) => {
                        r.check(!k.is_zero(a) && k.mul(a, &y.to_e()) == one, key, || format!("wrong inverse {}", y.show()));
                        if !k.is_zero(a) {
                            r.val(1);
                            r.check(x * y == T::ONE, || format!("one:{}|{}", T::NAME, x.show()), || "x * 1/x != 1".into());
                        }
                    }
                }
            });
            r.sample(|| format!("{:?}", el[el.len() / 2]));
        });
    }
}
/// all values below a modulus (or a list of them) against the extended Euclidean oracle
fn by<const L: usize, const S: usize>(r: &Rep, m: &BigUint, vals: &[BigUint]) {
    let lm = limbs(m, S);
    let b1 = BigUint::one();
    for adj in [b1.clone() % m, (&b1 << (64 * S)) % m, (&b1 << (128 * S)) % m, m - &b1] {
        let inv = BYInverter::<L>::new(&lm, &limbs(&adj, S));
        for v in vals {
            let got = inv.invert::<S>(&limbs(v, S));
            r.tr(1);
            let want = v.gcd(m).is_one().then(|| modinv(v, m) * &adj % m);
            let got = got.map(|g| of_limbs(&g));
            r.check(
                got == want,
                || format!("by{L}:{m:x}|{v:x}|{adj:x}"),
                || format!("inverse of {v:x} modulo {m:x} times {adj:x}: {got:x?} instead of {want:x?}"),
            );
        }
    }
}
fn inverter(r: &Rep) {
    r.section("inverter:all small moduli", || {
        let top = r.pick(256u64, 1024);
        r.par(top as usize / 2, |i| {
            let m = BigUint::from(2 * i + 1);
            if i == 0 {
                return;
            }
            let vals: Vec<BigUint> = (0..(2 * i + 1)).map(BigUint::from).collect();
            by::<3, 2>(r, &m, &vals);
            by::<6, 4>(r, &m, &vals[..vals.len().min(60)]);
            r.st(vals.len());
        });
        r.sample(|| "all v < 255 modulo 255".into());
    });
    r.section("inverter:boundary moduli", || {
        fn run<const L: usize, const S: usize>(r: &Rep) {
            let b1 = BigUint::one();
            let lim = &b1 << (62 * L - 64);
            let mut ms: Vec<BigUint> = vec![];
            let bits = (62 * L - 64).min(64 * S);
            for i in [2, 3, 31, 32, 61, 62, 63, 64, 65, 123, 124, 125, 127, 128, 186, 191, 192, 247, 248, 255, 256, 310, 319, 320, 372, 383, 384, 433, 434, 447, 448] {
                if i > bits {
                    continue;
                }
                let t = &b1 << i;
                ms.push(&t - &b1);
                if i < bits {
                    ms.push(&t + &b1);
                }
                ms.push(&t - BigUint::from(3u32));
                ms.push((&t - &b1) / BigUint::from(3u32) | &b1);
            }
            // composites: squares and products
            let c: Vec<BigUint> = ms.clone();
            for x in &c {
                for y in &c {
                    let z = x * y;
                    if z < lim && z.bits() as usize <= bits && ms.len() < 400 {
                        ms.push(z);
                    }
                }
            }
            ms.retain(|m| m > &b1 && m <= &lim && m.bit(0) && m.bits() as usize <= 64 * S);
            ms.sort();
            ms.dedup();
            r.par(ms.len(), |k| {
                let m = &ms[k];
                let mut v: std::collections::BTreeSet<BigUint> = (0u32..6).map(|i| BigUint::from(i) % m).collect();
                for i in 0..m.bits() {
                    if r.quick() && i % 3 != 0 {
                        continue;
                    }
                    let t: BigUint = &b1 << i;
                    for x in [t.clone(), &t - &b1, m - &t % m, m / (&t + &b1)] {
                        v.insert(x % m);
                    }
                }
                for d in &ms {
                    // values sharing factors with the modulus
                    if d < m && (m % d).is_zero() {
                        v.insert(d.clone());
                        v.insert(m - d);
                        v.insert(m / d);
                    }
                }
                let v: Vec<BigUint> = v.into_iter().collect();
                by::<L, S>(r, m, &v);
                r.st(v.len());
            });
        }
        run::<2, 1>(r);
        run::<3, 2>(r);
        run::<4, 3>(r);
        run::<6, 4>(r);
        run::<8, 6>(r);
        run::<9, 7>(r);
        r.sample(|| "1/(2^63-1) modulo (2^62-1)(2^61-1)".into());
    });
}
fn main() {
    run("C02", |r| {
        inverter(r);
        each_tiny_field(&Tiny(r));
        each_odd_field(&Real(r));
        each_real_field(&Real(r));
        each_tiny_tower(&Tow(r));
        each_real_tower(&Tow(r));
    });
}
