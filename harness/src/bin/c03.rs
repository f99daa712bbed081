//! C03: square roots and quadratic characters.
use ff::{Field, PrimeField};
use halo2curves::ff_ext::jacobi::jacobi;
use halo2curves::ff_ext::Legendre;
use hv::*;

/// Jacobi symbol by the textbook reciprocity algorithm.
fn jac(a: &BigUint, n: &BigUint) -> i64 {
    let (mut a, mut n, mut t) = (a % n, n.clone(), 1);
    while !a.is_zero() {
        let z = a.trailing_zeros().unwrap();
        a >>= z;
        let r = u(&(&n % 8u32));
        if z % 2 == 1 && (r == 3 || r == 5) {
            t = -t;
        }
        std::mem::swap(&mut a, &mut n);
        if u(&(&a % 4u32)) == 3 && u(&(&n % 4u32)) == 3 {
            t = -t;
        }
        a %= &n;
    }
    if n.is_one() {
        t
    } else {
        0
    }
}
fn prime<F: HF>(r: &Rep, a: &BigUint, p: &BigUint) {
    let x = F::of(a);
    let c = jac(a, p);
    let k = |n: &str| format!("{n}:{}|{a:x}", F::NAME);
    let l = x.legendre();
    r.check(l == c, || k("legendre"), || format!("legendre {l}, symbol {c}"));
    r.check(bool::from(x.ct_quadratic_residue()) == (c != -1), || k("residue"), || "predicate".into());
    r.check(bool::from(x.ct_quadratic_non_residue()) == (c == -1), || k("nonresidue"), || "predicate".into());
    match opt(x.sqrt()) {
        None => r.check(c == -1, || k("sqrt"), || "square without root".into()),
        Some(y) => {
            let y = y.big();
            r.check(c != -1 && &(&y * &y % p) == a, || k("sqrt"), || format!("root {y:x}"));
        }
    }
    let (f, y) = x.sqrt_alt();
    check_ratio::<F>(r, a, p, c, bool::from(f), &y, || k("sqrt_alt"));
    r.tr(5);
}
/// the contract of ff for sqrt_ratio, v = num/div
fn check_ratio<F: HF>(r: &Rep, v: &BigUint, p: &BigUint, c: i64, f: bool, y: &F, k: impl FnOnce() -> String) {
    let y = y.big();
    let y2 = &y * &y % p;
    let ok = match c {
        -1 => !f && y2 == v * F::ROOT_OF_UNITY.big() % p,
        _ => f && &y2 == v,
    };
    r.check(ok, k, || format!("({f}, {y:x})"));
}
fn ratio<F: HF>(r: &Rep, n: &BigUint, d: &BigUint, p: &BigUint) {
    let (f, y) = F::sqrt_ratio(&F::of(n), &F::of(d));
    let k = || format!("sqrt_ratio:{}|{n:x}|{d:x}", F::NAME);
    r.tr(1);
    r.val(1);
    if n.is_zero() {
        r.check(bool::from(f) && y == F::ZERO, k, || "num = 0".into());
    } else if d.is_zero() {
        r.check(!bool::from(f) && y == F::ZERO, k, || "div = 0".into());
    } else {
        let v = n * modinv(d, p) % p;
        check_ratio::<F>(r, &v, p, jac(&v, p), bool::from(f), &y, k);
    }
}
struct Tiny<'a>(&'a Rep);
impl FieldFn for Tiny<'_> {
    fn call<F: HF>(&self) {
        let r = self.0;
        r.section(&format!("all:{}", F::NAME), || {
            let p = F::p();
            let n = u(&p) as usize;
            r.par(n, |i| {
                prime::<F>(r, &i.into(), &p);
                for j in 0..n {
                    ratio::<F>(r, &i.into(), &j.into(), &p);
                }
                r.st(n);
            });
            r.sample(|| format!("sqrt_ratio of all {n}^2 pairs"));
        });
    }
}
struct Real<'a>(&'a Rep);
impl FieldFn for Real<'_> {
    fn call<F: HF>(&self) {
        let r = self.0;
        r.section(&format!("patterns:{}", F::NAME), || {
            let p = F::p();
            let mut al = alphabet(&p, F::LIMBS, if F::LIMBS > 4 { &[0, u64::MAX] } else { &[0, 1, 1 << 63, u64::MAX] });
            if r.quick() {
                al = al.into_iter().step_by(2).collect();
            }
            // squares and non-squares alike
            let g = F::ROOT_OF_UNITY.big();
            r.par(al.len(), |i| {
                let a = &al[i];
                let s = a * a % &p;
                prime::<F>(r, a, &p);
                prime::<F>(r, &s, &p);
                prime::<F>(r, &(&s * &g % &p), &p);
                r.st(3);
            });
            let l = letters::<F>();
            let st = (al.len() / 12).max(1);
            let mut ds: Vec<BigUint> = l.clone();
            ds.extend(al.iter().step_by(st).cloned());
            r.par(ds.len(), |i| {
                for d in &ds {
                    ratio::<F>(r, &ds[i], d, &p);
                }
                r.st(ds.len());
            });
            r.sample(|| format!("sqrt_ratio({:x}, {:x})", ds[3], ds[ds.len() - 1]));
        });
        r.section(&format!("two-power torsion:{}", F::NAME), || {
            // the loop of Tonelli-Shanks depends only on the 2-part of the argument: enumerate
            // exponents of the 2^S-th root of unity, times odd-order parts
            let p = F::p();
            let s = F::S as usize;
            let g = F::ROOT_OF_UNITY.big();
            let mut es: std::collections::BTreeSet<u64> = (0..r.pick(64u64, 1024)).collect();
            for i in 0..s.min(63) {
                for j in 0..=i {
                    es.insert((1 << i) | (1 << j));
                    es.insert((1u64 << (i + 1)).wrapping_sub(1 << j));
                }
            }
            if s <= 16 {
                es.extend(0..(1u64 << s));
            }
            let es: Vec<u64> = es.into_iter().filter(|e| s >= 64 || e >> s == 0).collect();
            let t = (&p - BigUint::one()) >> s;
            let odd: Vec<BigUint> = [1u32, 2, 3, 5].iter().map(|b| BigUint::from(*b).modpow(&(BigUint::one() << s), &p)).collect();
            let _ = t;
            r.par(es.len(), |i| {
                let w = g.modpow(&es[i].into(), &p);
                for o in &odd {
                    prime::<F>(r, &(&w * o % &p), &p);
                    r.st(1);
                }
            });
            r.sample(|| format!("sqrt(root^{} * 3^(2^{s}))", es[es.len() - 1]));
        });
    }
}
struct Exh<'a>(&'a Rep);
impl FieldFn for Exh<'_> {
    fn call<F: HF>(&self) {
        let r = self.0;
        r.section(&format!("all elements:{}", F::NAME), || {
            let p = F::p();
            let n = u(&p) as usize;
            r.par(n, |i| {
                prime::<F>(r, &i.into(), &p);
                r.st(1);
            });
        });
    }
}
struct Quad<'a>(&'a Rep);
impl QuadFn for Quad<'_> {
    fn call<T: HT + HB>(&self) {
        let r = self.0;
        r.section(&format!("quadratic:{}", <T as HT>::NAME), || {
            let k = <T as HT>::ctx();
            let mut el: Vec<Elem<T>> = if T::TINY {
                all_elems(&k)
            } else {
                tower_alphabet::<T>(&letters::<T::Base>(), r.pick(80, 200))
            };
            if !T::TINY {
                let sq: Vec<_> = el.iter().map(|e| k.sq(e)).collect();
                let nr = T::NON_RESIDUE.to_e();
                let ns: Vec<_> = sq.iter().map(|e| k.mul(e, &nr)).collect();
                el.extend(sq);
                el.extend(ns);
            }
            let el: Vec<_> = el.into_iter().collect::<std::collections::BTreeSet<_>>().into_iter().collect();
            r.par(el.len(), |i| {
                let a = &el[i];
                let x = T::of_e(a);
                let c = k.chi(a);
                let key = |n: &str| format!("{n}:{}|{}", <T as HT>::NAME, x.show());
                let l = x.legendre();
                r.check(l == c, || key("legendre"), || format!("legendre {l}, character {c}"));
                r.check(bool::from(x.ct_quadratic_residue()) == (c != -1), || key("residue"), || "predicate".into());
                r.check(bool::from(x.ct_quadratic_non_residue()) == (c == -1), || key("nonresidue"), || "predicate".into());
                match opt(x.sqrt()) {
                    None => r.check(c == -1, || key("sqrt"), || "square without root".into()),
                    Some(y) => {
                        r.val(1);
                        r.check(c != -1 && k.sq(&y.to_e()) == *a, || key("sqrt"), || format!("root {}", y.show()))
                    }
                }
                r.st(1);
                r.tr(4);
            });
            r.sample(|| format!("sqrt of {:?}", el[el.len() / 3]));
        });
    }
}
fn symbols(r: &Rep) {
    r.section("jacobi:all small", || {
        let top = r.pick(512u64, 2048);
        r.par(top as usize / 2, |i| {
            let d = 2 * i as u64 + 1;
            for n in 0..r.pick(1024u64, 4096) {
                let want = jac(&n.into(), &d.into());
                let got = [jacobi::<2>(&[n, 0], &[d, 0]), jacobi::<2>(&[n], &[d]), jacobi::<5>(&[n, 0, 0, 0], &[d, 0, 0, 0])];
                r.check(got == [want; 3], || format!("jacobi:{n}|{d}"), || format!("({n}/{d}) = {want}, got {got:?}"));
                r.tr(3);
            }
            r.st(1024);
        });
        r.sample(|| "(n/d) for all n < 1024 and odd d < 512".into());
    });
    r.section("jacobi:boundary", || {
        fn run<const L: usize>(r: &Rep, w: usize) {
            let b1 = BigUint::one();
            let lim = 64 * L - 31;
            let mut v: std::collections::BTreeSet<BigUint> = Default::default();
            for i in [1, 2, 3, 29, 30, 31, 32, 33, 59, 60, 61, 62, 63, 64, 65, 90, 91, 93, 95, 96, 97, 127, 128, 129, 160, 191, 192, 193, 255, 256, 257, 288, 289, 319, 320, 383, 384, 416, 417, 447, 448] {
                if i >= lim {
                    continue;
                }
                let t = &b1 << i;
                for c in [&t - &b1, t.clone(), &t + &b1, &t + BigUint::from(5u32), &t * BigUint::from(3u32)] {
                    v.insert(c);
                }
            }
            for ww in words(3, w) {
                let l: Vec<u64> = ww.iter().map(|i| [0, 1, u64::MAX][*i]).collect();
                v.insert(of_limbs(&l));
                v.insert(of_limbs(&l) + 2u32);
            }
            v.insert((&b1 << lim) - &b1);
            v.insert((&b1 << lim) - BigUint::from(3u32));
            v.insert(BigUint::from(15u32) * ((&b1 << (lim / 2)) - &b1));
            let v: Vec<BigUint> = v.into_iter().filter(|x| (x.bits() as usize) <= lim).collect();
            let st = if r.quick() { (v.len() / 150).max(1) } else { 1 };
            r.par(v.len(), |i| {
                let d = &v[i];
                if !d.bit(0) {
                    return;
                }
                for n in v.iter().skip(i % st).step_by(st) {
                    let want = jac(n, d);
                    let got = jacobi::<L>(&limbs(n, L), &limbs(d, L));
                    r.check(got == want, || format!("jacobi{L}:{n:x}|{d:x}"), || format!("symbol {want}, got {got}"));
                    r.tr(1);
                    r.st(1);
                }
            });
        }
        run::<2>(r, 1);
        run::<3>(r, 2);
        run::<4>(r, 3);
        run::<5>(r, 4);
        run::<7>(r, 6);
        run::<8>(r, r.pick(5, 6));
        r.sample(|| "((2^289-1) / (2^160+1))".into());
    });
}
fn main() {
    run("C03", |r| {
        symbols(r);
        each_tiny_field(&Tiny(r));
        #[cfg(feature = "tiny")]
        Exh(r).call::<halo2curves::verif::F65537>();
        each_odd_field(&Real(r));
        each_real_field(&Real(r));
        each_quad(&Quad(r));
    });
}
