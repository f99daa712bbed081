//! C06: views of an element agree with its integer value.
use ff::{Field, PrimeField};
use hv::*;
use std::hash::{Hash, Hasher};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
/// equality and selection on one pair
fn pair<T: Copy + PartialEq + ConstantTimeEq + ConditionallySelectable>(
    r: &Rep,
    x: T,
    y: T,
    same: bool,
    key: &dyn Fn(&str) -> String,
) {
    r.check((x == y) == same && (x != y) == !same, || key("eq"), || "== or != disagrees".into());
    r.check(bool::from(x.ct_eq(&y)) == same, || key("ct_eq"), || "ct_eq disagrees".into());
    r.check(bool::from(x.ct_ne(&y)) == !same, || key("ct_ne"), || "ct_ne disagrees".into());
    for c in [0u8, 1] {
        let w = [x, y][c as usize];
        let s = T::conditional_select(&x, &y, Choice::from(c));
        let mut a = x;
        a.conditional_assign(&y, Choice::from(c));
        let (mut u, mut v) = (x, y);
        T::conditional_swap(&mut u, &mut v, Choice::from(c));
        let z = [y, x][c as usize];
        r.check(s == w && a == w && u == w && v == z, || key("select"), || format!("choice {c}"));
    }
    r.tr(9);
}
fn unary<F: HF>(r: &Rep, a: &BigUint, p: &BigUint) {
    let x = F::of(a);
    let key = |n: &str| format!("{n}:{}|{a:x}", F::NAME);
    let zero = a.is_zero();
    r.check(bool::from(x.is_zero()) == zero, || key("is_zero"), || "".into());
    r.check(x.is_zero_vartime() == zero, || key("is_zero_vartime"), || "".into());
    r.check(bool::from(x.is_odd()) == a.bit(0), || key("is_odd"), || "".into());
    r.check(bool::from(x.is_even()) == !a.bit(0), || key("is_even"), || "".into());
    // strictly greater than its negation
    let neg = (p - a) % p;
    r.check(x.lex() == (a > &neg), || key("lexicographically_largest"), || format!("{}", x.lex()));
    let bits = x.to_le_bits();
    let n = bits.len();
    let ok = n >= p.bits() as usize && bits.iter().enumerate().all(|(i, b)| *b == a.bit(i as u64));
    r.check(ok, || key("to_le_bits"), || format!("{n} bits"));
    r.tr(6);
    r.st(1);
}
fn bin<F: HF>(r: &Rep, a: &BigUint, b: &BigUint) {
    let (x, y) = (F::of(a), F::of(b));
    let key = |n: &str| format!("{n}:{}|{a:x}|{b:x}", F::NAME);
    pair(r, x, y, a == b, &key);
    let o = a.cmp(b);
    r.check(
        x.cmp(&y) == o && x.partial_cmp(&y) == Some(o) && (x < y) == (a < b) && (x <= y) == (a <= b),
        || key("cmp"),
        || format!("{:?}", x.cmp(&y)),
    );
    r.check((hash(&x) == hash(&y)) == (a == b), || key("hash"), || "".into());
    r.tr(3);
}
struct Pf<'a>(&'a Rep);
impl FieldFn for Pf<'_> {
    fn call<F: HF>(&self) {
        let r = self.0;
        r.section(&format!("prime:{}", F::NAME), || {
            let p = F::p();
            let cb = F::char_le_bits();
            r.check(
                cb.iter().enumerate().all(|(i, b)| *b == p.bit(i as u64)) && cb.len() as u64 >= p.bits(),
                || format!("char_le_bits:{}", F::NAME),
                || format!("{cb:?}"),
            );
            if F::TINY {
                let n = u(&p) as usize;
                r.par(n, |i| {
                    unary::<F>(r, &i.into(), &p);
                    for j in 0..n {
                        bin::<F>(r, &i.into(), &j.into());
                    }
                });
                r.val(n * n);
            } else {
                let al = alphabet(&p, F::LIMBS, if F::LIMBS > 4 { &[0, u64::MAX] } else { &[0, 1, 1 << 63, u64::MAX] });
                let st = if r.quick() { 1 + al.len() / 400 } else { 1 };
                r.par(al.len(), |i| {
                    unary::<F>(r, &al[i], &p);
                    for b in al.iter().skip(i % st).step_by(st) {
                        bin::<F>(r, &al[i], b);
                    }
                    // neighbours differing in one limb, one bit
                    for j in 0..64 * F::LIMBS {
                        let mut b = al[i].clone();
                        b.set_bit(j as u64, !b.bit(j as u64));
                        if b < p {
                            bin::<F>(r, &al[i], &b);
                        }
                    }
                });
                r.val(al.len());
                let b1 = BigUint::one();
                for i in 0..p.bits() {
                    for j in 0..=i {
                        let v = (&b1 << i) ^ (&b1 << j);
                        unary::<F>(r, &(&v % &p), &p);
                        unary::<F>(r, &(&p - &v % &p - 1u32), &p);
                        unary::<F>(r, &F::of_raw(&(v % &p)).big(), &p);
                    }
                }
            }
            r.sample(|| "((p-1)/2, (p+1)/2)".into());
        });
    }
}
struct Tow<'a>(&'a Rep);
impl TowerFn for Tow<'_> {
    fn call<T: HT>(&self) {
        let r = self.0;
        r.section(&format!("tower:{}", T::NAME), || {
            let k = T::ctx();
            let el: Vec<Elem<T>> = if T::TINY && T::deg() == 2 {
                all_elems(&k)
            } else {
                tower_alphabet::<T>(&letters::<T::Base>(), r.pick(70, 600))
            };
            let cap = el.len().min(r.pick(120, 1500));
            let st = (el.len() / cap).max(1);
            r.par(el.len(), |i| {
                let x = T::of_e(&el[i]);
                let z = k.is_zero(&el[i]);
                let key = |n: &str| format!("{n}:{}|{}", T::NAME, x.show());
                r.check(bool::from(x.is_zero()) == z, || key("is_zero"), || "".into());
                r.check(x.is_zero_vartime() == z, || key("is_zero_vartime"), || "".into());
                r.tr(2);
                r.st(1);
                for e in el.iter().skip(i % st).step_by(st) {
                    let y = T::of_e(e);
                    pair(r, x, y, el[i] == *e, &|n| format!("{n}:{}|{}|{}", T::NAME, x.show(), y.show()));
                }
                pair(r, x, x, true, &|n| format!("{n}:{}|{}|same", T::NAME, x.show()));
                // elements differing in a single coefficient
                for c in 0..T::deg() {
                    let mut f = x.flat();
                    f[c] += <T::Base as Field>::ONE;
                    let y = T::of_flat(&f);
                    pair(r, x, y, false, &|n| format!("{n}:{}|{}|{}", T::NAME, x.show(), y.show()));
                }
                r.val(1);
            });
            r.check(
                T::inh_consts() == [T::ZERO, T::ONE] && T::ZERO.to_e() == k.zero() && T::ONE.to_e() == k.one() && T::default() == T::ZERO,
                || format!("consts:{}", T::NAME),
                || "zero or one".into(),
            );
            r.sample(|| format!("{:?}", el[el.len() / 2]));
        });
    }
}
struct Qf<'a>(&'a Rep);
impl QuadFn for Qf<'_> {
    fn call<T: HT + HB>(&self) {
        let r = self.0;
        r.section(&format!("quadratic order and sign:{}", <T as HT>::NAME), || {
            let k = <T as HT>::ctx();
            let el: Vec<Elem<T>> = if T::TINY {
                all_elems(&k)
            } else {
                tower_alphabet::<T>(&letters::<T::Base>(), r.pick(300, 2000))
            };
            let st = if T::TINY && r.quick() && el.len() > 2000 { 7 } else { 1 };
            r.par(el.len(), |i| {
                let x = T::of_e(&el[i]);
                let key = |n: &str| format!("{n}:{}|{}", <T as HT>::NAME, x.show());
                let big = |e: &Elem<T>| {
                    let c = k.coeffs(e);
                    (c[1].clone(), c[0].clone())
                };
                let s = k.sgn0(&el[i]);
                r.check(bool::from(x.is_odd()) == s, || key("is_odd"), || format!("sgn0 is {s}"));
                r.check(bool::from(x.is_even()) == !s, || key("is_even"), || format!("sgn0 is {s}"));
                let l = big(&el[i]) > big(&k.neg(&el[i]));
                r.check(x.lexi() == l, || key("lexicographically_largest"), || format!("expected {l}"));
                r.tr(3);
                r.st(1);
                for e in el.iter().skip(i % st).step_by(st) {
                    let y = T::of_e(e);
                    let o = big(&el[i]).cmp(&big(e));
                    r.check(
                        x.cmp(&y) == o && x.partial_cmp(&y) == Some(o),
                        || format!("cmp:{}|{}|{}", <T as HT>::NAME, x.show(), y.show()),
                        || format!("expected {o:?}"),
                    );
                    r.tr(1);
                }
                r.val(1);
            });
            r.sample(|| "c1 = (p-1)/2, c0 = 1".into());
        });
    }
}
fn main() {
    run("C06", |r| {
        each_tiny_field(&Pf(r));
        each_odd_field(&Pf(r));
        each_real_field(&Pf(r));
        each_quad(&Qf(r));
        each_tiny_tower(&Tow(r));
        each_real_tower(&Tow(r));
    });
}
