//! C08: extension-field arithmetic against schoolbook polynomial arithmetic.
use ff::Field;
use hv::*;

fn same<T: HT>(r: &Rep, k: &T::R, got: &[T], want: &Elem<T>, op: &str, args: &dyn Fn() -> String) {
    let w = T::of_e(want);
    for (i, g) in got.iter().enumerate() {
        r.tr(1);
        // decoded independently, so a non-reduced coefficient counts as a different value
        if *g != w || g.flat().iter().any(|c| c.raw() >= <T::Base as HF>::p()) {
            let e = g.to_e();
            r.check(false, || format!("{op}:{}|{}", T::NAME, args()), || format!("route {i}: {op} of {} = {:?} instead of {want:?}", args(), k.coeffs(&e)));
        }
    }
}
fn unary<T: HT>(r: &Rep, k: &T::R, a: &Elem<T>) {
    let x = T::of_e(a);
    let [sq, dbl, neg] = T::unary(&x);
    let arg = || x.show();
    r.st(1);
    r.check(x.to_e() == *a, || format!("embed:{}|{}", T::NAME, x.show()), || "coordinates do not round-trip".into());
    let a2 = k.sq(a);
    same::<T>(r, k, &sq, &a2, "square", &arg);
    same::<T>(r, k, &dbl, &k.add(a, a), "double", &arg);
    same::<T>(r, k, &neg, &k.neg(a), "neg", &arg);
    same::<T>(r, k, &[x.cube()], &k.mul(&a2, a), "cube", &arg);
    let nr = T::NON_RESIDUE.to_e();
    if T::SHAPE.len() < 3 {
        same::<T>(r, k, &[x.mul_by_nonresidue()], &k.mul(a, &nr), "mul_by_nonresidue", &arg);
    }
    let c = k.coeffs(a);
    let d = T::deg();
    let p = <T::Base as HF>::p();
    if let Some(y) = x.conj() {
        let mut cc = c.clone();
        for v in cc[d / 2..].iter_mut() {
            *v = (&p - &*v) % &p;
        }
        let want = k.of_coeffs(&cc);
        same::<T>(r, k, &[y], &want, "conjugate", &arg);
        // x * conj(x) lies in the field below and is the norm
        let n = k.coeffs(&k.mul(a, &want));
        let got: Vec<BigUint> = x.nrm().unwrap().iter().map(|v| v.big()).collect();
        r.tr(1);
        r.check(
            n[d / 2..].iter().all(|v| v.is_zero()) && got == n[..d / 2],
            || format!("norm:{}|{}", T::NAME, x.show()),
            || format!("norm of {} = {got:?} instead of {n:?}", x.show()),
        );
    }
}
fn binary<T: HT>(r: &Rep, k: &T::R, a: &Elem<T>, b: &Elem<T>) {
    let (x, y) = (T::of_e(a), T::of_e(b));
    let [add, sub, mul] = T::binary(&x, &y);
    let arg = || format!("{}|{}", x.show(), y.show());
    r.st(1);
    same::<T>(r, k, &add, &k.add(a, b), "add", &arg);
    same::<T>(r, k, &sub, &k.sub(a, b), "sub", &arg);
    same::<T>(r, k, &mul, &k.mul(a, b), "mul", &arg);
}
/// sums, products and powers of every word of length 0 to 3 over a few elements
fn folds<T: HT>(r: &Rep, k: &T::R, el: &[Elem<T>]) {
    let long = long_words(el.len(), &[128, 257]);
    for n in 0..=4 {
        let ws: Box<dyn Iterator<Item = Vec<usize>>> = if n > 3 { Box::new(long.iter().cloned()) } else { Box::new(words(el.len(), n)) };
        for w in ws {
            let v: Vec<T> = w.iter().map(|i| T::of_e(&el[*i])).collect();
            let arg = || v.iter().map(|x| x.show()).collect::<Vec<_>>().join("|");
            let s = w.iter().fold(k.zero(), |s, i| k.add(&s, &el[*i]));
            let m = w.iter().fold(k.one(), |s, i| k.mul(&s, &el[*i]));
            r.st(1);
            r.val(1);
            same::<T>(r, k, &[v.iter().sum(), v.iter().copied().sum()], &s, "sum", &arg);
            same::<T>(r, k, &[v.iter().product(), v.iter().copied().product()], &m, "product", &arg);
        }
    }
    for a in el {
        for e in [0u64, 1, 2, 3, 5, 8, 0xffff, 1 << 33, u64::MAX] {
            let x = T::of_e(a);
            let arg = || format!("{}|{e}", x.show());
            let want = k.pow(a, &BigUint::from(e));
            r.st(1);
            same::<T>(r, k, &[x.pow([e]), x.pow_vartime([e]), x.pow_vartime([e, 0])], &want, "pow", &arg);
        }
    }
}
fn mid<T: HT>(n: usize) -> Vec<Elem<T>> {
    let k = T::ctx();
    let l = letters::<T::Base>();
    let d = T::deg();
    let mut v: Vec<Elem<T>> = vec![k.zero(), k.one(), k.of_coeffs(&vec![l[2].clone(); d])];
    for s in 1..n {
        // dense elements with every coefficient different
        v.push(k.of_coeffs(&(0..d).map(|i| &l[(i * s + s) % l.len()] + BigUint::from(i)).map(|c| c % <T::Base as HF>::p()).collect::<Vec<_>>()));
    }
    v
}
/// all vectors with at most two nonzero coordinates, which determine a bilinear map, and
/// boundary letters in them
fn sparse<T: HT>(l: &[BigUint]) -> Vec<Elem<T>> {
    let k = T::ctx();
    let d = T::deg();
    let mut s = std::collections::BTreeSet::new();
    for i in 0..d {
        for j in 0..d {
            for a in l {
                for b in l {
                    let mut c = vec![BigUint::zero(); d];
                    c[i] = a.clone();
                    c[j] = b.clone();
                    s.insert(c);
                }
            }
        }
    }
    s.into_iter().map(|c| k.of_coeffs(&c)).collect()
}
struct Tow<'a>(&'a Rep);
impl TowerFn for Tow<'_> {
    fn call<T: HT>(&self) {
        let r = self.0;
        let k = T::ctx();
        let lt = letters::<T::Base>();
        let tiny = T::TINY && T::deg() <= 6;
        let el: Vec<Elem<T>> = if tiny { all_elems(&k) } else { tower_alphabet::<T>(&lt, r.pick(6000, 60000)) };
        r.section(&format!("unary:{}", T::NAME), || {
            r.par(el.len(), |i| unary::<T>(r, &k, &el[i]));
            r.sample(|| format!("square, double, neg, conj, norm of {:?}", k.coeffs(&el[el.len() - 1])));
        });
        r.section(&format!("binary:{}", T::NAME), || {
            // right operands
            let bs: Vec<Elem<T>> = match T::deg() {
                2 if T::TINY && (el.len() < 1000 || !r.quick()) => el.clone(),
                2 => tower_alphabet::<T>(&lt, r.pick(200, 2000)),
                _ => {
                    let mut v = sparse::<T>(&lt[..if T::deg() == 6 || !r.quick() { 3 } else { 2 }]);
                    v.extend(mid::<T>(r.pick(6, 12)));
                    v
                }
            };
            let asub: Vec<&Elem<T>> = match T::deg() {
                2 => el.iter().collect(),
                _ if r.quick() => {
                    let st = (el.len() * bs.len() / 60_000).max(1);
                    el.iter().step_by(st).collect()
                }
                _ => {
                    let st = (el.len() * bs.len() / 4_000_000).max(1);
                    el.iter().step_by(st).collect()
                }
            };
            r.par(asub.len(), |i| {
                for b in &bs {
                    binary::<T>(r, &k, asub[i], b);
                }
            });
            // a bilinear map is determined by pairs of basis vectors; two-coordinate vectors
            // expose terms that are not bilinear
            if T::deg() > 2 {
                let l = [BigUint::one(), lt[2].clone()];
                let s1: Vec<Elem<T>> = sparse::<T>(&l).into_iter().collect();
                let s2 = &s1;
                let st = if r.quick() && T::deg() == 12 { 3 } else { 1 };
                r.par(s1.len(), |i| {
                    for b in s2.iter().skip(i % st).step_by(st) {
                        binary::<T>(r, &k, &s1[i], b);
                    }
                });
            }
            r.sample(|| format!("all (a, b) in a set of {} x {}", asub.len(), bs.len()));
        });
        r.section(&format!("folds:{}", T::NAME), || {
            folds::<T>(r, &k, &mid::<T>(4));
            r.sample(|| "sum and product of every word of length 0..3, and long words of every length to 72".into());
        });
    }
}
struct Sp<'a>(&'a Rep);
impl DodecicFn for Sp<'_> {
    fn call<T: H12>(&self) {
        let r = self.0;
        r.section(&format!("sparse:{}", T::NAME), || {
            let (k2, k6, k12) = (<T::F2 as HT>::ctx(), <T::F6 as HT>::ctx(), T::ctx());
            let lt = letters::<T::Base>();
            // sparse operands: every pair of coordinates over {0, 1, -1}, a few dense values
            let mut as2 = tower_alphabet::<T::F2>(&lt[..3], 9);
            as2.truncate(r.pick(6, 9));
            as2.extend(mid::<T::F2>(r.pick(2, 4)).into_iter().skip(2));
            let z2 = vec![BigUint::zero(); 2];
            let cf = |e: &Elem<T::F2>| k2.coeffs(e);
            let mut x6 = sparse::<T::F6>(&lt[1..3]);
            x6.extend(mid::<T::F6>(4));
            r.par(x6.len(), |i| {
                let e = &x6[i];
                let x = <T::F6 as HT>::of_e(e);
                for a in &as2 {
                    let la = <T::F2 as HT>::of_e(a);
                    let w = k6.mul(e, &k6.of_coeffs(&[z2.clone(), cf(a), z2.clone()].concat()));
                    r.st(1);
                    same::<T::F6>(r, &k6, &[T::m1(&x, &la)], &w, "mul_by_1", &|| format!("{}|{}", x.show(), la.show()));
                    for b in &as2 {
                        let lb = <T::F2 as HT>::of_e(b);
                        let w = k6.mul(e, &k6.of_coeffs(&[cf(a), cf(b), z2.clone()].concat()));
                        r.st(1);
                        same::<T::F6>(r, &k6, &[T::m01(&x, &la, &lb)], &w, "mul_by_01", &|| format!("{}|{}|{}", x.show(), la.show(), lb.show()));
                    }
                }
            });
            let mut x12 = sparse::<T>(&lt[1..2]);
            if !r.quick() {
                x12 = sparse::<T>(&lt[1..3]);
            }
            x12.extend(mid::<T>(4));
            r.par(x12.len(), |i| {
                let e = &x12[i];
                let x = T::of_e(e);
                for (ia, a) in as2.iter().enumerate() {
                    for (ib, b) in as2.iter().enumerate() {
                        for (ic, c) in as2.iter().enumerate() {
                            if r.quick() && (ia + ib + ic + i) % 3 != 0 {
                                continue;
                            }
                            let l = [a, b, c].map(<T::F2 as HT>::of_e);
                            let arg = || format!("{}|{}|{}|{}", x.show(), l[0].show(), l[1].show(), l[2].show());
                            let z = || z2.clone();
                            let w014 = k12.mul(e, &k12.of_coeffs(&[cf(a), cf(b), z(), z(), cf(c), z()].concat()));
                            let w034 = k12.mul(e, &k12.of_coeffs(&[cf(a), z(), z(), cf(b), cf(c), z()].concat()));
                            r.st(1);
                            same::<T>(r, &k12, &[x.m014(&l[0], &l[1], &l[2])], &w014, "mul_by_014", &arg);
                            same::<T>(r, &k12, &[x.m034(&l[0], &l[1], &l[2])], &w034, "mul_by_034", &arg);
                        }
                    }
                }
            });
            r.sample(|| "x * (a + b v + c v w) and x * (a + b w + c v w) for every a, b, c of the alphabet".into());
        });
    }
}
fn main() {
    run("C08", |r| {
        each_tiny_tower(&Tow(r));
        each_real_tower(&Tow(r));
        each_dodecic(&Sp(r));
    });
}
