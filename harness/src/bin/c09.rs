//! C09: Frobenius maps and the cyclotomic subgroup.
use ff::Field;
use halo2curves::ff_ext::ExtField;
use hv::*;

/// x -> x^p as the linear map it is: the images of the basis
fn frob_basis<T: HT>(k: &T::R) -> Vec<Elem<T>> {
    let p = <T::Base as HF>::p();
    (0..T::deg())
        .map(|i| {
            let mut c = vec![BigUint::zero(); T::deg()];
            c[i] = BigUint::one();
            k.pow(&k.of_coeffs(&c), &p)
        })
        .collect()
}
fn frob<T: HT>(k: &T::R, b: &[Elem<T>], a: &Elem<T>) -> Elem<T> {
    let c = k.coeffs(a);
    c.iter().zip(b).fold(k.zero(), |s, (c, b)| if c.is_zero() { s } else { k.add(&s, &k.mul(&k.int(c), b)) })
}
fn powers(d: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=2 * d + 1).collect();
    v.extend([3 * d, 4 * d + 1, 5 * d + d / 2, 1 << 20, (1 << 32) + 5, usize::MAX - 1, usize::MAX]);
    v
}
struct Tow<'a>(&'a Rep);
impl TowerFn for Tow<'_> {
    fn call<T: HT>(&self) {
        let r = self.0;
        r.section(&format!("frobenius:{}", T::NAME), || {
            let k = T::ctx();
            let d = T::deg();
            let b = frob_basis::<T>(&k);
            let lt = letters::<T::Base>();
            let p = <T::Base as HF>::p();
            let el: Vec<Elem<T>> = if T::TINY && d <= 6 { all_elems(&k) } else { tower_alphabet::<T>(&lt, r.pick(300, 6000)) };
            let st = if T::deg() > 2 && r.quick() { (el.len() / 4000).max(1) } else { 1 };
            let pw = powers(d);
            let n = el.len().div_ceil(st);
            r.par(n, |i| {
                let a = &el[i * st];
                let mut im = vec![a.clone()];
                for j in 1..d {
                    im.push(frob::<T>(&k, &b, &im[j - 1]));
                }
                if i % 97 == 0 {
                    // the linear map is x^p
                    assert!(k.pow(a, &p) == im[1 % d], "reference");
                }
                r.st(1);
                let x = T::of_e(a);
                for e in &pw {
                    let mut y = x;
                    y.frobenius_map(*e);
                    r.tr(1);
                    r.check(
                        y == T::of_e(&im[e % d]),
                        || format!("frob:{}|{e}|{}", T::NAME, x.show()),
                        || format!("frobenius_map({e}) of {} = {} instead of {:?}", x.show(), y.show(), im[e % d]),
                    );
                }
                // histories: applying e then f is applying e + f
                for e in 0..d.min(4) {
                    for f in 0..d {
                        let (mut y, mut z) = (x, x);
                        y.frobenius_map(e);
                        y.frobenius_map(f);
                        z.frobenius_map(e + f);
                        r.tr(1);
                        r.val(1);
                        r.check(y == z, || format!("compose:{}|{e}|{f}|{}", T::NAME, x.show()), || "frobenius maps do not compose".into());
                    }
                }
                if d == 12 || d == 2 {
                    let mut y = x;
                    y.frobenius_map(d / 2);
                    r.tr(1);
                    r.check(x.conj() == Some(y), || format!("conj:{}|{}", T::NAME, x.show()), || "conjugate is not the Frobenius map of half the degree".into());
                }
            });
            r.sample(|| format!("powers {pw:?} of {:?}", k.coeffs(&el[el.len() - 1])));
        });
    }
}
struct Base<'a>(&'a Rep);
impl DodecicFn for Base<'_> {
    fn call<T: H12>(&self) {
        let r = self.0;
        r.section(&format!("cyclotomic:{}", T::NAME), || {
            let k = T::ctx();
            let p = <T::Base as HF>::p();
            let b = frob_basis::<T>(&k);
            let lt = letters::<T::Base>();
            // f^((p^6-1)(p^2+1))
            let easy = |a: &Elem<T>| -> Elem<T> {
                let mut f6 = a.clone();
                for _ in 0..6 {
                    f6 = frob::<T>(&k, &b, &f6);
                }
                let g = k.mul(&f6, &k.inv(a).unwrap());
                let g2 = frob::<T>(&k, &b, &frob::<T>(&k, &b, &g));
                k.mul(&g2, &g)
            };
            let mut set: Vec<Elem<T>> = vec![];
            let phi = p.pow(4) - p.pow(2) + BigUint::one();
            if T::TINY {
                // a generator's powers: the whole subgroup
                let phi = u(&phi);
                for a in tower_alphabet::<T>(&lt, 6000) {
                    if k.is_zero(&a) {
                        continue;
                    }
                    let g = easy(&a);
                    let mut s = vec![k.one()];
                    let mut x = g.clone();
                    while x != k.one() {
                        s.push(x.clone());
                        x = k.mul(&x, &g);
                    }
                    if s.len() as u64 == phi {
                        set = s;
                        break;
                    }
                }
                assert!(set.len() as u64 == phi, "no generator found");
            } else {
                let al: Vec<Elem<T>> = tower_alphabet::<T>(&lt, r.pick(300, 6000)).into_iter().filter(|a| !k.is_zero(a)).collect();
                let st = (al.len() / r.pick(400, 20000)).max(1);
                let out = std::sync::Mutex::new(std::collections::BTreeSet::new());
                let al: Vec<&Elem<T>> = al.iter().step_by(st).collect();
                r.par(al.len(), |i| {
                    let e = easy(al[i]);
                    out.lock().unwrap().insert(e);
                });
                set = out.into_inner().unwrap().into_iter().collect();
            }
            r.par(set.len(), |i| {
                let a = &set[i];
                let x = T::of_e(a);
                let sq = k.sq(a);
                let arg = || x.show();
                r.st(1);
                r.tr(4);
                let c = x.cyc();
                r.check(c == T::of_e(&sq) && c == x.square(), || format!("cyclotomic_square:{}|{}", T::NAME, arg()), || format!("{} instead of {}", c.show(), x.square().show()));
                let y = x.conj().unwrap();
                r.check(y * x == T::ONE && k.mul(&y.to_e(), a) == k.one(), || format!("unitary:{}|{}", T::NAME, arg()), || "conjugate is not the inverse".into());
                // histories: repeated squarings stay in the subgroup and agree
                let (mut s, mut t) = (x, x);
                for n in 0..r.pick(6, 40) {
                    s = s.cyc();
                    t = t.square();
                    r.tr(1);
                    r.check(s == t, || format!("chain:{}|{n}|{}", T::NAME, arg()), || "chains of squarings differ".into());
                }
                r.val(1);
            });
            r.sample(|| format!("{} elements of order dividing p^4-p^2+1", set.len()));
        });
        // the prime field itself: every power of Frobenius is the identity
        r.section(&format!("base:{}", T::NAME), || {
            for l in letters::<T::Base>() {
                let x = <T::Base as HF>::of(&l);
                for e in powers(1) {
                    let v = fr_base::<T>(x, e);
                    r.st(1);
                    r.tr(1);
                    r.check(v == x, || format!("base:{}|{e}|{l:x}", T::NAME), || "Frobenius moves a prime-field element".into());
                }
            }
            r.sample(|| "x^p = x".into());
        });
    }
}
/// the Frobenius map of the prime field, seen through elements of the quadratic extension
fn fr_base<T: H12>(x: <T as HT>::Base, e: usize) -> <T as HT>::Base {
    let mut v = <T::F2 as HT>::of_flat(&[x, <T::Base as Field>::ZERO]);
    v.frobenius_map(e);
    v.flat()[0]
}
fn main() {
    run("C09", |r| {
        each_tiny_tower(&Tow(r));
        each_real_tower(&Tow(r));
        each_dodecic(&Base(r));
    });
}
