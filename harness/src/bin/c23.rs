//! C23: final exponentiation and the target group.
//!
//! Field elements of the big extension are judged by square-and-multiply on the tower's own
//! product (itself decided by C08).
use ff::Field;
use group::Group;
use halo2curves::ff_ext::ExtField;
use hv::*;
use subtle::{ConditionallySelectable, ConstantTimeEq};

/// Elements of the extension with structure: coefficients over a few values, subfields, units,
/// Miller values, elements of the target group and of the cyclotomic subgroup.
fn elements<E: PE>(n: usize, k: usize) -> Vec<(String, E::T)> {
    type B<E> = <<E as PE>::T as HT>::Base;
    let zero = B::<E>::ZERO;
    let p = B::<E>::p();
    let vals: Vec<B<E>> = [1u32.into(), &p - 1u32, 2u32.into(), &p >> 1, BigUint::one() << 64].iter().map(|v| B::<E>::of(v)).collect();
    let mut v: Vec<(String, E::T)> = vec![];
    // one nonzero coefficient
    for i in 0..12 {
        for (j, x) in vals.iter().enumerate().take(k) {
            let mut c = vec![zero; 12];
            c[i] = *x;
            v.push((format!("value {j} at coefficient {i}"), E::T::of_flat(&c)));
        }
    }
    // two, and all but one
    for i in 0..12 {
        for j in 0..i {
            let mut c = vec![zero; 12];
            c[i] = vals[0];
            c[j] = vals[1 + (i + j) % 2];
            v.push((format!("two coefficients {i}, {j}"), E::T::of_flat(&c)));
        }
        let mut c: Vec<_> = (0..12).map(|j| vals[(j * j + i) % vals.len()]).collect();
        c[i] = zero;
        v.push((format!("all coefficients but {i}"), E::T::of_flat(&c)));
    }
    // quarters and halves of ones
    for m in 1..8u32 {
        let c: Vec<_> = (0..12).map(|i| if m >> (i % 3) & 1 == 1 { vals[i % 2] } else { zero }).collect();
        v.push((format!("mask {m}"), E::T::of_flat(&c)));
    }
    v.retain(|x| x.1.flat().iter().any(|c| *c != zero));
    // without structure
    let mut x = v[v.len() - 1].1 + v[0].1;
    for i in 0..n {
        x = x * x + v[i % v.len()].1;
        v.push((format!("dense {i}"), x));
    }
    // the cyclotomic subgroup and the target group
    let d = x;
    let c = d.conj().unwrap() * d.invert().unwrap();
    let mut f = c;
    f.frobenius_map(2);
    let cyc = f * c;
    v.push(("quotient of conjugates".into(), c));
    v.push(("cyclotomic".into(), cyc));
    v.push(("inverse cyclotomic".into(), cyc.conj().unwrap()));
    let g = E::raw(&E::fe(&d));
    v.push(("target".into(), g));
    v.push(("target times subfield".into(), g * v[0].1));
    v
}
struct Expo<'a>(&'a Rep);
impl PairFn for Expo<'_> {
    fn call<E: PE>(&self) {
        let r = self.0;
        let q = Fr::<E>::p();
        let els = elements::<E>(r.pick(4, 24), r.pick(2, 5));
        let e1 = one::<E::T>();
        let p = <<E::T as HT>::Base as HF>::p();
        let hard = (p.pow(12) - 1u32) / &q;
        let name = E::NAME;
        let fes = pmap(els.len(), |i| {
            r.st(1);
            r.tr(1);
            guard(|| E::raw(&E::fe(&els[i].1)))
        });
        // the exponent, from one element
        let i0 = els.iter().position(|e| e.0 == "dense 0").unwrap();
        let h0 = power(&els[i0].1, &hard);
        let f0 = match &fes[i0] {
            Ok(f) => *f,
            Err(m) => return r.violation(format!("panic:{name}|dense 0"), m.clone()),
        };
        r.check(h0 != e1 && f0 != e1, || format!("trivial:{name}|dense 0"), || "a generic element is sent to one".into());
        let x = hx("44e992b44a6909f1");
        let mut cs: Vec<BigUint> = (1u32..13).map(|i| i.into()).collect();
        for u in [x.clone(), &q - &x] {
            cs.push((&u * 2u32 * (&u * &u * 6u32 + &u * 3u32 + 1u32)) % &q);
            cs.push((&u * 2u32) % &q);
        }
        let neg: Vec<_> = cs.iter().map(|c| &q - (c % &q)).collect();
        cs.extend(neg);
        let c = cs.into_iter().find(|c| power(&h0, c) == f0);
        r.sample(|| format!("{name}: {} elements; the exponent is {} times (p^12-1)/r", els.len(), c.as_ref().map_or("an unlisted multiple of".into(), |c| format!("{c:x}"))));
        pmap(els.len(), |i| {
            let key = || format!("{name}|{}", els[i].0);
            let f = match &fes[i] {
                Err(m) => return r.violation(format!("panic:{}", key()), m.clone()),
                Ok(f) => f,
            };
            r.val(2);
            r.check(power(f, &q) == e1, || format!("order:{}", key()), || "the result's r-th power is not one".into());
            let h = power(&els[i].1, &hard);
            match &c {
                Some(c) => r.check(power(&h, c) == *f, || format!("exponent:{}", key()), || "not the same power as for another element".into()),
                None => r.check((h == e1) == (*f == e1), || format!("exponent:{}", key()), || "the kernel is not that of (p^12-1)/r".into()),
            }
        });
        // multiplicative
        let n = els.len();
        pmap(n, |i| {
            for j in 0..=i {
                if r.quick() && (i + j) % 5 != 0 {
                    continue;
                }
                let (Ok(a), Ok(b)) = (&fes[i], &fes[j]) else { continue };
                r.st(1);
                r.tr(1);
                r.val(1);
                match guard(|| E::fe(&(els[i].1 * els[j].1))) {
                    Err(m) => r.violation(format!("panic:{name}|product of {} and {}", els[i].0, els[j].0), m),
                    Ok(f) => r.check(E::raw(&f) == *a * *b, || format!("multiplicative:{name}|{} and {}", els[i].0, els[j].0), || "not the product".into()),
                }
            }
        });
    }
}
struct Ops<'a>(&'a Rep);
impl PairFn for Ops<'_> {
    fn call<E: PE>(&self) {
        let r = self.0;
        let q = Fr::<E>::p();
        let name = E::NAME;
        let p1: A1<E> = E::C1::aff(&E::C1::gen_r());
        let p2: A2<E> = E::C2::aff(&E::C2::gen_r());
        let g = E::raw(&E::fe(&E::ml(&[(&p1, &p2)])));
        let pw = Powers::new(g, &q);
        let e1 = one::<E::T>();
        let ks = telling_scalars(&q, r.pick(18, 2));
        let els: Vec<E::T> = pmap(ks.len(), |i| pw.at(&ks[i]));
        let gs: Vec<E::Gt> = els.iter().map(E::wrap).collect();
        let same = |what: &str, v: Result<Vec<E::Gt>, String>, want: &E::T, key: &dyn Fn() -> String| {
            r.val(1);
            match v {
                Err(m) => r.violation(format!("panic:{name}|{what} {}", key()), m),
                Ok(v) => {
                    r.tr(v.len());
                    for (i, x) in v.iter().enumerate() {
                        r.check(E::raw(x) == *want, || format!("{what}:{name}|{}, form {i}", key()), || "wrong element".into());
                    }
                }
            }
        };
        same("identity", guard(|| E::ids()), &e1, &|| "".into());
        pmap(ks.len(), |i| {
            let key = || format!("g^{:x}", ks[i]);
            r.st(1);
            same("neg", guard(|| E::negs(&gs[i])), &pw.at(&(&q - &ks[i])), &key);
            same("double", guard(|| E::doubles(&gs[i])), &(els[i] * els[i]), &key);
            r.check(bool::from(gs[i].is_identity()) == ks[i].is_zero(), || format!("is_identity:{name}|{}", key()), || "wrong answer".into());
            for j in 0..ks.len() {
                let key = || format!("g^{:x}, g^{:x}", ks[i], ks[j]);
                r.st(1);
                let [s, d] = match guard(|| E::binary(&gs[i], &gs[j])) {
                    Err(m) => {
                        r.violation(format!("panic:{name}|{}", key()), m);
                        continue;
                    }
                    Ok(v) => v,
                };
                same("add", Ok(s), &(els[i] * els[j]), &key);
                same("sub", Ok(d), &(els[i] * pw.at(&(&q - &ks[j]))), &key);
                let eq = [gs[i] == gs[j], bool::from(gs[i].ct_eq(&gs[j])), !(gs[i] != gs[j])];
                r.check(eq == [i == j; 3], || format!("eq:{name}|{}", key()), || format!("{eq:?}"));
                let s = [E::Gt::conditional_select(&gs[i], &gs[j], 0.into()), E::Gt::conditional_select(&gs[i], &gs[j], 1.into())];
                r.check(E::raw(&s[0]) == els[i] && E::raw(&s[1]) == els[j], || format!("select:{name}|{}", key()), || "wrong choice".into());
                // scalar multiples, on a band in the quick run
                if !r.quick() || i < 3 || j < 12 || (i + 3 * j) % 7 == 0 {
                    let k = Fr::<E>::of(&ks[j]);
                    let v = guard(|| if i == 1 || (i + j) % 11 == 0 { E::muls(&gs[i], &k) } else { vec![gs[i] * k] });
                    same("mul", v, &pw.at(&(&ks[i] * &ks[j])), &key);
                }
            }
        });
        r.sample(|| format!("{name}: {} x {} target elements", ks.len(), ks.len()));
        // sums of every short list
        let c = [0usize, 1, 2, ks.len() - 1];
        for len in 0..=r.pick(5, 7) {
            let ws: Vec<Vec<usize>> = if len == r.pick(5, 7) { long_words(4, &[128]) } else { words(4, len).collect() };
            pmap(ws.len(), |i| {
                let v: Vec<E::Gt> = ws[i].iter().map(|x| gs[c[*x]]).collect();
                let log: BigUint = ws[i].iter().map(|x| &ks[c[*x]]).sum();
                r.st(1);
                same("sum", guard(|| E::sums(&v)), &pw.at(&log), &|| format!("{:?}", ws[i]));
            });
        }
        // random: always in the group
        let one_draw = 12 * 2 * ((q.bits() as usize).div_ceil(64) * 8 + 24);
        let tapes: Vec<(Vec<u8>, u8)> = (0..8u8).flat_map(|b| [1usize, 31, 64, 100, one_draw].map(move |n| ((0..n).map(|i| (b << 5) ^ (i as u8).wrapping_mul(b | 1)).collect(), b.wrapping_mul(37).max(1)))).collect();
        pmap(tapes.len(), |i| {
            r.st(1);
            r.tr(1);
            r.val(1);
            let t = Tape::new(&tapes[i].0, tapes[i].1);
            match guard(|| [E::Gt::random(t.clone()), E::Gt::random(t.clone())]) {
                Err(m) => r.violation(format!("panic:{name}|random on tape {i}"), m),
                Ok([a, b]) => r.check(power(&E::raw(&a), &q) == e1 && a == b, || format!("random:{name}|tape {i}"), || "not a fixed element of the group".into()),
            }
        });
    }
}
fn main() {
    run("C23", |r| {
        r.section("exponentiation", || each_engine(&Expo(r)));
        r.section("group", || each_engine(&Ops(r)));
    });
}
