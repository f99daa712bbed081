//! C29: no operation depends on what was called before it.
//!
//! Every call of a list is first answered by a process that has done nothing else. Then every
//! ordered pair of calls (one after the other, and inside a group also in a process of its own),
//! and inside a group every triple, is executed, and each answer compared with the lone one.
//! Answers are canonical values (affine coordinates, encodings), never representatives.
use ff::Field;
use group::prime::PrimeCurveAffine;
use group::cofactor::CofactorGroup;
use group::{Curve, Group, GroupEncoding, UncompressedEncoding};
use halo2curves::serde::SerdeObject;
use halo2curves::{CurveAffine, CurveExt};
use halo2curves::fft::best_fft;
use halo2curves::msm::{msm_best, msm_parallel, msm_serial};
use hv::*;
use std::process::Command;

struct Call {
    key: String,
    f: Box<dyn Fn() -> String>,
}
type Calls = Vec<Call>;
fn put(v: &mut Calls, key: impl Into<String>, f: impl Fn() -> String + 'static) {
    v.push(Call { key: key.into(), f: Box::new(f) });
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}
/// a generator that gives up after a number of bytes
fn tape(seed: u64, limit: usize) -> Tape {
    let mut s = seed.wrapping_mul(0x9e3779b97f4a7c15) | 1;
    let b: Vec<u8> = (0..4096)
        .map(|_| {
            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (s >> 56) as u8
        })
        .collect();
    let mut t = Tape::new(&b, 0x5a);
    t.limit = limit;
    t
}
/// a reader that fails after some bytes
struct Fails(Vec<u8>, usize);
impl std::io::Read for Fails {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.1 == self.0.len() {
            return Err(std::io::ErrorKind::Other.into());
        }
        let n = b.len().min(self.0.len() - self.1).min(5);
        b[..n].copy_from_slice(&self.0[self.1..self.1 + n]);
        self.1 += n;
        Ok(n)
    }
}

/// Values that agree in all limbs but one, in their class modulo signs, in their encodings' ends.
fn values<F: HF>() -> Vec<BigUint> {
    let p = F::p();
    let top = 64 * (F::LIMBS as u32 - 1);
    let mut v = vec![
        BigUint::from(4u32),
        &p - 4u32,
        BigUint::from(4u32) + (BigUint::one() << 64),
        (&p >> 1) + 1u32,
    ];
    if F::LIMBS > 1 {
        v.push(BigUint::from(4u32) + (BigUint::one() << top));
    }
    v.into_iter().map(|x| x % &p).collect()
}
fn field<F: HF>() -> Calls {
    let mut c = vec![];
    let v: Vec<F> = values::<F>().iter().map(F::of).collect();
    for (i, a) in v.iter().copied().enumerate() {
        put(&mut c, format!("invert {i}"), move || format!("{:?}", opt(a.invert()).map(|x| hex(&x.bytes()))));
        // a root is unique up to sign; which one is not at issue, that it is always the same one is
        put(&mut c, format!("sqrt {i}"), move || format!("{:?}", opt(a.sqrt()).map(|x| hex(&x.bytes()))));
        put(&mut c, format!("legendre {i}"), move || format!("{}", a.legendre()));
    }
    let (a, b, z) = (v[0], v[1], F::ZERO);
    put(&mut c, "invert zero", move || format!("{:?}", opt(z.invert()).map(|x| hex(&x.bytes()))));
    put(&mut c, "sqrt_ratio", move || {
        let (k, r) = F::sqrt_ratio(&a, &b);
        format!("{} {}", bool::from(k), hex(&r.bytes()))
    });
    put(&mut c, "sqrt_ratio swapped", move || {
        let (k, r) = F::sqrt_ratio(&b, &a);
        format!("{} {}", bool::from(k), hex(&r.bytes()))
    });
    for e in [2u64, 3, u64::MAX] {
        put(&mut c, format!("pow {e}"), move || hex(&(a.pow([e, 1]) + b.pow([e])).bytes()));
    }
    for (i, a) in v.iter().copied().enumerate().take(3) {
        put(&mut c, format!("text {i}"), move || format!("{a:?} {}", serde_json::to_string(&a).unwrap()));
        let s = values::<F>()[i].to_string();
        put(&mut c, format!("decimal {i}"), move || format!("{:?}", F::from_str_vartime(&s).map(|x| hex(&x.bytes()))));
    }
    put(&mut c, "decimal wrong", || format!("{:?}", F::from_str_vartime("12x").map(|x| hex(&x.bytes()))));
    for n in F::UNIFORM.iter().copied() {
        for k in 0..3usize {
            // the same at both ends, different within; and different in the last byte only
            let mut b: Vec<u8> = (0..n).map(|i| (i * 37 + 5) as u8).collect();
            match k {
                1 => b[n / 2] ^= 1,
                2 => b[n - 1] ^= 0x11,
                _ => {}
            }
            put(&mut c, format!("uniform {n} {k}"), move || format!("{:?}", F::uniform(&b).map(|x| hex(&x.bytes()))));
        }
    }
    let e: Vec<Vec<u8>> = v.iter().map(|x| x.bytes()).collect();
    for (k, b) in [e[0].clone(), e[1].clone(), vec![0xff; e[0].len()]].into_iter().enumerate() {
        put(&mut c, format!("decode {k}"), move || format!("{:?}", opt(F::of_bytes(&b)).map(|x| hex(&x.bytes()))));
    }
    let raw = v[2].to_raw_bytes();
    for n in [raw.len(), raw.len() - 1, 3] {
        let b = raw[..n].to_vec();
        put(&mut c, format!("read {n}"), move || match F::read_raw(&mut Fails(b.clone(), 0)) {
            Ok(x) => hex(&x.bytes()),
            Err(e) => format!("{:?}", e.kind()),
        });
    }
    put(&mut c, "read_raw bad", || match F::read_raw(&mut &[0xffu8; 128][..]) {
        Ok(x) => hex(&x.bytes()),
        Err(e) => format!("{:?}", e.kind()),
    });
    put(&mut c, "from_json bad", || format!("{}", serde_json::from_str::<F>("\"0x12\"").is_err()));
    for (s, l) in [(1, 1 << 20), (2, 1 << 20), (1, 7)] {
        put(&mut c, format!("random {s} {l}"), move || hex(&F::random(tape(s, l)).bytes()));
    }
    c
}
/// Transforms that agree in all but one of the arguments: the root, the size, the input.
fn fft<F: HF>() -> Calls {
    let mut c = vec![];
    for k in 0..=F::S.min(5) {
        let mut w = F::ROOT_OF_UNITY;
        for _ in k..F::S {
            w = w.square();
        }
        let roots = [("root", w), ("inverse root", w.invert().unwrap_or(F::ONE)), ("root cubed", w * w * w)];
        for (n, w) in roots.into_iter().take(if k >= 3 { 3 } else { 1 }) {
            for s in 0..if k == 4 { 2u64 } else { 1 } {
                put(&mut c, format!("2^{k} {n} {s}"), move || {
                    let mut a: Vec<F> = (0..1u64 << k).map(|i| F::from(i * i + 1 + s)).collect();
                    best_fft(&mut a, w, k);
                    a.iter().map(|x| hex(&x.bytes())).collect()
                });
            }
        }
    }
    put(&mut c, "wrong length", || {
        let mut a = vec![F::ONE; 5];
        best_fft(&mut a, F::ROOT_OF_UNITY, 3);
        "ok".into()
    });
    c
}
fn aff_s<C: HC>(a: &C::Aff) -> String {
    format!("{:?}", C::aff_r(a))
}
fn proj_s<C: HC>(g: &C::G) -> String {
    format!("{:?}", C::proj_r(g))
}
fn curve<C: HC>() -> Calls {
    let mut c: Calls = vec![];
    let ec = C::ec();
    let f = C::Bf::ctx();
    let g = C::gen_r();
    let g2 = ec.add(&g, &g);
    let g3 = ec.add(&g2, &g);
    let ps = [None, g.clone(), g2.clone(), g3.clone(), ec.neg(&g3)];
    let z = |k: u64| f.small(k as i64);
    let q = C::r();
    // the same x, the same z, the same point on another representative
    let pj: Vec<C::G> = vec![C::proj(&ps[1], &z(1)), C::proj(&ps[1], &z(2)), C::proj(&ps[2], &z(2)), C::proj(&ps[3], &z(3)), C::proj(&ps[4], &z(3)), C::proj(&None, &z(1))];
    let pa: Vec<C::Aff> = ps.iter().map(C::aff).collect();
    for (i, p) in pj.iter().copied().enumerate() {
        put(&mut c, format!("to_affine {i}"), move || aff_s::<C>(&p.to_affine()));
        put(&mut c, format!("double {i}"), move || proj_s::<C>(&p.double()));
    }
    for (i, j) in [(0, 1), (0, 2), (2, 3), (3, 4), (5, 2), (2, 5)] {
        let (p, q) = (pj[i], pj[j]);
        put(&mut c, format!("add {i} {j}"), move || proj_s::<C>(&(p + q)));
        put(&mut c, format!("eq {i} {j}"), move || format!("{}", p == q));
    }
    for w in [vec![0, 1, 2], vec![2, 1, 0], vec![3, 5, 4], vec![0, 1], vec![5, 5]] {
        let v: Vec<C::G> = w.iter().map(|i| pj[*i]).collect();
        put(&mut c, format!("batch_normalize {w:?}"), move || {
            let mut o = vec![C::Aff::default(); v.len()];
            C::G::batch_normalize(&v, &mut o);
            o.iter().map(aff_s::<C>).collect()
        });
    }
    let v = [pj[0], pj[2]];
    put(&mut c, "batch_normalize mismatch", move || {
        let mut o = vec![C::Aff::default(); 3];
        C::G::batch_normalize(&v, &mut o);
        o.iter().map(aff_s::<C>).collect()
    });
    let ks: Vec<BigUint> = vec![BigUint::from(3u32), &q - 3u32, BigUint::from(3u32) + (BigUint::one() << 64), (&q >> 1) + 1u32];
    let ks: Vec<C::Sc> = ks.iter().map(|k| C::Sc::of(&(k % &q))).collect();
    for (i, k) in ks.iter().copied().enumerate() {
        for j in [0, 2, 3] {
            let p = pj[j];
            put(&mut c, format!("mul {i} {j}"), move || proj_s::<C>(&(p * k)));
        }
        let a = pa[2];
        put(&mut c, format!("affine mul {i}"), move || proj_s::<C>(&(a * k)));
    }
    for (i, a) in pa.iter().copied().enumerate() {
        put(&mut c, format!("bytes {i}"), move || format!("{} {}", hex(a.to_bytes().as_ref()), hex(a.to_uncompressed().as_ref())));
        // encodings of P and -P, compressed
        put(&mut c, format!("from_bytes {i}"), move || format!("{:?}", opt(C::Aff::from_bytes(&a.to_bytes())).map(|a| aff_s::<C>(&a))));
        put(&mut c, format!("from_uncompressed {i}"), move || format!("{:?}", opt(C::Aff::from_uncompressed(&a.to_uncompressed())).map(|a| aff_s::<C>(&a))));
        put(&mut c, format!("json {i}"), move || serde_json::to_string(&a).unwrap_or_default());
        put(&mut c, format!("is_on_curve {i}"), move || format!("{}", bool::from(a.is_on_curve())));
    }
    let off = C::axy(C::Bf::of_r(&z(1)), C::Bf::of_r(&z(1)));
    put(&mut c, "is_on_curve off", move || format!("{}", bool::from(off.is_on_curve())));
    put(&mut c, "from_bytes bad", || {
        let mut b = <C::Aff as GroupEncoding>::Repr::default();
        b.as_mut().iter_mut().for_each(|b| *b = 0xff);
        format!("{:?}", opt(C::Aff::from_bytes(&b)).map(|a| aff_s::<C>(&a)))
    });
    let raw = pj[2].to_raw_bytes();
    for n in [raw.len(), raw.len() / 2, 1] {
        let b = raw[..n].to_vec();
        put(&mut c, format!("read {n}"), move || match C::G::read_raw(&mut Fails(b.clone(), 0)) {
            Ok(x) => proj_s::<C>(&x),
            Err(e) => format!("{:?}", e.kind()),
        });
    }
    for (i, p) in pj.iter().copied().enumerate().take(3) {
        put(&mut c, format!("endo {i}"), move || proj_s::<C>(&p.endo()));
        put(&mut c, format!("subgroup {i}"), move || {
            format!("{} {}", bool::from(p.is_torsion_free()), proj_s::<C>(&p.clear_cofactor().into()))
        });
    }
    for (s, l) in [(1, 1 << 20), (2, 1 << 20), (1, 7)] {
        put(&mut c, format!("random {s} {l}"), move || proj_s::<C>(&C::G::random(tape(s, l))));
    }
    put(&mut c, "generator", || format!("{} {}", proj_s::<C>(&C::G::generator()), aff_s::<C>(&C::Aff::generator())));
    c
}
fn hash<C: HC>() -> Calls {
    let mut c = vec![];
    let long = "d".repeat(300);
    for (i, d) in ["a", "ab", "b", "", long.as_str()].into_iter().enumerate() {
        for (j, m) in [&b"m"[..], &b"bm"[..], &b""[..], &[7u8; 200][..], &[7u8; 199][..]].into_iter().enumerate() {
            if i > 1 && j > 1 {
                continue;
            }
            let (d, m) = (d.to_string(), m.to_vec());
            put(&mut c, format!("domain {i} message {j}"), move || {
                let h = C::G::hash_to_curve(&d);
                let v = h(&m);
                format!("{} {}", proj_s::<C>(&v), h(&m) == v)
            });
        }
    }
    // one closure for several messages
    put(&mut c, "several", || {
        let h = C::G::hash_to_curve("a");
        [&b"m"[..], b"bm", b"m"].iter().map(|m| proj_s::<C>(&h(m))).collect()
    });
    c
}
fn msm<C: HC>() -> Calls {
    let mut c = vec![];
    let ec = C::ec();
    let g = C::gen_r();
    let q = C::r();
    let mut pts = vec![g.clone()];
    for _ in 0..7 {
        let p = ec.add(pts.last().unwrap(), &g);
        pts.push(p);
    }
    let pts: Vec<C::Aff> = pts.iter().map(C::aff).collect();
    let lists = |n: usize, salt: u64| -> (Vec<C::Sc>, Vec<C::Aff>) {
        let mut x = BigUint::from(3u32);
        let mut ks = vec![];
        let mut ps = vec![];
        for i in 0..n {
            // the same first and last terms whatever the salt
            let s = if i == 0 || i + 1 == n { 0 } else { salt };
            x = (&x * (&q - 7u32) + 11u32) % &q;
            ks.push(C::Sc::of(&((&x + (s & 1)) % &q)));
            ps.push(pts[(i * 3 + (s >> 1) as usize) % pts.len()]);
        }
        (ks, ps)
    };
    for n in [0usize, 1, 3, 4, 9, 40] {
        // the same; other scalars; other points
        for salt in [0, 1, 2] {
            if n < 3 && salt > 0 {
                continue;
            }
            let (ks, ps) = lists(n, salt);
            put(&mut c, format!("msm_best {n} {salt}"), {
                let (ks, ps) = (ks.clone(), ps.clone());
                move || proj_s::<C>(&msm_best(&ks, &ps))
            });
            put(&mut c, format!("msm_parallel {n} {salt}"), {
                let (ks, ps) = (ks.clone(), ps.clone());
                move || proj_s::<C>(&msm_parallel(&ks, &ps))
            });
            put(&mut c, format!("msm_serial {n} {salt}"), move || {
                let mut a = C::G::identity();
                msm_serial(&ks, &ps, &mut a);
                proj_s::<C>(&a)
            });
        }
    }
    let (ks, ps) = lists(4, 0);
    let (k, p) = (ks.clone(), ps.clone());
    put(&mut c, "msm_best mismatch", move || proj_s::<C>(&msm_best(&k[..3], &p)));
    put(&mut c, "msm_parallel mismatch", move || proj_s::<C>(&msm_parallel(&ks, &ps[..2])));
    c
}
fn tower<T: HT>() -> Calls {
    let mut c = vec![];
    let p = <T::Base as HF>::p();
    let d = T::deg();
    let mk = |k: usize| {
        let v: Vec<T::Base> = (0..d)
            .map(|i| {
                let mut x = BigUint::from(i as u32 + 2);
                if k == 1 && i + 1 == d || k == 2 && i == 0 {
                    x = &p - x;
                }
                T::Base::of(&x)
            })
            .collect();
        T::of_flat(&v)
    };
    let v: Vec<T> = (0..3).map(mk).collect();
    for (i, a) in v.iter().copied().enumerate() {
        put(&mut c, format!("invert {i}"), move || format!("{:?}", opt(a.invert()).map(|x| x.show())));
        put(&mut c, format!("square {i}"), move || a.square().show());
        for k in [1, 2, d, d + 1] {
            put(&mut c, format!("frobenius {i} {k}"), move || {
                let mut x = a;
                x.frobenius_map(k);
                x.show()
            });
        }
        let b = v[(i + 1) % 3];
        put(&mut c, format!("mul {i}"), move || (a * b).show());
        put(&mut c, format!("pow {i}"), move || a.pow([0x8000_0000_0000_0001, 5]).show());
    }
    for (s, l) in [(1, 1 << 20), (2, 1 << 20), (1, 7)] {
        put(&mut c, format!("random {s} {l}"), move || T::random(tape(s, l)).show());
    }
    c
}
fn quad<T: HT + HB>() -> Calls {
    let mut c = vec![];
    for (i, k) in [[4i64, 0], [-4, 0], [3, 4], [3, -4], [1, 1], [1, 2]].into_iter().enumerate() {
        let p = <T::Base as HF>::p();
        let m = |k: i64| T::Base::of(&((&p + BigUint::from((k + 16) as u32) - 16u32) % &p));
        let a = T::of_flat(&[m(k[0]), m(k[1])]);
        put(&mut c, format!("sqrt {i}"), move || format!("{:?}", opt(a.sqrt()).map(|x| x.show())));
        put(&mut c, format!("legendre {i}"), move || format!("{}", a.legendre()));
        put(&mut c, format!("decode {i}"), move || format!("{:?}", opt(T::of_ebytes(&a.ebytes())).map(|x| x.show())));
    }
    c
}
fn engine<E: PE>() -> Calls {
    let mut c: Calls = vec![];
    let (e1, e2) = (E::C1::ec(), E::C2::ec());
    let (g1, g2) = (E::C1::gen_r(), E::C2::gen_r());
    let (d1, d2) = (e1.add(&g1, &g1), e2.add(&g2, &g2));
    let a = [g1.clone(), d1.clone(), e1.neg(&g1), None].map(|p| E::C1::aff(&p));
    let b = [g2.clone(), d2.clone(), e2.neg(&g2), None].map(|p| E::C2::aff(&p));
    for (i, j) in [(0, 0), (0, 1), (1, 0), (2, 0), (0, 2), (3, 0), (0, 3)] {
        let (p, q) = (a[i], b[j]);
        put(&mut c, format!("pairing {i} {j}"), move || E::raw(&E::fe(&E::ml(&[(&p, &q)]))).show());
        if i + j < 2 {
            put(&mut c, format!("entries {i} {j}"), move || E::entries(&p, &q).iter().map(|(n, g)| format!("{n} {} ", E::raw(g).show())).collect());
        }
    }
    for w in [vec![], vec![(0, 0), (1, 1)], vec![(1, 1), (0, 0)], vec![(0, 1), (1, 1)], vec![(0, 0), (3, 1)], vec![(0, 0), (2, 0)]] {
        let v: Vec<_> = w.iter().map(|&(i, j): &(usize, usize)| (a[i], b[j])).collect();
        put(&mut c, format!("multi {w:?}"), move || {
            let t: Vec<_> = v.iter().map(|(p, q)| (p, q)).collect();
            E::raw(&E::fe(&E::ml(&t))).show()
        });
    }
    let p = <<E::T as HT>::Base as HF>::p();
    let mk = |k: u32| {
        let n = E::T::deg();
        E::T::of_flat(&(0..n).map(|i| <E::T as HT>::Base::of(&((BigUint::from(k) + i) % &p))).collect::<Vec<_>>())
    };
    for k in [1, 2] {
        let t = mk(k);
        put(&mut c, format!("final_exponentiation {k}"), move || E::raw(&E::fe(&t)).show());
        let u = t;
        put(&mut c, format!("cyclotomic_square {k}"), move || u.cyc().show());
        for s in [3u64, 5] {
            put(&mut c, format!("Gt mul {k} {s}"), move || E::muls(&E::wrap(&t), &Fr::<E>::from(s)).iter().map(|g| E::raw(g).show() + " ").collect());
        }
    }
    for (s, l) in [(1, 1 << 20), (2, 1 << 20), (1, 7)] {
        put(&mut c, format!("Gt random {s} {l}"), move || E::raw(&E::Gt::random(tape(s, l))).show());
    }
    c
}

type Grp = (String, fn() -> Calls);
#[derive(Default)]
struct Groups(std::cell::RefCell<Vec<Grp>>);
impl Groups {
    fn add(&self, k: &str, n: &str, f: fn() -> Calls) {
        self.0.borrow_mut().push((format!("{k}:{n}"), f));
    }
}
impl FieldFn for Groups {
    fn call<F: HF>(&self) {
        self.add("field", F::NAME, field::<F>);
        if F::S > 1 {
            self.add("fft", F::NAME, fft::<F>);
        }
    }
}
impl CurveFn for Groups {
    fn call<C: HC>(&self) {
        self.add("curve", C::NAME, curve::<C>);
        self.add("msm", C::NAME, msm::<C>);
        // hashing to G2 of pluto is not implemented
        if C::NAME != "pluto::G2" && !C::TINY {
            self.add("hash", C::NAME, hash::<C>);
        }
    }
}
impl TowerFn for Groups {
    fn call<T: HT>(&self) {
        self.add("tower", T::NAME, tower::<T>);
    }
}
impl QuadFn for Groups {
    fn call<T: HT + HB>(&self) {
        self.add("quad", <T as HT>::NAME, quad::<T>);
    }
}
impl PairFn for Groups {
    fn call<E: PE>(&self) {
        self.add("pairing", E::NAME, engine::<E>);
    }
}
fn groups() -> Vec<Grp> {
    let g = Groups::default();
    each_real_field(&g);
    each_real_curve(&g);
    each_real_tower(&g);
    each_quad(&g);
    each_engine(&g);
    g.0.into_inner()
}
fn answer(c: &Call) -> String {
    let s = guard(|| (c.f)()).unwrap_or_else(|_| "panic".into());
    if s.len() <= 150 {
        return s;
    }
    // the beginning, and a digest of everything
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    format!("{}... ({} characters, digest {h:016x})", s.chars().take(120).collect::<String>(), s.len())
}
/// every word of length 3 over n letters, as a cyclic sequence (prefer-largest is not needed:
/// the Lyndon-word construction)
fn de_bruijn(n: usize, k: usize) -> Vec<usize> {
    fn db(t: usize, p: usize, n: usize, k: usize, a: &mut [usize], out: &mut Vec<usize>) {
        if t > k {
            if k % p == 0 {
                out.extend(&a[1..=p]);
            }
            return;
        }
        a[t] = a[t - p];
        db(t + 1, p, n, k, a, out);
        for j in a[t - p] + 1..n {
            a[t] = j;
            db(t + 1, t, n, k, a, out);
        }
    }
    let mut out = vec![];
    if n > 0 {
        db(1, 1, n, k, &mut vec![0; k + 1], &mut out);
        let head: Vec<usize> = out.iter().cycle().take(k - 1).copied().collect();
        out.extend(head);
    }
    out
}
/// what the worker processes do; lines on stdout
fn worker(job: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    let w: Vec<&str> = job.split(' ').collect();
    let n = |i: usize| w[i].parse::<usize>().unwrap();
    let gs = groups();
    match w[0] {
        // the keys of the calls of a group
        "keys" => gs[n(1)].1().iter().for_each(|c| println!("{}", c.key)),
        // some calls of a group, in order
        "seq" => {
            let c = gs[n(1)].1();
            for i in 2..w.len() {
                println!("{}", answer(&c[n(i)]));
            }
        }
        // tour <group or all> <order> <stride> <part> <parts> <file> <number of the group's first>:
        // a segment of a tour of every word of that length over each stride-th call, compared
        // with the answers in the file; prints "bad position number previous answer"
        _ => {
            let refs = std::fs::read_to_string(w[6]).unwrap();
            let refs: Vec<&str> = refs.lines().collect();
            let (order, stride, part, parts) = (n(2), n(3), n(4), n(5));
            let mut calls: Vec<(usize, Call)> = vec![];
            let mut at = if w[1] == "all" { 0 } else { n(7) };
            for (g, x) in gs.iter().enumerate() {
                if w[1] == "all" || g == n(1) {
                    for (i, c) in x.1().into_iter().enumerate() {
                        if i % stride == g % stride {
                            calls.push((at, c));
                        }
                        at += 1;
                    }
                }
            }
            let tour = de_bruijn(calls.len(), order);
            let (from, to) = (tour.len() * part / parts, tour.len() * (part + 1) / parts);
            let mut done = 0;
            let mut bad = 0;
            let lo = from.saturating_sub(order - 1);
            for i in lo..to {
                let (k, c) = &calls[tour[i]];
                let a = answer(c);
                done += 1;
                if a != refs[*k] {
                    let before: Vec<String> = (i.saturating_sub(order - 1).max(lo)..i).map(|j| calls[tour[j]].1.key.clone()).collect();
                    println!("bad\t{}\t{k}\t{}\t{a}", i - lo, before.join(", "));
                    bad += 1;
                    if bad > 20 {
                        break;
                    }
                }
            }
            println!("done\t{done}");
        }
    }
}
fn ask(job: String, threads: usize) -> Result<Vec<String>, String> {
    let me = std::env::current_exe().map_err(|e| e.to_string())?;
    let o = Command::new(me).env("HV_JOB", &job).env("RAYON_NUM_THREADS", threads.to_string()).output().map_err(|e| e.to_string())?;
    let v: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().map(|l| l.to_string()).collect();
    if !o.status.success() {
        return Err(format!("process for '{job}' ended with {}", o.status));
    }
    Ok(v)
}
fn main() {
    if let Ok(j) = std::env::var("HV_JOB") {
        return worker(&j);
    }
    run("C29", |r| {
        let gs = groups();
        let keys: Vec<Vec<String>> = pmap(gs.len(), |g| gs[g].1().into_iter().map(|c| c.key).collect());
        let mut base = vec![];
        let mut all: Vec<(usize, usize)> = vec![];
        for (g, k) in keys.iter().enumerate() {
            base.push(all.len());
            all.extend((0..k.len()).map(|i| (g, i)));
        }
        // each call alone in a process
        let refs: Vec<String> = pmap(all.len(), |i| {
            let (g, c) = all[i];
            match ask(format!("seq {g} {c}"), 2) {
                Ok(v) if v.len() == 1 => v[0].clone(),
                e => {
                    r.engine_error(format!("{} {}: {e:?}", gs[g].0, keys[g][c]));
                    String::new()
                }
            }
        });
        let name = |i: usize| format!("{} {}", gs[all[i].0].0, keys[all[i].0][all[i].1]);
        let dir = std::env::temp_dir().join(format!("hv-c29-{}", std::process::id()));
        let _ = std::fs::create_dir_all(&dir);
        let file = dir.join("refs");
        std::fs::write(&file, refs.join("\n") + "\n").unwrap();
        let file = file.to_string_lossy().to_string();
        let tour = |what: String, len: usize, v: Result<Vec<String>, String>| {
            let Ok(v) = v else {
                // the process died: a stack overflow or an abort, which the lone calls did not have
                return r.violation(format!("history:died|{what}"), format!("{v:?}"));
            };
            let mut done = 0;
            for l in &v {
                let f: Vec<&str> = l.split('\t').collect();
                if f[0] == "done" {
                    done = f[1].parse().unwrap_or(0);
                } else if f[0] == "bad" && f.len() == 5 {
                    let i: usize = f[2].parse().unwrap();
                    r.violation(
                        format!("history:{}", name(i)),
                        format!("{what}, call number {} (just before: {}): {} instead of {}, the answer in a process of its own", f[1], f[3], f[4], refs[i]),
                    );
                }
            }
            r.st(done);
            r.tr(done);
            r.val(done);
            if done == 0 {
                r.engine_error(format!("{what} of {len} calls did not finish"));
            }
        };
        r.section("again", || {
            // a second process gives the same answer: nothing depends on the process itself
            r.par(all.len(), |i| {
                let (g, c) = all[i];
                let v = ask(format!("seq {g} {c} {c}"), 3);
                r.st(2);
                r.tr(2);
                r.val(2);
                r.check(
                    v.as_ref().is_ok_and(|v| v.len() == 2 && v[0] == refs[i] && v[1] == refs[i]),
                    || format!("again:{}", name(i)),
                    || format!("{v:?}, before {}", refs[i]),
                );
            });
            r.sample(|| format!("each of {} calls alone in a process, then twice in another", all.len()));
        });
        r.section("pairs-fresh", || {
            // a process for each ordered pair of calls of a group
            let jobs: Vec<(usize, usize, usize)> = (0..gs.len())
                .flat_map(|g| {
                    let n = keys[g].len();
                    (0..n * n).map(move |x| (g, x / n, x % n))
                })
                // the quick run: one in four, each call in first and in second place
                .filter(|(_, i, j)| i != j && (!r.quick() || (i + 3 * j) % 8 == 0))
                .collect();
            r.par(jobs.len(), |x| {
                let (g, i, j) = jobs[x];
                let v = ask(format!("seq {g} {i} {j}"), 2);
                r.st(2);
                r.tr(2);
                r.val(2);
                r.check(
                    v.as_ref().is_ok_and(|v| v.len() == 2 && v[0] == refs[base[g] + i] && v[1] == refs[base[g] + j]),
                    || format!("history:{}", name(base[g] + j)),
                    || format!("after {} in a fresh process: {v:?} instead of {}", name(base[g] + i), refs[base[g] + j]),
                );
            });
            r.sample(|| format!("{} ordered pairs, each in a process of its own", jobs.len()));
        });
        // every word over the calls of a group, on one tour, cut into segments
        let inside = |order: usize, stride: &dyn Fn(usize) -> usize| {
            let mut jobs = vec![];
            for g in 0..gs.len() {
                let st = stride(keys[g].len());
                let n = keys[g].len() / st;
                let parts = n.pow(order as u32) / 4000 + 1;
                jobs.extend((0..parts).map(|p| (g, st, p, parts)));
            }
            r.par(jobs.len(), |x| {
                let (g, st, p, parts) = jobs[x];
                let v = ask(format!("tour {g} {order} {st} {p} {parts} {file} {}", base[g]), 1 + x % 3);
                tour(format!("words of {order} calls of {}, segment {p} of {parts}", gs[g].0), keys[g].len(), v);
            });
            r.sample(|| format!("tours of the words of {order} inside {} groups, {} segments", gs.len(), jobs.len()));
        };
        // the quick run thins out the longer words
        r.section("words-2", || inside(2, &|_| 1));
        r.section("words-3", || inside(3, &|n| if r.quick() { n.div_ceil(11) } else { 1 }));
        r.section("across", || {
            // every ordered pair of calls, across groups
            let (stride, parts) = r.pick((11, 24), (1, 512));
            r.par(parts, |x| {
                let v = ask(format!("tour all 2 {stride} {x} {parts} {file}"), 1 + x % 3);
                tour(format!("pairs of all calls, segment {x} of {parts}"), all.len(), v);
            });
            r.sample(|| format!("a tour of the ordered pairs of {} calls", all.len() / stride));
        });
        let _ = std::fs::remove_file(dir.join("refs"));
        let _ = std::fs::remove_dir(&dir);
    });
}
