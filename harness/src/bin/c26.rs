//! C26: random sampling over chosen generator streams.
use ff::Field;
use halo2curves::serde::SerdeObject;
use group::Group;
use hv::*;
use rand_core::RngCore;
use std::collections::BTreeSet;

/// A tail without structure, so that rejection loops end.
fn tail(seed: usize) -> Vec<u8> {
    let mut s = 0x9e3779b97f4a7c15u64.wrapping_mul(seed as u64 + 1);
    (0..8192)
        .map(|_| {
            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (s >> 56) as u8
        })
        .collect()
}
fn tape(head: &[u8], seed: usize) -> Tape {
    Tape::new(&[head, &tail(seed)[..]].concat(), 0xa7)
}
/// Sample through every entry point given, over the same stream; the stream is consumed to the
/// same place, and what lies beyond does not matter. Returns the common value.
fn draw<T>(
    r: &Rep,
    name: &str,
    head: &[u8],
    seed: usize,
    ways: &[&dyn Fn(&mut Tape) -> T],
    raw: &dyn Fn(&T) -> Vec<u8>,
) -> Option<T> {
    let hex = || head.iter().take(160).map(|b| format!("{b:02x}")).collect::<String>();
    let key = |w: &str| format!("{w}:{name}|{}", hex());
    let mut first: Option<(T, usize)> = None;
    for (i, w) in ways.iter().enumerate() {
        let mut t = tape(head, seed);
        let got = guard(|| {
            let v = w(&mut t);
            (v, t)
        });
        r.st(1);
        r.tr(1);
        if i == 0 {
            r.sample(|| format!("{name}, generator bytes {}", hex()));
        }
        let (v, t) = match got {
            Ok(x) => x,
            Err(e) if e.contains("tape limit") => {
                r.outcome("never ends", 1);
                return None;
            }
            Err(e) => {
                r.violation(key("panics"), format!("{name}, way {i}, generator bytes {}: {e}", hex()));
                return None;
            }
        };
        if i == 0 {
            // bytes not consumed do not matter
            let used = t.used();
            let mut o = Tape::new(&[&used[..], &tail(seed + 1)[..]].concat(), 0x3c);
            let again = guard(|| w(&mut o));
            r.check(matches!(&again, Ok(a) if raw(a) == raw(&v)) && o.pos == t.pos, || key("deterministic"), || format!("{name}: the {} bytes consumed, {}, give another element on replay", t.pos, hex()));
        }
        match &first {
            None => first = Some((v, t.pos)),
            Some((f, _)) => r.check(raw(f) == raw(&v), || key("ways"), || format!("{name}: way {i} differs from way 0 on generator bytes {}", hex())),
        }
    }
    first.map(|x| x.0)
}

/// Heads that decode to telling integers under the usual little-endian reading: words over an
/// alphabet of 64-bit limbs, multiples of the modulus and neighbours, single set bits.
fn heads(p: &BigUint, limbs: usize, full: bool) -> Vec<Vec<u8>> {
    let size = limbs * 16;
    let mut v: Vec<Vec<u8>> = vec![];
    for b in [0x00, 0xff, 0x01, 0x80, 0x7f, 0xaa, 0x55, 0xfe] {
        for n in [1, 7, 8, size / 2, size - 1, size] {
            v.push(vec![b; n]);
        }
    }
    let top = BigUint::one() << (8 * size);
    let r = (BigUint::one() << (64 * limbs)) % p;
    let mut ks = vec![BigUint::zero(), BigUint::one(), 2u32.into(), (&top - 1u32) / p, BigUint::one() << (64 * limbs), (BigUint::one() << (64 * limbs)) / p, r.clone(), (&r * &r) % p];
    for i in 0..limbs * 2 {
        ks.push(BigUint::one() << (64 * i));
    }
    for k in &ks {
        for d in 0..3u32 {
            let x = k * p + d;
            if x < top {
                v.push(le_bytes(&x, size));
            }
            let x = k * p;
            if x >= BigUint::from(d) {
                let x = x - d;
                if x < top {
                    v.push(le_bytes(&x, size));
                }
            }
            let x = k + d;
            if x < top {
                v.push(le_bytes(&x, size));
            }
        }
    }
    for bit in 0..size * 8 {
        if full || bit % 8 == 7 || bit % 64 == 0 {
            v.push(le_bytes(&(BigUint::one() << bit), size));
            v.push(le_bytes(&(&top - 1u32 - (BigUint::one() << bit)), size));
        }
    }
    // words of limbs
    let pl = le_bytes(p, limbs * 8);
    let alpha: Vec<[u8; 8]> = vec![[0; 8], [255; 8], pl[..8].try_into().unwrap()];
    let mut n = limbs * 2;
    while 3usize.pow(n as u32) > if full { 70000 } else { 800 } {
        n -= 1;
    }
    for w in words(3, n) {
        let mut x = vec![];
        // the most significant limbs vary; what is left repeats
        for i in 0..limbs * 2 {
            x.extend(alpha[w[i % n]]);
        }
        v.push(x);
    }
    v.sort();
    v.dedup();
    v
}

struct Fields<'a>(&'a Rep);
impl FieldFn for Fields<'_> {
    fn call<F: HF>(&self) {
        let r = self.0;
        r.section(&format!("field:{}", F::NAME), || {
            let p = F::p();
            let hs = heads(&p, F::LIMBS, !r.quick());
            r.val(hs.len());
            let seen = std::sync::Mutex::new(BTreeSet::new());
            let mut hs = hs;
            if F::TINY {
                hs.extend((0..u(&p) * 5).map(|i| le_bytes(&i.into(), F::LIMBS * 16)));
            }
            r.par(hs.len(), |i| {
                let Some(x) = draw::<F>(r, F::NAME, &hs[i], i, &[&|t| F::random(&mut *t), &|t| F::random(t as &mut dyn RngCore)], &|x| x.to_raw_bytes()) else { return };
                r.check(x.raw() < p, || format!("reduced:{}|{:?}", F::NAME, hs[i]), || format!("{}::random gives limbs {:x} not below p on {:02x?}", F::NAME, x.raw(), hs[i]));
                if F::TINY {
                    seen.lock().unwrap().insert(x.raw());
                }
            });
            let n = seen.lock().unwrap().len();
            if F::TINY {
                r.check(BigUint::from(n) == p, || format!("reach:{}|", F::NAME), || format!("{}::random reaches {n} of {p} elements", F::NAME));
            } else {
                r.check(n == 0, || String::new(), String::new);
            }
        });
    }
}

fn raw_of<T: HT>(x: &T) -> Vec<u8> {
    x.flat().iter().flat_map(|c| le_bytes(&HF::raw(c), <T::Base as HF>::LIMBS * 8)).collect()
}
/// Streams for `deg` coefficients: words over coefficient heads.
fn coeff_words(p: &BigUint, limbs: usize, deg: usize, n: usize) -> Vec<Vec<u8>> {
    let size = limbs * 16;
    let top = BigUint::one() << (8 * size);
    let al = [BigUint::zero(), BigUint::one(), p - 1u32, p.clone(), ((&top - 1u32) / p) * p, &top - 1u32, p >> 1];
    let mut v = vec![];
    for a in 0..al.len() {
        for i in 0..=deg {
            // zero but at coefficient i
            v.push((0..deg).flat_map(|j| le_bytes(if i == j { &al[a] } else { &al[0] }, size)).collect());
            // one but at coefficient i
            v.push((0..deg).flat_map(|j| le_bytes(if i == j { &al[a] } else { &al[1] }, size)).collect());
            // the first i are zero, the rest this
            v.push((0..deg).flat_map(|j| le_bytes(if j < i { &al[3] } else { &al[a] }, size)).collect());
            v.push((0..deg).flat_map(|j| le_bytes(if j >= i { &al[4] } else { &al[a] }, size)).collect());
        }
    }
    for i in 0..n {
        v.push((0..deg).flat_map(|j| le_bytes(&al[(i / (j + 1) + i * j + j * j) % al.len()], size)).collect());
    }
    v.sort();
    v.dedup();
    v
}
struct Towers<'a>(&'a Rep);
impl TowerFn for Towers<'_> {
    fn call<T: HT>(&self) {
        let r = self.0;
        r.section(&format!("tower:{}", T::NAME), || {
            let p = <T::Base as HF>::p();
            let hs = coeff_words(&p, <T::Base as HF>::LIMBS, T::deg(), r.pick(300, 3000));
            r.val(hs.len());
            r.par(hs.len(), |i| {
                let Some(x) = draw::<T>(r, T::NAME, &hs[i], i, &[&|t| T::random(&mut *t), &|t| T::random(t as &mut dyn RngCore)], &|x| raw_of(x)) else { return };
                let ok = x.flat().iter().all(|c| HF::raw(c) < p);
                r.check(ok, || format!("reduced:{}|{i}", T::NAME), || format!("{}::random gives a coefficient not below p on {:02x?}", T::NAME, hs[i]));
            });
        });
    }
}

struct Curves<'a>(&'a Rep);
impl CurveFn for Curves<'_> {
    fn call<C: HC>(&self) {
        let r = self.0;
        r.section(&format!("curve:{}", C::NAME), || {
            let ec = C::ec();
            let f = &ec.f;
            let p = f.chr();
            let size = C::Bf::BLIMBS * 16;
            let enc = |x: &<<C::Bf as HB>::R as Fld>::E, k: &BigUint| -> Vec<u8> { f.coeffs(x).iter().flat_map(|c| le_bytes(&(c + k * &p), size)).collect() };
            let kmax = ((BigUint::one() << (8 * size)) - 1u32) / &p - 1u32;
            // abscissas: small ones, with and without points, zeros of the curve equation, and
            // torsion of the cofactor
            let mut xs = vec![];
            if C::TINY {
                xs = all_elems(f);
            } else {
                let (mut res, mut non) = (0, 0);
                for i in 0..200i64 {
                    let mut c = vec![BigUint::from(i as u32); f.deg()];
                    if f.deg() == 2 && i % 2 == 0 {
                        c[0] = BigUint::zero();
                    }
                    if i % 3 == 2 {
                        c[f.deg() - 1] = &p - BigUint::from(i as u32);
                    }
                    let x = f.of_coeffs(&c);
                    let on = f.chi(&ec.rhs(&x)) >= 0;
                    let n = if on { &mut res } else { &mut non };
                    *n += 1;
                    if *n <= r.pick(6, 20) || i == 0 {
                        xs.push(x);
                    }
                }
                for w in telling_points::<C>(r.pick(8, 24)) {
                    if let Some((x, _)) = w {
                        xs.push(x);
                    }
                }
                let h = C::cofactor();
                if !h.is_one() {
                    for l in [3u32, 11, 13, 23, 73, 10069] {
                        if !(&h % l).is_zero() {
                            continue;
                        }
                        let mut m = &h * C::r();
                        while (&m % l).is_zero() {
                            m /= l;
                        }
                        for x in xs.clone().iter().take(6) {
                            if let Some(q) = ec.lift(x).first() {
                                let mut t = ec.mul(&m, q);
                                while t.is_some() {
                                    xs.push(t.as_ref().unwrap().0.clone());
                                    t = ec.mul(&l.into(), &t);
                                }
                            }
                        }
                    }
                    for x in xs.clone().iter().take(4) {
                        if let Some(q) = ec.lift(x).first() {
                            if let Some((x, _)) = ec.mul(&C::r(), q) {
                                xs.push(x);
                            }
                        }
                    }
                }
                xs.sort();
                xs.dedup();
            }
            // cubic zeros, the hard way only where the field is small
            let signs: [[u8; 4]; 6] = [[0; 4], [1, 0, 0, 0], [255; 4], [2, 0, 0, 0], [0, 0, 0, 1], [0, 0, 0, 128]];
            let one = |x: &_, s: usize, k: usize| -> Vec<u8> {
                let mut b = enc(x, &[BigUint::zero(), BigUint::one(), kmax.clone()][k % 3]);
                b.extend(signs[s % signs.len()]);
                b
            };
            let on: Vec<bool> = xs.iter().map(|x| f.chi(&ec.rhs(x)) >= 0).collect();
            let mut hs: Vec<Vec<u8>> = vec![];
            for (i, x) in xs.iter().enumerate() {
                for s in 0..signs.len() {
                    hs.push(one(x, s, i + s));
                }
            }
            // histories of two and three draws; the first are rejected or not
            let pick: Vec<_> = if C::TINY { xs.iter().take(r.pick(24, 40)).cloned().collect() } else { xs.iter().take(r.pick(8, 24)).cloned().collect() };
            for w in words(pick.len(), 2) {
                hs.push([one(&pick[w[0]], w[1], 0), one(&pick[w[1]], w[0], w[1])].concat());
                hs.push([one(&pick[w[0]], w[1], 1), one(&pick[w[0]], w[0], w[1]), one(&pick[w[1]], w[0] + w[1], 2)].concat());
            }
            // constant streams
            for b in [0u8, 1, 0x7f, 0x80, 0xff] {
                for n in [1, size / 2, size, size + 1, size + 4, 2 * size, 4 * size + 9] {
                    hs.push(vec![b; n]);
                }
            }
            r.val(hs.len());
            let seen = std::sync::Mutex::new(BTreeSet::new());
            r.par(hs.len(), |i| {
                let key = |w: &str| format!("{w}:{}|stream {i}", C::NAME);
                let xyz = |g: &C::G| {
                    let (x, y, z) = C::get(g);
                    format!("{:?}", (x.to_r(), y.to_r(), z.to_r())).into_bytes()
                };
                let ways: [&dyn Fn(&mut Tape) -> C::G; 2] = [&|t| <C::G as Group>::random(&mut *t), &|t| <C::G as Group>::random(t as &mut dyn RngCore)];
                let Some(g) = draw::<C::G>(r, C::NAME, &hs[i], i, &ways, &xyz) else { return };
                let a = draw::<C::Aff>(r, &format!("{}Affine", C::NAME), &hs[i], i, &[&|t| C::aff_random(t)], &|a| format!("{:?}", C::aff_r(a)).into_bytes());
                let (x, y, z) = C::get(&g);
                for c in [x, y, z] {
                    let raw = c.to_raw_bytes();
                    let ok = raw.chunks(C::Bf::BLIMBS * 8).all(|c| BigUint::from_bytes_le(c) < p);
                    r.check(ok, || key("reduced"), || format!("{}::random: a coordinate is not reduced on {:02x?}", C::NAME, hs[i]));
                }
                let both = [Some(C::proj_r(&g)), a.map(|a| Ok(C::aff_r(&a)))];
                for (w, q) in both.iter().enumerate().filter_map(|(w, q)| q.as_ref().map(|q| (w, q))) {
                    let q = match q {
                        Ok(q) => q,
                        Err(e) => {
                            r.violation(key("point"), format!("{}::random on {:02x?}: {e}", C::NAME, hs[i]));
                            continue;
                        }
                    };
                    r.check(ec.on(q), || key("curve"), || format!("{}::random (form {w}) is off the curve: {q:?} on {:02x?}", C::NAME, hs[i]));
                    if C::TINY || !C::cofactor().is_one() && w == 0 || i % 7 == 0 {
                        r.check(ec.mul(&C::r(), q).is_none(), || key("subgroup"), || format!("{}::random (form {w}) is outside the prime-order subgroup: {q:?} on {:02x?}", C::NAME, hs[i]));
                    }
                    if C::TINY || i < xs.len() * signs.len() && on[i / signs.len()] {
                        seen.lock().unwrap().insert(q.clone());
                    }
                }
            });
            let seen = seen.lock().unwrap();
            if C::TINY {
                let n = BigUint::from(seen.iter().filter(|p| p.is_some()).count());
                r.check(n == C::r() - 1u32, || format!("reach:{}|", C::NAME), || format!("{}::random reaches {n} of the {} points of the subgroup but the identity", C::NAME, C::r() - 1u32));
            }
            // both signs over each abscissa that came up from the single draws
            for q in seen.iter() {
                if q.is_some() {
                    r.outcome("sign pairs", 1);
                    r.check(seen.contains(&ec.neg(q)), || format!("sign:{}|{q:?}", C::NAME), || format!("{}::random: {q:?} comes up over six sign words, its negative never", C::NAME));
                }
            }
        });
    }
}

struct Targets<'a>(&'a Rep);
impl PairFn for Targets<'_> {
    fn call<E: PE>(&self) {
        let rep = self.0;
        rep.section(&format!("target:{}", E::NAME), || {
            type B<E> = <<E as PE>::T as HT>::Base;
            let p = B::<E>::p();
            let limbs = <B<E> as HF>::LIMBS;
            let mut hs = coeff_words(&p, limbs, 12, rep.pick(60, 1000));
            let zero = vec![0u8; limbs * 16 * 12];
            // a zero draw, then another
            for h in hs.clone().iter().take(8) {
                hs.push([&zero[..], &h[..]].concat());
                hs.push([&zero[..], &zero[..], &h[..]].concat());
            }
            for b in [0u8, 1, 0x80, 0xff] {
                for n in [1, limbs * 16, limbs * 16 * 6, limbs * 16 * 12, limbs * 16 * 13] {
                    hs.push(vec![b; n]);
                }
            }
            rep.val(hs.len());
            let r = Fr::<E>::p();
            rep.par(hs.len(), |i| {
                if rep.quick() && i % 3 != 0 && i < hs.len() - 40 {
                    return;
                }
                let raw = |g: &E::Gt| raw_of(&E::raw(g));
                let Some(g) = draw::<E::Gt>(rep, &format!("{}::Gt", E::NAME), &hs[i], i, &[&|t| <E::Gt as Group>::random(&mut *t)], &raw) else { return };
                let x = E::raw(&g);
                let ok = x.flat().iter().all(|c| HF::raw(c) < p);
                rep.check(ok, || format!("reduced:{}|{i}", E::NAME), || format!("{}::Gt::random: a coefficient not below p", E::NAME));
                let one = <E::T as Field>::ONE;
                rep.check(power(&x, &r) == one, || format!("order:{}|stream {i}", E::NAME), || format!("{}::Gt::random is outside the target group on {:02x?}", E::NAME, hs[i]));
            });
        });
    }
}

fn main() {
    run("C26", |r| {
        each_tiny_field(&Fields(r));
        each_odd_field(&Fields(r));
        each_real_field(&Fields(r));
        each_tiny_tower(&Towers(r));
        each_real_tower(&Towers(r));
        each_tiny_curve(&Curves(r));
        each_real_curve(&Curves(r));
        each_engine(&Targets(r));
    });
}
