//! C01: prime-field arithmetic equals integers modulo p.
use hv::*;
use std::collections::{HashSet, VecDeque};
use std::hash::{Hash, Hasher};

/// Montgomery-domain reference for one field.
struct M {
    p: BigUint,
    r: BigUint,
    rinv: BigUint,
    n: usize,
}
impl M {
    fn new<F: HF>() -> M {
        let p = F::p();
        let r = (BigUint::one() << (64 * F::LIMBS)) % &p;
        let rinv = modinv(&r, &p);
        M { p, r, rinv, n: F::LIMBS }
    }
    fn raw(&self, v: &BigUint) -> BigUint {
        v * &self.r % &self.p
    }
    fn val(&self, raw: &BigUint) -> BigUint {
        raw * &self.rinv % &self.p
    }
    fn mul(&self, a: &BigUint, b: &BigUint) -> BigUint {
        a * b % &self.p * &self.rinv % &self.p
    }
    fn add(&self, a: &BigUint, b: &BigUint) -> BigUint {
        (a + b) % &self.p
    }
    fn neg(&self, a: &BigUint) -> BigUint {
        (&self.p - a) % &self.p
    }
}
fn rawb<F: HF>(x: &F) -> Vec<u8> {
    x.to_raw_bytes()
}
fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// every binary operator in every form on one pair (raw residues)
fn pair<F: HF>(r: &Rep, m: &M, a: &BigUint, b: &BigUint) {
    let (x, y) = (F::of_raw(a), F::of_raw(b));
    let nb = m.n * 8;
    let want = [
        le_bytes(&m.add(a, b), nb),
        le_bytes(&m.add(a, &m.neg(b)), nb),
        le_bytes(&m.mul(a, b), nb),
    ];
    let rr = F::ref_ops(&x, &y);
    let asg = |f: &dyn Fn(&mut F)| {
        let mut t = x;
        f(&mut t);
        t
    };
    let got: [[F; 6]; 3] = [
        [x + y, x + &y, rr[0], rr[3], asg(&|t| *t += y), asg(&|t| *t += &y)],
        [x - y, x - &y, rr[1], rr[4], asg(&|t| *t -= y), asg(&|t| *t -= &y)],
        [x * y, x * &y, rr[2], rr[5], asg(&|t| *t *= y), asg(&|t| *t *= &y)],
    ];
    for (o, name) in ["add", "sub", "mul"].iter().enumerate() {
        for (form, g) in got[o].iter().enumerate() {
            r.check(
                rawb(g) == want[o],
                || format!("{name}.{form}:{}|{:x}|{:x}", F::NAME, a, b),
                || format!("{name} of residues {:x} and {:x} (Montgomery form) gives {:x}", a, b, BigUint::from_bytes_le(&rawb(g))),
            );
        }
    }
    r.check((x == y) == (a == b), || format!("eq:{}|{:x}|{:x}", F::NAME, a, b), || "== disagrees".into());
    r.tr(19);
}
fn unary<F: HF>(r: &Rep, m: &M, a: &BigUint) {
    let x = F::of_raw(a);
    let nb = m.n * 8;
    let sq = m.mul(a, a);
    let want = [
        ("square", x.square(), sq.clone()),
        ("double", x.double(), m.add(a, a)),
        ("neg", -x, m.neg(a)),
        ("cube", x.cube(), m.mul(&sq, a)),
    ];
    for (n, g, w) in want {
        r.check(
            rawb(&g) == le_bytes(&w, nb),
            || format!("{n}:{}|{:x}", F::NAME, a),
            || format!("{n} of residue {:x} gives {:x}, not {:x}", a, BigUint::from_bytes_le(&rawb(&g)), w),
        );
    }
    // equal values reached by different routes are indistinguishable
    let y = x + F::ONE - F::ONE;
    r.check(
        y == x && hash(&y) == hash(&x) && y.to_repr().as_ref() == x.to_repr().as_ref(),
        || format!("canon:{}|{:x}", F::NAME, a),
        || "x+1-1 differs from x in ==, Hash or encoding".into(),
    );
    r.tr(5);
}
fn exps<F: HF>(m: &M, big: bool) -> Vec<Vec<u64>> {
    let mut v: Vec<Vec<u64>> = vec![vec![]];
    for i in 0..17 {
        v.push(vec![i]);
    }
    v.push(vec![u64::MAX]);
    v.push(vec![0, 1]);
    v.push(vec![1 << 63, 1 << 63]);
    let one = BigUint::one();
    for d in 0u32..4 {
        v.push(limbs(&(&m.p - &one - d), m.n));
        v.push(limbs(&(&m.p + d), m.n));
    }
    v.push(vec![u64::MAX; m.n]);
    v.push(vec![0; m.n]);
    v.push({
        let mut w = vec![0; m.n + 2];
        w[m.n + 1] = 5;
        w
    });
    for w in words(2, m.n) {
        v.push(w.iter().map(|i| [0, u64::MAX][*i]).collect());
        v.push(w.iter().map(|i| [0, 0x8000000000000001][*i]).collect());
    }
    let step = if big { 1 } else { 7 };
    for i in (0..64 * m.n).step_by(step) {
        let mut w = vec![0; m.n];
        w[i / 64] = 1 << (i % 64);
        v.push(w);
    }
    v
}
fn pows<F: HF>(r: &Rep, m: &M, bases: &[BigUint], es: &[Vec<u64>]) {
    r.par(bases.len(), |i| {
        let a = &bases[i];
        let x = F::of_raw(a);
        let v = m.val(a);
        for e in es {
            let eb = of_limbs(e);
            let w = le_bytes(&m.raw(&v.modpow(&eb, &m.p)), m.n * 8);
            let k = |n: &str| format!("{n}:{}|{:x}|{:x}", F::NAME, v, eb);
            r.check(rawb(&x.pow(e)) == w, || k("pow"), || "wrong power".into());
            r.check(rawb(&x.pow_vartime(e)) == w, || k("pow_vartime"), || "wrong power".into());
            r.tr(2);
        }
    });
}
fn sums<F: HF>(r: &Rep, m: &M, al: &[BigUint], maxlen: usize) {
    let long = long_words(al.len().min(5), &[127, 128, 129, 255, 256, 257, 1000]);
    for n in 0..=maxlen + 1 {
        let ws: Box<dyn Iterator<Item = Vec<usize>>> = if n > maxlen { Box::new(long.iter().cloned()) } else { Box::new(words(al.len(), n)) };
        for w in ws {
            let xs: Vec<F> = w.iter().map(|i| F::of_raw(&al[*i])).collect();
            let mut s = BigUint::zero();
            let mut p = m.raw(&BigUint::one());
            for i in &w {
                s = m.add(&s, &al[*i]);
                p = m.mul(&p, &al[*i]);
            }
            let (s, p) = (le_bytes(&s, m.n * 8), le_bytes(&p, m.n * 8));
            let k = |n: &str| format!("{n}:{}|{w:?}", F::NAME);
            r.check(rawb(&xs.iter().sum::<F>()) == s, || k("sum.ref"), || "wrong sum".into());
            r.check(rawb(&xs.iter().copied().sum::<F>()) == s, || k("sum.val"), || "wrong sum".into());
            r.check(rawb(&xs.iter().product::<F>()) == p, || k("product.ref"), || "wrong product".into());
            r.check(rawb(&xs.iter().copied().product::<F>()) == p, || k("product.val"), || "wrong product".into());
            r.tr(4);
        }
    }
}
/// Breadth-first search over operation sequences; the model state is the integer.
fn bfs<F: HF>(r: &Rep, m: &M, seeds: &[BigUint], cap: usize) {
    let gens: Vec<BigUint> = {
        let one = BigUint::one();
        let pm = &m.p - &one;
        let mut g = vec![one.clone(), BigUint::from(2u32), BigUint::from(3u32), pm.clone(), pm >> 1];
        g.push(m.raw(&one));
        g.push((BigUint::one() << 64) % &m.p);
        g.into_iter().map(|v| v % &m.p).collect()
    };
    let gf: Vec<F> = gens.iter().map(|g| F::of_raw(g)).collect();
    let mut seen: HashSet<Vec<u8>> = HashSet::new();
    let mut q: VecDeque<(BigUint, F)> = VecDeque::new();
    for s in seeds {
        let f = F::of_raw(s);
        if seen.insert(rawb(&f)) {
            q.push_back((s.clone(), f));
        }
    }
    let mut n = 0;
    while let Some((a, x)) = q.pop_front() {
        n += 1;
        let mut next: Vec<(&str, usize, F, BigUint)> = vec![
            ("square", 0, x.square(), m.mul(&a, &a)),
            ("double", 0, x.double(), m.add(&a, &a)),
            ("neg", 0, -x, m.neg(&a)),
        ];
        for (i, g) in gens.iter().enumerate() {
            next.push(("add", i, x + gf[i], m.add(&a, g)));
            next.push(("sub", i, x - gf[i], m.add(&a, &m.neg(g))));
            next.push(("rsub", i, gf[i] - x, m.add(g, &m.neg(&a))));
            next.push(("mul", i, x * gf[i], m.mul(&a, g)));
        }
        r.tr(next.len());
        for (o, i, y, b) in next {
            let rb = rawb(&y);
            let w = le_bytes(&b, m.n * 8);
            if rb != w {
                r.violation(
                    format!("seq.{o}:{}|{:x}|{i}", F::NAME, a),
                    format!("step {o} #{i} from residue {:x} gives {:x}, not {:x}", a, BigUint::from_bytes_le(&rb), b),
                );
                continue;
            }
            if seen.len() < cap && seen.insert(rb) {
                q.push_back((b, y));
            }
        }
    }
    r.st(n);
    r.val(n);
}

struct Tiny<'a>(&'a Rep);
impl FieldFn for Tiny<'_> {
    fn call<F: HF>(&self) {
        let r = self.0;
        r.section(&format!("all:{}", F::NAME), || {
            let m = M::new::<F>();
            let p = u(&F::p());
            r.par(p as usize, |i| {
                let a = BigUint::from(i);
                unary::<F>(r, &m, &a);
                for j in 0..p {
                    pair::<F>(r, &m, &a, &j.into());
                }
                r.st(p as usize);
                let w: Vec<Vec<u64>> = (0..(2 * p + 2)).map(|e| vec![e]).collect();
                let v = m.val(&a);
                for e in &w {
                    let g = F::of_raw(&a).pow(e);
                    let ww = v.modpow(&of_limbs(e), &m.p);
                    r.check(g.big() == ww, || format!("pow:{}|{v}|{e:?}", F::NAME), || "wrong power".into());
                    r.tr(1);
                }
            });
            pows::<F>(r, &m, &(0..p.min(20)).map(BigUint::from).collect::<Vec<_>>(), &exps::<F>(&m, false));
            let al: Vec<BigUint> = [0, 1, 2, p / 2, p - 2, p - 1].iter().map(|v| BigUint::from(*v)).collect();
            sums::<F>(r, &m, &al, 4);
            r.sample(|| format!("all {p}^2 pairs, e.g. ({} , {})", p - 1, p - 1));
            bfs::<F>(r, &m, &[BigUint::zero()], usize::MAX);
        });
    }
}
struct Real<'a>(&'a Rep);
impl FieldFn for Real<'_> {
    fn call<F: HF>(&self) {
        let r = self.0;
        let m = M::new::<F>();
        let small: &[u64] = &[0, u64::MAX];
        let wide: &[u64] = &[0, 1, 1 << 63, u64::MAX];
        let letters = match (F::LIMBS <= 4, r.quick()) {
            (true, _) => wide,
            (false, true) => small,
            (false, false) => &[0, 1, u64::MAX],
        };
        let al = alphabet(&m.p, F::LIMBS, letters);
        // the pair alphabet is a little narrower in the quick tier
        let pal = if F::LIMBS > 4 { alphabet(&m.p, F::LIMBS, small) } else { al.clone() };
        r.section(&format!("pairs:{}", F::NAME), || {
            r.par(pal.len(), |i| {
                for b in &pal {
                    pair::<F>(r, &m, &pal[i], b);
                }
                r.st(pal.len());
            });
            r.sample(|| format!("({:x}, {:x})", pal[pal.len() / 2], pal[pal.len() - 1]));
        });
        r.section(&format!("derived:{}", F::NAME), || {
            // second operands chosen so that the sum, difference or product hits a target
            let t = alphabet(&m.p, F::LIMBS, &[0, u64::MAX]);
            let t: Vec<BigUint> = if r.quick() {
                t.into_iter().step_by(3).collect()
            } else {
                t
            };
            let mut targets: Vec<BigUint> = vec![];
            let one = BigUint::one();
            for k in 1..=2 * F::LIMBS {
                let b = &one << (32 * k);
                targets.extend([&b - &one, b.clone(), &b + &one]);
            }
            targets.extend([&m.p - &one, m.p.clone(), &m.p + &one, &m.p + &m.p - &one]);
            r.par(al.len(), |i| {
                let a = &al[i];
                for t in &targets {
                    // integer targets for the unreduced sum and difference
                    if t > a && &(t - a) < &m.p {
                        pair::<F>(r, &m, a, &(t - a));
                        r.st(1);
                    }
                    if a + t < m.p {
                        pair::<F>(r, &m, &(a + t), a);
                        pair::<F>(r, &m, a, &(a + t));
                        r.st(2);
                    }
                }
                if !a.is_zero() {
                    let ai = modinv(a, &m.p);
                    for t in &t {
                        // raw product t: b = t * a^-1 * R
                        let b = t * &ai % &m.p * &m.r % &m.p;
                        pair::<F>(r, &m, a, &b);
                        r.st(1);
                    }
                }
            });
        });
        r.section(&format!("unary:{}", F::NAME), || {
            let one = BigUint::one();
            let nb = 64 * F::LIMBS;
            r.par(nb, |i| {
                for j in 0..=i {
                    let v = (&one << i) ^ (&one << j);
                    for v in [&v % &m.p, (&m.p - &v % &m.p) % &m.p] {
                        unary::<F>(r, &m, &v);
                        unary::<F>(r, &m, &m.raw(&v));
                        r.st(2);
                    }
                    let ones = ((&one << (i + 1)) - (&one << j)) % &m.p;
                    unary::<F>(r, &m, &ones);
                    r.st(1);
                }
            });
            r.par(al.len(), |i| unary::<F>(r, &m, &al[i]));
            r.st(al.len());
        });
        r.section(&format!("pow:{}", F::NAME), || {
            let k = r.pick(24, 120);
            let st = (al.len() / k).max(1);
            let mut bases: Vec<BigUint> = al.iter().step_by(st).cloned().collect();
            for v in [0u32, 1, 2] {
                bases.push(m.raw(&v.into()));
            }
            bases.push(&m.p - BigUint::one());
            let e = exps::<F>(&m, !r.quick());
            pows::<F>(r, &m, &bases, &e);
            r.st(bases.len() * e.len());
            let st = (al.len() / 6).max(1);
            let sm: Vec<BigUint> = al.iter().step_by(st).cloned().collect();
            sums::<F>(r, &m, &sm, 4);
        });
        r.section(&format!("sequences:{}", F::NAME), || {
            let st = (al.len() / 16).max(1);
            let seeds: Vec<BigUint> = al.iter().step_by(st).cloned().collect();
            let cap = r.pick(4000, 60000);
            r.par(seeds.len(), |i| bfs::<F>(r, &m, &seeds[i..=i], cap / 4));
            r.sample(|| format!("breadth-first from residue {:x}: +g -g g- *g ^2 2x -x", seeds[seeds.len() / 2]));
        });
    }
}

fn main() {
    run("C01", |r| {
        each_tiny_field(&Tiny(r));
        each_odd_field(&Real(r));
        each_real_field(&Real(r));
    });
}
