//! C18: the endomorphism and the scalar decomposition.
use ff::WithSmallOrderMulGroup;
use hv::*;
use pasta_curves::arithmetic::CurveExt;

/// scalars of 256 bits at which the decomposition is decided
fn scalars(r: &Rep, n: &BigUint, lam: &BigUint) -> Vec<BigUint> {
    let b1 = BigUint::one();
    let mut v: Vec<BigUint> = vec![];
    let near = r.pick(20000u32, 300000);
    for i in 0..near {
        v.push(i.into());
        v.push(n - 1u32 - i);
        v.push((n >> 1) + i);
        v.push((n >> 1) - i);
    }
    for i in 0..256 {
        for d in 0..4u32 {
            v.push((&b1 << i) + d);
            if i > 1 {
                v.push((&b1 << i) - d);
            }
            v.push((n + (&b1 << i)) - d);
        }
    }
    // every limb pattern over boundary limbs
    let l: Vec<u64> = r.pick(
        vec![0, 1, 2, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 0xffff_ffff, 1 << 32, 0xaaaa_aaaa_aaaa_aaaa],
        (0..20).map(|i| [0, u64::MAX, 1 << 63, 1 << 32][i % 4].wrapping_add([0, 1, u64::MAX, 0x5555_5555, 0xaaaa_aaaa_aaaa_aaaa][i / 4])).collect(),
    );
    for w in words(l.len(), 4) {
        v.push(of_limbs(&w.iter().map(|i| l[*i]).collect::<Vec<_>>()));
    }
    // around multiples of lambda, and small combinations a + b * lambda
    let small = r.pick(100u32, 600);
    for a in 0..small {
        for b in 0..small {
            let t = lam * b;
            v.push(&t + a);
            v.push(n * small + a - &t);
            v.push(n * small - a + &t);
        }
    }
    // combinations of boundary halves
    let mut h: Vec<BigUint> = vec![];
    for i in (0..128).step_by(r.pick(3, 1)) {
        h.push(&b1 << i);
        h.push((&b1 << i) - 1u32);
    }
    h.push((&b1 << 127) - 1u32);
    h.push((&b1 << 128) - 1u32);
    for a in &h {
        for b in &h {
            v.push(a + b * lam);
            v.push(n * (&b1 << 128) + a - b * lam);
        }
    }
    // where the rounded quotients k * g / 2^256 step, for the quotients g that any such method
    // uses: g = 2^256 * b / n for a short lattice vector (a, b); j over sums of denominators of
    // the convergents of the ratio, so that both quotients are near their steps
    for (a, b) in lattice(n, lam) {
        for x in [&a, &b] {
            let g: BigUint = ((x << 256u32) + (n >> 1)) / n;
            if g.is_zero() {
                continue;
            }
            let other = if x == &a { &b } else { &a };
            let mut ds = convergents(x, n);
            ds.extend(convergents(x, other));
            ds.extend((0..r.pick(60u32, 400)).map(BigUint::from));
            ds.push(n * &g >> 256u32);
            ds.sort();
            ds.dedup();
            let lim: BigUint = (n * &g >> 256u32) + 1u32;
            for i in 0..ds.len() {
                for j in i..ds.len() {
                        let s = &ds[i] + &ds[j];
                    let d = &ds[j] - &ds[i];
                    for m in [s, d] {
                        if m > lim {
                            continue;
                        }
                        let k = (&m << 256u32) / &g;
                        for e in 0..3u32 {
                            v.push(&k + e);
                        }
                        v.push(n * 2u32 - 1u32 - &k);
                        // and the same with the exact quotient
                        let k = &m * n / x;
                        for e in 0..3u32 {
                            v.push(&k + e);
                        }
                    }
                }
            }
        }
    }
    let mut v: Vec<BigUint> = v.into_iter().map(|x| x % n).collect();
    v.sort();
    v.dedup();
    v
}
/// short vectors (a, |b|) of the lattice { a + b lambda = 0 mod n }, from the Euclidean sequence
fn lattice(n: &BigUint, lam: &BigUint) -> Vec<(BigUint, BigUint)> {
    let (mut r0, mut r1) = (n.clone(), lam.clone());
    let (mut t0, mut t1) = (BigUint::zero(), BigUint::one());
    let mut v = vec![];
    let half = n.bits() / 2;
    while !r1.is_zero() {
        let q = &r0 / &r1;
        let r2 = &r0 - &q * &r1;
        let t2 = &t0 + &q * &t1;
        (r0, r1, t0, t1) = (r1, r2, t1, t2);
        if r0.bits() <= half + 2 && t0.bits() <= half + 2 {
            v.push((r0.clone(), t0.clone()));
        }
    }
    v
}
fn convergents(x: &BigUint, y: &BigUint) -> Vec<BigUint> {
    let (mut a, mut b) = (x.clone(), y.clone());
    let (mut q0, mut q1) = (BigUint::one(), BigUint::zero());
    let mut v = vec![];
    while !b.is_zero() {
        let t = &a / &b;
        let c = &a - &t * &b;
        let q2 = &t * &q1 + &q0;
        (a, b, q0, q1) = (b, c, q1, q2);
        v.push(q1.clone());
    }
    v
}
type Halves = (u128, bool, u128, bool);
fn decompose(r: &Rep, name: &str, n: &BigUint, lam: &BigUint, f: &(dyn Fn(&BigUint) -> Halves + Sync)) {
    r.section(&format!("decompose:{name}"), || {
        let one = BigUint::one();
        r.check(
            lam.modpow(&3u32.into(), n) == one && *lam != one,
            || format!("zeta:{name}"),
            || format!("{lam:x} is not a primitive cube root of unity"),
        );
        let v = scalars(r, n, lam);
        let seen = std::sync::Mutex::new([0usize; 4]);
        let widest = std::sync::atomic::AtomicU64::new(0);
        r.par(64, |t| {
            let mut c = [0; 4];
            for k in v.iter().skip(t).step_by(64) {
                r.st(1);
                r.tr(1);
                r.val(1);
                let (k1, s1, k2, s2): Halves = f(k);
                c[(s1 as usize) * 2 + s2 as usize] += 1;
                // k = (-1)^s1 k1 - (-1)^s2 k2 lambda
                let a = BigUint::from(k1) % n;
                let a = if s1 { n - a } else { a };
                let b = BigUint::from(k2) * lam % n;
                let b = if s2 { b } else { n - b };
                r.check((&a + &b) % n == *k, || format!("recombine:{name}|{k:x}"), || {
                    format!("k = {k:x} decomposes into {}{k1:x}, {}{k2:x}", if s1 { "-" } else { "" }, if s2 { "-" } else { "" })
                });
                widest.fetch_max(k1.max(k2).checked_ilog2().unwrap_or(0) as u64, std::sync::atomic::Ordering::Relaxed);
            }
            let mut s = seen.lock().unwrap();
            for i in 0..4 {
                s[i] += c[i];
            }
        });
        let s = seen.into_inner().unwrap();
        for i in 0..4 {
            r.outcome(&format!("{name} signs {}", ["++", "+-", "-+", "--"][i]), s[i]);
        }
        r.sample(|| format!("{} scalars, halves of up to {} bits", v.len(), widest.into_inner() + 1));
    });
}
fn endo_at<C: HC>(r: &Rep, ec: &Ec<<C::Bf as HB>::R>, p: &P<C>, want: &P<C>, zs: &[E<C>]) {
    for z in zs {
        r.st(1);
        r.tr(1);
        r.val(1);
        let g = C::proj(p, z);
        let e = g.endo();
        let got = C::proj_r(&e);
        r.check(got.as_ref() == Ok(want), || format!("endo:{}|{p:?}*{z:?}", C::NAME), || format!("{got:?} instead of {want:?}"));
        // of the sum, by homomorphism through the library's own group law
        r.check(ec.on(want), || format!("endo_curve:{}|{p:?}", C::NAME), || "reference multiple off the curve".into());
    }
}
/// the multiplier of endo on the subgroup: lambda or its square, decided by the generator
fn pick_lambda<C: HC>(r: &Rep, ec: &Ec<<C::Bf as HB>::R>, exact: bool) -> Option<BigUint> {
    let n = C::r();
    let l1 = C::Sc::ZETA.big();
    let l2 = &l1 * &l1 % &n;
    let g = C::gen_r();
    let got = C::proj_r(&C::proj(&g, &ec.f.one()).endo());
    let cands = if exact { vec![l1] } else { vec![l1, l2] };
    let l = cands.into_iter().find(|l| got.as_ref() == Ok(&ec.mul(l, &g)));
    r.check(l.is_some(), || format!("endo_generator:{}", C::NAME), || format!("endo of the generator is {got:?}, no cube-root multiple"));
    l
}
/// curves with a = 0 over a field with cube roots of unity
fn has_endo<C: HC>() -> bool {
    C::ec().a == C::Bf::ctx().zero() && (C::r() % 3u32).is_one()
}
struct Tiny<'a>(&'a Rep);
impl CurveFn for Tiny<'_> {
    fn call<C: HC>(&self) {
        if !has_endo::<C>() {
            return;
        }
        let r = self.0;
        let ec = C::ec();
        r.section(&format!("endo:{}", C::NAME), || {
            let Some(l) = pick_lambda::<C>(r, &ec, false) else { return };
            let n = C::r();
            let pts: Vec<_> = all_points::<C>().into_iter().filter(|p| ec.mul(&n, p).is_none()).collect();
            let zs: Vec<_> = all_elems(&ec.f).into_iter().filter(|z| !ec.f.is_zero(z)).step_by(if ec.f.deg() > 1 { 37 } else { 1 }).collect();
            r.par(pts.len(), |i| endo_at::<C>(r, &ec, &pts[i], &ec.mul(&l, &pts[i]), &zs));
            r.sample(|| format!("all {} points of the subgroup, {} scalings each", pts.len(), zs.len()));
        });
    }
}
struct Real<'a>(&'a Rep);
impl CurveFn for Real<'_> {
    fn call<C: HC>(&self) {
        if !has_endo::<C>() {
            return;
        }
        let r = self.0;
        let ec = C::ec();
        r.section(&format!("endo:{}", C::NAME), || {
            let exact = ["bn256::G1", "grumpkin::G1", "bls12381::G1", "bls12381::G2"].contains(&C::NAME);
            let Some(l) = pick_lambda::<C>(r, &ec, exact) else { return };
            let h = C::cofactor();
            let mut pts: Vec<_> = telling_points::<C>(r.pick(16, 80)).iter().map(|p| if h.is_one() { p.clone() } else { ec.mul(&h, p) }).collect();
            pts.push(C::gen_r());
            let zs = scalings::<C>(r.pick(4, 9));
            r.par(pts.len(), |i| endo_at::<C>(r, &ec, &pts[i], &ec.mul(&l, &pts[i]), &zs));
            r.sample(|| format!("{} points of the subgroup, {} scalings each", pts.len(), zs.len()));
        });
    }
}
#[cfg(feature = "tiny")]
fn library<C: HC>(r: &Rep)
where
    C::G: halo2curves::verif::CurveEndo,
{
    use halo2curves::verif::CurveEndo;
    let n = C::r();
    let lam = C::Sc::ZETA.big();
    decompose(r, C::NAME, &n, &lam, &|k| C::G::decompose_scalar(&C::Sc::of(k)));
    // and what it is for: k P = +-k1 P -+ k2 endo(P)
    r.section(&format!("glv:{}", C::NAME), || {
        let ec = C::ec();
        let ks: Vec<BigUint> = scalars(r, &n, &lam).into_iter().step_by(r.pick(9973, 997)).collect();
        let g = C::proj(&C::gen_r(), &ec.f.small(2));
        let n128 = |k: u128| C::Sc::of(&(BigUint::from(k) % &n));
        r.par(ks.len(), |i| {
            let k = C::Sc::of(&ks[i]);
            let (k1, s1, k2, s2) = C::G::decompose_scalar(&k);
            let a = g * n128(k1);
            let b = g.endo() * n128(k2);
            let a = if s1 { -a } else { a };
            let got = if s2 { a + b } else { a - b };
            r.st(1);
            r.tr(4);
            r.check(got == g * k, || format!("glv:{}|{:x}", C::NAME, ks[i]), || "recombined multiple differs".into());
        });
        r.sample(|| format!("{} scalars", ks.len()));
    });
}
#[cfg(feature = "tiny")]
macro_rules! pasta {
    ($f:ident, $G:ty, $F:ty, $name:literal) => {
fn $f(r: &Rep) {
    use ff::{Field, PrimeField, WithSmallOrderMulGroup};
    use group::Group;
    use halo2curves::verif::CurveEndo;
    use pasta_curves::arithmetic::CurveExt;
    type G = $G;
    type F = $F;
    let name = $name;
    let of = |k: &BigUint| F::from_repr(le_bytes(k, 32).try_into().unwrap()).unwrap();
    let big = |k: &F| BigUint::from_bytes_le(&k.to_repr());
    let n = big(&-F::ONE) + 1u32;
    let lam = big(&F::ZETA);
    decompose(r, name, &n, &lam, &|k| G::decompose_scalar(&of(k)));
    r.section(&format!("glv:{name}"), || {
        let g = <G as Group>::generator();
        let mut p = g;
        for _ in 0..r.pick(8, 40) {
            r.st(1);
            r.tr(1);
            r.check(p.endo() == p * F::ZETA, || format!("endo:{name}"), || "endo differs from the multiple".into());
            p = p.double() + g;
        }
        let ks: Vec<BigUint> = scalars(r, &n, &lam).into_iter().step_by(r.pick(9973, 997)).collect();
        r.par(ks.len(), |i| {
            let k = of(&ks[i]);
            let (k1, s1, k2, s2) = G::decompose_scalar(&k);
            let a = g * F::from_u128(k1);
            let b = g.endo() * F::from_u128(k2);
            let a = if s1 { -a } else { a };
            let got = if s2 { a + b } else { a - b };
            r.st(1);
            r.tr(4);
            r.check(got == g * k, || format!("glv:{name}|{:x}", ks[i]), || "recombined multiple differs".into());
        });
    });
}
    };
}
#[cfg(feature = "tiny")]
pasta!(pasta_ep, halo2curves::pasta::Ep, halo2curves::pasta::Fq, "pasta::Ep");
#[cfg(feature = "tiny")]
pasta!(pasta_eq, halo2curves::pasta::Eq, halo2curves::pasta::Fp, "pasta::Eq");
fn main() {
    run("C18", |r| {
        #[cfg(feature = "tiny")]
        {
            library::<halo2curves::bn256::G1>(r);
            library::<halo2curves::grumpkin::G1>(r);
            library::<halo2curves::bls12381::G1>(r);
            library::<halo2curves::bls12381::G2>(r);
            pasta_ep(r);
            pasta_eq(r);
        }
        each_tiny_curve(&Tiny(r));
        each_real_curve(&Real(r));
    });
}
