//! C11: scalar multiplication is repeated addition.
use group::Group;
use hv::*;

type P<C> = Pt<<<C as HC>::Bf as HB>::R>;
type Z<C> = <<<C as HC>::Bf as HB>::R as Fld>::E;

fn one<C: HC>(r: &Rep, p: &P<C>, z: &Z<C>, k: &BigUint, want: &P<C>, all: bool) {
    let g = C::proj(p, z);
    let a = C::aff(p);
    let s = C::Sc::of(k);
    r.st(1);
    for (i, v) in C::mul_routes(&g, &a, &s, all).iter().enumerate() {
        r.tr(1);
        let v = C::proj_r(v);
        r.check(
            v.as_ref() == Ok(want),
            || format!("mul:{}|{k:x}|{p:?}*{z:?}|{i}", C::NAME),
            || format!("route {i}: {k:x} * {p:?} = {v:?} instead of {want:?}"),
        );
    }
}
struct Tiny<'a>(&'a Rep);
impl CurveFn for Tiny<'_> {
    fn call<C: HC>(&self) {
        let r = self.0;
        let ec = C::ec();
        let n = u(&C::r());
        r.section(&format!("all:{}", C::NAME), || {
            let pts = all_points::<C>();
            let zs = scalings::<C>(r.pick(2, 6));
            let st = if r.quick() && pts.len() > 500 { 8 } else { 1 };
            r.par(pts.len(), |i| {
                let p = &pts[i];
                let mut want: P<C> = None;
                if i % st != 0 && i > 8 {
                    return;
                }
                for k in 0..n {
                    for (j, z) in zs.iter().enumerate() {
                        one::<C>(r, p, z, &k.into(), &want, j == 1);
                    }
                    want = ec.add(&want, p);
                }
            });
            r.sample(|| format!("k * P for every k < {n} and every one of {} points", pts.len()));
        });
        r.section(&format!("laws:{}", C::NAME), || {
            let g = C::proj(&C::gen_r(), &scalings::<C>(2)[1]);
            let gs: Vec<C::G> = (0..n).map(|k| g * C::Sc::of(&k.into())).collect();
            r.par(n as usize, |k| {
                let sk = C::Sc::of(&k.into());
                for l in 0..n as usize {
                    let sl = C::Sc::of(&l.into());
                    let lg = gs[l];
                    r.st(1);
                    r.tr(3);
                    r.val(1);
                    let ok = g * (sk + sl) == gs[k] + lg && g * (sk * sl) == lg * sk && g * (sk - sl) == gs[k] - lg;
                    r.check(ok, || format!("law:{}|{k}|{l}", C::NAME), || "the action laws fail".into());
                }
                r.check(bool::from((C::G::identity() * sk).is_identity()), || format!("law:{}|{k}|id", C::NAME), || "k * O".into());
            });
            r.sample(|| format!("(k+l)G, (kl)G, (k-l)G for all k, l < {n}"));
        });
    }
}
fn scalars(p: &BigUint, quick: bool) -> Vec<BigUint> {
    let b1 = BigUint::one();
    let n = p.bits();
    let mut v: Vec<BigUint> = (0u32..10).map(|i| i.into()).collect();
    for i in 1u32..5 {
        v.push(p - i);
    }
    v.push(p >> 1);
    v.push((p >> 1) + &b1);
    for i in (1..n).filter(|i| !quick || [1, 63, 64, 65, 127, 128, 129, 255, 256, 319, 320, 383, 384].contains(i) || *i > n - 3) {
        v.push(&b1 << i);
        v.push((&b1 << i) - &b1);
        v.push((&b1 << i) + &b1);
    }
    for b in [&b1 * 0x55u32, &b1 * 0xaau32, &b1 * 0x0fu32] {
        let mut x = BigUint::zero();
        for _ in 0..n / 8 {
            x = (x << 8) + &b;
        }
        v.push(x);
    }
    for x in v.iter_mut() {
        *x %= p;
    }
    v.sort();
    v.dedup();
    v
}
struct Real<'a>(&'a Rep);
impl CurveFn for Real<'_> {
    fn call<C: HC>(&self) {
        let r = self.0;
        let ec = C::ec();
        let p = C::r();
        r.section(&format!("scalars:{}", C::NAME), || {
            let mut pts = telling_points::<C>(r.pick(3, 10));
            if r.quick() {
                // identity, generator, its negative, one point over a small abscissa
                pts.truncate(3);
                pts.extend(telling_points::<C>(8).into_iter().skip(5).take(2));
            }
            let zs = scalings::<C>(2);
            let ks = scalars(&p, r.quick());
            let bits = p.bits() + 1;
            // 2^i * P once per point
            let dbl: Vec<Vec<P<C>>> = {
                let out = std::sync::Mutex::new(vec![vec![]; pts.len()]);
                r.par(pts.len(), |i| {
                    let mut v = vec![pts[i].clone()];
                    for j in 1..bits as usize {
                        v.push(ec.add(&v[j - 1], &v[j - 1]));
                    }
                    out.lock().unwrap()[i] = v;
                });
                out.into_inner().unwrap()
            };
            r.par(pts.len() * ks.len(), |n| {
                let (i, j) = (n % pts.len(), n / pts.len());
                let k = &ks[j];
                // the sparser of k and its complement
                let want = if k.count_ones() * 2 > k.bits() {
                    let c = (BigUint::one() << k.bits()) - k;
                    let s = (0..c.bits()).filter(|b| c.bit(*b)).fold(None, |s, b| ec.add(&s, &dbl[i][b as usize]));
                    ec.add(&dbl[i].get(k.bits() as usize).cloned().unwrap_or_else(|| ec.add(&dbl[i][bits as usize - 1], &dbl[i][bits as usize - 1])), &ec.neg(&s))
                } else {
                    (0..k.bits()).filter(|b| k.bit(*b)).fold(None, |s, b| ec.add(&s, &dbl[i][b as usize]))
                };
                one::<C>(r, &pts[i], &zs[n % zs.len()], k, &want, j % 7 == 0);
            });
            r.sample(|| format!("{:x} * {:?}", ks[ks.len() - 1], pts[1]));
        });
        r.section(&format!("laws:{}", C::NAME), || {
            let g = C::proj(&C::gen_r(), &scalings::<C>(2)[1]);
            let ks = scalars(&p, true);
            let st = r.pick(6, 1);
            let ks: Vec<&BigUint> = ks.iter().step_by(st).collect();
            let gs: Vec<C::G> = ks.iter().map(|k| g * C::Sc::of(k)).collect();
            r.par(ks.len(), |i| {
                for j in 0..=i {
                    let (k, l) = (C::Sc::of(ks[i]), C::Sc::of(ks[j]));
                    r.st(1);
                    r.tr(2);
                    r.val(1);
                    let ok = g * (k + l) == gs[i] + gs[j] && g * (k * l) == gs[j] * k;
                    r.check(ok, || format!("law:{}|{:x}|{:x}", C::NAME, ks[i], ks[j]), || "the action laws fail".into());
                }
            });
            let m = g * (-C::Sc::of(&BigUint::one()));
            r.check(m == -g, || format!("law:{}|-1", C::NAME), || "(r-1) G != -G".into());
            r.sample(|| format!("(k+l)G and (kl)G over {} scalars", ks.len()));
        });
    }
}
fn main() {
    run("C11", |r| {
        each_tiny_curve(&Tiny(r));
        each_real_curve(&Real(r));
    });
}
