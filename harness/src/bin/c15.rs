//! C15: raw (in-memory) serialization.
use halo2curves::serde::SerdeObject;
use hv::*;
use std::io::ErrorKind;

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
/// write through every writer, read back through every reader; exactly the object's bytes are used
fn trip<T: SerdeObject + PartialEq>(r: &Rep, x: &T, want: &[u8], same: &dyn Fn(&T) -> bool, key: &str) {
    let k = |n: &str| format!("{n}:{key}");
    r.st(1);
    r.tr(7);
    r.val(1);
    let b = x.to_raw_bytes();
    r.check(b == want, || k("to_raw_bytes"), || format!("{} instead of {}", hex(&b), hex(want)));
    let mut w = vec![0xee];
    r.check(x.write_raw(&mut w).is_ok() && w[1..] == *want, || k("write_raw"), || hex(&w));
    let f = T::from_raw_bytes(want);
    r.check(f.as_ref().map_or(false, |y| same(y)), || k("from_raw_bytes"), || "rejected or changed".into());
    r.check(same(&T::from_raw_bytes_unchecked(want)), || k("from_raw_bytes_unchecked"), || "changed".into());
    // two objects and a tail in one stream
    let s = [want, want, &[0x5a, 0x5b]].concat();
    let mut c = std::io::Cursor::new(&s);
    let v = [T::read_raw(&mut c).ok(), T::read_raw(&mut c).ok()];
    r.check(
        v.iter().all(|v| v.as_ref().map_or(false, |y| same(y))) && c.position() as usize == 2 * want.len(),
        || k("read_raw"),
        || format!("position {} after two objects of {} bytes", c.position(), want.len()),
    );
    let mut c = std::io::Cursor::new(&s);
    let v = [T::read_raw_unchecked(&mut c), T::read_raw_unchecked(&mut c)];
    r.check(
        v.iter().all(|y| same(y)) && c.position() as usize == 2 * want.len(),
        || k("read_raw_unchecked"),
        || format!("position {} after two objects of {} bytes", c.position(), want.len()),
    );
}
/// the checked readers on arbitrary bytes of the right length
fn bytes<T: SerdeObject>(r: &Rep, b: &[u8], valid: bool, same: &dyn Fn(&T) -> bool, name: &str) {
    r.st(1);
    r.tr(2);
    let k = |n: &str| format!("{n}:{name}|{}", hex(b));
    let f = T::from_raw_bytes(b);
    r.check(
        f.is_some() == valid && f.as_ref().map_or(true, |y| same(y)),
        || k("accept_slice"),
        || format!("accepted: {}, should be {valid}", f.is_some()),
    );
    let mut c = std::io::Cursor::new(b);
    match T::read_raw(&mut c) {
        Ok(y) => r.check(valid && same(&y) && c.position() as usize == b.len(), || k("accept_stream"), || "accepted from a stream".into()),
        Err(e) => r.check(
            !valid && e.kind() == ErrorKind::InvalidData,
            || k("reject_stream"),
            || format!("{e} ({:?}), valid: {valid}", e.kind()),
        ),
    }
}
/// every other length is refused by the slice reader
fn lengths<T: SerdeObject>(r: &Rep, b: &[u8], name: &str) {
    let long = [b, b, b, b].concat();
    for n in 0..=long.len() {
        if n == b.len() {
            continue;
        }
        r.st(1);
        r.tr(1);
        let got = guard(|| T::from_raw_bytes(&long[..n]).is_some());
        r.check(got == Ok(false), || format!("length:{name}|{n}"), || format!("{n} bytes instead of {}: {got:?}", b.len()));
    }
}
fn raw_bytes(l: &[u64]) -> Vec<u8> {
    l.iter().flat_map(|x| x.to_le_bytes()).collect()
}
struct Pf<'a>(&'a Rep);
impl FieldFn for Pf<'_> {
    fn call<F: HF>(&self) {
        let r = self.0;
        r.section(&format!("field:{}", F::NAME), || {
            let p = F::p();
            let n = F::LIMBS;
            let vals: Vec<BigUint> = if F::TINY && p < BigUint::from(70000u32) {
                (0..u(&p)).map(|x| x.into()).collect()
            } else {
                alphabet(&p, n, &[0, 1, u64::MAX])
            };
            r.par(vals.len(), |i| {
                let x = F::of_raw(&vals[i]);
                trip::<F>(r, &x, &raw_bytes(&limbs(&vals[i], n)), &|y| *y == x && y.raw() == vals[i], &format!("{}|{:x}", F::NAME, vals[i]));
            });
            // every limb vector over boundary letters: accepted exactly when below p
            let pl = limbs(&p, n);
            let big = n > 4;
            let per: Vec<Vec<u64>> = (0..n)
                .map(|i| {
                    let mut v = vec![0, pl[i], pl[i].wrapping_sub(1), u64::MAX];
                    if !big {
                        v.extend([1, pl[i].wrapping_add(1), 1 << 63]);
                    }
                    v.sort();
                    v.dedup();
                    v
                })
                .collect();
            let all: usize = per.iter().map(|v| v.len()).product();
            r.par(per[n - 1].len(), |t| {
                for mut w in 0..all / per[n - 1].len() {
                    let mut l = vec![0; n];
                    l[n - 1] = per[n - 1][t];
                    for (i, c) in per[..n - 1].iter().enumerate() {
                        l[i] = c[w % c.len()];
                        w /= c.len();
                    }
                    let v = of_limbs(&l);
                    bytes::<F>(r, &raw_bytes(&l), v < p, &|y| y.raw() == v, F::NAME);
                }
            });
            if n < 3 && F::TINY {
                // all low values around and beyond the modulus
                for v in 0..r.pick(1u64 << 12, 1 << 17) {
                    let mut l = vec![0; n];
                    l[0] = v;
                    let b = of_limbs(&l);
                    bytes::<F>(r, &raw_bytes(&l), b < p, &|y| y.raw() == b, F::NAME);
                }
            }
            lengths::<F>(r, &raw_bytes(&limbs(&BigUint::one(), n)), F::NAME);
            r.sample(|| format!("{all} limb vectors"));
        });
    }
}
/// pairs of raw integers as an element of a quadratic extension
struct Qf<'a>(&'a Rep);
impl QuadFn for Qf<'_> {
    fn call<T: HT + HB>(&self) {
        let r = self.0;
        r.section(&format!("quad:{}", T::BNAME), || {
            let p = <T::Base as HF>::p();
            let n = <T::Base as HF>::LIMBS;
            let b1 = BigUint::one();
            let top = (&b1 << (64 * n)) - &b1;
            let mut v = vec![BigUint::zero(), b1.clone(), &p - &b1, p.clone(), &p + &b1, top.clone(), &b1 << (64 * n - 1)];
            let lt = letters::<T::Base>();
            v.extend(lt);
            if T::TINY {
                v.extend((0..u(&p)).map(BigUint::from));
            }
            for i in 1..n {
                v.push(&b1 << (64 * i));
                v.push(&p ^ (&b1 << (64 * i)));
                v.push(&p ^ &b1);
            }
            v.sort();
            v.dedup();
            r.par(v.len(), |i| {
                for y in &v {
                    let x = &v[i];
                    let b = [raw_bytes(&limbs(x, n)), raw_bytes(&limbs(y, n))].concat();
                    let valid = x < &p && y < &p;
                    let same = |e: &T| {
                        let f = e.flat();
                        f[0].raw() == *x && f[1].raw() == *y
                    };
                    bytes::<T>(r, &b, valid, &same, <T as HB>::BNAME);
                    if valid {
                        let e = T::of_flat(&[HF::of_raw(x), HF::of_raw(y)]);
                        trip::<T>(r, &e, &b, &|z| *z == e && same(z), &format!("{}|{x:x}|{y:x}", <T as HB>::BNAME));
                    }
                }
            });
            let b = [raw_bytes(&limbs(&b1, n)), raw_bytes(&limbs(&b1, n))].concat();
            lengths::<T>(r, &b, <T as HB>::BNAME);
            r.sample(|| format!("{}^2 pairs of raw integers", v.len()));
        });
    }
}
/// the raw bytes of a coordinate, taken from the field's own writer (decided above)
fn rb<B: HB>(x: &B) -> Vec<u8> {
    x.to_raw_bytes()
}
fn aff_trip<C: HC>(r: &Rep, p: &Pt<<C::Bf as HB>::R>) {
    let a = C::aff(p);
    let (x, y) = C::aget(&a);
    let b = [rb(&x), rb(&y)].concat();
    trip::<C::Aff>(r, &a, &b, &|q| C::aget(q) == (x, y), &format!("{}|affine|{p:?}", C::NAME));
}
fn proj_trip<C: HC>(r: &Rep, p: &Pt<<C::Bf as HB>::R>, z: &<<C::Bf as HB>::R as Fld>::E) {
    let g = C::proj(p, z);
    let (x, y, w) = C::get(&g);
    let b = [rb(&x), rb(&y), rb(&w)].concat();
    trip::<C::G>(r, &g, &b, &|q| C::get(q) == (x, y, w), &format!("{}|{p:?}*{z:?}", C::NAME));
}
type E<C> = <<<C as HC>::Bf as HB>::R as Fld>::E;
fn xy<C: HC>(r: &Rep, ec: &Ec<<C::Bf as HB>::R>, x: &E<C>, y: &E<C>) {
    let f = &ec.f;
    let (lx, ly) = (C::Bf::of_r(x), C::Bf::of_r(y));
    let valid = (f.is_zero(x) && f.is_zero(y)) || ec.on(&Some((x.clone(), y.clone())));
    bytes::<C::Aff>(r, &[rb(&lx), rb(&ly)].concat(), valid, &|q| C::aget(q) == (lx, ly), C::NAME);
}
fn xyz<C: HC>(r: &Rep, ec: &Ec<<C::Bf as HB>::R>, x: &E<C>, y: &E<C>, z: &E<C>) {
    let f = &ec.f;
    let (lx, ly, lz) = (C::Bf::of_r(x), C::Bf::of_r(y), C::Bf::of_r(z));
    let valid = match f.inv(z) {
        None => f.is_zero(x) && !f.is_zero(y),
        Some(i) => ec.on(&Some((f.mul(x, &i), f.mul(y, &i)))),
    };
    bytes::<C::G>(r, &[rb(&lx), rb(&ly), rb(&lz)].concat(), valid, &|q| C::get(q) == (lx, ly, lz), C::NAME);
}
/// coordinates that are not reduced, in each position, must be refused
fn unreduced<C: HC>(r: &Rep, p: &Pt<<C::Bf as HB>::R>) {
    let n = 8 * C::Bf::BLIMBS;
    let q = C::Bf::ctx().chr();
    let top = (BigUint::one() << (8 * n)) - BigUint::one();
    let (x, y) = C::aget(&C::aff(p));
    let (px, py, pz) = C::get(&C::proj(p, &C::Bf::ctx().small(2)));
    for (i, b) in [[rb(&x), rb(&y)].concat(), [rb(&px), rb(&py), rb(&pz)].concat()].into_iter().enumerate() {
        for k in 0..b.len() / n {
            let v = BigUint::from_bytes_le(&b[k * n..(k + 1) * n]);
            // the same residue, and values with a high limb out of range
            for w in [&v + &q, q.clone(), &q + 1u32, top.clone()] {
                if w > top {
                    continue;
                }
                let mut m = b.clone();
                m[k * n..(k + 1) * n].copy_from_slice(&le_bytes(&w, n));
                if i == 0 {
                    bytes::<C::Aff>(r, &m, false, &|_| false, C::NAME);
                } else {
                    bytes::<C::G>(r, &m, false, &|_| false, C::NAME);
                }
            }
        }
        if i == 0 {
            lengths::<C::Aff>(r, &b, C::NAME);
        } else {
            lengths::<C::G>(r, &b, C::NAME);
        }
    }
}
struct Tiny<'a>(&'a Rep);
impl CurveFn for Tiny<'_> {
    fn call<C: HC>(&self) {
        let r = self.0;
        let ec = C::ec();
        let f = &ec.f;
        let pts = all_points::<C>();
        let el = all_elems(f);
        r.section(&format!("points:{}", C::NAME), || {
            let zs = scalings::<C>(6);
            r.par(pts.len(), |i| {
                aff_trip::<C>(r, &pts[i]);
                for z in &zs {
                    proj_trip::<C>(r, &pts[i], z);
                }
                if i % 40 == 0 {
                    unreduced::<C>(r, &pts[i]);
                }
            });
            r.sample(|| format!("{} points in {} scalings", pts.len(), zs.len()));
        });
        r.section(&format!("coordinates:{}", C::NAME), || {
            let big = el.len() > 200;
            r.par(el.len(), |i| {
                for (j, y) in el.iter().enumerate() {
                    xy::<C>(r, &ec, &el[i], y);
                    let nz = if big { 1 } else { r.pick(3, el.len()) };
                    for k in 0..nz {
                        xyz::<C>(r, &ec, &el[i], y, &el[(k * (i + j + 1)) % el.len()]);
                    }
                }
            });
            r.sample(|| format!("every (x, y) of {}^2", el.len()));
        });
    }
}
struct Real<'a>(&'a Rep);
impl CurveFn for Real<'_> {
    fn call<C: HC>(&self) {
        let r = self.0;
        let ec = C::ec();
        let f = &ec.f;
        r.section(&format!("points:{}", C::NAME), || {
            let pts = telling_points::<C>(r.pick(12, 40));
            let zs = scalings::<C>(r.pick(4, 6));
            r.par(pts.len(), |i| {
                aff_trip::<C>(r, &pts[i]);
                for z in &zs {
                    proj_trip::<C>(r, &pts[i], z);
                }
                unreduced::<C>(r, &pts[i]);
                let (x, y) = pts[i].clone().unwrap_or((f.zero(), f.zero()));
                for d in [f.zero(), f.one(), f.small(-1), y.clone(), x.clone()] {
                    xy::<C>(r, &ec, &x, &f.add(&y, &d));
                    xy::<C>(r, &ec, &f.add(&x, &d), &y);
                    xy::<C>(r, &ec, &y, &f.add(&x, &d));
                    for z in zs.iter().chain([&f.zero()]) {
                        xyz::<C>(r, &ec, &x, &f.add(&y, &d), z);
                        xyz::<C>(r, &ec, &f.add(&f.mul(&x, z), &d), &f.mul(&y, z), z);
                    }
                }
            });
            let s = [f.zero(), f.one(), f.small(-1), f.small(2)];
            for x in &s {
                for y in &s {
                    xy::<C>(r, &ec, x, y);
                    for z in &s {
                        xyz::<C>(r, &ec, x, y, z);
                    }
                }
            }
            r.sample(|| format!("{:?} and its off-curve neighbours", pts[1]));
        });
    }
}
fn main() {
    run("C15", |r| {
        each_tiny_field(&Pf(r));
        each_odd_field(&Pf(r));
        each_real_field(&Pf(r));
        each_quad(&Qf(r));
        each_tiny_curve(&Tiny(r));
        each_mid_curve(&Real(r));
        each_real_curve(&Real(r));
    });
}
