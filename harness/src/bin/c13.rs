//! C13: compressed point encodings.
use group::GroupEncoding;
use hv::*;


/// every decoder on one string
fn string<C: HC>(r: &Rep, ec: &Ec<<C::Bf as HB>::R>, b: &[u8], root: &dyn Fn(&E<C>) -> Option<E<C>>) -> bool {
    let want = decode::<C>(ec, b, root);
    let ra = repr::<C::Aff>(b);
    let rg = repr::<C::G>(b);
    r.st(1);
    r.tr(4);
    let a = [opt(C::Aff::from_bytes(&ra)), opt(C::Aff::from_bytes_unchecked(&ra))];
    let g = [opt(C::G::from_bytes(&rg)), opt(C::G::from_bytes_unchecked(&rg))];
    for (i, a) in a.iter().enumerate() {
        let got = a.as_ref().map(|a| C::aff_r(a));
        r.check(got == want, || format!("decode:{}|{}|affine{i}", C::NAME, hex(b)), || format!("{} decodes to {got:?} instead of {want:?}", hex(b)));
        if let Some(a) = a {
            // whatever is accepted is the encoding of what is returned
            r.tr(1);
            r.check(a.to_bytes().as_ref() == b, || format!("reencode:{}|{}", C::NAME, hex(b)), || format!("re-encodes to {}", hex(a.to_bytes().as_ref())));
        }
    }
    for (i, g) in g.iter().enumerate() {
        let got = g.as_ref().map(|g| C::proj_r(g));
        r.check(got == want.clone().map(Ok), || format!("decode:{}|{}|projective{i}", C::NAME, hex(b)), || format!("{} decodes to {got:?} instead of {want:?}", hex(b)));
    }
    want.is_some()
}
/// every encoder on one point, and back
fn point<C: HC>(r: &Rep, ec: &Ec<<C::Bf as HB>::R>, p: &P<C>, zs: &[E<C>]) {
    let want = encode::<C>(ec, p);
    let a = C::aff(p);
    let key = |n: &str| format!("{n}:{}|{p:?}", C::NAME);
    let e = a.to_bytes();
    r.st(1);
    r.tr(2);
    r.val(1);
    r.check(e.as_ref() == want, || key("encode"), || format!("{} instead of {}", hex(e.as_ref()), hex(&want)));
    let d = opt(C::Aff::from_bytes(&e)).map(|d| C::aff_r(&d));
    r.check(d.as_ref() == Some(p), || key("roundtrip"), || format!("{d:?}"));
    for z in zs {
        let e = C::proj(p, z).to_bytes();
        r.tr(2);
        r.check(e.as_ref() == want, || key("encode"), || format!("projective {z:?}: {} instead of {}", hex(e.as_ref()), hex(&want)));
        let d = opt(C::G::from_bytes(&e)).map(|d| C::proj_r(&d));
        r.check(d == Some(Ok(p.clone())), || key("roundtrip"), || format!("projective {z:?}: {d:?}"));
    }
}
struct Tiny<'a>(&'a Rep);
impl CurveFn for Tiny<'_> {
    fn call<C: HC>(&self) {
        let r = self.0;
        let ec = C::ec();
        let f = &ec.f;
        let pts = all_points::<C>();
        let mut roots = std::collections::HashMap::new();
        for p in &pts {
            if let Some((x, y)) = p {
                roots.insert(x.clone(), y.clone());
            }
        }
        let root = |x: &E<C>| roots.get(x).cloned();
        r.section(&format!("points:{}", C::NAME), || {
            let zs = scalings::<C>(3);
            r.par(pts.len(), |i| point::<C>(r, &ec, &pts[i], &zs));
            r.sample(|| hex(&encode::<C>(&ec, pts.last().unwrap())));
        });
        r.section(&format!("strings:{}", C::NAME), || {
            let n = C::comp_size();
            let q = u(&f.chr());
            let d = f.deg();
            // coefficients: every canonical value and every other value of one byte (all of them
            // when the field is prime, the next few and the largest otherwise)
            let vals: Vec<u64> = if d == 1 { (0..256).collect() } else { (0..q + 2).chain([2 * q - 1, 2 * q, 255]).collect() };
            let ws: Vec<Vec<usize>> = words(vals.len(), d).collect();
            let fp = flag_pos::<C>();
            let ok = std::sync::atomic::AtomicUsize::new(0);
            r.par(ws.len(), |i| {
                let c: Vec<BigUint> = ws[i].iter().map(|j| vals[*j].into()).collect();
                let mut b = ints_field::<C>(&c);
                if C::FLAGS == Flags::Extra {
                    b.insert(0, 0);
                }
                let base = b[fp];
                for fl in 0..=255u8 {
                    if d > 1 && r.quick() && fl & 0x1f > 1 && fl & 0x1f != 0x1f {
                        continue;
                    }
                    b[fp] = base ^ fl;
                    if string::<C>(r, &ec, &b, &root) {
                        ok.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    }
                }
                // one stray bit anywhere else
                if d == 1 || i % 11 == 0 {
                    for (id, sg) in [(0, 0), (0, 1), (1, 0), (1, 1)] {
                        let (ib, sb, cm) = bits::<C>();
                        b[fp] = base | (ib * id) | (sb * sg) | cm;
                        for pos in 0..n {
                            for bit in [0u8, 3, 7] {
                                b[pos] ^= 1 << bit;
                                string::<C>(r, &ec, &b, &root);
                                b[pos] ^= 1 << bit;
                            }
                        }
                    }
                }
            });
            let ok = ok.into_inner();
            r.check(r.thin() > 1 || ok == pts.len(), || format!("count:{}", C::NAME), || format!("{ok} valid strings for {} points", pts.len()));
            r.outcome("accepted", ok);
            r.sample(|| format!("every flag byte over every abscissa value; {ok} valid encodings of {} points", pts.len()));
        });
    }
}
struct Real<'a>(&'a Rep);
impl CurveFn for Real<'_> {
    fn call<C: HC>(&self) {
        let r = self.0;
        let ec = C::ec();
        let f = &ec.f;
        r.section(&format!("points:{}", C::NAME), || {
            let mut pts = telling_points::<C>(r.pick(12, 60));
            pts.extend(special::<C>());
            let zs = scalings::<C>(3);
            r.par(pts.len(), |i| point::<C>(r, &ec, &pts[i], &zs));
            r.sample(|| hex(&encode::<C>(&ec, &pts[1])));
        });
        r.section(&format!("strings:{}", C::NAME), || {
            let q = f.chr();
            let d = f.deg();
            let b1 = BigUint::one();
            // integers a coefficient may be given as
            let mut ints: Vec<BigUint> = vec![BigUint::zero(), b1.clone(), &q - &b1, q.clone(), &q + &b1];
            let full = (&b1 << (8 * C::Bf::BSIZE / d)) - &b1;
            ints.extend([full.clone(), &full >> 1, &full >> 2, &full >> 3]);
            for i in 2u32..r.pick(6, 20) {
                ints.push(i.into());
            }
            let mut xs: Vec<Vec<BigUint>> = if d == 1 {
                ints.iter().map(|x| vec![x.clone()]).collect()
            } else {
                words(r.pick(9, ints.len()), d).map(|w| w.iter().map(|i| ints[*i].clone()).collect()).collect()
            };
            for p in telling_points::<C>(r.pick(8, 24)).iter().chain(special::<C>().iter()).flatten() {
                let c = f.coeffs(&p.0);
                // canonical, and each coefficient shifted by the modulus where it fits
                for k in 0..d {
                    let mut m = c.clone();
                    m[k] += &q;
                    if m[k] <= full {
                        xs.push(m);
                    }
                }
                xs.push(c);
            }
            let fp = flag_pos::<C>();
            r.par(xs.len(), |i| {
                let c = &xs[i];
                let mut b = ints_field::<C>(c);
                if C::FLAGS == Flags::Extra {
                    b.insert(0, 0);
                }
                let canon = c.iter().all(|v| *v < q);
                let memo = std::cell::RefCell::new(std::collections::HashMap::new());
                let root = |x: &E<C>| memo.borrow_mut().entry(x.clone()).or_insert_with(|| f.sqrt(&ec.rhs(x))).clone();
                let base = b[fp];
                for fl in 0..=255u8 {
                    // all flag bytes; combinations that only change the abscissa are costly
                    // for the reference and are thinned in the quick tier
                    if C::FLAGS != Flags::Extra && r.quick() && fl & 0x1f != 0 && !(canon && fl & 0x1f == 1) && fl & 0x1f != 0x1f {
                        continue;
                    }
                    b[fp] = base ^ fl;
                    string::<C>(r, &ec, &b, &root);
                }
            });
            r.sample(|| format!("flag bytes over {} abscissas, canonical or not", xs.len()));
        });
    }
}
/// points with a zero or sign-degenerate coordinate, where the curve has any
fn special<C: HC>() -> Vec<P<C>> {
    let ec = C::ec();
    let f = &ec.f;
    let mut v = ec.lift(&f.zero());
    if f.deg() == 2 {
        // y = (0, t): x^3 = y^2 - b for small t (a = 0 on these curves)
        for t in 1u32..40 {
            for pos in [0, 1] {
                let mut c = vec![BigUint::zero(); 2];
                c[pos] = t.into();
                let y = f.of_coeffs(&c);
                let x3 = f.sub(&f.sq(&y), &ec.b);
                if let Some(x) = cbrt(f, &x3) {
                    v.push(Some((x.clone(), y.clone())));
                    v.push(Some((x, f.neg(&y))));
                }
            }
            if v.len() > 8 {
                break;
            }
        }
    }
    for p in &v {
        assert!(ec.on(p));
    }
    v
}
/// a cube root, by the Adleman-Manders-Miller method
fn cbrt<F: Fld>(f: &F, a: &F::E) -> Option<F::E> {
    if f.is_zero(a) {
        return Some(f.zero());
    }
    let b1 = BigUint::one();
    let n = f.size() - &b1;
    let three = BigUint::from(3u32);
    if f.pow(a, &(&n / &three)) != f.one() {
        return None;
    }
    let (mut t, mut s) = (n.clone(), 0);
    while (&t % &three).is_zero() {
        t /= &three;
        s += 1;
    }
    // a non-cube
    let mut c = vec![BigUint::one(); f.deg()];
    let g = loop {
        c[0] += 1u32;
        let g = f.of_coeffs(&c);
        if f.pow(&g, &(&n / &three)) != f.one() {
            break f.pow(&g, &t);
        }
    };
    // a^t lies in the group of order 3^s generated by g = h^t: find its logarithm
    let mut at = f.pow(a, &t);
    let mut log = BigUint::zero();
    let w = f.pow(&g, &three.pow(s - 1));
    for i in 0..s {
        let x = f.pow(&at, &three.pow(s - 1 - i));
        let d = if x == f.one() {
            0u32
        } else if x == w {
            1
        } else {
            2
        };
        let e = three.pow(i) * d;
        at = f.mul(&at, &f.inv(&f.pow(&g, &e)).unwrap());
        log += e;
    }
    // a^t = g^log, log divisible by 3: root r = a^u * g^v with 3u = 1 mod t
    let u = modinv(&(&three % &t), &t);
    let m: BigUint = (&three * &u - &b1) / &t; // 3u = 1 + m t
    let r = f.pow(a, &u); // r^3 = a * (a^t)^m = a g^(m log)
    let e = &m * &log / &three;
    let r = f.mul(&r, &f.inv(&f.pow(&g, &e)).unwrap());
    (f.mul(&f.sq(&r), &r) == *a).then_some(r)
}
fn main() {
    run("C13", |r| {
        each_tiny_curve(&Tiny(r));
        each_mid_curve(&Real(r));
        each_real_curve(&Real(r));
    });
}
