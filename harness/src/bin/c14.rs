//! C14: uncompressed point encodings.
use group::prime::PrimeCurveAffine;
use group::UncompressedEncoding;
use hv::*;

type P<C> = Pt<<<C as HC>::Bf as HB>::R>;

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
/// integers of the coefficients in an encoding of one coordinate
fn ints<C: HC>(b: &[u8]) -> Vec<BigUint> {
    let n = b.len() / C::Bf::ctx().deg();
    let mut v: Vec<BigUint> =
        b.chunks(n).map(|c| if C::Bf::big_endian() { BigUint::from_bytes_be(c) } else { BigUint::from_bytes_le(c) }).collect();
    if rev::<C>() {
        v.reverse();
    }
    v
}
fn bytes<C: HC>(v: &[BigUint]) -> Vec<u8> {
    let n = C::Bf::BSIZE / v.len();
    let mut v = v.to_vec();
    if rev::<C>() {
        v.reverse();
    }
    v.iter()
        .flat_map(|x| {
            let mut b = le_bytes(x, n);
            if C::Bf::big_endian() {
                b.reverse();
            }
            b
        })
        .collect()
}
/// big-endian extension encodings lead with the highest coefficient (decided by C04)
fn rev<C: HC>() -> bool {
    let f = C::Bf::ctx();
    if f.deg() == 1 || !C::Bf::big_endian() {
        return false;
    }
    let mut c = vec![BigUint::zero(); f.deg()];
    c[0] = BigUint::one();
    let b = C::Bf::of_r(&f.of_coeffs(&c)).ebytes();
    let n = b.len() / f.deg();
    b[..n].iter().all(|x| *x == 0)
}
fn encode<C: HC>(ec: &Ec<<C::Bf as HB>::R>, p: &P<C>) -> Vec<u8> {
    let f = &ec.f;
    let (x, y) = p.clone().unwrap_or((f.zero(), f.zero()));
    [bytes::<C>(&f.coeffs(&x)), bytes::<C>(&f.coeffs(&y))].concat()
}
/// coordinates when canonical
fn coords<C: HC>(ec: &Ec<<C::Bf as HB>::R>, b: &[u8]) -> Option<P<C>> {
    let f = &ec.f;
    let (x, y) = (ints::<C>(&b[..b.len() / 2]), ints::<C>(&b[b.len() / 2..]));
    if x.iter().chain(&y).any(|v| *v >= f.chr()) {
        return None;
    }
    let (x, y) = (f.of_coeffs(&x), f.of_coeffs(&y));
    Some(if f.is_zero(&x) && f.is_zero(&y) { None } else { Some((x, y)) })
}
fn string<C: HC>(r: &Rep, ec: &Ec<<C::Bf as HB>::R>, b: &[u8]) -> bool {
    let c = coords::<C>(ec, b);
    let want = c.clone().filter(|p| ec.on(p));
    let mut u = <C::Aff as UncompressedEncoding>::Uncompressed::default();
    u.as_mut().copy_from_slice(b);
    let got = opt(C::Aff::from_uncompressed(&u));
    r.st(1);
    r.tr(2);
    let g = got.as_ref().map(|a| C::aff_r(a));
    r.check(g == want, || format!("checked:{}|{}", C::NAME, hex(b)), || format!("{} decodes to {g:?} instead of {want:?}", hex(b)));
    if let Some(a) = &got {
        r.tr(1);
        r.check(a.to_uncompressed().as_ref() == b, || format!("reencode:{}|{}", C::NAME, hex(b)), || hex(a.to_uncompressed().as_ref()));
    }
    // the unchecked decoder: no panic, never an element from non-canonical bytes, and the
    // checked answer where there is one
    let un = opt(C::Aff::from_uncompressed_unchecked(&u)).map(|a| C::aff_r(&a));
    let ok = match (&want, &c) {
        (Some(p), _) => un.as_ref() == Some(p),
        (None, Some(p)) => un.is_none() || un.as_ref() == Some(p),
        (None, None) => un.is_none(),
    };
    r.check(ok, || format!("unchecked:{}|{}", C::NAME, hex(b)), || format!("{} decodes to {un:?}, checked gives {want:?}", hex(b)));
    want.is_some()
}
fn point<C: HC>(r: &Rep, ec: &Ec<<C::Bf as HB>::R>, p: &P<C>) {
    let a = C::aff(p);
    let want = encode::<C>(ec, p);
    let e = a.to_uncompressed();
    r.st(1);
    r.tr(2);
    r.val(1);
    r.check(e.as_ref() == want, || format!("encode:{}|{p:?}", C::NAME), || format!("{} instead of {}", hex(e.as_ref()), hex(&want)));
    let d = opt(C::Aff::from_uncompressed(&e)).map(|d| C::aff_r(&d));
    r.check(d.as_ref() == Some(p), || format!("roundtrip:{}|{p:?}", C::NAME), || format!("{d:?}"));
    let d = opt(C::Aff::from_uncompressed_unchecked(&e)).map(|d| C::aff_r(&d));
    r.check(d.as_ref() == Some(p), || format!("roundtrip_unchecked:{}|{p:?}", C::NAME), || format!("{d:?}"));
}
struct Tiny<'a>(&'a Rep);
impl CurveFn for Tiny<'_> {
    fn call<C: HC>(&self) {
        let r = self.0;
        let ec = C::ec();
        let f = &ec.f;
        let pts = all_points::<C>();
        r.section(&format!("points:{}", C::NAME), || {
            r.par(pts.len(), |i| point::<C>(r, &ec, &pts[i]));
            r.check(C::Aff::identity().to_uncompressed().as_ref().iter().all(|b| *b == 0), || format!("identity:{}", C::NAME), || "".into());
            r.sample(|| hex(&encode::<C>(&ec, pts.last().unwrap())));
        });
        r.section(&format!("strings:{}", C::NAME), || {
            let q = u(&f.chr());
            let d = f.deg();
            let vals: Vec<u64> = if d == 1 { (0..256).collect() } else { (0..q + 1).chain([255]).collect() };
            let ws: Vec<Vec<usize>> = words(vals.len(), d).collect();
            let enc = |w: &Vec<usize>| bytes::<C>(&w.iter().map(|j| vals[*j].into()).collect::<Vec<_>>());
            let ok = std::sync::atomic::AtomicUsize::new(0);
            let halves: Vec<Vec<u8>> = ws.iter().map(enc).collect();
            r.par(ws.len(), |i| {
                let n = halves[i].len();
                let mut b = vec![0; 2 * n];
                b[..n].copy_from_slice(&halves[i]);
                for h in &halves {
                    b[n..].copy_from_slice(h);
                    if string::<C>(r, &ec, &b) {
                        ok.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    }
                }
            });
            let ok = ok.into_inner();
            r.check(r.thin() > 1 || ok == pts.len(), || format!("count:{}", C::NAME), || format!("{ok} strings accepted for {} points", pts.len()));
            // valid encodings with one bit flipped, or an identity with one bit set
            r.par(pts.len(), |i| {
                let mut b = encode::<C>(&ec, &pts[i]);
                for j in 0..b.len() * 8 {
                    b[j / 8] ^= 1 << (j % 8);
                    string::<C>(r, &ec, &b);
                    b[j / 8] ^= 1 << (j % 8);
                }
            });
            r.outcome("accepted", ok);
            r.sample(|| format!("every pair of {} coordinate encodings", halves.len()));
        });
    }
}
struct Real<'a>(&'a Rep);
impl CurveFn for Real<'_> {
    fn call<C: HC>(&self) {
        let r = self.0;
        let ec = C::ec();
        let f = &ec.f;
        r.section(&format!("points:{}", C::NAME), || {
            let pts = telling_points::<C>(r.pick(12, 60));
            r.par(pts.len(), |i| {
                point::<C>(r, &ec, &pts[i]);
                // every single-bit change of a valid encoding
                let mut b = encode::<C>(&ec, &pts[i]);
                for j in 0..b.len() * 8 {
                    b[j / 8] ^= 1 << (j % 8);
                    string::<C>(r, &ec, &b);
                    b[j / 8] ^= 1 << (j % 8);
                }
                // each coefficient given as itself plus a multiple of the modulus
                let (x, y) = pts[i].clone().unwrap_or((f.zero(), f.zero()));
                let c = [f.coeffs(&x), f.coeffs(&y)].concat();
                let full = BigUint::one() << (8 * C::Bf::BSIZE / f.deg());
                for k in 0..c.len() {
                    let mut m = c.clone();
                    for _ in 0..8 {
                        m[k] += f.chr();
                        if m[k] >= full {
                            break;
                        }
                        string::<C>(r, &ec, &[bytes::<C>(&m[..c.len() / 2]), bytes::<C>(&m[c.len() / 2..])].concat());
                    }
                }
            });
            r.sample(|| hex(&encode::<C>(&ec, &pts[1])));
        });
        r.section(&format!("strings:{}", C::NAME), || {
            let q = f.chr();
            let d = f.deg();
            let b1 = BigUint::one();
            let full = (&b1 << (8 * C::Bf::BSIZE / d)) - &b1;
            let v = [BigUint::zero(), b1.clone(), &q - &b1, q.clone(), &q + &b1, full.clone(), &full >> 1];
            let n = if d == 1 { v.len() } else { r.pick(5, v.len()) };
            let ws: Vec<Vec<usize>> = words(n, 2 * d).collect();
            r.par(ws.len(), |i| {
                let c: Vec<BigUint> = ws[i].iter().map(|j| v[*j].clone()).collect();
                string::<C>(r, &ec, &[bytes::<C>(&c[..d]), bytes::<C>(&c[d..])].concat());
            });
            r.sample(|| format!("coefficients from {v:x?}"));
        });
    }
}
fn main() {
    run("C14", |r| {
        each_tiny_curve(&Tiny(r));
        each_mid_curve(&Real(r));
        each_real_curve(&Real(r));
    });
}
