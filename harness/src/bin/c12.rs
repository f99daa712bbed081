//! C12: affine, projective and Jacobian views of a point.
use ff::Field;
use group::prime::PrimeCurveAffine;
use group::{Curve, Group};
use halo2curves::{CurveAffine, CurveExt};
use hv::*;
use subtle::ConstantTimeEq;

type P<C> = Pt<<<C as HC>::Bf as HB>::R>;
type E<C> = <<<C as HC>::Bf as HB>::R as Fld>::E;

/// every view of the point p scaled by z
fn views<C: HC>(r: &Rep, ec: &Ec<<C::Bf as HB>::R>, p: &P<C>, z: &E<C>) {
    let f = &ec.f;
    let g = C::proj(p, z);
    let a = C::aff(p);
    let key = |n: &str| format!("{n}:{}|{p:?}*{z:?}", C::NAME);
    let mut t = 0;
    let mut ck = |n: &str, ok: bool, d: String| {
        t += 1;
        r.check(ok, || key(n), || d)
    };
    let same = |g: &C::G| C::proj_r(g).as_ref() == Ok(p);
    ck("to_affine", C::aff_r(&g.to_affine()) == *p, format!("{:?}", C::aff_r(&g.to_affine())));
    ck("from_projective", C::aff_r(&C::Aff::from(g)) == *p, String::new());
    ck("to_curve", same(&a.to_curve()), format!("{:?}", C::proj_r(&a.to_curve())));
    ck("from_affine", same(&C::G::from(a)), String::new());
    ck("eq", g == a.to_curve() && a.to_curve() == g && bool::from(g.ct_eq(&a.to_curve())), String::new());
    ck("is_identity", bool::from(g.is_identity()) == p.is_none() && bool::from(a.is_identity()) == p.is_none(), String::new());
    ck("on_curve", bool::from(CurveExt::is_on_curve(&g)) && bool::from(CurveAffine::is_on_curve(&a)), String::new());
    // Jacobian: x = X / Z^2, y = Y / Z^3, and back
    let (jx, jy, jz) = g.jacobian_coordinates();
    let (rx, ry, rz) = (jx.to_r(), jy.to_r(), jz.to_r());
    let back = if f.is_zero(&rz) {
        None
    } else {
        let i = f.inv(&rz).unwrap();
        let i2 = f.sq(&i);
        Some((f.mul(&rx, &i2), f.mul(&ry, &f.mul(&i, &i2))))
    };
    ck("jacobian", back == *p, format!("({rx:?}, {ry:?}, {rz:?})"));
    let n = opt(C::G::new_jacobian(jx, jy, jz));
    ck("new_jacobian(jacobian)", n.map(|n| same(&n)) == Some(true), format!("{:?}", n.map(|n| C::proj_r(&n))));
    // any Jacobian representative of the point
    let (jx, jy, jz) = match p {
        None => (f.sq(z), f.mul(z, &f.sq(z)), f.zero()),
        Some((x, y)) => (f.mul(x, &f.sq(z)), f.mul(y, &f.mul(z, &f.sq(z))), z.clone()),
    };
    let n = opt(C::G::new_jacobian(C::Bf::of_r(&jx), C::Bf::of_r(&jy), C::Bf::of_r(&jz)));
    ck("new_jacobian", n.map(|n| same(&n)) == Some(true), format!("{:?}", n.map(|n| C::proj_r(&n))));
    // coordinates
    let c = opt(a.coordinates());
    match p {
        // the trait says: none for the identity
        None => r.check(c.is_none(), || format!("coordinates:{}|identity", C::NAME), || "coordinates of the identity".into()),
        Some((x, y)) => ck("coordinates", c.map(|c| (c.x().to_r(), c.y().to_r())) == Some((x.clone(), y.clone())), String::new()),
    }
    r.st(1);
    r.tr(t);
}
/// acceptance of arbitrary affine coordinates
fn xy<C: HC>(r: &Rep, ec: &Ec<<C::Bf as HB>::R>, x: &E<C>, y: &E<C>) {
    let f = &ec.f;
    let (lx, ly) = (C::Bf::of_r(x), C::Bf::of_r(y));
    let on = f.sq(y) == ec.rhs(x);
    let id = f.is_zero(x) && f.is_zero(y);
    let key = |n: &str| format!("{n}:{}|{x:?}|{y:?}", C::NAME);
    r.st(1);
    r.tr(2);
    let a = C::axy(lx, ly);
    r.check(bool::from(CurveAffine::is_on_curve(&a)) == (on || id), || key("affine_on_curve"), || format!("should be {}", on || id));
    let v = opt(C::Aff::from_xy(lx, ly));
    r.check(
        v.is_some() == (on || id) && v.map_or(true, |v| v == a),
        || key("from_xy"),
        || format!("acceptance should be {}", on || id),
    );
}
/// acceptance of arbitrary projective and Jacobian triples
fn xyz<C: HC>(r: &Rep, ec: &Ec<<C::Bf as HB>::R>, x: &E<C>, y: &E<C>, z: &E<C>) {
    let f = &ec.f;
    let g = C::xyz(C::Bf::of_r(x), C::Bf::of_r(y), C::Bf::of_r(z));
    let key = |n: &str| format!("{n}:{}|{x:?}|{y:?}|{z:?}", C::NAME);
    r.st(1);
    r.tr(2);
    let want = match f.inv(z) {
        None => f.is_zero(x) && !f.is_zero(y),
        Some(i) => ec.on(&Some((f.mul(x, &i), f.mul(y, &i)))),
    };
    r.check(bool::from(CurveExt::is_on_curve(&g)) == want, || key("proj_on_curve"), || format!("should be {want}"));
    if let Some(i) = f.inv(z) {
        let i2 = f.sq(&i);
        let p = Some((f.mul(x, &i2), f.mul(y, &f.mul(&i, &i2))));
        let got = opt(C::G::new_jacobian(C::Bf::of_r(x), C::Bf::of_r(y), C::Bf::of_r(z)));
        let ok = match got {
            None => !ec.on(&p),
            Some(g) => ec.on(&p) && C::proj_r(&g) == Ok(p),
        };
        r.check(ok, || key("new_jacobian"), || format!("{:?}", got.map(|g| C::proj_r(&g))));
    } else if let Some(g) = opt(C::G::new_jacobian(C::Bf::of_r(x), C::Bf::of_r(y), C::Bf::of_r(z))) {
        // whatever is accepted at infinity is the identity
        r.check(C::proj_r(&g) == Ok(None), || key("new_jacobian"), || format!("{:?}", C::proj_r(&g)));
    }
}
/// equality of every pair of representatives
fn equal<C: HC>(r: &Rep, p: &P<C>, zp: &E<C>, q: &P<C>, zq: &E<C>) {
    let (g, h) = (C::proj(p, zp), C::proj(q, zq));
    r.st(1);
    r.tr(2);
    let eq = p == q;
    r.check(
        (g == h) == eq && bool::from(g.ct_eq(&h)) == eq,
        || format!("eq:{}|{p:?}*{zp:?}|{q:?}*{zq:?}", C::NAME),
        || format!("equality should be {eq}"),
    );
    r.check(
        (C::aff(p) == C::aff(q)) == eq && bool::from(C::aff(p).ct_eq(&C::aff(q))) == eq,
        || format!("eq:{}|affine|{p:?}|{q:?}", C::NAME),
        || format!("equality should be {eq}"),
    );
}
/// batch normalisation of every word over the given points
fn batches<C: HC>(r: &Rep, pts: &[P<C>], zs: &[E<C>], len: usize, cyc: &[usize]) {
    let run = |w: &[usize]| {
        let v: Vec<C::G> = w.iter().enumerate().map(|(i, j)| C::proj(&pts[*j], &zs[(i + j) % zs.len()])).collect();
        // stale contents of the output must not matter
        let mut out = vec![C::aff(&pts[1]); v.len()];
        C::G::batch_normalize(&v, &mut out);
        r.st(1);
        r.tr(v.len());
        r.val(1);
        let ok = out.iter().zip(w).all(|(a, j)| C::aff_r(a) == pts[*j]) && out.iter().zip(&v).all(|(a, g)| *a == g.to_affine());
        r.check(ok, || format!("batch:{}|{w:?}", C::NAME), || format!("{:?}", out.iter().map(|a| C::aff_r(a)).collect::<Vec<_>>()));
    };
    for n in 0..=len {
        for w in words(pts.len(), n) {
            run(&w);
        }
    }
    for n in cyc {
        // long slices, identities at the ends, in the middle, everywhere
        for k in 0..pts.len() {
            let w: Vec<usize> = (0..*n).map(|i| (i * i + k) % pts.len()).collect();
            run(&w);
            run(&vec![k; *n]);
        }
    }
    // lengths must agree
    for (a, b) in [(0usize, 1usize), (1, 0), (2, 3), (3, 2)] {
        let v = vec![C::proj(&pts[1], &zs[0]); a];
        let mut out = vec![C::Aff::identity(); b];
        r.st(1);
        r.tr(1);
        r.check(panics(|| C::G::batch_normalize(&v, &mut out)), || format!("batch_len:{}|{a}|{b}", C::NAME), || "length mismatch accepted".into());
    }
}
struct Tiny<'a>(&'a Rep);
impl CurveFn for Tiny<'_> {
    fn call<C: HC>(&self) {
        let r = self.0;
        let ec = C::ec();
        let f = &ec.f;
        let pts = all_points::<C>();
        let el = all_elems(f);
        let zs: Vec<E<C>> = el.iter().filter(|z| !f.is_zero(z)).cloned().collect();
        let big = pts.len() > 500;
        r.section(&format!("views:{}", C::NAME), || {
            let st = if big && r.quick() { 5 } else { 1 };
            r.par(pts.len(), |i| {
                for (j, z) in zs.iter().enumerate() {
                    if (i + j) % st == 0 {
                        views::<C>(r, &ec, &pts[i], z);
                    }
                }
            });
            r.sample(|| format!("every scaling of {} points", pts.len()));
        });
        r.section(&format!("accept:{}", C::NAME), || {
            r.par(el.len(), |i| {
                for y in &el {
                    xy::<C>(r, &ec, &el[i], y);
                }
                if !big {
                    for y in &el {
                        // every triple (thorough), or every pair with a third of the scalings
                        for (j, z) in el.iter().enumerate() {
                            if r.quick() && j > 1 && (i + j) % 8 != 0 {
                                continue;
                            }
                            xyz::<C>(r, &ec, &el[i], y, z);
                        }
                    }
                } else {
                    for (j, y) in el.iter().enumerate() {
                        for z in [&el[0], &el[1], &el[(i + j) % el.len()]] {
                            xyz::<C>(r, &ec, &el[i], y, z);
                        }
                    }
                }
            });
            r.sample(|| format!("every (x, y) of {}^2", el.len()));
        });
        r.section(&format!("equality:{}", C::NAME), || {
            let sc = scalings::<C>(r.pick(2, 5));
            r.par(pts.len(), |i| {
                for q in &pts {
                    for z in &sc {
                        for w in &sc {
                            equal::<C>(r, &pts[i], z, q, w);
                        }
                    }
                }
            });
            r.sample(|| "every pair of points and scalings".into());
        });
        r.section(&format!("batch:{}", C::NAME), || {
            let g = C::gen_r();
            let p = vec![None, g.clone(), ec.neg(&g), ec.add(&g, &g)];
            batches::<C>(r, &p, &scalings::<C>(4), r.pick(5, 7), &[16, 33, 64, 100]);
            r.sample(|| "every slice over {O, G, -G, 2G}".into());
        });
    }
}
struct Real<'a>(&'a Rep);
impl CurveFn for Real<'_> {
    fn call<C: HC>(&self) {
        let r = self.0;
        let ec = C::ec();
        let f = &ec.f;
        r.section(&format!("points:{}", C::NAME), || {
            let pts = telling_points::<C>(r.pick(8, 24));
            let zs = scalings::<C>(r.pick(4, 6));
            r.par(pts.len(), |i| {
                for z in &zs {
                    views::<C>(r, &ec, &pts[i], z);
                    for q in &pts {
                        for w in &zs {
                            equal::<C>(r, &pts[i], z, q, w);
                        }
                    }
                }
                // off-curve neighbours of points and degenerate triples
                if let Some((x, y)) = &pts[i] {
                    for d in [f.zero(), f.one(), f.small(-1), y.clone(), f.neg(y)] {
                        xy::<C>(r, &ec, x, &f.add(y, &d));
                        xy::<C>(r, &ec, &f.add(x, &d), y);
                        for z in zs.iter().chain([&f.zero()]) {
                            xyz::<C>(r, &ec, x, &f.add(y, &d), z);
                            xyz::<C>(r, &ec, &f.mul(x, z), &f.add(&f.mul(y, z), &d), z);
                        }
                    }
                }
            });
            for x in [f.zero(), f.one(), f.small(-1)] {
                for y in [f.zero(), f.one(), f.small(-1)] {
                    xy::<C>(r, &ec, &x, &y);
                    for z in [f.zero(), f.one(), f.small(-1)] {
                        xyz::<C>(r, &ec, &x, &y, &z);
                    }
                }
            }
            let g = C::gen_r();
            let p = vec![None, g.clone(), ec.add(&g, &g)];
            batches::<C>(r, &p, &zs, 4, &[64]);
            r.check(
                C::proj_r(&C::G::default()) == Ok(None) && C::aff_r(&C::Aff::default()) == None,
                || format!("default:{}", C::NAME),
                || "the default point is not the identity".into(),
            );
            let one = <C::Bf as Field>::ONE;
            r.check(C::G::a().to_r() == ec.a && C::G::b().to_r() == ec.b && C::Aff::a() == C::G::a() && C::Aff::b() == C::G::b() && one.to_r() == f.one(), || format!("ab:{}", C::NAME), || "curve constants".into());
            r.sample(|| format!("views of {:?}", pts[1]));
        });
    }
}
fn main() {
    run("C12", |r| {
        each_tiny_curve(&Tiny(r));
        each_mid_curve(&Real(r));
        each_real_curve(&Real(r));
    });
}
