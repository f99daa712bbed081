//! C10: point operations against the chord-and-tangent law.
use group::{Curve, Group};
use hv::*;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

type P<C> = Pt<<<C as HC>::Bf as HB>::R>;
type Z<C> = <<<C as HC>::Bf as HB>::R as Fld>::E;

fn same<C: HC>(r: &Rep, ec: &Ec<<C::Bf as HB>::R>, got: &[C::G], want: &P<C>, op: &str, arg: &dyn Fn() -> String) {
    for (i, g) in got.iter().enumerate() {
        r.tr(1);
        let v = C::proj_r(g);
        let ok = v.as_ref() == Ok(want);
        if !ok {
            r.violation(format!("{op}:{}|{i}|{}", C::NAME, arg()), format!("route {i}: {op} of {} = {v:?} instead of {want:?}", arg()));
        }
    }
    debug_assert!(ec.on(want));
}
/// a triple (X : Y : Z) with its coordinates in the field must satisfy the homogeneous equation
fn unary<C: HC>(r: &Rep, ec: &Ec<<C::Bf as HB>::R>, p: &P<C>, z: &Z<C>) {
    let g = C::proj(p, z);
    let arg = || format!("{p:?}*{z:?}");
    r.st(1);
    let d = ec.add(p, p);
    same::<C>(r, ec, &[g.double(), Group::double(&g), g + g], &d, "double", &arg);
    let (ng, na) = C::negs(&g, &C::aff(p));
    same::<C>(r, ec, &ng, &ec.neg(p), "neg", &arg);
    r.check(na.iter().all(|a| C::aff_r(a) == ec.neg(p)), || format!("neg:{}|affine|{}", C::NAME, arg()), || format!("{na:?}"));
    let id = bool::from(g.is_identity());
    r.tr(2);
    r.check(id == p.is_none(), || format!("is_identity:{}|{}", C::NAME, arg()), || format!("{id}"));
    let a = g.to_affine();
    r.check(C::aff_r(&a) == *p, || format!("to_affine:{}|{}", C::NAME, arg()), || format!("{:?}", C::aff_r(&a)));
    // doubling chains keep unnormalised coordinates
    let (mut x, mut y) = (g, p.clone());
    for _ in 0..3 {
        x = x.double();
        y = ec.add(&y, &y);
    }
    r.val(1);
    same::<C>(r, ec, &[x], &y, "double3", &arg);
}
fn binary<C: HC>(r: &Rep, ec: &Ec<<C::Bf as HB>::R>, p: &P<C>, zp: &Z<C>, q: &P<C>, zq: &Z<C>, all: bool) {
    let (gp, gq) = (C::proj(p, zp), C::proj(q, zq));
    let (ap, aq) = (C::aff(p), C::aff(q));
    let arg = || format!("{p:?}*{zp:?}|{q:?}*{zq:?}");
    r.st(1);
    let [a, s] = C::routes(&gp, &gq, &ap, &aq, all);
    same::<C>(r, ec, &a, &ec.add(p, q), "add", &arg);
    same::<C>(r, ec, &s, &ec.add(p, &ec.neg(q)), "sub", &arg);
    if all {
        // selection and equality
        let eq = p == q;
        r.tr(4);
        r.check((gp == gq) == eq && bool::from(gp.ct_eq(&gq)) == eq, || format!("eq:{}|{}", C::NAME, arg()), || format!("equality should be {eq}"));
        r.check((ap == aq) == eq && bool::from(ap.ct_eq(&aq)) == eq, || format!("eq:{}|{}", C::NAME, arg()), || format!("affine equality should be {eq}"));
        for c in [0u8, 1] {
            let want = if c == 0 { p } else { q };
            let g = <C::G as ConditionallySelectable>::conditional_select(&gp, &gq, Choice::from(c));
            let a = <C::Aff as ConditionallySelectable>::conditional_select(&ap, &aq, Choice::from(c));
            r.check(
                C::proj_r(&g).as_ref() == Ok(want) && C::aff_r(&a) == *want,
                || format!("select:{}|{c}|{}", C::NAME, arg()),
                || "conditional_select".into(),
            );
        }
    }
}
/// sequences of operations on one accumulator
fn histories<C: HC>(r: &Rep, ec: &Ec<<C::Bf as HB>::R>, start: &[P<C>], q: &[P<C>], depth: usize) {
    let z = scalings::<C>(2)[1].clone();
    let nops = 3 + 3 * q.len();
    // operations: double, neg, renormalise, then +Q, +Q (affine), -Q
    r.par(start.len(), |i| {
        for w in words(nops, depth) {
            let mut x = C::proj(&start[i], &z);
            let mut y = start[i].clone();
            for o in &w {
                match o {
                    0 => {
                        x = x.double();
                        y = ec.add(&y, &y);
                    }
                    1 => {
                        x = -x;
                        y = ec.neg(&y);
                    }
                    2 => x = C::G::from(x.to_affine()),
                    o => {
                        let j = (o - 3) / 3;
                        match (o - 3) % 3 {
                            0 => {
                                x += C::proj(&q[j], &z);
                                y = ec.add(&y, &q[j]);
                            }
                            1 => {
                                x += C::aff(&q[j]);
                                y = ec.add(&y, &q[j]);
                            }
                            _ => {
                                x -= C::aff(&q[j]);
                                y = ec.add(&y, &ec.neg(&q[j]));
                            }
                        }
                    }
                }
            }
            r.st(1);
            r.val(1);
            same::<C>(r, ec, &[x], &y, "history", &|| format!("{:?}|{w:?}", start[i]));
        }
    });
}
fn sums<C: HC>(r: &Rep, ec: &Ec<<C::Bf as HB>::R>, pts: &[P<C>], z: &Z<C>, len: usize) {
    let long = long_words(pts.len(), if C::TINY { &[128, 257] } else { &[] });
    for n in 0..=len + 1 {
        let ws: Box<dyn Iterator<Item = Vec<usize>>> = if n > len { Box::new(long.iter().cloned()) } else { Box::new(words(pts.len(), n)) };
        for w in ws {
            let v: Vec<C::G> = w.iter().map(|i| C::proj(&pts[*i], z)).collect();
            let want = w.iter().fold(None, |s, i| ec.add(&s, &pts[*i]));
            r.st(1);
            r.val(1);
            same::<C>(r, ec, &[v.iter().sum(), v.iter().copied().sum(), isum::<C::G>(&v)], &want, "sum", &|| format!("{w:?} of {pts:?}"));
        }
    }
}
struct Tiny<'a>(&'a Rep);
impl CurveFn for Tiny<'_> {
    fn call<C: HC>(&self) {
        let r = self.0;
        let ec = C::ec();
        let pts = all_points::<C>();
        let f = &ec.f;
        let zs: Vec<Z<C>> = all_elems(f).into_iter().filter(|z| !f.is_zero(z)).collect();
        r.section(&format!("representatives:{}", C::NAME), || {
            let st = if r.quick() && pts.len() > 500 { 7 } else { 1 };
            r.par(pts.len(), |i| {
                for (j, z) in zs.iter().enumerate() {
                    if (i + j) % st == 0 {
                        unary::<C>(r, &ec, &pts[i], z);
                    }
                }
            });
            r.sample(|| format!("every ({:?}, scaling)", pts.last().unwrap()));
        });
        r.section(&format!("pairs:{}", C::NAME), || {
            let big = pts.len() > 500;
            let (nz, nq) = match (r.quick(), big) {
                (true, true) => (1, 1),
                (true, false) => (12, 2),
                (false, true) => (6, 2),
                (false, false) => (zs.len(), 6),
            };
            let zp: Vec<&Z<C>> = zs.iter().step_by((zs.len() / nz).max(1)).take(nz.max(1)).collect();
            let sc = scalings::<C>(6);
            r.par(pts.len(), |i| {
                for q in &pts {
                    for z in &zp {
                        for zq in sc.iter().skip(1).take(nq) {
                            binary::<C>(r, &ec, &pts[i], z, q, zq, false);
                        }
                    }
                    if !big || i % 7 == 0 {
                        binary::<C>(r, &ec, &pts[i], &sc[0], q, &sc[0], true);
                        // both operands the same representative or the negated one
                        binary::<C>(r, &ec, &pts[i], &sc[1], q, &sc[1], true);
                    }
                }
            });
            r.sample(|| format!("every pair of {} points, {} x {} scalings", pts.len(), zp.len(), nq));
        });
        r.section(&format!("histories:{}", C::NAME), || {
            let g = C::gen_r();
            let q = [g.clone(), ec.neg(&ec.add(&g, &g))];
            let n = if pts.len() > 500 { 8 } else { 24 };
            let start: Vec<P<C>> = pts.iter().step_by((pts.len() / n).max(1)).cloned().collect();
            histories::<C>(r, &ec, &start, &q, r.pick(4, 6));
            sums::<C>(r, &ec, &[None, g.clone(), ec.neg(&g), ec.add(&g, &g)], &scalings::<C>(2)[1], r.pick(4, 6));
            r.sample(|| "every word of double, neg, renormalise, +-Q".into());
        });
    }
}
struct Real<'a>(&'a Rep);
impl CurveFn for Real<'_> {
    fn call<C: HC>(&self) {
        let r = self.0;
        let ec = C::ec();
        r.section(&format!("points:{}", C::NAME), || {
            let pts = telling_points::<C>(r.pick(8, 24));
            let zs = scalings::<C>(r.pick(3, 6));
            for p in &pts {
                r.check(ec.on(p), || format!("reference:{}", C::NAME), || format!("{p:?}"));
            }
            r.par(pts.len(), |i| {
                for z in &zs {
                    unary::<C>(r, &ec, &pts[i], z);
                    for q in &pts {
                        for zq in &zs {
                            binary::<C>(r, &ec, &pts[i], z, q, zq, z == zq);
                        }
                    }
                }
            });
            r.sample(|| format!("every pair of {} points in {} x {} scalings", pts.len(), zs.len(), zs.len()));
            let g = C::gen_r();
            histories::<C>(r, &ec, &[None, g.clone()], &[g.clone()], r.pick(4, 6));
            sums::<C>(r, &ec, &[None, g.clone(), ec.neg(&g)], &zs[1], 3);
        });
    }
}
fn main() {
    run("C10", |r| {
        each_tiny_curve(&Tiny(r));
        each_mid_curve(&Real(r));
        each_real_curve(&Real(r));
    });
}
