//! C25: cofactor clearing and subgroup membership.
use hv::*;

/// Prime factors of the cofactors (checked at run time); what is left is treated as one factor.
fn factors(name: &str) -> Vec<BigUint> {
    let l: &[u64] = match name {
        "bn256::G2" => &[10069, 5864401, 1875725156269],
        "bls12381::G1" => &[3, 11, 10177, 859267, 52437899],
        "bls12381::G2" => &[13, 23, 2713, 11953, 262069],
        "pluto_eris::G2" => &[13, 73, 143653, 1426393, 79562281],
        _ => &[],
    };
    l.iter().map(|x| BigUint::from(*x)).collect()
}

/// the cube-root-of-unity map of a curve with a = 0
fn phi<F: Fld>(ec: &Ec<F>, p: &Pt<F>, zeta: &F::E) -> Pt<F> {
    p.as_ref().map(|(x, y)| (ec.f.mul(x, zeta), y.clone()))
}
fn zeta<F: Fld>(f: &F) -> F::E {
    let e: BigUint = (f.size() - 1u32) / 3u32;
    let mut c = vec![BigUint::one(); f.deg()];
    loop {
        c[0] += 1u32;
        let z = f.pow(&f.of_coeffs(&c), &e);
        if z != f.one() {
            return z;
        }
    }
}
/// roots of X^2 + X + 1 modulo l
fn omegas(l: &BigUint) -> Vec<BigUint> {
    let three = BigUint::from(3u32);
    if *l == three {
        return vec![BigUint::one()];
    }
    if l % 3u32 != BigUint::one() {
        return vec![];
    }
    let e: BigUint = (l - 1u32) / 3u32;
    let mut g = BigUint::from(2u32);
    loop {
        let w = g.modpow(&e, l);
        if !w.is_one() {
            return vec![w.clone(), &w * &w % l];
        }
        g += 1u32;
    }
}

/// Points of the whole group, each with its description: for every prime power of the cofactor
/// points of its Sylow group and of prime order, in small groups all of them, elsewhere multiples
/// and eigenvectors of the cube-root-of-unity map, and points of full cofactor torsion.
fn torsion<C: HC>(r: &Rep) -> Vec<(String, Pt<<C::Bf as HB>::R>)> {
    let ec = C::ec();
    let f = &ec.f;
    let h = C::cofactor();
    let n = &h * C::r();
    let mut v = vec![];
    if h.is_one() {
        return v;
    }
    let lifts: Vec<Pt<<C::Bf as HB>::R>> = {
        let mut l = vec![];
        let mut i = 1u32;
        while l.len() < r.pick(4, 8) {
            let mut c = vec![BigUint::from(i); f.deg()];
            if f.deg() == 2 {
                c[0] = (i / 2).into();
            }
            l.extend(ec.lift(&f.of_coeffs(&c)).into_iter().take(1));
            i += 1;
        }
        l
    };
    let zt = zeta(f);
    let mut ls = factors(C::NAME);
    let mut rest = h.clone();
    for l in &ls {
        while (&rest % l).is_zero() {
            rest /= l;
        }
    }
    if !rest.is_one() {
        ls.push(rest.clone());
    }
    for l in &ls {
        let mut m = n.clone();
        let mut e = 0;
        while (&m % l).is_zero() {
            m /= l;
            e += 1;
        }
        if e == 0 {
            r.engine_error(format!("{l} does not divide the cofactor of {}", C::NAME));
            continue;
        }
        let sylow = pmap(lifts.len(), |i| ec.mul(&m, &lifts[i]));
        // order-l points
        let mut gens = vec![];
        for t in &sylow {
            if t.is_none() {
                continue;
            }
            v.push((format!("{l}-primary"), t.clone()));
            let mut t = t.clone();
            loop {
                let n = ec.mul(l, &t);
                if n.is_none() {
                    break;
                }
                t = n;
            }
            gens.push(t);
        }
        if gens.is_empty() {
            r.outcome(&format!("no point of order {l}"), 1);
            continue;
        }
        // two that generate, when l is small enough to tell
        let small = *l < BigUint::from(r.pick(30u32, 100));
        if small {
            let lu = u(l) as usize;
            let line: Vec<_> = (0..lu).scan(None, |a: &mut Pt<<C::Bf as HB>::R>, _| { let c: Pt<<C::Bf as HB>::R> = a.clone(); *a = ec.add(a, &gens[0]); Some(c) }).collect();
            let other = gens.iter().map(|g| g.clone()).chain(gens.iter().map(|g| phi(&ec, g, &zt))).find(|g| !line.contains(g));
            let mut plane = line.clone();
            if let Some(o) = other {
                r.outcome(&format!("{}: all of a rank-2 {l}-torsion", C::NAME), 1);
                let mut t = o.clone();
                for _ in 1..lu {
                    plane.extend(line.iter().map(|p| ec.add(p, &t)));
                    t = ec.add(&t, &o);
                }
            } else {
                r.outcome(&format!("{}: all of a cyclic {l}-torsion", C::NAME), 1);
            }
            v.extend(plane.into_iter().filter(|p| p.is_some()).map(|p| (format!("order {l}"), p)));
        } else {
            let g = &gens[0];
            let mut t = g.clone();
            for k in 1..r.pick(4, 40) {
                v.push((format!("{k} times a point of order {l}"), t.clone()));
                t = ec.add(&t, g);
            }
            v.extend(gens[1..].iter().map(|g| (format!("order {l}"), g.clone())));
        }
        if *l != rest {
            for w in omegas(l) {
                for g in gens.iter().take(3) {
                    let t = ec.add(&phi(&ec, g, &zt), &ec.neg(&ec.mul(&w, g)));
                    if t.is_some() {
                        r.outcome(&format!("{}: eigenvectors of order {l}", C::NAME), 1);
                        v.push((format!("eigenvector of order {l}"), t.clone()));
                        v.push((format!("eigenvector of order {l}"), phi(&ec, &ec.neg(&t), &zt)));
                    }
                }
            }
        }
    }
    // everything but the subgroup
    for p in &lifts {
        let t = ec.mul(&C::r(), p);
        if t.is_some() {
            v.push(("cofactor torsion".into(), t.clone()));
            v.push(("cofactor torsion".into(), ec.add(&t, &t)));
        }
    }
    // sums over two primes
    let k = v.len();
    for i in 0..r.pick(40, 400) {
        let (a, b) = (&v[(i * 7 + 1) % k], &v[(i * 13 + 5) % k]);
        let t = ec.add(&a.1, &b.1);
        if t.is_some() {
            v.push((format!("{} + {}", a.0, b.0), t));
        }
    }
    v
}

struct All<'a>(&'a Rep);
impl CurveFn for All<'_> {
    fn call<C: HC>(&self) {
        use halo2curves::group::cofactor::CofactorGroup;
        let rep = self.0;
        rep.section(C::NAME, || {
            let ec = C::ec();
            let f = &ec.f;
            let g = C::gen_r();
            let r = C::r();
            let zero = vec![(String::new(), None)];
            let tors: Vec<_> = zero.into_iter().chain(torsion::<C>(rep)).collect();
            // points of the subgroup, as multiples of the generator
            let mut ks: Vec<BigUint> = (0..rep.pick(4u32, 12)).map(BigUint::from).collect();
            ks.extend([&r - 1u32, &r - 2u32, &r >> 1, (&r >> 1) + 1u32, (BigUint::one() << 64) % &r, (BigUint::one() << 128) % &r]);
            ks.extend(omegas(&r));
            let subs = pmap(ks.len(), |i| ec.mul(&ks[i], &g));
            rep.val(tors.len() + subs.len());
            let zs = scalings::<C>(3);
            let clear_g = CofactorGroup::clear_cofactor(&C::proj(&g, &f.one()));
            let Ok(clear_g) = sub_r::<C>(&clear_g) else { return rep.violation(format!("clear:{}|generator", C::NAME), format!("{}: clear_cofactor of the generator is no point", C::NAME)) };
            rep.check(clear_g.is_some(), || format!("clear:{}|generator", C::NAME), || format!("{}: clear_cofactor of the generator is the identity", C::NAME));
            rep.check(ec.on(&clear_g) && ec.mul(&r, &clear_g).is_none(), || format!("clear:{}|generator", C::NAME), || format!("{}: clear_cofactor of the generator is outside the subgroup", C::NAME));
            let clears = pmap(ks.len(), |i| ec.mul(&ks[i], &clear_g));
            let check = |tn: &str, t: &Pt<<C::Bf as HB>::R>, s: usize, zi: usize| {
                let p = ec.add(t, &subs[s]);
                let lib = C::proj(&p, &zs[zi % zs.len()]);
                let key = |w: &str| format!("{w}:{}|{} G + {tn} {p:?}", C::NAME, ks[s]);
                let say = || format!("{}: {} G + T, T {} = {t:?}", C::NAME, ks[s], if t.is_none() { "the identity" } else { tn });
                rep.st(1);
                rep.tr(3);
                if s == 0 || s == 3 {
                    rep.sample(|| format!("{}, {p:?}", say()));
                }
                let free = t.is_none();
                rep.outcome(if free { "in the subgroup" } else { "outside" }, 1);
                let got = guard(|| bool::from(CofactorGroup::is_torsion_free(&lib)));
                rep.check(got == Ok(free), || key("is_torsion_free"), || format!("{}: is_torsion_free {got:?}", say()));
                let got = guard(|| Option::<<C::G as CofactorGroup>::Subgroup>::from(CofactorGroup::into_subgroup(lib)).map(|p| sub_r::<C>(&p)));
                rep.check(got == Ok(if free { Some(Ok(p.clone())) } else { None }), || key("into_subgroup"), || format!("{}: into_subgroup {got:?}", say()));
                let got = guard(|| sub_r::<C>(&CofactorGroup::clear_cofactor(&lib)));
                rep.check(matches!(&got, Ok(Ok(q)) if *q == clears[s]), || key("clear_cofactor"), || format!("{}: clear_cofactor gives {got:?}, {} times that of G is {:?}", say(), ks[s], clears[s]));
            };
            rep.par(tors.len(), |i| {
                for s in 0..subs.len() {
                    if i == 0 || s < rep.pick(2, 6) || (i + s) % rep.pick(4, 1) == 0 {
                        check(&tors[i].0, &tors[i].1, s, i + s);
                        if i == 0 {
                            check("", &None, s, s + 1);
                        }
                    }
                }
            });
        });
    }
}
/// Subgroups are the curve's own type for every curve of the library.
fn sub_r<C: HC>(p: &<C::G as halo2curves::group::cofactor::CofactorGroup>::Subgroup) -> Result<Pt<<C::Bf as HB>::R>, String> {
    let any: &dyn std::any::Any = p;
    C::proj_r(any.downcast_ref::<C::G>().expect("the subgroup type"))
}

fn main() {
    run("C25", |r| {
        each_real_curve(&All(r));
    });
}
