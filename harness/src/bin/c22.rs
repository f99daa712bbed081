//! C22: bilinearity, non-degeneracy and products of the pairings.
//!
//! Arguments are known multiples of the generators, so every result is a known power of
//! e(G1, G2), taken from a table built with the tower's own product.
use hv::*;

struct Ctx<E: PE> {
    r: BigUint,
    gt: Powers<E::T>,
    /// (scalar, point)
    a: Vec<(BigUint, A1<E>)>,
    b: Vec<(BigUint, A2<E>)>,
}
fn multiples<C: HC>(v: &[BigUint]) -> Vec<(BigUint, C::Aff)> {
    let (ec, g) = (C::ec(), C::gen_r());
    pmap(v.len(), |i| (v[i].clone(), C::aff(&ec.mul(&v[i], &g))))
}
impl<E: PE> Ctx<E> {
    fn new(v: &[BigUint]) -> Self {
        let r = Fr::<E>::p();
        let (a, b) = (multiples::<E::C1>(v), multiples::<E::C2>(v));
        let one: BigUint = 1u32.into();
        let (g1, g2) = (multiples::<E::C1>(&[one.clone()]), multiples::<E::C2>(&[one]));
        let g = E::raw(&E::fe(&E::ml(&[(&g1[0].1, &g2[0].1)])));
        Ctx { gt: Powers::new(g, &r), r, a, b }
    }
    fn check(&self, r: &Rep, got: &E::Gt, log: &BigUint, key: impl FnOnce() -> String) {
        let want = self.gt.at(log);
        r.val(1);
        r.check(E::raw(got) == want, key, || format!("not e(G1, G2)^{:x}", log % &self.r));
    }
}
struct Basic<'a>(&'a Rep);
impl PairFn for Basic<'_> {
    fn call<E: PE>(&self) {
        let r = self.0;
        let c = Ctx::<E>::new(&[1u32.into()]);
        let g = c.gt.at(&1u32.into());
        r.st(1);
        r.tr(4);
        r.val(3);
        r.check(g != one::<E::T>(), || format!("degenerate:{}|generators", E::NAME), || "the pairing of the generators is one".into());
        r.check(power(&g, &c.r) == one::<E::T>(), || format!("order:{}|generators", E::NAME), || "e(G1, G2)^r is not one".into());
        r.check(!bool::from(group::Group::is_identity(&E::wrap(&g))), || format!("degenerate:{}|is_identity", E::NAME), || "is_identity of the generator's pairing".into());
    }
}
struct Grid<'a>(&'a Rep);
impl PairFn for Grid<'_> {
    fn call<E: PE>(&self) {
        let r = self.0;
        let v = telling_scalars(&Fr::<E>::p(), r.pick(24, 2));
        let c = Ctx::<E>::new(&v);
        let n = v.len();
        r.par(n * n, |i| {
            let ((ka, p), (kb, q)) = (&c.a[i / n], &c.b[i % n]);
            // the full product on a band and the borders, in the quick run
            let (x, y) = (i / n, i % n);
            if r.quick() && x > 4 && y > 4 && (x + 2 * y) % 3 != 0 && x + 1 < n && y + 1 < n {
                return;
            }
            let all = x < 3 || y < 3 || x == y;
            r.st(1);
            match guard(|| if all { E::entries(p, q) } else { vec![("multi_miller_loop", E::fe(&E::ml(&[(p, q)])))] }) {
                Err(m) => r.violation(format!("panic:{}|{ka:x}, {kb:x}", E::NAME), m),
                Ok(v) => {
                    r.tr(v.len());
                    for (name, g) in v {
                        c.check(r, &g, &(ka * kb), || format!("bilinear:{}|{name}({ka:x} G1, {kb:x} G2)", E::NAME));
                    }
                }
            }
        });
        r.sample(|| format!("{}: {n} x {n} scalars", E::NAME));
    }
}
/// Lists of terms.
struct Terms<'a>(&'a Rep);
impl Terms<'_> {
    fn list<E: PE>(&self, c: &Ctx<E>, l: &[(usize, usize)], key: &dyn Fn() -> String) {
        let r = self.0;
        let terms: Vec<_> = l.iter().map(|(i, j)| (&c.a[*i].1, &c.b[*j].1)).collect();
        let log: BigUint = l.iter().map(|(i, j)| &c.a[*i].0 * &c.b[*j].0).sum();
        r.st(1);
        r.tr(l.len());
        match guard(|| [E::ml(&terms), E::ml_free(&terms)]) {
            Err(m) => r.violation(format!("panic:{}|{}", E::NAME, key()), m),
            Ok([f, g]) => {
                r.check(f == g, || format!("entry:{}|{}", E::NAME, key()), || "the two Miller loops differ".into());
                match guard(|| E::fe(&f)) {
                    Err(m) => r.violation(format!("panic:{}|{}", E::NAME, key()), m),
                    Ok(g) => c.check(r, &g, &log, || format!("product:{}|{}", E::NAME, key())),
                }
            }
        }
    }
}
impl PairFn for Terms<'_> {
    fn call<E: PE>(&self) {
        let r = self.0;
        let q = Fr::<E>::p();
        // indices: 0 -> 0, 1 -> 1, 2 -> -1, 3 -> 5, 4 -> r/2
        let c = Ctx::<E>::new(&[0u32.into(), 1u32.into(), &q - 1u32, 5u32.into(), &q >> 1]);
        let few = [(1, 1), (2, 1), (0, 1), (1, 0), (0, 0), (1, 2), (3, 4)];
        let plan: &[(usize, usize)] = r.pick(&[(0, 0), (7, 1), (7, 2), (7, 3), (4, 4)], &[(0, 0), (7, 1), (7, 2), (7, 3), (7, 4), (4, 5), (3, 7)]);
        for (letters, len) in plan {
            let ws: Vec<Vec<usize>> = words(*letters, *len).collect();
            r.par(ws.len(), |i| {
                let l: Vec<_> = ws[i].iter().map(|x| few[*x]).collect();
                self.list::<E>(&c, &l, &|| format!("terms {l:?} (indices into 0, 1, -1, 5, r/2)"));
            });
            r.sample(|| format!("{}: all {} lists of {len} terms over {letters} letters", E::NAME, ws.len()));
        }
        // long lists, with an identity or an opposite pair at every position
        let ns: &[usize] = r.pick(&[5, 8, 16, 17], &[5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100]);
        for n in ns {
            r.par(n * 3, |job| {
                let (at, kind) = (job / 3, job % 3);
                let mut l: Vec<_> = (0..*n).map(|i| [(1, 1), (3, 1), (1, 3), (4, 2)][i % 4]).collect();
                match kind {
                    0 => l[at] = (0, 1),
                    1 => l[at] = (1, 0),
                    _ => {
                        l[at] = (3, 4);
                        let o = (at + 1 + at % 3) % n;
                        l[o] = (2, 3);
                    }
                }
                self.list::<E>(&c, &l, &|| format!("{n} terms, special case {kind} at {at}"));
            });
            r.sample(|| format!("{}: lists of {n} terms", E::NAME));
        }
        // every further length once, with one identity
        let more: Vec<usize> = r.pick(vec![31, 32, 33, 64, 65, 100], (18..=130).collect());
        r.par(more.len() * 2, |job| {
            let n = more[job / 2];
            let mut l: Vec<_> = (0..n).map(|i| [(1, 1), (3, 1), (1, 3), (4, 2)][i % 4]).collect();
            l[(n * 5 / 7) * (job % 2)] = [(0, 1), (1, 0)][job % 2];
            self.list::<E>(&c, &l, &|| format!("{n} terms, an identity at {}", (n * 5 / 7) * (job % 2)));
        });
        r.sample(|| format!("{}: lists of {more:?} terms", E::NAME));
    }
}
/// Points with special coordinates: additivity in each argument.
struct Special<'a>(&'a Rep);
fn special<C: HC>(n: usize) -> Vec<P<C>> {
    let (ec, q, h) = (C::ec(), C::r(), C::cofactor());
    let ps = telling_points::<C>(n);
    let ss = pmap(ps.len(), |i| {
        let p = ps[i].clone();
        let s = if ec.mul(&q, &p).is_none() { p } else { ec.mul(&h, &p) };
        (ec.mul(&q, &s).is_none(), s)
    });
    let mut v = vec![];
    for (ok, s) in ss {
        if ok && !v.contains(&s) {
            v.push(s);
        }
    }
    v.truncate(n);
    v
}
impl PairFn for Special<'_> {
    fn call<E: PE>(&self) {
        let r = self.0;
        let n = r.pick(14, 40);
        let (ps, qs) = (special::<E::C1>(n), special::<E::C2>(n));
        let (e1, e2) = (E::C1::ec(), E::C2::ec());
        let pair = |p: &P<E::C1>, q: &P<E::C2>| {
            let (a, b) = (E::C1::aff(p), E::C2::aff(q));
            r.tr(1);
            guard(|| E::raw(&E::fe(&E::ml(&[(&a, &b)]))))
        };
        let (g1, g2) = (E::C1::gen_r(), E::C2::gen_r());
        let base = pmap(ps.len(), |i| pair(&ps[i], &g2));
        r.par(ps.len() * ps.len(), |k| {
            let (i, j) = (k / ps.len(), k % ps.len());
            if i > j {
                return;
            }
            r.st(1);
            r.val(1);
            match (pair(&e1.add(&ps[i], &ps[j]), &g2), &base[i], &base[j]) {
                (Ok(x), Ok(a), Ok(b)) => r.check(x == *a * b, || format!("additive-1:{}|{i}, {j}", E::NAME), || format!("{:?} and {:?}", ps[i], ps[j])),
                x => r.violation(format!("panic:{}|first argument {i}, {j}", E::NAME), format!("{x:?}")),
            }
        });
        let base = pmap(qs.len(), |i| pair(&g1, &qs[i]));
        r.par(qs.len() * qs.len(), |k| {
            let (i, j) = (k / qs.len(), k % qs.len());
            if i > j {
                return;
            }
            r.st(1);
            r.val(1);
            match (pair(&g1, &e2.add(&qs[i], &qs[j])), &base[i], &base[j]) {
                (Ok(x), Ok(a), Ok(b)) => r.check(x == *a * b, || format!("additive-2:{}|{i}, {j}", E::NAME), || format!("{:?} and {:?}", qs[i], qs[j])),
                x => r.violation(format!("panic:{}|second argument {i}, {j}", E::NAME), format!("{x:?}")),
            }
        });
        r.sample(|| format!("{}: {} and {} points of the subgroups with special coordinates", E::NAME, ps.len(), qs.len()));
    }
}
fn main() {
    run("C22", |r| {
        r.section("basic", || each_engine(&Basic(r)));
        r.section("grid", || each_engine(&Grid(r)));
        r.section("terms", || each_engine(&Terms(r)));
        r.section("special", || each_engine(&Special(r)));
    });
}
