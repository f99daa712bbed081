//! C27: printed (Debug) forms.
use hv::*;

/// the integer as printed: 0x and all digits of the encoding's width
fn hex(v: &BigUint, bytes: usize) -> String {
    format!("0x{v:0w$x}", w = 2 * bytes)
}
/// the hexadecimal numbers in a text, in order
fn numbers(s: &str) -> Vec<String> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i + 1 < b.len() {
        if b[i] == b'0' && b[i + 1] == b'x' {
            let mut j = i + 2;
            while j < b.len() && b[j].is_ascii_hexdigit() {
                j += 1;
            }
            v.push(s[i..j].to_string());
            i = j;
        } else {
            i += 1;
        }
    }
    v
}
/// Both styles of the form hold exactly these numbers.
fn holds<T: std::fmt::Debug>(r: &Rep, what: &str, key: &dyn Fn() -> String, t: &T, want: &[String], ident: Option<bool>) {
    r.st(1);
    for (style, got) in [("plain", guard(|| format!("{t:?}"))), ("pretty", guard(|| format!("{t:#?}")))] {
        r.tr(1);
        match got {
            Err(e) => r.violation(format!("panics:{}", key()), format!("{what}: {e}")),
            Ok(s) => {
                let inf = s.contains("Infinity");
                let ok = numbers(&s) == want && ident.map_or(true, |i| i == inf);
                r.check(ok, || format!("{style}:{}", key()), || format!("{what} prints {s}, which should hold {want:?}{}", if ident == Some(true) { " and Infinity" } else { "" }));
            }
        }
    }
}
/// distinct values must print differently
fn distinct<T: std::fmt::Debug>(r: &Rep, name: &str, vals: &[T]) {
    let mut m = std::collections::HashMap::new();
    for (i, v) in vals.iter().enumerate() {
        if let Some(j) = m.insert(format!("{v:?}"), i) {
            r.violation(format!("distinct:{name}|{i}|{j}"), format!("two different values of {name} print as {v:?}"));
        }
    }
    r.val(vals.len());
}

struct Pf<'a>(&'a Rep);
impl FieldFn for Pf<'_> {
    fn call<F: HF>(&self) {
        let r = self.0;
        r.section(&format!("field:{}", F::NAME), || {
            let p = F::p();
            let vs: Vec<BigUint> = if p.bits() <= 18 {
                (0..u(&p)).map(BigUint::from).collect()
            } else {
                let l = letters::<F>();
                let mut v: Vec<BigUint> = l.iter().flat_map(|a| [a.clone(), (&p - a % &p) % &p]).collect();
                v.extend((0..p.bits()).flat_map(|i| [BigUint::one() << i, (BigUint::one() << i) - 1u32]).map(|x| x % &p));
                // one digit of every value in every position, and one byte string without symmetry
                for i in 0..F::LIMBS * 16 {
                    v.extend((1..16u32).map(|d| (BigUint::from(d) << (4 * i)) % &p));
                }
                v.push(BigUint::from_bytes_be(&(1..=F::LIMBS as u8 * 8).map(|b| b.wrapping_mul(0x11)).collect::<Vec<_>>()) % &p);
                v.sort();
                v.dedup();
                v
            };
            let fs: Vec<F> = vs.iter().map(|v| F::of(v)).collect();
            r.par(vs.len(), |i| {
                let want = hex(&vs[i], 8 * F::LIMBS);
                holds(r, &format!("{:x} in {}", vs[i], F::NAME), &|| format!("{}|{:x}", F::NAME, vs[i]), &fs[i], &[want.clone()], None);
                // the form is nothing but the number
                let got = guard(|| format!("{:?}", fs[i]));
                r.check(got.as_ref() == Ok(&want), || format!("exact:{}|{:x}", F::NAME, vs[i]), || format!("{got:?} instead of {want}"));
            });
            distinct(r, F::NAME, &fs);
            r.sample(|| format!("{:?}", fs[fs.len() - 1]));
        });
    }
}
struct Tow<'a>(&'a Rep);
impl TowerFn for Tow<'_> {
    fn call<T: HT>(&self) {
        let r = self.0;
        r.section(&format!("tower:{}", T::NAME), || {
            let k = T::ctx();
            let el: Vec<Elem<T>> = if T::TINY && T::deg() == 2 { all_elems(&k) } else { tower_alphabet::<T>(&letters::<T::Base>(), r.pick(400, 20000)) };
            let xs: Vec<T> = el.iter().map(|e| T::of_e(e)).collect();
            r.par(el.len(), |i| {
                let want: Vec<String> = k.coeffs(&el[i]).iter().map(|c| hex(c, 8 * <T::Base as HF>::LIMBS)).collect();
                holds(r, &format!("{:?} in {}", el[i], T::NAME), &|| format!("{}|{:?}", T::NAME, el[i]), &xs[i], &want, None);
            });
            distinct(r, T::NAME, &xs);
            r.sample(|| format!("{:?}", xs[xs.len() / 2]));
        });
    }
}
struct Cur<'a>(&'a Rep);
impl CurveFn for Cur<'_> {
    fn call<C: HC>(&self) {
        let r = self.0;
        r.section(&format!("points:{}", C::NAME), || {
            let ec = C::ec();
            let f = &ec.f;
            let w = C::Bf::BSIZE / f.deg();
            let pts: Vec<Pt<<C::Bf as HB>::R>> = if C::TINY { all_points::<C>() } else { telling_points::<C>(r.pick(24, 200)) };
            let zs = scalings::<C>(r.pick(4, 8));
            let hexes = |e: &[&<<C::Bf as HB>::R as Fld>::E]| -> Vec<String> { e.iter().flat_map(|e| f.coeffs(e)).map(|c| hex(&c, w)).collect() };
            r.par(pts.len(), |i| {
                let want = match &pts[i] {
                    None => vec![],
                    Some((x, y)) => hexes(&[x, y]),
                };
                let what = format!("{}, affine {:?}", C::NAME, pts[i]);
                holds(r, &what, &|| format!("affine:{}|{:?}", C::NAME, pts[i]), &C::aff(&pts[i]), &want, Some(pts[i].is_none()));
                for z in &zs {
                    let g = C::proj(&pts[i], z);
                    let (x, y, z) = C::get(&g);
                    let want = hexes(&[&x.to_r(), &y.to_r(), &z.to_r()]);
                    holds(r, &format!("{}, projective {:?}", C::NAME, pts[i]), &|| format!("projective:{}|{:?}|{z:?}", C::NAME, pts[i]), &g, &want, None);
                }
            });
            let mut u = pts.clone();
            u.sort();
            u.dedup();
            let afs: Vec<C::Aff> = u.iter().map(|p| C::aff(p)).collect();
            distinct(r, C::NAME, &afs);
            r.sample(|| format!("{:?}", afs[afs.len() - 1]));
        });
    }
}

fn main() {
    run("C27", |r| {
        each_tiny_field(&Pf(r));
        each_odd_field(&Pf(r));
        each_real_field(&Pf(r));
        each_tiny_tower(&Tow(r));
        each_real_tower(&Tow(r));
        each_tiny_curve(&Cur(r));
        each_real_curve(&Cur(r));
    });
}
