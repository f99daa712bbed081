//! C17: serde forms (JSON as the human-readable format, bincode as the binary one).
use hv::*;
use serde::{de::DeserializeOwned, Serialize};

fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}
/// both formats there and back, in every input style of the formats
fn trip<T: Serialize + DeserializeOwned>(r: &Rep, x: &T, json: &str, bin: &[u8], same: &dyn Fn(&T) -> bool, key: &str) {
    let k = |n: &str| format!("{n}:{key}");
    r.st(1);
    r.tr(8);
    r.val(1);
    let j = serde_json::to_string(x).unwrap_or_else(|e| e.to_string());
    r.check(j == json, || k("to_json"), || format!("{j} instead of {json}"));
    let v = serde_json::to_value(x).map(|v| v.to_string()).unwrap_or_else(|e| e.to_string());
    r.check(v == json, || k("to_value"), || format!("{v} instead of {json}"));
    let b = bincode::serialize(x).unwrap_or_default();
    r.check(b == bin, || k("to_bincode"), || format!("{} instead of {}", hexs(&b), hexs(bin)));
    let spaced = json.replace(':', " :\t").replace(',', "\n,");
    let val: serde_json::Value = serde_json::from_str(json).unwrap();
    for (n, got) in [
        ("from_str", serde_json::from_str::<T>(json)),
        ("from_slice", serde_json::from_slice::<T>(json.as_bytes())),
        ("from_reader", serde_json::from_reader::<_, T>(json.as_bytes())),
        ("from_value", serde_json::from_value::<T>(val)),
        ("from_spaced", serde_json::from_str::<T>(&spaced)),
    ] {
        r.check(got.as_ref().map_or(false, |y| same(y)), || k(n), || format!("{json}: {:?}", got.as_ref().err().map(|e| e.to_string())));
    }
    for (n, got) in [("from_bincode", bincode::deserialize::<T>(bin)), ("from_bincode_reader", bincode::deserialize_from::<_, T>(bin))] {
        r.check(got.as_ref().map_or(false, |y| same(y)), || k(n), || format!("{}: {:?}", hexs(bin), got.as_ref().err().map(|e| e.to_string())));
    }
}
/// nested in containers, several in a row
fn nested<T: Serialize + DeserializeOwned + PartialEq>(r: &Rep, v: &[T], key: &str) {
    r.st(1);
    r.tr(2);
    let v: Vec<Option<&T>> = v.iter().map(Some).chain([None]).collect();
    let j = serde_json::to_string(&v).unwrap();
    let back: Vec<Option<T>> = serde_json::from_str(&j).unwrap_or_default();
    r.check(back.iter().map(Option::as_ref).eq(v.iter().copied()), || format!("nested_json:{key}"), || j.clone());
    let b = bincode::serialize(&v).unwrap();
    let back: Vec<Option<T>> = bincode::deserialize(&b).unwrap_or_default();
    r.check(back.iter().map(Option::as_ref).eq(v.iter().copied()), || format!("nested_bincode:{key}"), || hexs(&b));
}
/// JSON text in every input style: `want` is the encoding the result must have, or None for an error
fn json<T: Serialize + DeserializeOwned>(r: &Rep, text: &[u8], want: Option<&dyn Fn(&T) -> bool>, key: &dyn Fn() -> String) {
    r.st(1);
    r.tr(3);
    let got = guard(|| {
        let mut v = vec![serde_json::from_slice::<T>(text).ok(), serde_json::from_reader::<_, T>(text).ok()];
        if let Ok(x) = serde_json::from_slice::<serde_json::Value>(text) {
            v.push(serde_json::from_value::<T>(x).ok());
        }
        v
    });
    let v = match got {
        Ok(v) => v,
        Err(m) => return r.violation(format!("json_panic:{}", key()), format!("{}: panicked: {m}", show(text))),
    };
    for v in v {
        match (v, want) {
            (None, None) => {}
            (None, Some(_)) => r.violation(format!("json_rejected:{}", key()), show(text)),
            (Some(_), None) => r.violation(format!("json_accepted:{}", key()), show(text)),
            (Some(v), Some(ok)) => r.check(ok(&v), || format!("json_value:{}", key()), || show(text)),
        }
    }
}
fn bin<T: DeserializeOwned>(r: &Rep, b: &[u8], want: Option<&dyn Fn(&T) -> bool>, key: &dyn Fn() -> String) {
    r.st(1);
    r.tr(1);
    match (guard(|| bincode::deserialize::<T>(b).ok()), want) {
        (Err(m), _) => r.violation(format!("bincode_panic:{}", key()), format!("{}: panicked: {m}", hexs(b))),
        (Ok(None), None) => {}
        (Ok(None), Some(_)) => r.violation(format!("bincode_rejected:{}", key()), hexs(b)),
        (Ok(Some(_)), None) => r.violation(format!("bincode_accepted:{}", key()), hexs(b)),
        (Ok(Some(v)), Some(ok)) => r.check(ok(&v), || format!("bincode_value:{}", key()), || hexs(b)),
    }
}
/// Texts around a good one. `valid` judges raw bytes; hex digits of either case are bytes, but an
/// upper-case text may also be refused (it is not what is written).
fn mangle<T: Serialize + DeserializeOwned>(
    r: &Rep,
    good: &[u8],
    wrap: &dyn Fn(&str) -> String,
    valid: &dyn Fn(&[u8]) -> bool,
    same: &dyn Fn(&T, &[u8]) -> bool,
    name: &str,
    full: bool,
) {
    let h = hexs(good);
    let n = h.len();
    let put = |s: &str, what: &str| {
        // a JSON string with exactly the characters of s
        let text = wrap(&serde_json::to_string(s).unwrap());
        let key = || format!("{name}|{what}|{}", s.escape_debug());
        let raw: Option<Vec<u8>> = (s.len() == n && s.bytes().all(|c| c.is_ascii_hexdigit()))
            .then(|| (0..n / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect());
        match raw {
            Some(b) if valid(&b) => {
                let ok = |t: &T| same(t, &b);
                if s.bytes().any(|c| c.is_ascii_uppercase()) {
                    // either refused or the same value
                    r.st(1);
                    r.tr(1);
                    if let Ok(t) = serde_json::from_str::<T>(&text) {
                        r.check(ok(&t), || format!("json_upper:{}", key()), || text.clone());
                    }
                } else {
                    json::<T>(r, text.as_bytes(), Some(&ok), &key);
                }
            }
            _ => json::<T>(r, text.as_bytes(), None, &key),
        }
    };
    put(&h, "good");
    put(&h.to_uppercase(), "upper");
    for s in [
        format!("0x{h}"),
        format!("0x{}", &h[2..]),
        format!("0X{}", &h[2..]),
        format!(" {h}"),
        format!("{h} "),
        format!("{h}\n"),
        format!("{h}\0"),
        format!("{}\0", &h[..n - 1]),
        format!(" {}", &h[1..]),
        format!("+{}", &h[1..]),
        format!("-{}", &h[1..]),
        format!("+0{}", &h[2..]),
        format!("_{}", &h[1..]),
        format!("{h}{h}"),
        h.replace('0', "o"),
        String::from_utf8_lossy(good).into_owned(),
        "é".repeat(n / 2),
        "\u{ff10}".repeat(n),
    ] {
        if s != h {
            put(&s, "form");
        }
    }
    // every length
    for l in 0..=n + 6 {
        if l != n {
            put(&(h.clone() + &h)[..l], "length");
        }
    }
    // one character replaced, inserted or dropped, everywhere
    let all: Vec<char> = if full { (0u8..=0x7f).map(char::from).chain(['\u{80}', 'é', '٣']).collect() } else { "019afgzGAF /:@`~\0\u{80}é".chars().collect() };
    for i in 0..n {
        for c in &all {
            let s = format!("{}{c}{}", &h[..i], &h[i + 1..]);
            put(&s, "replaced");
        }
        for c in ['0', 'f', ' '] {
            put(&format!("{}{c}{}", &h[..i], &h[i..]), "inserted");
        }
        put(&format!("{}{}", &h[..i], &h[i + 1..]), "dropped");
    }
    // other JSON types in its place
    let list = serde_json::to_string(good).unwrap();
    for t in [
        "null", "true", "false", "0", "1", "-1", "1.5", "[]", "{}", "\"\"", "[\"\"]", "{\"\":\"\"}", "\"", "", "nul", "\"00",
        &list,
        &format!("[\"{h}\"]"),
        &format!("[\"{h}\",\"{h}\"]"),
        &format!("{{\"{h}\":\"{h}\"}}"),
        &format!("{{\"x\":\"{h}\"}}"),
        &format!("\"{h}"),
        &format!("{h}\""),
        &format!("0x{h}"),
        &format!("'{h}'"),
    ] {
        json::<T>(r, wrap(t).as_bytes(), None, &|| format!("{name}|type|{t}"));
    }
    // not UTF-8
    let mut t = wrap(&format!("\"{h}\"")).into_bytes();
    let p = t.iter().position(|c| *c == b'"').unwrap() + 1;
    t[p] = 0xff;
    json::<T>(r, &t, None, &|| format!("{name}|utf8|"));
}
fn cuts<T: DeserializeOwned>(r: &Rep, b: &[u8], name: &str) {
    for l in 0..b.len() {
        bin::<T>(r, &b[..l], None, &|| format!("{name}|cut|{l}"));
    }
}
struct Pf<'a>(&'a Rep);
impl FieldFn for Pf<'_> {
    fn call<F: HF>(&self) {
        let r = self.0;
        r.section(&format!("field:{}", F::NAME), || {
            let p = F::p();
            let n = F::LIMBS;
            let vals: Vec<BigUint> =
                if F::TINY && p < BigUint::from(70000u32) { (0..u(&p)).map(|x| x.into()).collect() } else { alphabet(&p, n, &[0, 1, u64::MAX]) };
            r.par(vals.len(), |i| {
                let x = F::of(&vals[i]);
                let b = le_bytes(&vals[i], 8 * n);
                trip::<F>(r, &x, &format!("\"{}\"", hexs(&b)), &b, &|y| *y == x && y.raw() == x.raw(), &format!("{}|{:x}", F::NAME, vals[i]));
            });
            let xs: Vec<F> = vals.iter().take(40).map(F::of).collect();
            nested::<F>(r, &xs, F::NAME);
            // every limb vector over boundary letters
            let pl = limbs(&p, n);
            let per: Vec<Vec<u64>> = (0..n)
                .map(|i| {
                    let mut v = vec![0, pl[i], pl[i].wrapping_sub(1), pl[i].wrapping_add(1), u64::MAX];
                    v.sort();
                    v.dedup();
                    v
                })
                .collect();
            let thin = n > 4 && r.quick();
            let per: Vec<Vec<u64>> = per.into_iter().map(|v| if thin { v[..3.min(v.len())].to_vec() } else { v }).collect();
            let all: usize = per.iter().map(|v| v.len()).product();
            r.par(all, |mut w| {
                let l: Vec<u64> = per
                    .iter()
                    .map(|c| {
                        let x = c[w % c.len()];
                        w /= c.len();
                        x
                    })
                    .collect();
                let v = of_limbs(&l);
                let b = le_bytes(&v, 8 * n);
                let ok = |y: &F| y.big() == v;
                let want: Option<&dyn Fn(&F) -> bool> = if v < p { Some(&ok) } else { None };
                let key = || format!("{}|{v:x}", F::NAME);
                bin::<F>(r, &b, want, &key);
                json::<F>(r, format!("\"{}\"", hexs(&b)).as_bytes(), want, &key);
            });
            if F::TINY {
                for v in 0..r.pick(1024u64, 70000) {
                    let (v, p) = (BigUint::from(v), &p);
                    let b = le_bytes(&v, 8 * n);
                    let ok = |y: &F| y.big() == v;
                    let want: Option<&dyn Fn(&F) -> bool> = if v < *p { Some(&ok) } else { None };
                    let key = || format!("{}|{v:x}", F::NAME);
                    bin::<F>(r, &b, want, &key);
                    json::<F>(r, format!("\"{}\"", hexs(&b)).as_bytes(), want, &key);
                }
            }
            let valid = |b: &[u8]| BigUint::from_bytes_le(b) < p;
            let same = |y: &F, b: &[u8]| y.big() == BigUint::from_bytes_le(b);
            let pats = [BigUint::from(3u32) % &p, &p - 1u32];
            r.par(pats.len(), |i| {
                let good = le_bytes(&pats[i], 8 * n);
                mangle::<F>(r, &good, &|s| s.to_string(), &valid, &same, F::NAME, !r.quick() || n <= 4);
                cuts::<F>(r, &good, F::NAME);
            });
            r.sample(|| format!("{} values; {all} limb vectors; every one-character edit", vals.len()));
        });
    }
}
struct Qf<'a>(&'a Rep);
impl QuadFn for Qf<'_> {
    fn call<T: HT + HB>(&self) {
        let r = self.0;
        let name = <T as HB>::BNAME;
        r.section(&format!("quad:{name}"), || {
            let p = <T::Base as HF>::p();
            let n = 8 * <T::Base as HF>::LIMBS;
            let b1 = BigUint::one();
            let mut v = vec![BigUint::zero(), b1.clone(), &p - &b1, p.clone(), &p + &b1, (&b1 << (8 * n)) - &b1, &b1 << (8 * n - 1)];
            v.extend(letters::<T::Base>());
            if T::TINY {
                v.extend((0..u(&p)).map(BigUint::from));
            }
            v.sort();
            v.dedup();
            let text = |x: &[u8], y: &[u8]| format!("{{\"c0\":\"{}\",\"c1\":\"{}\"}}", hexs(x), hexs(y));
            r.par(v.len(), |i| {
                for y in &v {
                    let x = &v[i];
                    let (bx, by) = (le_bytes(x, n), le_bytes(y, n));
                    let same = |e: &T| e.flat()[0].big() == *x && e.flat()[1].big() == *y;
                    let want: Option<&dyn Fn(&T) -> bool> = if x < &p && y < &p { Some(&same) } else { None };
                    let key = || format!("{name}|{x:x}|{y:x}");
                    bin::<T>(r, &[bx.clone(), by.clone()].concat(), want, &key);
                    json::<T>(r, text(&bx, &by).as_bytes(), want, &key);
                    if want.is_some() {
                        let e = T::of_flat(&[HF::of(x), HF::of(y)]);
                        trip::<T>(r, &e, &text(&bx, &by), &[bx, by].concat(), &|z| *z == e && same(z), &key());
                    }
                }
            });
            let good = le_bytes(&(&p - 1u32), n);
            let two = le_bytes(&BigUint::from(2u32), n);
            let valid = |b: &[u8]| BigUint::from_bytes_le(b) < p;
            for k in 0..2 {
                let wrap = |s: &str| {
                    let o = format!("\"{}\"", hexs(&two));
                    if k == 0 {
                        format!("{{\"c0\":{s},\"c1\":{o}}}")
                    } else {
                        format!("{{\"c0\":{o},\"c1\":{s}}}")
                    }
                };
                let same = |y: &T, b: &[u8]| {
                    let f = y.flat();
                    f[k].big() == BigUint::from_bytes_le(b) && f[1 - k].big() == BigUint::from(2u32)
                };
                mangle::<T>(r, &good, &wrap, &valid, &same, &format!("{name}.c{k}"), false);
            }
            cuts::<T>(r, &[good.clone(), two.clone()].concat(), name);
            let (g, w) = (hexs(&good), hexs(&two));
            for t in [
                "{}".to_string(),
                format!("{{\"c0\":\"{g}\"}}"),
                format!("{{\"c1\":\"{g}\"}}"),
                format!("{{\"c0\":\"{g}\",\"c2\":\"{w}\"}}"),
                format!("\"{g}{w}\""),
                format!("[\"{g}\"]"),
                format!("[\"{g}\",\"{w}\",\"{w}\"]"),
            ] {
                json::<T>(r, t.as_bytes(), None, &|| format!("{name}|shape|{t}"));
            }
            // repeated members (serde_json::Value drops all but the last before the library sees them)
            for t in [
                format!("{{\"c0\":\"{g}\",\"c0\":\"{w}\",\"c1\":\"{w}\"}}"),
                format!("{{\"c0\":\"{g}\",\"c1\":\"{g}\",\"c1\":\"{w}\"}}"),
            ] {
                r.st(1);
                r.tr(1);
                r.check(serde_json::from_str::<T>(&t).is_err(), || format!("json_accepted:{name}|shape|{t}"), || t.clone());
            }
            // the order of the members carries no meaning
            let t = format!("{{\"c1\":\"{w}\",\"c0\":\"{g}\"}}");
            let ok = |e: &T| e.flat()[0].big() == &p - 1u32 && e.flat()[1].big() == BigUint::from(2u32);
            json::<T>(r, t.as_bytes(), Some(&ok), &|| format!("{name}|shape|{t}"));
            r.sample(|| format!("{}^2 pairs of integers", v.len()));
        });
    }
}
/// both point types on one string
fn string<C: HC>(r: &Rep, ec: &Ec<<C::Bf as HB>::R>, b: &[u8], root: &dyn Fn(&E<C>) -> Option<E<C>>) {
    let want = decode::<C>(ec, b, root);
    let a = |x: &C::Aff| want.as_ref().map_or(false, |w| C::aff_r(x) == *w);
    let g = |x: &C::G| want.as_ref().map_or(false, |w| C::proj_r(x).as_ref() == Ok(w));
    let t = format!("\"{}\"", hexs(b));
    let key = |k: &str| format!("{}|{k}|{}", C::NAME, hexs(b));
    let (wa, wg): (Option<&dyn Fn(&C::Aff) -> bool>, Option<&dyn Fn(&C::G) -> bool>) = if want.is_some() { (Some(&a), Some(&g)) } else { (None, None) };
    bin::<C::Aff>(r, b, wa, &|| key("affine"));
    bin::<C::G>(r, b, wg, &|| key("point"));
    json::<C::Aff>(r, t.as_bytes(), wa, &|| key("affine"));
    json::<C::G>(r, t.as_bytes(), wg, &|| key("point"));
}
fn point<C: HC>(r: &Rep, ec: &Ec<<C::Bf as HB>::R>, p: &P<C>, zs: &[E<C>]) {
    let b = encode::<C>(ec, p);
    let t = format!("\"{}\"", hexs(&b));
    let key = format!("{}|{}", C::NAME, hexs(&b));
    trip::<C::Aff>(r, &C::aff(p), &t, &b, &|q| C::aff_r(q) == *p, &key);
    for z in zs {
        trip::<C::G>(r, &C::proj(p, z), &t, &b, &|q| C::proj_r(q).as_ref() == Ok(p), &key);
    }
}
fn forms<C: HC>(r: &Rep, ec: &Ec<<C::Bf as HB>::R>, p: &P<C>) {
    let f = &ec.f;
    let memo = std::cell::RefCell::new(std::collections::HashMap::new());
    let root = |x: &E<C>| memo.borrow_mut().entry(x.clone()).or_insert_with(|| f.sqrt(&ec.rhs(x))).clone();
    let b = encode::<C>(ec, p);
    let valid = |b: &[u8]| decode::<C>(ec, b, &root).is_some();
    mangle::<C::Aff>(r, &b, &|s| s.to_string(), &valid, &|q, b| Some(C::aff_r(q)) == decode::<C>(ec, b, &root), C::NAME, false);
    mangle::<C::G>(r, &b, &|s| s.to_string(), &valid, &|q, b| C::proj_r(q).ok() == decode::<C>(ec, b, &root), C::NAME, false);
    cuts::<C::Aff>(r, &b, C::NAME);
    cuts::<C::G>(r, &b, C::NAME);
}
struct Tiny<'a>(&'a Rep);
impl CurveFn for Tiny<'_> {
    fn call<C: HC>(&self) {
        let r = self.0;
        let ec = C::ec();
        let f = &ec.f;
        r.section(&format!("points:{}", C::NAME), || {
            let pts = all_points::<C>();
            let mut roots = std::collections::HashMap::new();
            for (x, y) in pts.iter().flatten() {
                roots.insert(x.clone(), y.clone());
            }
            let root = |x: &E<C>| roots.get(x).cloned();
            let zs = scalings::<C>(3);
            r.par(pts.len(), |i| point::<C>(r, &ec, &pts[i], &zs));
            nested::<C::Aff>(r, &pts.iter().take(20).map(|p| C::aff(p)).collect::<Vec<_>>(), C::NAME);
            nested::<C::G>(r, &pts.iter().take(20).map(|p| C::proj(p, &zs[1])).collect::<Vec<_>>(), C::NAME);
            r.par(2, |i| forms::<C>(r, &ec, &pts[[0, pts.len() - 1][i]]));
            let q = u(&f.chr());
            let d = f.deg();
            let vals: Vec<u64> = if d == 1 { (0..256).collect() } else { (0..q + 2).chain([255]).collect() };
            let ws: Vec<Vec<usize>> = words(vals.len(), d).collect();
            let fp = flag_pos::<C>();
            r.par(ws.len(), |i| {
                let c: Vec<BigUint> = ws[i].iter().map(|j| vals[*j].into()).collect();
                let mut b = ints_field::<C>(&c);
                if C::FLAGS == Flags::Extra {
                    b.insert(0, 0);
                }
                let base = b[fp];
                for fl in 0..=255u8 {
                    if r.quick() && fl & 0x1f > 1 {
                        continue;
                    }
                    b[fp] = base ^ fl;
                    string::<C>(r, &ec, &b, &root);
                }
            });
            r.sample(|| format!("{} points; every abscissa of one byte with all flags", pts.len()));
        });
    }
}
struct Real<'a>(&'a Rep);
impl CurveFn for Real<'_> {
    fn call<C: HC>(&self) {
        let r = self.0;
        let ec = C::ec();
        let f = &ec.f;
        r.section(&format!("points:{}", C::NAME), || {
            let pts = telling_points::<C>(r.pick(8, 40));
            let zs = scalings::<C>(3);
            r.par(pts.len(), |i| point::<C>(r, &ec, &pts[i], &zs));
            nested::<C::Aff>(r, &pts.iter().map(|p| C::aff(p)).collect::<Vec<_>>(), C::NAME);
            nested::<C::G>(r, &pts.iter().map(|p| C::proj(p, &zs[1])).collect::<Vec<_>>(), C::NAME);
            // all flag bytes on canonical and non-canonical abscissas
            let q = f.chr();
            let top = (BigUint::one() << (8 * C::Bf::BSIZE / f.deg())) - BigUint::one();
            let mut xs: Vec<Vec<BigUint>> = vec![];
            for p in pts.iter() {
                let c = p.as_ref().map_or(vec![BigUint::zero(); f.deg()], |p| f.coeffs(&p.0));
                for k in 0..f.deg() {
                    for m in [&c[k] + &q, q.clone(), top.clone(), &c[k] ^ BigUint::one()] {
                        let mut c = c.clone();
                        c[k] = m;
                        if c[k] <= top {
                            xs.push(c);
                        }
                    }
                }
                xs.push(c);
            }
            let fp = flag_pos::<C>();
            r.par(xs.len(), |i| {
                let mut b = ints_field::<C>(&xs[i]);
                if C::FLAGS == Flags::Extra {
                    b.insert(0, 0);
                }
                let memo = std::cell::RefCell::new(std::collections::HashMap::new());
                let root = |x: &E<C>| memo.borrow_mut().entry(x.clone()).or_insert_with(|| f.sqrt(&ec.rhs(x))).clone();
                let base = b[fp];
                for fl in 0..=255u8 {
                    if fl & 0x1f != 0 && (C::FLAGS != Flags::Extra || r.quick()) {
                        continue;
                    }
                    b[fp] = base ^ fl;
                    string::<C>(r, &ec, &b, &root);
                }
            });
            if !r.quick() || C::Bf::BSIZE < 40 {
                r.par(2, |i| forms::<C>(r, &ec, &pts[[0, 1][i]]));
            } else {
                // the long encodings: lengths and cuts only
                let b = encode::<C>(&ec, &pts[1]);
                let h = hexs(&b);
                for l in (0..h.len()).chain([h.len() + 1, h.len() + 2]) {
                    let t = format!("\"{}\"", &(h.clone() + &h)[..l]);
                    json::<C::Aff>(r, t.as_bytes(), None, &|| format!("{}|length|{l}", C::NAME));
                    json::<C::G>(r, t.as_bytes(), None, &|| format!("{}|length|{l}", C::NAME));
                }
                cuts::<C::Aff>(r, &b, C::NAME);
                cuts::<C::G>(r, &b, C::NAME);
            }
            r.sample(|| format!("{} points, {} abscissas with all flags", pts.len(), xs.len()));
        });
    }
}
fn repr<const N: usize>(r: &Rep) {
    use halo2curves::serde::Repr;
    r.section(&format!("repr:{N}"), || {
        for pat in 0..4u8 {
            let mut a = [0u8; N];
            for (i, x) in a.iter_mut().enumerate() {
                *x = match pat {
                    0 => 0,
                    1 => 255,
                    2 => i as u8,
                    _ => (i as u8).wrapping_mul(37) ^ 0x80,
                };
            }
            let x = Repr::<N>::from(a);
            let t = serde_json::to_string(&a[..]).unwrap();
            trip::<Repr<N>>(r, &x, &t, &a, &|y| y.as_ref() == a, &format!("Repr<{N}>|{pat}"));
            cuts::<Repr<N>>(r, &a, &format!("Repr<{N}>"));
            for l in (0..N).chain([N + 1]) {
                let v: Vec<u8> = a.iter().chain(&a).take(l).copied().collect();
                let t = serde_json::to_string(&v).unwrap();
                json::<Repr<N>>(r, t.as_bytes(), None, &|| format!("Repr<{N}>|length|{l}"));
            }
            for i in 0..N {
                for bad in ["256", "-1", "null", "\"0\"", "0.5", "[]"] {
                    let v: Vec<String> = (0..N).map(|j| if i == j { bad.to_string() } else { a[j].to_string() }).collect();
                    let t = format!("[{}]", v.join(","));
                    json::<Repr<N>>(r, t.as_bytes(), None, &|| format!("Repr<{N}>|entry|{i}|{bad}"));
                }
            }
        }
    });
}
fn main() {
    run("C17", |r| {
        repr::<16>(r);
        repr::<32>(r);
        repr::<33>(r);
        repr::<48>(r);
        repr::<56>(r);
        repr::<64>(r);
        repr::<96>(r);
        repr::<112>(r);
        each_tiny_field(&Pf(r));
        each_odd_field(&Pf(r));
        each_real_field(&Pf(r));
        each_quad(&Qf(r));
        each_tiny_curve(&Tiny(r));
        each_mid_curve(&Real(r));
        each_real_curve(&Real(r));
    });
}
