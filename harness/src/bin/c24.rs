//! C24: hash-to-curve is RFC 9380.
use digest::{core_api::BlockSizeUser, Digest};
use hv::*;
use sha2::Sha256;

fn message(kind: usize, n: usize) -> Vec<u8> {
    (0..n)
        .map(|i| match kind {
            0 => (i * 7 + 1) as u8,
            1 => 0,
            _ => 255,
        })
        .collect()
}
fn prefix(i: usize, suffix: &str) -> String {
    let max = 255 - suffix.len();
    match i {
        0 => String::new(),
        1 => "QUUX-V01-CS02-with-".into(),
        2 => "é漢\u{0}-".into(),
        3 => "p".repeat(max),
        4 => "q".repeat(max - 1),
        5 => "a".into(),
        6 => "\u{ff}".repeat(max / 2),
        n => "r".repeat(n - 6),
    }
}

/// expand_message alone: every message length, prefix length and output length on a grid.
#[cfg(feature = "tiny")]
fn expand<D: Digest + BlockSizeUser>(r: &Rep, name: &str) {
    let b = <D as Digest>::output_size();
    let q = r.quick();
    let lens: Vec<usize> = (0..if q { 140 } else { 300 }).collect();
    let outs = [1, b - 1, b, b + 1, 2 * b - 1, 2 * b, 2 * b + 1, 96, 128, 144, 192, 256, 255 * b - 1, 255 * b];
    let doms: Vec<(usize, usize)> = vec![(0, 0), (0, 1), (1, 0), (5, 30), (0, 255), (255, 0), (200, 55), (100, 100), (20, 36), (1, 63)];
    r.par(lens.len(), |li| {
        let m = message(li % 3, lens[li]);
        for (oi, o) in outs.iter().enumerate() {
            if *o > 300 && lens[li] % 32 > 1 {
                continue;
            }
            for (di, d) in doms.iter().enumerate() {
                if q && (li + oi + di) % 3 != 0 && lens[li] > 3 {
                    continue;
                }
                let pre: Vec<u8> = (0..d.0).map(|i| (i ^ 0x5a) as u8).collect();
                let dom: Vec<u8> = (0..d.1).map(|i| (i * 3) as u8).collect();
                let want = xmd::<D>(&m, &[&pre[..], &dom[..]].concat(), *o).unwrap();
                let got = guard(|| halo2curves::verif::expand_message::<D>(&pre, &dom, &m, *o));
                r.st(1);
                r.tr(1);
                r.check(got.as_ref() == Ok(&want), || format!("expand:{name}|len {} dst {d:?} out {o}", m.len()), || format!("expand_message over {name}, message of {} bytes, prefix {} + domain {} bytes, {o} bytes out: {got:?}, RFC 9380: {want:?}", m.len(), d.0, d.1));
            }
        }
        // and every output length
        let o = li + 1;
        let want = xmd::<D>(&m, b"dst", o).unwrap();
        let got = guard(|| halo2curves::verif::expand_message::<D>(b"d", b"st", &m, o));
        r.st(1);
        r.tr(1);
        r.check(got.as_ref() == Ok(&want), || format!("expand:{name}|len {} out {o}", m.len()), || format!("expand_message over {name}, message of {} bytes, {o} bytes out: {got:?}, RFC 9380: {want:?}", m.len()));
    });
    // every DST length, split at every place
    r.par(256, |n| {
        for cut in [0, n / 2, n] {
            let pre = vec![7u8; cut];
            let dom = vec![9u8; n - cut];
            let want = xmd::<D>(b"m", &[&pre[..], &dom[..]].concat(), 96).unwrap();
            let got = guard(|| halo2curves::verif::expand_message::<D>(&pre, &dom, b"m", 96));
            r.st(1);
            r.tr(1);
            r.check(got.as_ref() == Ok(&want), || format!("expand:{name}|dst {n} cut {cut}"), || format!("expand_message over {name}, prefix {cut} + domain {} bytes: {got:?}, RFC 9380: {want:?}", n - cut));
        }
    });
}

struct Whole<'a>(&'a Rep);
impl SuitedFn for Whole<'_> {
    fn call<C: Suited>(&self) {
        let r = self.0;
        let big = C::ec().f.deg() == 2;
        r.section(&format!("hash:{}", C::NAME), || {
            let h = C::h2c();
            let ec = C::ec();
            let lens: &[usize] = if r.quick() {
                if big { &[0, 1, 33, 56, 64, 120] } else { &[0, 1, 2, 3, 16, 31, 32, 33, 54, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129, 200, 1000] }
            } else {
                &[0, 1, 2, 3, 16, 31, 32, 33, 54, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129, 200, 1000]
            };
            let np = r.pick(if big { 7 } else { 16 }, 60);
            let mut jobs = vec![];
            for (i, l) in lens.iter().enumerate() {
                for p in 0..np {
                    if *l > 0 && (r.quick() || p > 6) {
                        jobs.push((p, (i + p) % 3, *l));
                    } else {
                        jobs.extend((0..if *l == 0 { 1 } else { 3 }).map(|k| (p, k, *l)));
                    }
                }
            }
            r.par(jobs.len(), |j| {
                let (p, k, l) = jobs[j];
                let pre = prefix(p, C::SUFFIX);
                let msg = message(k, l);
                let dst = [pre.as_bytes(), C::SUFFIX.as_bytes()].concat();
                let key = |w: &str| format!("{w}:{}|prefix {p} message {k} of {l}", C::NAME);
                let say = format!("{}::hash_to_curve, prefix {pre:?}, message kind {k} of {l} bytes", C::NAME);
                let uni = xmd::<Sha256>(&msg, &dst, 2 * C::LEN * ec.f.deg()).unwrap();
                let [u0, u1] = to_field(&ec.f, &uni);
                let want = C::clear(&ec, &ec.add(&h.map(&u0), &h.map(&u1)));
                let got = guard(|| {
                    let hash = <C::G as halo2curves::CurveExt>::hash_to_curve(&pre);
                    let a = hash(&msg);
                    // the closure keeps nothing between calls
                    hash(&[]);
                    let b = hash(&msg);
                    (a, b, <C::G as halo2curves::CurveExt>::hash_to_curve(&pre)(&msg))
                });
                r.st(1);
                r.tr(4);
                let (a, b, c) = match got {
                    Ok(x) => x,
                    Err(e) => return r.violation(key("panics"), format!("{say}: {e}")),
                };
                r.check(C::get(&a) == C::get(&b) && C::get(&a) == C::get(&c), || key("deterministic"), || format!("{say}: different results"));
                let a = C::proj_r(&a);
                r.check(a.as_ref() == Ok(&want), || key("value"), || format!("{say}: got {a:?}, RFC 9380 {want:?}"));
                if let Ok(a) = &a {
                    r.check(ec.on(a), || key("curve"), || format!("{say}: off the curve"));
                    if j % if big { 8 } else { 2 } == 0 {
                        r.check(ec.mul(&C::r(), a).is_none(), || key("subgroup"), || format!("{say}: outside the prime-order subgroup"));
                    }
                }
            });
        });
    }
}

/// The uniform bytes standing for a pair of field elements, coordinates offset by k multiples of p.
fn bytes_of<F: Fld>(f: &F, len: usize, us: [&F::E; 2], k: &BigUint) -> Vec<u8> {
    let mut v = vec![];
    for u in us {
        for c in f.coeffs(u) {
            let b = (c + k * f.chr()).to_bytes_be();
            v.extend(vec![0u8; len - b.len()]);
            v.extend(b);
        }
    }
    v
}

#[cfg(feature = "tiny")]
struct Forced<'a>(&'a Rep);
#[cfg(feature = "tiny")]
impl SuitedFn for Forced<'_> {
    fn call<C: Suited>(&self) {
        use halo2curves::verif::set_expand_message;
        let r = self.0;
        r.section(&format!("map:{}", C::NAME), || {
            let h = C::h2c();
            let ec = C::ec();
            let f = &ec.f;
            let p = f.chr();
            let mut us = h.exceptional();
            us.extend(C::extra());
            let limb = (BigUint::one() << (64 * C::Bf::BLIMBS)) % &p;
            let mut cs: Vec<BigUint> = vec![0u32.into(), 1u32.into(), &p - 1u32, 2u32.into(), &p - 2u32, &p >> 1, (&p >> 1) + 1u32, limb, 3u32.into()];
            cs.extend((4..r.pick(16, 64u32)).map(BigUint::from));
            if f.deg() == 2 {
                for a in cs.iter().take(r.pick(7, 16)) {
                    for b in cs.iter().take(r.pick(7, 16)) {
                        us.push(f.of_coeffs(&[a.clone(), b.clone()]));
                    }
                }
            } else {
                us.extend(cs.iter().map(|c| f.of_coeffs(&[c.clone()])));
            }
            let mut v: Vec<<<C::Bf as HB>::R as Fld>::E> = vec![];
            for u in us.iter().chain(us.iter().map(|u| f.neg(u)).collect::<Vec<_>>().iter()) {
                if !v.contains(u) {
                    v.push(u.clone());
                }
            }
            let us = v;
            r.val(us.len());
            let kmax = ((BigUint::one() << (8 * C::LEN)) - &p) / &p;
            let maps = pmap(us.len(), |i| {
                let m = h.map(&us[i]);
                let c = C::clear(&ec, &m);
                (m, c)
            });
            r.par(us.len() * us.len(), |i| {
                let (i, j) = (i / us.len(), i % us.len());
                // all pairs of the first few and of neighbours, each element with itself and its negative
                let close = i == j || us[i] == f.neg(&us[j]) || i < 12 || j < 4 || r.quick() && (i + j) % 2 == 0 || !r.quick();
                if !close {
                    return;
                }
                let k = match (i + j) % 3 {
                    0 => BigUint::zero(),
                    1 => BigUint::one(),
                    _ => kmax.clone(),
                };
                let want = ec.add(&maps[i].1, &maps[j].1);
                let key = |w: &str| format!("{w}:{}|u0 {:?} u1 {:?}", C::NAME, us[i], us[j]);
                let say = || format!("{}: hash of a message expanding to u0 = {:?}, u1 = {:?} (plus {k} p)", C::NAME, us[i], us[j]);
                r.st(1);
                r.tr(5);
                set_expand_message(Some(bytes_of(f, C::LEN, [&us[i], &us[j]], &k)));
                let got = guard(|| <C::G as halo2curves::CurveExt>::hash_to_curve("x")(b"m"));
                set_expand_message(None);
                match got {
                    Err(e) => r.violation(key("panics"), format!("{}: {e}", say())),
                    Ok(g) => {
                        let g = C::proj_r(&g);
                        r.outcome(if want.is_none() { "identity" } else { "point" }, 1);
                        r.check(g.as_ref() == Ok(&want), || key("map"), || format!("{}: got {g:?}, RFC 9380 {want:?}", say()));
                    }
                }
            });
            for (i, m) in maps.iter().enumerate() {
                if m.0.is_none() {
                    r.outcome("kernel", 1);
                    r.sample(|| format!("{} maps u = {:?} into the kernel of the isogeny", C::NAME, us[i]));
                }
            }
        });
    }
}

/// A small curve under every admissible Z: all field elements, pairs of them.
#[cfg(feature = "tiny")]
fn small<C: HC>(r: &Rep, len: usize, sswu: bool, nz: usize, full: usize, row: usize, hash: &(dyn Fn(&C::Bf) -> Box<dyn Fn() -> C::G> + Sync))
where
    C::Bf: Sync,
{
    use halo2curves::verif::set_expand_message;
    r.section(&format!("all-u:{}", C::NAME), || {
        let ec = C::ec();
        let f = &ec.f;
        let us = all_elems(f);
        let mut zs: Vec<_> = us
            .iter()
            .filter(|z| if sswu { H2c::sswu_ok(&ec, z, &us) } else { H2c::svdw_ok(&ec, z) })
            .cloned()
            .collect();
        zs.truncate(nz);
        r.val(zs.len());
        if zs.is_empty() {
            return r.engine_error("no admissible Z");
        }
        r.par(zs.len() * 8, |zi| {
            let (zi, part) = (zi / 8, zi % 8);
            let z = &zs[zi];
            let map = if sswu {
                Map::Sswu { z: z.clone(), a: ec.a.clone(), b: ec.b.clone(), iso: None }
            } else {
                Map::Svdw { z: z.clone() }
            };
            let h = H2c::new(ec.clone(), map);
            let maps: Vec<_> = us.iter().map(|u| h.map(u)).collect();
            for m in &maps {
                if !ec.on(m) {
                    r.engine_error("reference map leaves the curve");
                }
            }
            let lib = match guard(|| hash(&C::Bf::of_r(z))) {
                Ok(l) => l,
                Err(e) => return r.violation(format!("suite:{}|z {z:?}", C::NAME), format!("{}: Suite::new with Z = {z:?}: {e}", C::NAME)),
            };
            for (i, u0) in us.iter().enumerate() {
                if i % 8 != part {
                    continue;
                }
                for (j, u1) in us.iter().enumerate() {
                    if !(zi < full || i == j || (i * 31 + j * 17 + zi) % us.len() < row || *u1 == f.neg(u0)) {
                        continue;
                    }
                    let k = BigUint::from(((i * 7 + j * 3) % 23) as u32) * (BigUint::one() << (((i + j) % 4) * 32));
                    set_expand_message(Some(bytes_of(f, len, [u0, u1], &k)));
                    let got = guard(&lib);
                    set_expand_message(None);
                    let want = ec.add(&maps[i], &maps[j]);
                    r.st(1);
                    r.tr(5);
                    let ok = matches!(&got, Ok(g) if C::proj_r(g).as_ref() == Ok(&want));
                    r.check(ok, || format!("map:{}|z {z:?} u {u0:?} {u1:?}", C::NAME), || format!("{}: Z = {z:?}, message expanding to u0 = {u0:?}, u1 = {u1:?}: got {:?}, RFC 9380 {want:?}", C::NAME, got.as_ref().map(|g| C::proj_r(g))));
                }
            }
        });
    });
}

/// Run in a process whose standard output cannot be written to.
struct Mute;
impl SuitedFn for Mute {
    fn call<C: Suited>(&self) {
        if let Err(e) = guard(|| <C::G as halo2curves::CurveExt>::hash_to_curve("mute")(b"m")) {
            eprintln!("{}: {e}", C::NAME);
            std::process::exit(9);
        }
    }
}
fn mute(r: &Rep) {
    use std::process::*;
    let full = std::fs::OpenOptions::new().write(true).open("/dev/full");
    let (Ok(full), Ok(exe)) = (full, std::env::current_exe()) else { return };
    if let Ok(o) = Command::new(exe).env("HV_C24_MUTE", "1").stdin(Stdio::null()).stdout(full).stderr(Stdio::piped()).output() {
        r.st(1);
        r.tr(1);
        r.check(o.status.code() != Some(9), || "mute|stdout".into(), || format!("hash_to_curve in a process whose standard output is full: {}", String::from_utf8_lossy(&o.stderr)));
    }
}

fn main() {
    if std::env::var("HV_C24_MUTE").is_ok() {
        return each_suited(&Mute);
    }
    run("C24", |r| {
        #[cfg(feature = "tiny")]
        {
            use halo2curves::verif::*;
            r.section("expand_message", || {
                expand::<Sha256>(r, "SHA-256");
                expand::<sha2::Sha512>(r, "SHA-512");
                expand::<sha2::Sha384>(r, "SHA-384");
                expand::<blake2::Blake2b512>(r, "BLAKE2b");
            });
            let full = r.pick(6, 1000);
            small::<TA>(r, 48, false, 1000, full, 4, &|z| {
                let s = ta::suite::<Sha256>(b"TA", *z);
                Box::new(move || s.hash_to_curve("x", b"m"))
            });
            small::<TB>(r, 32, true, 1000, full, 4, &|z| {
                let s = tb::suite::<Sha256>(b"TB", *z);
                Box::new(move || s.hash_to_curve("x", b"m"))
            });
            small::<TC>(r, 32, false, 1000, full, 4, &|z| {
                let s = tc::suite::<Sha256>(b"TC", *z);
                Box::new(move || s.hash_to_curve("x", b"m"))
            });
            small::<TD>(r, 48, false, r.pick(40, 400), 0, r.pick(12, 60), &|z| {
                let s = td::suite::<Sha256>(b"TD", *z);
                Box::new(move || s.hash_to_curve("x", b"m"))
            });
        }
        r.section("mute", || mute(r));
        each_suited(&Whole(r));
        #[cfg(feature = "tiny")]
        each_suited(&Forced(r));
    });
}
