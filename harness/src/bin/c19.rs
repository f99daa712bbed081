//! C19: multi-scalar multiplication against the sum of the multiples.
//!
//! All points are known multiples of one generator, so the expected sum is one multiple of it.
use group::Group;
use halo2curves::msm::{msm_best, msm_parallel, msm_serial};
use hv::*;

/// points by their logarithm: the library's affine form and the reference point
struct Pts<C: HC> {
    n: BigUint,
    ec: Ec<<C::Bf as HB>::R>,
    g: P<C>,
}
impl<C: HC> Pts<C> {
    fn new() -> Self {
        Pts { n: C::r(), ec: C::ec(), g: C::gen_r() }
    }
    fn at(&self, m: &BigUint) -> P<C> {
        self.ec.mul(&(m % &self.n), &self.g)
    }
}
/// one list of (scalar, logarithm of the base): the entry points named in `which`
fn run_on<C: HC>(which: &str, ks: &[C::Sc], ps: &[C::Aff]) -> Vec<(&'static str, C::G)> {
    let mut v = vec![];
    if which.contains('s') {
        let mut acc = C::G::identity();
        msm_serial(ks, ps, &mut acc);
        v.push(("serial", acc));
    }
    if which.contains('p') {
        v.push(("parallel", msm_parallel(ks, ps)));
    }
    if which.contains('b') {
        v.push(("best", msm_best(ks, ps)));
    }
    v
}
fn judge<C: HC>(r: &Rep, which: &str, ks: &[C::Sc], ps: &[C::Aff], want: &P<C>, key: &dyn Fn() -> String) {
    r.st(1);
    r.val(1);
    r.tr(which.len() * ks.len().max(1));
    match guard(|| run_on::<C>(which, ks, ps)) {
        Err(m) => r.violation(format!("panic:{}|{}", C::NAME, key()), m),
        Ok(v) => {
            for (name, g) in v {
                let got = C::proj_r(&g);
                r.check(got.as_ref() == Ok(want), || format!("{name}:{}|{}", C::NAME, key()), || format!("{got:?} instead of {want:?}"));
            }
        }
    }
}
/// Complete small lists: every list up to some length over all (scalar, point) pairs drawn from
/// letters, in pools of several sizes.
fn words_short<C: HC>(r: &Rep, scalars: &[BigUint], logs: &[BigUint], max: usize) {
    let t = Pts::<C>::new();
    let sc: Vec<C::Sc> = scalars.iter().map(|k| C::Sc::of(&(k % &t.n))).collect();
    let pt: Vec<C::Aff> = logs.iter().map(|m| C::aff(&t.at(m))).collect();
    let letters: Vec<(usize, usize)> = (0..sc.len()).flat_map(|i| (0..pt.len()).map(move |j| (i, j))).collect();
    let n = u(&t.n.clone().min(u64::MAX.into()));
    // expected results by their logarithm
    let sums: Vec<u64> = letters.iter().map(|(i, j)| u(&((&scalars[*i] * &logs[*j]) % &t.n))).collect();
    let memo = std::sync::Mutex::new(std::collections::HashMap::<u64, P<C>>::new());
    for len in 0..=max {
        let total = letters.len().pow(len as u32);
        let parts = 64.min(total);
        r.par(parts, |part| {
            let threads = 1 + part % 4;
            let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
            pool.install(|| {
                for w in (part..total).step_by(parts) {
                    let mut x = w;
                    let mut ks = vec![];
                    let mut ps = vec![];
                    let mut s = 0u64;
                    for _ in 0..len {
                        let l = x % letters.len();
                        x /= letters.len();
                        ks.push(sc[letters[l].0]);
                        ps.push(pt[letters[l].1]);
                        s = ((s as u128 + sums[l] as u128) % n as u128) as u64;
                    }
                    let want = memo.lock().unwrap().entry(s).or_insert_with(|| t.at(&s.into())).clone();
                    judge::<C>(r, "spb", &ks, &ps, &want, &|| format!("word {w} of length {len}, {threads} threads"));
                }
            });
        });
    }
    r.sample(|| format!("all lists of up to {max} of {} scalar-point pairs", letters.len()));
}
/// A list given by (scalar, index into `logs`) pairs.
fn list<C: HC>(r: &Rep, t: &Pts<C>, pts: &[C::Aff], logs: &[BigUint], which: &str, l: &[(&BigUint, usize)], key: &dyn Fn() -> String) {
    let ks: Vec<C::Sc> = l.iter().map(|(k, _)| C::Sc::of(k)).collect();
    let ps: Vec<C::Aff> = l.iter().map(|(_, m)| pts[*m]).collect();
    let s: BigUint = l.iter().map(|(k, m)| *k * &logs[*m]).sum::<BigUint>() % &t.n;
    judge::<C>(r, which, &ks, &ps, &t.at(&s), key);
}
/// lengths at which the window size or the route changes, and their neighbours
fn lengths(big: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..40).collect();
    for c in 3..if big { 12 } else { 10 } {
        let e = (c as f64).exp() as usize;
        v.extend([e - 1, e, e + 1, e + 2]);
    }
    v.sort();
    v.dedup();
    v
}
/// scalars with every boundary shape of their windows
fn telling_scalars(n: &BigUint, dense: usize) -> Vec<BigUint> {
    let b1 = BigUint::one();
    let mut v: Vec<BigUint> = vec![BigUint::zero(), b1.clone(), n - 1u32, n - 2u32, n >> 1, (n >> 1) + 1u32];
    let bits = n.bits() as usize;
    for i in (0..bits).step_by(dense) {
        v.push(&b1 << i);
        v.push((&b1 << i) - 1u32);
        v.push(n - (&b1 << i) % n);
        for w in [3, 9, 10, 11] {
            // a window of ones, and its top bit alone with the carry below
            v.push(((&b1 << w) - 1u32) << i);
            v.push(((&b1 << (w - 1)) + 1u32) << i);
        }
    }
    let mut v: Vec<BigUint> = v.into_iter().map(|x| x % n).collect();
    v.sort();
    v.dedup();
    v
}
const LONG: usize = 8104;
/// Every word over actions on one bucket, after `fill` other buckets have been scheduled, in a
/// list long enough for the bucketed algorithm.
struct Bucket<'a, C: HC> {
    r: &'a Rep,
    t: Pts<C>,
}
impl<C: HC> Bucket<'_, C> {
    fn explore(&self, digits: &[i64], logs: &[i64], fills: &[usize], max: usize) {
        let r = self.r;
        let n = &self.t.n;
        let md = |x: i64| if x < 0 { n - BigUint::from(x.unsigned_abs()) } else { BigUint::from(x as u64) % n };
        let letters: Vec<(i64, i64)> = digits.iter().flat_map(|d| logs.iter().map(move |l| (*d, *l))).collect();
        // fills: pairs on buckets far from the focus: first sets the bucket, second schedules
        for &fill in fills {
            let mut pre: Vec<(BigUint, BigUint)> = vec![];
            for i in 0..fill {
                let d = md(20 + i as i64);
                pre.push((d.clone(), 3u32.into()));
                pre.push((d, 5u32.into()));
            }
            for len in 1..=max {
                let total = letters.len().pow(len as u32);
                let parts = 64.min(total);
                r.par(parts, |part| {
                    let pool = rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap();
                    let mut memo = std::collections::HashMap::new();
                    let zero = C::Sc::of(&BigUint::zero());
                    let g = C::aff(&self.t.g);
                    let mut ks = vec![zero; LONG];
                    let mut ps = vec![g; LONG];
                    for (i, (k, m)) in pre.iter().enumerate() {
                        ks[i] = C::Sc::of(k);
                        ps[i] = C::aff(&self.t.at(m));
                    }
                    let base: BigUint = pre.iter().map(|(k, m)| k * m).sum();
                    for w in (part..total).step_by(parts) {
                        let mut x = w;
                        let mut s = base.clone();
                        for j in 0..max {
                            let i = pre.len() + j;
                            if j >= len {
                                ks[i] = zero;
                                continue;
                            }
                            let (d, l) = letters[x % letters.len()];
                            x /= letters.len();
                            let (k, m) = (md(d), md(l));
                            s += &k * &m;
                            ks[i] = C::Sc::of(&k);
                            ps[i] = *memo.entry(l).or_insert_with(|| C::aff(&self.t.at(&m)));
                        }
                        let want = self.t.at(&s);
                        pool.install(|| judge::<C>(r, "b", &ks, &ps, &want, &|| format!("word {w} of length {len} over {letters:?} after {fill} scheduled")));
                    }
                });
            }
        }
        r.sample(|| format!("words up to {max} over {letters:?}, after {fills:?} scheduled additions"));
    }
}
/// periodic lists: every word of letters tiled over a long list
fn tiled<C: HC>(r: &Rep, scalars: &[BigUint], logs: &[BigUint], period: usize, lens: &[usize]) {
    let t = Pts::<C>::new();
    let letters: Vec<(&BigUint, usize)> = scalars.iter().flat_map(|k| (0..logs.len()).map(move |m| (k, m))).collect();
    let pts: Vec<C::Aff> = logs.iter().map(|m| C::aff(&t.at(m))).collect();
    for p in 1..=period {
        let all: Vec<Vec<usize>> = words(letters.len(), p).collect();
        r.par(all.len(), |i| {
            let n = lens[i % lens.len()];
            let l: Vec<_> = (0..n).map(|j| letters[all[i][j % p]]).collect();
            list::<C>(r, &t, &pts, logs, "b", &l, &|| format!("{n} entries, period {:?} of (scalar, log)", all[i].iter().map(|x| letters[*x]).collect::<Vec<_>>()));
        });
        r.sample(|| format!("{} words of period {p} over {} letters in lists of {lens:?}", all.len(), letters.len()));
    }
}
/// lists of every length in `lens` cycling through scalars and points of all shapes
fn shapes<C: HC>(r: &Rep, scalars: &[BigUint], logs: &[BigUint], lens: &[usize], which: &str) {
    let t = Pts::<C>::new();
    let strides = [1usize, 7, 11, 13];
    let pts: Vec<C::Aff> = logs.iter().map(|m| C::aff(&t.at(m))).collect();
    r.par(lens.len() * strides.len(), |i| {
        let n = lens[i % lens.len()];
        let st = strides[i / lens.len()];
        // the two cycles have coprime lengths, so the pairs vary
        let l: Vec<_> = (0..n).map(|j| (&scalars[(j * st + i) % scalars.len()], (j * st + j / logs.len() + i) % logs.len())).collect();
        list::<C>(r, &t, &pts, logs, which, &l, &|| format!("{n} entries, stride {st}, start {i}"));
    });
    r.sample(|| format!("lengths {:?}", &lens[lens.len().saturating_sub(6)..]));
}
/// one active entry at each position class of a list of each length
fn single<C: HC>(r: &Rep, scalars: &[BigUint], lens: &[usize]) {
    let t = Pts::<C>::new();
    let zero = C::Sc::of(&BigUint::zero());
    r.par(lens.len(), |i| {
        let n = lens[i];
        if n == 0 {
            return;
        }
        let g = C::aff(&t.g);
        for (j, k) in scalars.iter().enumerate() {
            let mut ks = vec![zero; n];
            let ps = vec![g; n];
            let at = [0, n - 1, n / 2][j % 3];
            ks[at] = C::Sc::of(k);
            judge::<C>(r, if n < 40 { "spb" } else { "sb" }, &ks, &ps, &t.at(k), &|| format!("only entry {at} of {n}: {k:x}"));
        }
    });
    r.sample(|| format!("{} scalars alone in lists of {} lengths", scalars.len(), lens.len()));
}
/// Few active entries in lists long enough for every window size up to `ceil(ln(lens.last))`.
fn sparse<C: HC>(r: &Rep, lens: &[usize], serial: usize) {
    r.section(&format!("sparse:{}", C::NAME), || {
        let t = Pts::<C>::new();
        let n = &t.n;
        let zero = C::Sc::of(&BigUint::zero());
        let logs: Vec<BigUint> = vec![BigUint::one(), 2u32.into(), n - 1u32, n - 5u32];
        let pts: Vec<C::Aff> = logs.iter().map(|m| C::aff(&t.at(m))).collect();
        for &len in lens {
            let c = (len as f64).ln().ceil() as usize;
            let mut s = telling_scalars(n, 5);
            // windows of ones and their halves, in every position of this window size
            for w in 0..=n.bits() as usize / c {
                for v in [(1u64 << c) - 1, 1 << (c - 1), (1 << (c - 1)) + 1, (1 << (c + 1)) - 1, 0x1555555 & ((1 << (c + 1)) - 1)] {
                    for sh in [0, 1] {
                        s.push((BigUint::from(v) << (w * c + sh).saturating_sub(1)) % n);
                    }
                }
            }
            let mut ks = vec![zero; len];
            let ps: Vec<C::Aff> = (0..len).map(|i| pts[i % pts.len()]).collect();
            let mut sum = BigUint::zero();
            for (j, k) in s.iter().enumerate() {
                let at = if j == 0 { len - 1 } else { j * (len / (s.len() + 1)) + j % 7 };
                ks[at] = C::Sc::of(k);
                sum += k * &logs[at % logs.len()];
            }
            let which = if len <= serial { "sb" } else { "b" };
            judge::<C>(r, which, &ks, &ps, &t.at(&sum), &|| format!("{} of {len} entries active", s.len()));
            r.sample(|| format!("{} active entries of {len}, windows of {c} bits", s.len()));
        }
    });
}
fn mismatch<C: HC>(r: &Rep) {
    r.section(&format!("mismatch:{}", C::NAME), || {
        let t = Pts::<C>::new();
        let g = C::aff(&t.g);
        let one = C::Sc::of(&BigUint::one());
        let lens = [0, 1, 2, 3, 4, 7, 8, 9, 31, 32, 33, 64, LONG - 1, LONG, LONG + 1];
        for a in lens {
            for b in lens {
                // also one apart, where a shorter list is a prefix
                for (a, b) in [(a, b), (a, b + 1)] {
                    if a == b {
                        continue;
                    }
                    let (ks, ps) = (vec![one; a], vec![g; b]);
                    r.st(1);
                    r.tr(2);
                    r.check(panics(|| msm_parallel(&ks, &ps)), || format!("mismatch_parallel:{}|{a}|{b}", C::NAME), || "returned a value".into());
                    r.check(panics(|| msm_best(&ks, &ps)), || format!("mismatch_best:{}|{a}|{b}", C::NAME), || "returned a value".into());
                }
            }
        }
    });
}
fn big(v: &[u64]) -> Vec<BigUint> {
    v.iter().map(|x| BigUint::from(*x)).collect()
}
struct Tiny<'a>(&'a Rep);
impl CurveFn for Tiny<'_> {
    fn call<C: HC>(&self) {
        let r = self.0;
        let n = u(&C::r());
        r.section(&format!("pairs:{}", C::NAME), || {
            // every scalar with every point, alone and in pairs with a few others
            words_short::<C>(r, &(0..n).map(BigUint::from).collect::<Vec<_>>(), &(0..n).map(BigUint::from).collect::<Vec<_>>(), 1);
        });
        r.section(&format!("words:{}", C::NAME), || {
            words_short::<C>(r, &big(&[0, 1, 2, n / 2, n - 1]), &big(&[0, 1, 2, n - 1]), r.pick(3, 4));
            // longer lists over fewer letters: the window size changes at 4
            words_short::<C>(r, &big(&[1, n - 1]), &big(&[0, 1, n - 1]), r.pick(6, 7));
        });
        r.section(&format!("lengths:{}", C::NAME), || {
            let all: Vec<BigUint> = (0..n).map(BigUint::from).collect();
            shapes::<C>(r, &all, &all, &lengths(true), "spb");
            let lens = lengths(true);
            single::<C>(r, &all.iter().step_by(r.pick(7, 1)).cloned().collect::<Vec<_>>(), &lens);
        });
        r.section(&format!("bucket:{}", C::NAME), || {
            let b = Bucket::<C> { r, t: Pts::new() };
            let m = n as i64;
            let base = r.quick() && C::Bf::ctx().deg() > 1;
            b.explore(&[1, 2, 9], &[0, 1, -1, 2], &[0], r.pick(if base { 2 } else { 3 }, 4));
            b.explore(&[7], &[0, 1, -1, 2, m / 2], &[0, 1], r.pick(if base { 3 } else { 4 }, 6));
            let f = (m - 22).min(66);
            if f >= 65 {
                b.explore(&[7], &[0, 1, -1, 2], &[62, 63, 64, 65], r.pick(4, 6));
            }
        });
        r.section(&format!("tiled:{}", C::NAME), || {
            tiled::<C>(r, &big(&[0, 1, 2, n - 1]), &big(&[0, 1, 2, n - 1]), 2, &[LONG, LONG + 1, 22027]);
        });
    }
}
struct Mid<'a>(&'a Rep);
impl CurveFn for Mid<'_> {
    fn call<C: HC>(&self) {
        let r = self.0;
        let n = C::r();
        let m = u(&n);
        r.section(&format!("words:{}", C::NAME), || {
            words_short::<C>(r, &big(&[0, 1, 512, m / 2, m - 1]), &big(&[0, 1, 2, m - 1]), 3);
        });
        r.section(&format!("lengths:{}", C::NAME), || {
            let s = telling_scalars(&n, 1);
            let logs: Vec<BigUint> = big(&[0, 1, 2, 3, m - 1, m - 2, m / 2, 1, 12345, 0, m - 12345]);
            shapes::<C>(r, &s, &logs, &lengths(true), "spb");
            single::<C>(r, &s.iter().step_by(r.pick(7, 1)).cloned().collect::<Vec<_>>(), &lengths(true));
        });
        r.section(&format!("bucket:{}", C::NAME), || {
            let b = Bucket::<C> { r, t: Pts::new() };
            // digits of both signs, alone and across windows of 10 bits
            b.explore(&[7, -7, 1000 << 10, 505], &[0, 1, -1, 2], &[0], r.pick(3, 4));
            b.explore(&[7, 1017], &[0, 1, -1, 2], &[63, 64, 65], r.pick(3, 5));
            b.explore(&[7], &[1, -1, 2, 0], &[0, 62, 63, 64, 65, 128], r.pick(4, 6));
        });
        r.section(&format!("tiled:{}", C::NAME), || {
            tiled::<C>(r, &big(&[0, 1, 7, 1017, m - 1]), &big(&[0, 1, 2, m - 1]), r.pick(2, 2), &[LONG, LONG + 1, 22027]);
        });
    }
}
struct Real<'a>(&'a Rep);
impl CurveFn for Real<'_> {
    fn call<C: HC>(&self) {
        let r = self.0;
        let n = C::r();
        let b1 = BigUint::one();
        let logs: Vec<BigUint> = vec![BigUint::zero(), b1.clone(), 2u32.into(), 3u32.into(), &n - 1u32, &n - 2u32, &n >> 1, b1.clone(), 12345u32.into(), BigUint::zero(), &n - 12345u32];
        let heavy = C::Bf::BSIZE > 48;
        r.section(&format!("lengths:{}", C::NAME), || {
            let s = telling_scalars(&n, if heavy { 7 } else { 3 });
            let far = C::Bf::BSIZE > 32;
            let mut lens: Vec<usize> = lengths(false).into_iter().filter(|l| !r.quick() || (*l < if far { 60 } else { 160 } && (*l < 8 || *l > 28 || l % 5 == 0))).collect();
            shapes::<C>(r, &s, &logs, &lens, "spb");
            lens = r.pick(vec![if far { 450 } else { LONG }], vec![LONG - 1, LONG, LONG + 1, 22027]);
            shapes::<C>(r, &s, &logs, &lens, "b");
        });
        r.section(&format!("bucket:{}", C::NAME), || {
            let s = [BigUint::zero(), b1.clone(), &n - 1u32, 7u32.into(), 1017u32.into()];
            let per = r.pick(1, 2);
            tiled::<C>(r, &s, &logs[..if per == 1 { 7 } else { 5 }], per, &[LONG]);
            // equal, opposite and identity points meeting in one bucket
            let b = Bucket::<C> { r, t: Pts::new() };
            b.explore(&[7], &[0, 1, -1, 2], &[0], r.pick(if heavy { 1 } else { 2 }, 3));
            b.explore(&[7], &[0, 1, -1, 2], &[63], r.pick(1, 3));
        });
    }
}
struct Mis<'a>(&'a Rep);
impl CurveFn for Mis<'_> {
    fn call<C: HC>(&self) {
        mismatch::<C>(self.0);
    }
}
fn main() {
    run("C19", |r| {
        each_tiny_curve(&Tiny(r));
        each_mid_curve(&Mid(r));
        each_real_curve(&Real(r));
        let lens = [8104, 22027, 59875, 162755, 442414, 1202605, 3269018, 8886111, 24154953];
        sparse::<halo2curves::bn256::G1>(r, r.pick(&lens[..8], &lens), r.pick(59875, 8886111));
        sparse::<halo2curves::pluto_eris::Eris>(r, r.pick(&lens[..4], &lens[..8]), r.pick(8104, 442414));
        sparse::<halo2curves::bls12381::G1>(r, r.pick(&lens[..4], &lens[..8]), r.pick(8104, 442414));
        Mis(r).call::<halo2curves::bn256::G1>();
        Mis(r).call::<halo2curves::secp256r1::Secp256r1>();
    });
}
