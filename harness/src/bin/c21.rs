//! C21: the FFT against the definition of the discrete Fourier transform.
//!
//! The transform only uses the operations of a module, so one run on formal basis vectors decides
//! the result for every input vector over every group.
use ff::PrimeField;
use group::Group;
use halo2curves::fft::{best_fft, recursive_butterfly_arithmetic};
use hv::*;
use std::ops::*;

fn pools(v: &[usize]) -> Vec<(usize, rayon::ThreadPool)> {
    v.iter().map(|n| (*n, rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap())).collect()
}
fn root<F: HF>(k: u32) -> F {
    let mut w = F::ROOT_OF_UNITY;
    for _ in k..F::S {
        w = w.square();
    }
    w
}
/// A formal linear combination of N symbols.
#[derive(Clone, Copy, PartialEq, Debug)]
struct V<F, const N: usize>([F; N]);
macro_rules! linear {
    ($tr:ident, $m:ident, $ta:ident, $ma:ident) => {
        impl<F: HF, const N: usize> $tr for V<F, N> {
            type Output = Self;
            fn $m(mut self, o: Self) -> Self {
                $ta::$ma(&mut self, &o);
                self
            }
        }
        impl<'a, F: HF, const N: usize> $tr<&'a Self> for V<F, N> {
            type Output = Self;
            fn $m(mut self, o: &Self) -> Self {
                $ta::$ma(&mut self, o);
                self
            }
        }
        impl<F: HF, const N: usize> $ta for V<F, N> {
            fn $ma(&mut self, o: Self) {
                $ta::$ma(self, &o);
            }
        }
        impl<'a, F: HF, const N: usize> $ta<&'a Self> for V<F, N> {
            fn $ma(&mut self, o: &Self) {
                for i in 0..N {
                    self.0[i] = $tr::$m(self.0[i], o.0[i]);
                }
            }
        }
    };
}
linear!(Add, add, AddAssign, add_assign);
linear!(Sub, sub, SubAssign, sub_assign);
impl<F: HF, const N: usize> Mul<F> for V<F, N> {
    type Output = Self;
    fn mul(mut self, k: F) -> Self {
        self *= &k;
        self
    }
}
impl<'a, F: HF, const N: usize> Mul<&'a F> for V<F, N> {
    type Output = Self;
    fn mul(mut self, k: &F) -> Self {
        self *= k;
        self
    }
}
impl<F: HF, const N: usize> MulAssign<F> for V<F, N> {
    fn mul_assign(&mut self, k: F) {
        *self *= &k;
    }
}
impl<'a, F: HF, const N: usize> MulAssign<&'a F> for V<F, N> {
    fn mul_assign(&mut self, k: &F) {
        for x in &mut self.0 {
            *x *= *k;
        }
    }
}
fn basis<F: HF, const N: usize>() -> Vec<V<F, N>> {
    (0..N).map(|i| V(std::array::from_fn(|j| if i == j { F::ONE } else { F::ZERO }))).collect()
}
/// One root of order N: the transform, its inverse and the inner butterflies on formal vectors.
fn formal<F: HF, const N: usize>(r: &Rep, w: F, threads: usize) {
    let k = N.ilog2();
    let ws: Vec<F> = std::iter::successors(Some(F::ONE), |x| Some(*x * w)).take(N).collect();
    let want = |i: usize, j: usize| ws[i * j % N];
    let tag = || format!("{}, k={k}, omega={:x}, {threads} threads", F::NAME, w.big());
    let compare = |name: &str, got: &[V<F, N>], want: &dyn Fn(usize, usize) -> F| {
        let bad = (0..N).find(|i| (0..N).any(|j| got[*i].0[j] != want(*i, j)));
        r.check(bad.is_none(), || format!("{name}:{}", tag()), || {
            let i = bad.unwrap();
            format!("output {i} is {:x?}, of the inputs in order", got[i].0.iter().map(|x| x.big()).collect::<Vec<_>>())
        });
    };
    r.st(N);
    r.tr(3 * N * k.max(1) as usize);
    r.val(3 * N);
    let mut a = basis::<F, N>();
    match guard(|| best_fft(&mut a, w, k)) {
        Err(m) => return r.violation(format!("panic:{}", tag()), m),
        Ok(()) => compare("dft", &a, &want),
    }
    let wi = ws[(N - 1) % N];
    if let Err(m) = guard(|| best_fft(&mut a, wi, k)) {
        return r.violation(format!("panic:inverse {}", tag()), m);
    }
    let n = F::from(N as u64);
    compare("inverse", &a, &|i, j| if i == j { n } else { F::ZERO });
    if N >= 2 {
        // the butterflies take their input in bit-reversed order
        let b = basis::<F, N>();
        let mut a: Vec<_> = (0..N).map(|i| b[i.reverse_bits() >> (usize::BITS - k)]).collect();
        match guard(|| recursive_butterfly_arithmetic(&mut a, N, 1, &ws[..N / 2])) {
            Err(m) => r.violation(format!("panic:butterfly {}", tag()), m),
            Ok(()) => compare("butterfly", &a, &want),
        }
    }
}
fn formal_k<F: HF>(r: &Rep, k: u32, w: F, threads: usize) {
    match k {
        0 => formal::<F, 1>(r, w, threads),
        1 => formal::<F, 2>(r, w, threads),
        2 => formal::<F, 4>(r, w, threads),
        3 => formal::<F, 8>(r, w, threads),
        4 => formal::<F, 16>(r, w, threads),
        5 => formal::<F, 32>(r, w, threads),
        6 => formal::<F, 64>(r, w, threads),
        7 => formal::<F, 128>(r, w, threads),
        _ => formal::<F, 256>(r, w, threads),
    }
}
/// all roots of order 2^k (up to `cap` of them), all pools
fn formal_all<F: HF>(r: &Rep, max_k: u32, cap: usize, threads: &[usize]) {
    let ps = pools(threads);
    for k in 0..=max_k.min(F::S) {
        let w = root::<F>(k);
        let es: Vec<u64> = (0..1u64 << k).filter(|e| k == 0 || e % 2 == 1).collect();
        // the first and the last ones
        let es: Vec<u64> = if es.len() <= cap { es } else { es[..cap / 2].iter().chain(&es[es.len() - cap / 2..]).copied().collect() };
        r.par(es.len() * ps.len(), |i| {
            let (t, p) = &ps[i % ps.len()];
            let x = w.pow([es[i / ps.len()]]);
            p.install(|| formal_k(r, k, x, *t));
        });
        r.sample(|| format!("{} k={k}: formal vectors, {} roots, pools {threads:?}", F::NAME, es.len()));
    }
}
struct Formal<'a>(&'a Rep);
impl FieldFn for Formal<'_> {
    fn call<F: HF>(&self) {
        let r = self.0;
        if F::TINY {
            formal_all::<F>(r, 8, r.pick(32, 128), &[1, 2, 3, 4, 8, 16, 64]);
        } else {
            formal_all::<F>(r, r.pick(7, 8), r.pick(4, 64), r.pick(&[1, 3, 16][..], &[1, 2, 3, 4, 8, 16, 64][..]));
        }
    }
}
/// Every vector over the field.
fn every<F: HF>(r: &Rep, ks: &[u32], threads: &[usize]) {
    let els: Vec<F> = (0..u(&F::p())).map(|i| F::of(&i.into())).collect();
    let ps = pools(threads);
    for &k in ks {
        let n = 1usize << k;
        let total = els.len().pow(n as u32);
        let w = root::<F>(k);
        let ws: Vec<F> = (0..n).filter(|e| k == 0 || e % 2 == 1).map(|e| w.pow([e as u64])).collect();
        let parts = 64;
        r.par(parts, |part| {
            let (t, p) = &ps[part % ps.len()];
            p.install(|| {
                for v in (part..total).step_by(parts) {
                    let mut x = v;
                    let a: Vec<F> = (0..n)
                        .map(|_| {
                            let e = els[x % els.len()];
                            x /= els.len();
                            e
                        })
                        .collect();
                    for w in &ws {
                        let mut b = a.clone();
                        r.st(1);
                        r.tr(1);
                        r.val(1);
                        if let Err(m) = guard(|| best_fft(&mut b, *w, k)) {
                            r.violation(format!("panic:{}|vector {v} of 2^{k}", F::NAME), m);
                            continue;
                        }
                        let mut x = F::ONE;
                        for (i, y) in b.iter().enumerate() {
                            let e = a.iter().rev().fold(F::ZERO, |s, c| s * x + c);
                            r.check(*y == e, || format!("eval:{}|vector {v} of 2^{k}, omega {:?}, {t} threads, output {i}", F::NAME, w), || format!("{y:?} instead of {e:?}"));
                            x *= *w;
                        }
                    }
                }
            });
        });
        r.sample(|| format!("all {total} vectors of 2^{k} over {}", F::NAME));
    }
}
/// Long vectors: outputs at boundary positions by Horner's rule, the whole inverse.
fn long<F: HF>(r: &Rep, ks: &[u32], threads: &[usize]) {
    let ps = pools(threads);
    let ks: Vec<u32> = ks.iter().copied().filter(|k| *k <= F::S).collect();
    r.par(ks.len() * ps.len(), |job| {
        let k = ks[job / ps.len()];
        let (t, p) = &ps[job % ps.len()];
        let n = 1usize << k;
        let w = root::<F>(k);
        let mut x = F::from(3);
        let a: Vec<F> = (0..n)
            .map(|i| {
                x = x.square() + F::from(i as u64);
                x
            })
            .collect();
        let mut at: Vec<usize> = vec![0, n - 1, n / 2, n / 3];
        for i in 0..k {
            at.extend([1 << i, (1 << i) - 1, n - (1 << i), (1 << i) ^ (n - 1)]);
        }
        at.sort();
        at.dedup();
        let tag = || format!("{}|2^{k}, {t} threads", F::NAME);
        let mut b = a.clone();
        r.st(1);
        r.tr(n * k as usize);
        r.val(at.len() + n);
        if let Err(m) = guard(|| p.install(|| best_fft(&mut b, w, k))) {
            return r.violation(format!("panic:{}", tag()), m);
        }
        for i in at {
            let x = w.pow([i as u64]);
            let e = a.iter().rev().fold(F::ZERO, |s, c| s * x + c);
            r.check(b[i] == e, || format!("long:{}, output {i}", tag()), || format!("{:?} instead of {e:?}", b[i]));
        }
        if let Err(m) = guard(|| p.install(|| best_fft(&mut b, w.invert().unwrap(), k))) {
            return r.violation(format!("panic:{}", tag()), m);
        }
        let s = F::from(n as u64);
        let bad = (0..n).find(|i| b[*i] != a[*i] * s);
        r.check(bad.is_none(), || format!("long-inverse:{}", tag()), || format!("at {bad:?}"));
    });
    r.sample(|| format!("{} 2^k for k in {ks:?}", F::NAME));
}
/// Curve points: every word over a few logarithms.
struct Points<'a>(&'a Rep);
impl CurveFn for Points<'_> {
    fn call<C: HC>(&self) {
        let r = self.0;
        let q = C::r();
        let ec = C::ec();
        let g = C::gen_r();
        let memo = std::sync::Mutex::new(std::collections::HashMap::<BigUint, P<C>>::new());
        let at = |m: &BigUint| {
            if let Some(p) = memo.lock().unwrap().get(m) {
                return p.clone();
            }
            let p = ec.mul(m, &g);
            memo.lock().unwrap().insert(m.clone(), p.clone());
            p
        };
        for k in 0..=C::Sc::S.min(3) {
            let n = 1usize << k;
            let letters: Vec<BigUint> = if C::TINY && n <= 2 {
                (0..u(&q)).map(|i| i.into()).collect()
            } else if n <= 4 && (C::TINY || !r.quick()) {
                vec![0u32.into(), 1u32.into(), &q - 1u32, 2u32.into(), &q >> 1]
            } else if n <= 4 {
                vec![0u32.into(), 1u32.into(), &q - 1u32]
            } else {
                vec![0u32.into(), 1u32.into()]
            };
            let pts: Vec<C::G> = letters.iter().map(|l| C::G::from(C::aff(&at(l)))).collect();
            let w = root::<C::Sc>(k);
            let wb = w.big();
            let all: Vec<Vec<usize>> = words(letters.len(), n).collect();
            // for long words only those with few ones
            let all: Vec<_> = all.into_iter().filter(|x| n < 8 || x.iter().sum::<usize>() <= r.pick(2, 8) || *x == vec![1; n]).collect();
            let parts = 48.min(all.len());
            r.par(parts, |part| {
                let p = rayon::ThreadPoolBuilder::new().num_threads([1, 2, 4, 16][part % 4]).build().unwrap();
                for x in all.iter().skip(part).step_by(parts) {
                    let mut v: Vec<C::G> = x.iter().map(|i| pts[*i]).collect();
                    r.st(1);
                    r.tr(n);
                    r.val(n);
                    if let Err(m) = guard(|| p.install(|| best_fft(&mut v, w, k))) {
                        r.violation(format!("panic:{}|word {x:?}", C::NAME), m);
                        continue;
                    }
                    for (j, y) in v.iter().enumerate() {
                        let e: BigUint = (0..n).map(|i| &letters[x[i]] * wb.modpow(&BigUint::from(i * j), &q)).sum();
                        let e = at(&(e % &q));
                        let got = C::proj_r(y);
                        r.check(got.as_ref() == Ok(&e), || format!("points:{}|word {x:?}, output {j}", C::NAME), || format!("{got:?} instead of {e:?}"));
                    }
                }
            });
            r.sample(|| format!("{} words of 2^{k} multiples of the generator of {}", all.len(), C::NAME));
        }
        let _ = C::G::identity();
    }
}
struct Lengths<'a>(&'a Rep);
impl FieldFn for Lengths<'_> {
    fn call<F: HF>(&self) {
        let r = self.0;
        let ps = pools(&[1, 2, 16]);
        let (max, top) = if F::TINY { (260, 20) } else { (33, 8) };
        r.par(ps.len() * (max + 1), |job| {
            let (t, p) = &ps[job % ps.len()];
            {
                let len = job / ps.len();
                for k in (0..=top).chain([31, 32, 33, 62, 63]) {
                    if len as u64 == 1 << k {
                        continue;
                    }
                    // whatever omega claims to be
                    for w in [F::ONE, root::<F>((k as u32).min(F::S))] {
                        let mut a = vec![F::ONE; len];
                        r.st(1);
                        r.tr(1);
                        r.val(1);
                        let done = p.install(|| panics(|| best_fft(&mut a, w, k as u32)));
                        r.check(done, || format!("length:{}|{len} against 2^{k}, {t} threads", F::NAME), || "it returned".into());
                    }
                }
            }
        });
        r.sample(|| format!("{}: lengths 0..={max} against every other power of two", F::NAME));
    }
}
/// Successive transforms do not influence each other.
fn histories<F: HF>(r: &Rep, len: usize) {
    let p = rayon::ThreadPoolBuilder::new().num_threads(3).build().unwrap();
    // (k, exponent of the root)
    let calls: Vec<(u32, u64)> = (0..=3u32).flat_map(|k| (0..1u64 << k).filter(move |e| k == 0 || e % 2 == 1).map(move |e| (k, e))).collect();
    for h in words(calls.len(), len) {
        for (step, c) in h.iter().enumerate() {
            let (k, e) = calls[*c];
            let n = 1usize << k;
            let w = root::<F>(k).pow([e]);
            let a: Vec<F> = (0..n).map(|i| F::from((i * i + 2 * step + 1) as u64)).collect();
            let mut b = a.clone();
            r.st(1);
            r.tr(1);
            r.val(n);
            let ok = guard(|| p.install(|| best_fft(&mut b, w, k)));
            let want: Vec<F> = (0..n).map(|j| a.iter().rev().fold(F::ZERO, |s, c| s * w.pow([j as u64]) + c)).collect();
            r.check(ok.is_ok() && b == want, || format!("history:{}|{h:?}, step {step}", F::NAME), || format!("{b:?} instead of {want:?}"));
        }
    }
    r.sample(|| format!("all histories of {len} transforms over {}", F::NAME));
}
fn main() {
    run("C21", |r| {
        r.section("formal:tiny", || each_tiny_field(&Formal(r)));
        r.section("formal:real", || each_real_field(&Formal(r)));
        #[cfg(feature = "tiny")]
        r.section("every", || {
            use halo2curves::verif::*;
            every::<F17>(r, &[0, 1, 2], &[1, 2, 3, 4]);
            every::<F7>(r, &[0, 1], &[1, 2]);
            every::<F97>(r, &[0, 1], &[1, 2]);
            every::<F193>(r, &[0, 1], &[1, 4]);
            every::<F127>(r, &[0, 1], &[1, 4]);
            every::<F257>(r, &[0, 1], &[1, 4]);
            if !r.quick() {
                every::<F97>(r, &[2], &[1, 2, 4]);
            }
        });
        r.section("long", || {
            let t = [1, 2, 8, 64];
            use halo2curves::*;
            let ks: Vec<u32> = (6..=r.pick(12, 18)).collect();
            long::<bn256::Fr>(r, &ks, &t);
            long::<bls12381::Fq>(r, &ks, &t);
            long::<pluto_eris::Fp>(r, &ks, &t);
            long::<pluto_eris::Fq>(r, &ks, &t);
            #[cfg(feature = "tiny")]
            {
                use halo2curves::verif::*;
                long::<F257>(r, &[7, 8], &t);
                long::<F65537>(r, &(6..=r.pick(14, 16)).collect::<Vec<_>>(), &t);
                long::<FGold>(r, &ks, &t);
            }
        });
        r.section("points:tiny", || each_tiny_curve(&Points(r)));
        r.section("points:real", || each_real_curve(&Points(r)));
        r.section("lengths", || {
            each_tiny_field(&Lengths(r));
            each_real_field(&Lengths(r));
        });
        r.section("histories", || {
            #[cfg(feature = "tiny")]
            histories::<halo2curves::verif::F257>(r, 4);
            histories::<halo2curves::bn256::Fr>(r, 3);
        });
    });
}
