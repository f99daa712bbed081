//! C20 under a controlled scheduler: rayon and lazy_static are replaced by crates that ask `ctl`
//! for every decision, and the decisions are enumerated.
use ctl::Mode;
use ff::Field;
use group::Group;
use halo2curves::fft::best_fft;
use halo2curves::msm::{msm_best, msm_parallel};
use halo2curves::verif::*;
use halo2curves::{bls12381, bn256, grumpkin, pluto_eris, secp256k1, secp256r1, secq256k1};
use hv::*;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

mod wrap;
use wrap::{Sc, Vl};

/// Every execution with at most `dev` departures from the default choice, up to `cap` executions.
/// `body` may be called from several threads at once.
fn explore<T: Send>(
    r: &Rep,
    mode: Mode,
    pool: usize,
    dev: usize,
    threads: usize,
    body: &(impl Fn() -> T + Sync),
    judge: &(impl Fn(&T) -> Option<String> + Sync),
    key: &str,
) {
    let queue = std::sync::Mutex::new(vec![(vec![], dev)]);
    let busy = AtomicUsize::new(0);
    let count = AtomicUsize::new(0);
    let points = AtomicUsize::new(0);
    let longest = AtomicUsize::new(0);
    let work = || loop {
        let job = {
            let mut q = queue.lock().unwrap();
            match q.pop() {
                Some(j) => {
                    busy.fetch_add(1, Relaxed);
                    Some(j)
                }
                None if busy.load(Relaxed) == 0 => return,
                None => None,
            }
        };
        let Some((script, left)) = job else {
            std::thread::sleep(std::time::Duration::from_micros(50));
            continue;
        };
        let x = ctl::run(mode, pool, &script, body);
        count.fetch_add(1, Relaxed);
        points.fetch_add(x.trace.len(), Relaxed);
        longest.fetch_max(x.trace.len(), Relaxed);
        let name = || format!("{key}, pool of {pool}, {mode:?} schedule {script:?}");
        match &x.value {
            _ if x.deadlock => r.violation(format!("deadlock:{}", name()), "no task can run"),
            Err(m) => r.violation(format!("panic:{}", name()), m.clone()),
            Ok(v) => {
                if let Some(d) = judge(v) {
                    r.violation(format!("result:{}", name()), d);
                }
            }
        }
        let mut q = queue.lock().unwrap();
        if left > 0 {
            for i in script.len()..x.trace.len() {
                for c in 1..x.trace[i] {
                    let mut s = script.clone();
                    s.resize(i, 0);
                    s.push(c);
                    q.push((s, left - 1));
                }
            }
        }
        busy.fetch_sub(1, Relaxed);
    };
    if threads <= 1 {
        work();
    } else {
        std::thread::scope(|s| {
            for _ in 0..threads {
                s.spawn(work);
            }
        });
    }
    let n = count.load(Relaxed);
    if std::env::var("HV_TRACE").is_ok() && n > 100 {
        eprintln!("{key} pool {pool} dev {dev}: {n} schedules of {} choices", longest.load(Relaxed));
    }
    r.st(points.load(Relaxed));
    r.tr(points.load(Relaxed));
    r.val(n);
    r.outcome(&format!("{mode:?} schedules"), n);
    r.sample(|| format!("{key}: {n} schedules of up to {} choices, at most {dev} departures, pool of {pool}", longest.load(Relaxed)));
}
const ALL: usize = usize::MAX;

// ---------------------------------------------------------------------------------------------
fn root<F: HF>(k: u32) -> F {
    let mut w = F::ROOT_OF_UNITY;
    for _ in k..F::S {
        w = w.square();
    }
    w
}
/// the definition
fn dft<F: Field>(a: &[F], w: F) -> Vec<F> {
    let mut x = F::ONE;
    let mut out = vec![];
    for _ in 0..a.len() {
        let mut s = F::ZERO;
        let mut t = F::ONE;
        for v in a {
            s += t * v;
            t *= x;
        }
        out.push(s);
        x *= w;
    }
    out
}
/// basis vectors, and two vectors without symmetry
fn inputs<F: HF>(n: usize, few: bool) -> Vec<Vec<F>> {
    let mut v: Vec<Vec<F>> = vec![];
    for m in [3u64, 5] {
        let mut x = 1u64;
        v.push(
            (0..n)
                .map(|_| {
                    x = x * m % 257 + 1;
                    F::from(x)
                })
                .collect(),
        );
    }
    if !few {
        for i in 0..n {
            let mut e = vec![F::ZERO; n];
            e[i] = F::ONE;
            v.push(e);
        }
    }
    v
}
fn fft_case<F: HF>(r: &Rep, k: u32, mode: Mode, pool: usize, dev: usize, few: bool) {
    let w = root::<F>(k);
    for (i, a) in inputs::<F>(1 << k, few).into_iter().enumerate() {
        let want = dft(&a, w);
        let body = || {
            let mut b = a.clone();
            best_fft(&mut b, w, k);
            b
        };
        explore(r, mode, pool, dev, 8, &body, &|b| (*b != want).then(|| format!("{b:?} instead of {want:?}")), &format!("fft of 2^{k} over {} input {i}", F::NAME));
    }
}
/// the same with operations that are scheduling points
fn fft_steps(r: &Rep, k: u32, pool: usize, dev: usize, calls: usize) {
    let w = root::<F257>(k);
    let ins = inputs::<F257>(1 << k, true);
    let roots: Vec<F257> = [1u64, 3, 5].iter().map(|e| w.pow([*e])).collect();
    let wants: Vec<Vec<F257>> = (0..calls).map(|i| dft(&ins[i % ins.len()], roots[i])).collect();
    let one = |i: usize| {
        let mut b: Vec<Vl> = ins[i % ins.len()].iter().map(|x| Vl(*x)).collect();
        best_fft(&mut b, Sc(roots[i]), k);
        b.into_iter().map(|x| x.0).collect::<Vec<_>>()
    };
    let body = || {
        if calls == 1 {
            vec![one(0)]
        } else {
            together((0..calls).map(|i| move || one(i)).collect())
        }
    };
    let judge = |b: &Vec<Vec<F257>>| (*b != wants).then(|| format!("{b:?} instead of {wants:?}"));
    explore(r, Mode::Threads, pool, dev, 8, &body, &judge, &format!("{calls} stepwise fft of 2^{k}"));
}
/// runs the closures as concurrent tasks
fn together<T: Send>(fs: Vec<impl FnOnce() -> T + Send>) -> Vec<T> {
    let out: Vec<std::sync::Mutex<Option<T>>> = fs.iter().map(|_| Default::default()).collect();
    rayon::scope(|s| {
        for (f, o) in fs.into_iter().zip(&out) {
            s.spawn(move |_| {
                let v = f();
                *o.lock().unwrap() = Some(v);
            });
        }
    });
    out.into_iter().map(|o| o.into_inner().unwrap().unwrap()).collect()
}

// ---------------------------------------------------------------------------------------------
/// lists of scalars and bases with known logarithms
struct List<C: HC> {
    ks: Vec<C::Sc>,
    ps: Vec<C::Aff>,
    want: Pt<<C::Bf as HB>::R>,
}
fn list<C: HC>(n: usize, salt: u64, same_points: bool) -> List<C> {
    let ec = C::ec();
    let g = C::gen_r();
    let r = C::r();
    let small: Vec<_> = (0..8u64).map(|i| ec.mul(&BigUint::from(i * 5 + salt), &g)).collect();
    let aff: Vec<C::Aff> = small.iter().map(|p| C::aff(p)).collect();
    let mut ks = vec![];
    let mut ps = vec![];
    let mut s = BigUint::zero();
    let mut x = BigUint::from(salt + 1);
    for i in 0..n {
        x = (&x * 7u32 * (&r - 3u32) + 11u32) % &r;
        if i % 5 == 4 {
            x = &r - 1u32;
        }
        let j = if same_points { i / 3 % 8 } else { i % 8 };
        ks.push(C::Sc::of(&x));
        ps.push(aff[j]);
        s += &x * (j as u64 * 5 + salt);
    }
    List { ks, ps, want: ec.mul(&(s % &r), &g) }
}
fn msm_case<C: HC>(r: &Rep, which: &str, n: usize, mode: Mode, pool: usize, dev: usize) {
    let l = list::<C>(n, 1, n % 2 == 0);
    // initialise what is initialised once
    let _ = msm_best(&l.ks[..n.min(20)], &l.ps[..n.min(20)]);
    let body = || if which == "best" { msm_best(&l.ks, &l.ps) } else { msm_parallel(&l.ks, &l.ps) };
    let judge = |g: &C::G| {
        let got = C::proj_r(g);
        (got.as_ref() != Ok(&l.want)).then(|| format!("{got:?} instead of {:?}", l.want))
    };
    explore(r, mode, pool, dev, 8, &body, &judge, &format!("msm_{which} of {n} over {}", C::NAME));
}
/// concurrent calls, from the uninitialised state
fn first_use<A: HC, B: HC>(r: &Rep, n: usize, coarse: bool, dev: usize, calls: usize) {
    lazy_static::COARSE.store(coarse, Relaxed);
    let pool = 2;
    let a = list::<A>(n, 1, false);
    let b = list::<B>(n, 2, false);
    let ok_a = |g: &A::G| A::proj_r(g).as_ref() == Ok(&a.want);
    let ok_b = |g: &B::G| B::proj_r(g).as_ref() == Ok(&b.want);
    let body = || {
        lazy_static::reset_all();
        let fs: Vec<Box<dyn FnOnce() -> bool + Send>> = (0..calls)
            .map(|i| -> Box<dyn FnOnce() -> bool + Send> {
                match i % 4 {
                    0 => Box::new(|| ok_a(&msm_best(&a.ks, &a.ps))),
                    1 => Box::new(|| ok_a(&a.ks.iter().zip(&a.ps).fold(A::G::identity(), |s, (k, p)| s + *p * *k))),
                    2 => Box::new(|| ok_b(&msm_parallel(&b.ks, &b.ps))),
                    _ => Box::new(|| {
                        // no generator, only doublings and additions
                        let p = B::G::from(B::aff(&B::gen_r()));
                        p.double() + p == p + p.double()
                    }),
                }
            })
            .collect();
        together(fs)
    };
    let judge = |v: &Vec<bool>| v.contains(&false).then(|| format!("right results: {v:?}"));
    explore(r, Mode::Threads, pool, dev, 1, &body, &judge, &format!("{calls} first uses of {} and {} with {n} terms", A::NAME, B::NAME));
}
fn main() {
    run("C20", |r| {
        r.section("fft:pools", || {
            for k in 0..=8 {
                for pool in (1..=66).chain([100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1024]) {
                    fft_case::<F257>(r, k, Mode::Order, pool, 0, pool > 4 || k > 5);
                }
            }
            for k in 0..=1 {
                for pool in 1..9 {
                    fft_case::<F7>(r, k, Mode::Order, pool, 0, false);
                }
            }
        });
        r.section("fft:orders", || {
            for k in 0..=4 {
                for pool in 1..=1 << k {
                    fft_case::<F257>(r, k, Mode::Order, pool, ALL, false);
                }
            }
            fft_case::<F257>(r, 5, Mode::Order, 1, ALL, true);
            fft_case::<F65537>(r, 6, Mode::Order, 2, r.pick(2, 4), true);
            fft_case::<F65537>(r, 8, Mode::Order, 1, r.pick(1, 2), true);
        });
        r.section("fft:steps", || {
            for pool in [1, 3] {
                fft_steps(r, 2, pool, ALL, 1);
                fft_steps(r, 3, pool, r.pick(4, 6), 1);
                fft_steps(r, 4, pool, r.pick(2, 3), 1);
                fft_steps(r, 2, pool, r.pick(3, 4), 2);
                fft_steps(r, 3, pool, r.pick(2, 3), 2);
                fft_steps(r, 2, pool, r.pick(1, 3), 3);
            }
        });
        r.section("msm:pools", || {
            for n in 0..=r.pick(48, 130) {
                for pool in 1..=r.pick(20, 48) {
                    msm_case::<TA>(r, "parallel", n, Mode::Order, pool, 0);
                    if n % 3 == 0 {
                        msm_case::<TC>(r, "best", n, Mode::Order, pool, 0);
                    }
                }
            }
        });
        r.section("msm:orders", || {
            for pool in 2..=r.pick(6, 7) {
                for n in [pool + 1, 2 * pool, 2 * pool + 1, 3 * pool - 1] {
                    msm_case::<TA>(r, "parallel", n, Mode::Order, pool, ALL);
                }
            }
            for pool in [9, 16, 33] {
                msm_case::<TB>(r, "parallel", 2 * pool + 1, Mode::Order, pool, r.pick(1, 2));
            }
            for n in [8103, 8104, 8200] {
                msm_case::<TE>(r, "best", n, Mode::Order, 3, r.pick(2, ALL));
            }
        });
        r.section("msm:steps", || {
            msm_case::<TA>(r, "parallel", 3, Mode::Threads, 2, r.pick(2, 3));
            msm_case::<TB>(r, "parallel", 4, Mode::Threads, 3, r.pick(1, 2));
            msm_case::<TA>(r, "parallel", 7, Mode::Threads, 3, r.pick(1, 2));
            msm_case::<TE>(r, "best", 8104, Mode::Threads, 2, r.pick(0, 1));
        });
        r.section("first-use", || {
            first_use::<TA, TB>(r, 1, true, r.pick(3, 5), 4);
            first_use::<TA, TA>(r, 1, true, r.pick(4, 6), 2);
            first_use::<TC, TD>(r, 1, true, r.pick(1, 3), 8);
            first_use::<TA, TB>(r, 1, false, r.pick(1, 2), 4);
            first_use::<bn256::G1, bn256::G2>(r, 1, true, r.pick(2, 4), 4);
            if !r.quick() {
                first_use::<bls12381::G1, bls12381::G2>(r, 1, true, 4, 4);
                first_use::<pluto_eris::G1, pluto_eris::Eris>(r, 1, true, 4, 4);
                first_use::<secp256k1::Secp256k1, secp256r1::Secp256r1>(r, 1, true, 4, 4);
                first_use::<grumpkin::G1, secq256k1::Secq256k1>(r, 1, true, 4, 4);
            }
        });
    });
}
