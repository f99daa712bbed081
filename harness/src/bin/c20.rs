//! C20 on the real thread pool: every pool size, concurrent callers, and the very first use in
//! a fresh process. (The schedules themselves are enumerated by /verif/sched.)
use ff::{Field, PrimeField};
use group::Group;
use halo2curves::fft::best_fft;
use halo2curves::msm::{msm_best, msm_parallel};
use hv::*;

fn pool(n: usize) -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()
}
fn root<F: HF>(k: u32) -> F {
    let mut w = F::ROOT_OF_UNITY;
    for _ in k..F::S {
        w = w.square();
    }
    w
}
/// evaluations by Horner's rule
fn dft<F: HF>(a: &[F], w: F) -> Vec<F> {
    let mut x = F::ONE;
    (0..a.len())
        .map(|_| {
            let v = a.iter().rev().fold(F::ZERO, |s, c| s * x + c);
            x *= w;
            v
        })
        .collect()
}
fn stream<F: HF>(n: usize, salt: u64) -> Vec<F> {
    let mut x = F::from(salt);
    (0..n)
        .map(|i| {
            x = x * x + F::from(salt + i as u64);
            x
        })
        .collect()
}
fn fft_pools<F: HF>(r: &Rep, ks: &[u32], pools: &[usize]) {
    for &k in ks.iter().filter(|k| **k <= F::S) {
        let w = root::<F>(k);
        let a = stream::<F>(1 << k, 3);
        let want = dft(&a, w);
        r.par(pools.len(), |i| {
            let p = pool(pools[i]);
            for rep in 0..2 {
                let mut b = a.clone();
                r.st(1);
                r.tr(1 << k);
                r.val(1);
                match guard(|| p.install(|| best_fft(&mut b, w, k))) {
                    Err(m) => r.violation(format!("fft-panic:{}|2^{k}, {} threads", F::NAME, pools[i]), m),
                    Ok(()) => r.check(
                        b == want,
                        || format!("fft:{}|2^{k}, {} threads, run {rep}", F::NAME, pools[i]),
                        || format!("first difference at {:?}", b.iter().zip(&want).position(|(x, y)| x != y)),
                    ),
                }
            }
        });
    }
}
struct List<C: HC> {
    ks: Vec<C::Sc>,
    ps: Vec<C::Aff>,
    want: Pt<<C::Bf as HB>::R>,
}
fn list<C: HC>(n: usize, salt: u64) -> List<C> {
    let ec = C::ec();
    let g = C::gen_r();
    let q = C::r();
    let aff: Vec<C::Aff> = (0..16u64).map(|i| C::aff(&ec.mul(&BigUint::from(i * 3 + salt), &g))).collect();
    let mut ks = vec![];
    let mut ps = vec![];
    let mut s = BigUint::zero();
    let mut x = BigUint::from(salt + 2);
    for i in 0..n {
        x = (&x * (&q - 7u32) + salt + i as u64) % &q;
        let j = (i * 7 + i / 16) % 16;
        ks.push(C::Sc::of(&x));
        ps.push(aff[j]);
        s += &x * (j as u64 * 3 + salt);
    }
    List { ks, ps, want: ec.mul(&(s % &q), &g) }
}
impl<C: HC> List<C> {
    fn judge(&self, r: &Rep, name: &str, v: Result<C::G, String>, key: &dyn Fn() -> String) {
        r.st(1);
        r.tr(self.ks.len());
        r.val(1);
        match v {
            Err(m) => r.violation(format!("msm-panic:{}|{name}: {}", C::NAME, key()), m),
            Ok(g) => {
                let got = C::proj_r(&g);
                r.check(got.as_ref() == Ok(&self.want), || format!("msm:{}|{name}: {}", C::NAME, key()), || format!("{got:?} instead of {:?}", self.want));
            }
        }
    }
}
fn msm_pools<C: HC>(r: &Rep, ns: &[usize], pools: &[usize]) {
    for &n in ns {
        let l = list::<C>(n, 1 + n as u64 % 5);
        r.par(pools.len(), |i| {
            let p = pool(pools[i]);
            let key = || format!("{n} terms, {} threads", pools[i]);
            l.judge(r, "msm_best", guard(|| p.install(|| msm_best(&l.ks, &l.ps))), &key);
            l.judge(r, "msm_parallel", guard(|| p.install(|| msm_parallel(&l.ks, &l.ps))), &key);
        });
    }
}
/// callers that share one pool, each with its own problem
fn callers<C: HC>(r: &Rep, callers: usize, threads: usize, rounds: usize) {
    let ls: Vec<List<C>> = (0..callers).map(|i| list::<C>([3, 9, 40, 17, 33, 5, 70, 1][i % 8], i as u64)).collect();
    let ks: Vec<u32> = (0..callers as u32).map(|i| 1 + i % C::Sc::S.clamp(1, 7)).collect();
    let fs: Vec<(C::Sc, Vec<C::Sc>, Vec<C::Sc>)> = ks
        .iter()
        .enumerate()
        .map(|(i, k)| {
            let w = root::<C::Sc>(*k).pow([(2 * i + 1) as u64]);
            let a = stream::<C::Sc>(1 << k, i as u64);
            let b = dft(&a, w);
            (w, a, b)
        })
        .collect();
    let p = pool(threads);
    for round in 0..rounds {
        std::thread::scope(|s| {
            for i in 0..callers {
                let (l, p, (w, a, want), k) = (&ls[i], &p, &fs[i], ks[i]);
                s.spawn(move || {
                    let key = || format!("caller {i} of {callers} on {threads} threads, round {round}");
                    if i % 2 == 0 {
                        l.judge(r, "msm_best", guard(|| p.install(|| msm_best(&l.ks, &l.ps))), &key);
                    } else {
                        l.judge(r, "msm_parallel", guard(|| p.install(|| msm_parallel(&l.ks, &l.ps))), &key);
                    }
                    if C::Sc::S > 0 {
                        let mut b = a.clone();
                        let ok = guard(|| p.install(|| best_fft(&mut b, *w, k)));
                        r.check(ok.is_ok() && b == *want, || format!("fft:{}|{}", C::Sc::NAME, key()), || format!("{ok:?}"));
                    }
                });
            }
        });
    }
}
/// In a fresh process: several threads whose first action is on one curve at the same moment.
/// Prints what each computed.
fn first<C: HC>(which: usize) -> Vec<String> {
    let bar = std::sync::Barrier::new(8);
    let show = |g: C::G| format!("{:?}", C::proj_r(&g));
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..8usize)
            .map(|i| {
                let bar = &bar;
                s.spawn(move || {
                    let g = C::G::generator();
                    let a = <C::Aff as group::prime::PrimeCurveAffine>::generator();
                    let k = C::Sc::from(5u64 + i as u64);
                    bar.wait();
                    match (i + which) % 4 {
                        0 => show(g * k),
                        1 => show((0..5 + i).fold(C::G::identity(), |s, _| s + a)),
                        2 => show(msm_best(&[k], &[a])),
                        _ => show(msm_parallel(&[k - C::Sc::ONE, C::Sc::ONE], &[a, a])),
                    }
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| "panic".into())).collect()
    })
}
struct First(std::cell::RefCell<Vec<(&'static str, fn(usize) -> Vec<String>, fn() -> Vec<String>)>>);
impl CurveFn for First {
    fn call<C: HC>(&self) {
        self.0.borrow_mut().push((C::NAME, first::<C>, || {
            (0..8u64).map(|i| {
                let v: Result<_, String> = Ok(C::ec().mul(&BigUint::from(5 + i), &C::gen_r()));
                // the same type as proj_r's
                let mut x = C::proj_r(&C::G::identity());
                if let Ok(v) = v {
                    if let Ok(y) = x.as_mut() {
                        *y = v;
                    }
                }
                format!("{x:?}")
            })
            .collect()
        }));
    }
}
fn curves() -> Vec<(&'static str, fn(usize) -> Vec<String>, fn() -> Vec<String>)> {
    let f = First(Default::default());
    each_real_curve(&f);
    each_tiny_curve(&f);
    f.0.into_inner()
}
struct Pools<'a>(&'a Rep);
impl CurveFn for Pools<'_> {
    fn call<C: HC>(&self) {
        let all: Vec<usize> = (1..=16).collect();
        if C::TINY {
            msm_pools::<C>(self.0, &[0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 100], &all);
        } else {
            msm_pools::<C>(self.0, self.0.pick(&[1, 3, 8, 17, 33][..], &[1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 64, 100, 1000][..]), &all);
        }
        self.0.sample(|| format!("pool sizes 1..16 over {}", C::NAME));
    }
}
struct Callers<'a>(&'a Rep);
impl CurveFn for Callers<'_> {
    fn call<C: HC>(&self) {
        let r = self.0;
        for (n, t) in [(2, 1), (2, 2), (3, 2), (4, 3), (8, 4), (8, 1)] {
            callers::<C>(r, n, t, if C::TINY { r.pick(12, 300) } else { r.pick(1, 20) });
        }
        r.sample(|| format!("2 to 8 concurrent callers over {}", C::NAME));
    }
}
fn main() {
    if let Ok(v) = std::env::var("HV_FIRST") {
        let (i, w) = v.split_once(' ').unwrap();
        for l in (curves()[i.parse::<usize>().unwrap()].1)(w.parse().unwrap()) {
            println!("{l}");
        }
        return;
    }
    run("C20", |r| {
        r.section("pools:fft", || {
            let mut pools: Vec<usize> = (1..=17).collect();
            pools.extend([31, 32, 33, 64]);
            use halo2curves::*;
            let ks: Vec<u32> = (0..=r.pick(7, 10)).collect();
            fft_pools::<bn256::Fr>(r, &ks, &pools);
            fft_pools::<pluto_eris::Fp>(r, &ks, &pools);
            fft_pools::<bls12381::Fq>(r, &ks, &pools);
            fft_pools::<secp256k1::Fq>(r, &ks, &pools);
            #[cfg(feature = "tiny")]
            {
                use halo2curves::verif::*;
                fft_pools::<F257>(r, &ks, &pools);
                fft_pools::<FGold>(r, &ks, &pools);
            }
        });
        r.section("pools:msm", || {
            each_tiny_curve(&Pools(r));
            each_real_curve(&Pools(r));
            #[cfg(feature = "tiny")]
            msm_pools::<halo2curves::verif::TE>(r, &[8103, 8104, 8300], &[1, 2, 3, 4, 8, 13]);
        });
        r.section("callers", || {
            each_tiny_curve(&Callers(r));
            each_real_curve(&Callers(r));
        });
        r.section("first-use", || {
            let me = std::env::current_exe().unwrap();
            let cs = curves();
            let jobs: Vec<(usize, usize)> = (0..cs.len()).flat_map(|i| (0..r.pick(4, 40)).map(move |w| (i, w))).collect();
            let want: Vec<Vec<String>> = cs.iter().map(|c| (c.2)()).collect();
            r.par(jobs.len(), |j| {
                let (i, w) = jobs[j];
                let o = std::process::Command::new(&me).env("HV_FIRST", format!("{i} {w}")).output();
                let Ok(o) = o else { return r.engine_error("cannot start a process") };
                let got: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().map(|l| l.to_string()).collect();
                r.st(1);
                r.tr(8);
                r.val(8);
                r.check(got == want[i], || format!("first:{}|round {w}", cs[i].0), || format!("{got:?} instead of {:?}", want[i]));
            });
            r.sample(|| format!("{} fresh processes, 8 threads each, on their first use of {} curves", jobs.len(), cs.len()));
        });
    });
}
