//! C16: raw stream I/O under every split, interruption, end and failure of the stream.
//!
//! The stream is a controlled environment: at every call it has a set of choices (pass on
//! everything, any smaller number of bytes, interrupt, end, fail in one of several ways). All
//! executions with at most a bounded number of departures from "pass on everything" are run
//! against the real readers and writers, and for short objects all ways of splitting the bytes.
use halo2curves::serde::SerdeObject;
use hv::*;
use std::io::{self, ErrorKind, Read, Write};

#[derive(Debug)]
struct Mark(usize);
impl std::fmt::Display for Mark {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "mark {}", self.0)
    }
}
impl std::error::Error for Mark {}
const KINDS: [ErrorKind; 5] =
    [ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof, ErrorKind::InvalidData, ErrorKind::BrokenPipe];

#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    Fine,
    Eof,
    Failed(usize),
}
/// The environment: follows `script`, then always passes on everything; records its options.
struct Env<'a> {
    script: &'a [usize],
    opts: Vec<usize>,
    data: &'a [u8],
    pos: usize,
    out: Vec<u8>,
    end: End,
    after: bool,
}
impl<'a> Env<'a> {
    fn new(script: &'a [usize], data: &'a [u8]) -> Self {
        Env { script, opts: vec![], data, pos: 0, out: vec![], end: End::Fine, after: false }
    }
    /// how many of at most `n` bytes to pass on, or the fault
    fn choose(&mut self, n: usize) -> io::Result<usize> {
        match self.end {
            End::Fine => {}
            End::Eof => return Ok(0),
            End::Failed(k) => {
                self.after = true;
                return Err(io::Error::new(KINDS[k], Mark(99)));
            }
        }
        if n == 0 {
            return Ok(0);
        }
        let i = self.opts.len();
        // 0: all n; 1..n-1: that many; n: interrupt; n+1: end; then the failures
        self.opts.push(n + 2 + KINDS.len());
        let c = self.script.get(i).copied().unwrap_or(0);
        if c == 0 {
            Ok(n)
        } else if c < n {
            Ok(c)
        } else if c == n {
            Err(io::Error::new(ErrorKind::Interrupted, Mark(77)))
        } else if c == n + 1 {
            self.end = End::Eof;
            Ok(0)
        } else {
            let k = c - n - 2;
            self.end = End::Failed(k);
            Err(io::Error::new(KINDS[k], Mark(k)))
        }
    }
}
impl Read for Env<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.choose(buf.len().min(self.data.len() - self.pos))?;
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Write for Env<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.choose(buf.len())?;
        self.out.extend(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn is_fault(e: &io::Error, end: End, eof: ErrorKind) -> bool {
    match end {
        End::Fine => false,
        End::Eof => e.kind() == eof,
        End::Failed(k) => {
            e.kind() == KINDS[k] && e.get_ref().and_then(|x| x.downcast_ref::<Mark>()).map_or(false, |m| m.0 == k)
        }
    }
}
/// one execution of reader and writer under `script`; returns the choice points met
type One<'a> = &'a (dyn Fn(&[usize]) -> Vec<usize> + Sync);
fn dfs(run: One, script: &mut Vec<usize>, left: usize) {
    let opts = run(script);
    if left == 0 {
        return;
    }
    let from = script.len();
    for i in from..opts.len() {
        for c in 1..opts[i] {
            script.resize(i, 0);
            script.push(c);
            dfs(run, script, left - 1);
        }
    }
    script.truncate(from);
}
/// the first level of `dfs` spread over the cores
fn explore(r: &Rep, run: One, bound: usize) {
    let opts = run(&[]);
    let first: Vec<(usize, usize)> = (0..opts.len()).flat_map(|i| (1..opts[i]).map(move |c| (i, c))).collect();
    r.par(first.len(), |j| {
        let mut s = vec![0; first[j].0];
        s.push(first[j].1);
        dfs(run, &mut s, bound - 1);
    });
}
struct Case<'a, T> {
    x: &'a T,
    raw: Vec<u8>,
    name: String,
}
fn case<T: SerdeObject + PartialEq + Sync>(r: &Rep, x: &T, name: String, bound: usize) {
    let c = Case { x, raw: x.to_raw_bytes(), name };
    let n = c.raw.len();
    // what follows the object must not be touched
    let mut data = c.raw.clone();
    data.extend([0xa5; 9]);
    let key = |what: &str, s: &[usize]| format!("{what}:{}|{s:?}", c.name);
    let read = |s: &[usize]| {
        let mut e = Env::new(s, &data);
        let got = T::read_raw(&mut e);
        r.st(1);
        r.tr(e.opts.len());
        r.val(1);
        match (&got, e.end) {
            (Ok(v), End::Fine) => {
                r.check(v == c.x && v.to_raw_bytes() == c.raw && e.pos == n, || key("read_value", s), || format!("after {} of {n} bytes", e.pos))
            }
            (Ok(_), end) => r.violation(key("read_no_error", s), format!("a value although the stream gave {end:?} at byte {}", e.pos)),
            (Err(x), end) => r.check(is_fault(x, end, ErrorKind::UnexpectedEof), || key("read_error", s), || {
                format!("{x:?} for a stream with {end:?} at byte {}", e.pos)
            }),
        }
        r.check(!e.after, || key("read_after_error", s), || "went on reading after a failure".into());
        e.opts
    };
    let read_unchecked = |s: &[usize]| {
        let mut e = Env::new(s, &data);
        let got = guard(|| T::read_raw_unchecked(&mut e));
        r.st(1);
        r.tr(e.opts.len());
        match (&got, e.end) {
            (Ok(v), End::Fine) => r.check(v == c.x && v.to_raw_bytes() == c.raw && e.pos == n, || key("unchecked_value", s), || format!("after {} bytes", e.pos)),
            (Err(m), End::Fine) => r.violation(key("unchecked_panic", s), m.clone()),
            // it has no way to report a failing stream
            _ => {}
        }
        e.opts
    };
    let write = |s: &[usize]| {
        let mut e = Env::new(s, &[]);
        let got = c.x.write_raw(&mut e);
        r.st(1);
        r.tr(e.opts.len());
        r.val(1);
        match (&got, e.end) {
            (Ok(()), End::Fine) => r.check(e.out == c.raw, || key("write_value", s), || format!("{:?}", e.out)),
            (Ok(()), end) => r.violation(key("write_no_error", s), format!("success although the sink gave {end:?} after byte {}", e.out.len())),
            (Err(x), end) => r.check(is_fault(x, end, ErrorKind::WriteZero), || key("write_error", s), || format!("{x:?} for a sink with {end:?}")),
        }
        r.check(c.raw.starts_with(&e.out), || key("write_prefix", s), || format!("{:?}", e.out));
        r.check(!e.after, || key("write_after_error", s), || "went on writing after a failure".into());
        e.opts
    };
    explore(r, &read, bound);
    explore(r, &write, bound);
    explore(r, &read_unchecked, 1);
    // uniform pieces, with and without interruptions between them
    for k in 1..=n {
        for intr in [false, true] {
            let s = vec![k; 2 * n];
            let pieces = |opts: usize, i: usize| {
                // `opts` choices mean opts - 2 - KINDS.len() bytes were asked for
                let n = opts - 2 - KINDS.len();
                if intr && i % 2 == 0 {
                    n
                } else if k < n {
                    k
                } else {
                    0
                }
            };
            // the script depends on what is asked for, so it is built step by step
            for w in [true, false] {
                let mut s2: Vec<usize> = vec![];
                loop {
                    let o = if w { write(&s2) } else { read(&s2) };
                    if o.len() <= s2.len() || s2.len() >= s.len() {
                        break;
                    }
                    // extend as far as the shape of the calls is already fixed
                    let i = s2.len();
                    s2.push(pieces(o[i], i));
                }
            }
        }
    }
}
/// every composition of the object's bytes into pieces (2^(n-1) of them)
fn splits<T: SerdeObject + PartialEq + Sync>(r: &Rep, x: &T, name: &str) {
    struct Pieces<'a> {
        data: &'a [u8],
        pos: usize,
        cuts: u64,
    }
    impl Read for Pieces<'_> {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            let mut n = 0;
            while n < buf.len() && self.pos < self.data.len() {
                buf[n] = self.data[self.pos];
                n += 1;
                self.pos += 1;
                if self.cuts >> (self.pos - 1) & 1 == 1 {
                    break;
                }
            }
            Ok(n)
        }
    }
    struct Sink {
        out: Vec<u8>,
        cuts: u64,
    }
    impl Write for Sink {
        fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
            let mut n = 0;
            while n < buf.len() {
                self.out.push(buf[n]);
                n += 1;
                if self.cuts >> (self.out.len() - 1) & 1 == 1 {
                    break;
                }
            }
            Ok(n)
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
    let raw = x.to_raw_bytes();
    let n = raw.len();
    r.section(&format!("splits:{name}"), || {
        let all = 1u64 << (n - 1);
        r.par(64, |t| {
            for cuts in (t as u64..all).step_by(64) {
                r.st(1);
                r.tr(2);
                let mut p = Pieces { data: &raw, pos: 0, cuts };
                let got = T::read_raw(&mut p);
                r.check(got.map_or(false, |y| y == *x), || format!("split_read:{name}|{cuts:x}"), || "different".into());
                let mut s = Sink { out: vec![], cuts };
                r.check(x.write_raw(&mut s).is_ok() && s.out == raw, || format!("split_write:{name}|{cuts:x}"), || "different".into());
            }
        });
        r.sample(|| format!("all {all} ways to cut {n} bytes"));
    });
}
/// a value whose raw bytes are all different from each other as far as possible
fn busy<F: HF>() -> F {
    let p = F::p();
    let n = F::LIMBS;
    let b: Vec<u8> = (0..8 * n).map(|i| (7 * i + 3) as u8).collect();
    F::of_raw(&(BigUint::from_bytes_le(&b) % p))
}
struct Pf<'a>(&'a Rep);
impl FieldFn for Pf<'_> {
    fn call<F: HF>(&self) {
        let r = self.0;
        let d = r.pick(if F::LIMBS > 4 { 2 } else { 3 }, if F::LIMBS > 4 { 3 } else { 4 });
        r.section(&format!("field:{}", F::NAME), || {
            case::<F>(r, &busy::<F>(), format!("{}|busy", F::NAME), d);
            case::<F>(r, &F::of_raw(&BigUint::zero()), format!("{}|zero", F::NAME), 2);
            r.sample(|| format!("up to {d} departures, object of {} bytes", 8 * F::LIMBS));
        });
        if F::LIMBS <= 2 {
            splits::<F>(r, &busy::<F>(), F::NAME);
        }
    }
}
struct Qf<'a>(&'a Rep);
impl QuadFn for Qf<'_> {
    fn call<T: HT + HB>(&self) {
        let r = self.0;
        let d = r.pick(2, if <T as HB>::BLIMBS > 4 { 2 } else { 3 });
        r.section(&format!("quad:{}", <T as HB>::BNAME), || {
            let b = busy::<T::Base>();
            let x = T::of_flat(&[b, b + b]);
            case::<T>(r, &x, <T as HB>::BNAME.to_string(), d);
            r.sample(|| format!("up to {d} departures"));
        });
    }
}
struct Cf<'a>(&'a Rep);
impl CurveFn for Cf<'_> {
    fn call<C: HC>(&self) {
        let r = self.0;
        r.section(&format!("points:{}", C::NAME), || {
            let f = C::Bf::ctx();
            let p = telling_points::<C>(2)[1].clone();
            let heavy = C::Bf::BSIZE > 48;
            let d = r.pick(2, if heavy { 2 } else { 3 });
            case::<C::Aff>(r, &C::aff(&p), format!("{}|affine", C::NAME), d);
            case::<C::Aff>(r, &C::aff(&None), format!("{}|affine_identity", C::NAME), 1);
            case::<C::G>(r, &C::proj(&p, &f.small(2)), format!("{}|projective", C::NAME), r.pick(if heavy { 1 } else { 2 }, 2));
            case::<C::G>(r, &C::proj(&None, &f.one()), format!("{}|identity", C::NAME), 1);
            r.sample(|| format!("up to {d} departures, {} bytes per coordinate", C::Bf::BSIZE));
        });
    }
}
fn main() {
    run("C16", |r| {
        each_tiny_field(&Pf(r));
        each_odd_field(&Pf(r));
        each_real_field(&Pf(r));
        each_quad(&Qf(r));
        each_tiny_curve(&Cf(r));
        each_mid_curve(&Cf(r));
        each_real_curve(&Cf(r));
    });
}
