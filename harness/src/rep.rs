//! Counters, violations and the run protocol shared by all checkers.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Rep {
    pub prop: String,
    pub tier: Tier,
    states: AtomicU64,
    transitions: AtomicU64,
    validated: AtomicU64,
    samples: Mutex<Vec<(String, String)>>,
    cur: Mutex<String>,
    sections: Mutex<BTreeMap<String, (u64, u64, f64)>>,
    viol: Mutex<Vec<(String, String)>>,
    seen: Mutex<BTreeMap<String, u64>>,
    known: BTreeSet<String>,
    known_hit: Mutex<BTreeSet<String>>,
    outcomes: Mutex<BTreeMap<String, u64>>,
    only: Option<String>,
    err: Mutex<Option<String>>,
}

thread_local! {
    static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
static LAST_ANY: Mutex<String> = Mutex::new(String::new());

/// Runs `f`, turning a panic into an error with its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let l = LAST.with(|l| l.borrow().clone());
        if l.is_empty() {
            LAST_ANY.lock().unwrap().clone()
        } else {
            l
        }
    })
}

/// Did `f` panic?
pub fn panics<T>(f: impl FnOnce() -> T) -> bool {
    guard(f).is_err()
}

impl Rep {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// `q` in the quick tier, `t` in the thorough one.
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.quick() {
            q
        } else {
            t
        }
    }
    pub fn st(&self, n: usize) {
        self.states.fetch_add(n as u64, Relaxed);
    }
    pub fn tr(&self, n: usize) {
        self.transitions.fetch_add(n as u64, Relaxed);
    }
    /// Model traces replayed against the implementation.
    pub fn val(&self, n: usize) {
        self.validated.fetch_add(n as u64, Relaxed);
    }
    /// Records an explored case for the evidence (the first few of each section).
    pub fn sample(&self, f: impl FnOnce() -> String) {
        let c = self.cur.lock().unwrap().clone();
        let mut s = self.samples.lock().unwrap();
        if s.len() < 60 && s.iter().filter(|(n, _)| *n == c).count() < 2 {
            s.push((c, f()));
        }
    }
    /// Runs `f(0..n)` on all cores. A panic in an item is a violation naming the item.
    pub fn par(&self, n: usize, f: impl Fn(usize) + Sync) {
        self.par_dyn(n, &f)
    }
    /// HV_THIN=k: of the items of `par` the first ones and then every k-th (engines run once more in another build).
    pub fn thin(&self) -> usize {
        std::env::var("HV_THIN").ok().and_then(|v| v.parse().ok()).unwrap_or(1)
    }
    fn par_dyn(&self, n: usize, f: &(dyn Fn(usize) + Sync)) {
        let thin = self.thin();
        let next = std::sync::atomic::AtomicUsize::new(0);
        let w = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(n.max(1));
        std::thread::scope(|s| {
            for _ in 0..w {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, Relaxed);
                    if i >= n {
                        break;
                    }
                    if i >= 8 && i % thin != 0 {
                        continue;
                    }
                    if let Err(m) = guard(|| f(i)) {
                        let c = self.cur.lock().unwrap().clone();
                        self.violation(format!("panic:{c}|item={i}"), format!("panicked: {m}"));
                    }
                });
            }
        });
    }
    pub fn outcome(&self, k: &str, n: usize) {
        *self.outcomes.lock().unwrap().entry(k.into()).or_default() += n as u64;
    }
    /// `key` identifies the failing input exactly; `detail` explains.
    pub fn violation(&self, key: impl Into<String>, detail: impl Into<String>) {
        self.violation_str(key.into(), detail.into())
    }
    fn violation_str(&self, key: String, detail: String) {
        let key: String = key.chars().map(|c| if c.is_whitespace() { '_' } else { c }).collect();
        if self.known.contains(&key) {
            self.known_hit.lock().unwrap().insert(key);
            return;
        }
        // at most a handful per kind (kind: the key up to its input part)
        let kind = key.split('|').next().unwrap_or("").to_string();
        let mut s = self.seen.lock().unwrap();
        let n = s.entry(kind).or_default();
        *n += 1;
        if *n <= 3 {
            self.viol.lock().unwrap().push((key, detail));
        }
    }
    #[inline]
    pub fn check(&self, ok: bool, key: impl FnOnce() -> String, detail: impl FnOnce() -> String) {
        if !ok {
            let (mut k, mut d) = (Some(key), Some(detail));
            self.failed(&mut || k.take().unwrap()(), &mut || d.take().unwrap()());
        }
    }
    #[cold]
    #[inline(never)]
    fn failed(&self, key: &mut dyn FnMut() -> String, detail: &mut dyn FnMut() -> String) {
        self.violation_str(key(), detail());
    }
    /// One part of the exploration. A panic that reaches this level is a violation:
    /// every call whose panic is allowed is guarded where it is made.
    pub fn section(&self, name: &str, f: impl FnOnce()) {
        let mut f = Some(f);
        self.section_dyn(name, &mut || (f.take().unwrap())())
    }
    fn section_dyn(&self, name: &str, f: &mut dyn FnMut()) {
        if let Some(o) = &self.only {
            if !name.contains(o.as_str()) {
                return;
            }
        }
        let (s0, t0) = (self.states.load(Relaxed), self.transitions.load(Relaxed));
        let at = Instant::now();
        eprintln!("[section] {} {name}", self.prop);
        *self.cur.lock().unwrap() = name.into();
        LAST.with(|l| l.borrow_mut().clear());
        LAST_ANY.lock().unwrap().clear();
        if let Err(m) = guard(f) {
            self.violation(format!("panic:{name}"), format!("panicked: {m}"));
        }
        self.sections.lock().unwrap().insert(
            name.into(),
            (
                self.states.load(Relaxed) - s0,
                self.transitions.load(Relaxed) - t0,
                at.elapsed().as_secs_f64(),
            ),
        );
    }
    pub fn engine_error(&self, m: impl Into<String>) {
        *self.err.lock().unwrap() = Some(m.into());
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Entry point of every checker: `<bin> quick|thorough [section filter]`.
/// Writes its result to $HV_OUT (JSON).
pub fn run(prop: &str, f: impl FnOnce(&Rep)) {
    let a: Vec<String> = std::env::args().collect();
    let tier = match a.get(1).map(|s| s.as_str()) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let m = format!(
            "{m} at {}",
            i.location().map(|l| l.to_string()).unwrap_or_default()
        );
        LAST.with(|l| *l.borrow_mut() = m.clone());
        if let Ok(mut l) = LAST_ANY.lock() {
            *l = m
        }
    }));
    let known: BTreeSet<String> = std::env::var("HV_KNOWN")
        .ok()
        .and_then(|p| std::fs::read_to_string(p).ok())
        .map(|s| s.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect())
        .unwrap_or_default();
    let r = Rep {
        prop: prop.into(),
        tier,
        states: 0.into(),
        transitions: 0.into(),
        validated: 0.into(),
        samples: Default::default(),
        cur: Default::default(),
        sections: Default::default(),
        viol: Default::default(),
        seen: Default::default(),
        known,
        known_hit: Default::default(),
        outcomes: Default::default(),
        only: a.get(2).cloned(),
        err: Default::default(),
    };
    let at = Instant::now();
    let top = guard(|| f(&r));
    if let Err(m) = top {
        r.violation("panic:top", format!("panicked: {m}"));
    }
    let mut o = String::new();
    write!(
        o,
        "{{\"prop\":{},\"states\":{},\"transitions\":{},\"validated\":{},\"wall\":{:.3}",
        esc(prop),
        r.states.load(Relaxed),
        r.transitions.load(Relaxed),
        r.validated.load(Relaxed),
        at.elapsed().as_secs_f64()
    )
    .unwrap();
    if let Some(e) = &*r.err.lock().unwrap() {
        write!(o, ",\"error\":{}", esc(e)).unwrap();
    }
    let v: Vec<String> = r
        .viol
        .lock()
        .unwrap()
        .iter()
        .map(|(k, d)| format!("{{\"key\":{},\"detail\":{}}}", esc(k), esc(d)))
        .collect();
    let k: Vec<String> = r.known_hit.lock().unwrap().iter().map(|k| esc(k)).collect();
    let s: Vec<String> = r
        .sections
        .lock()
        .unwrap()
        .iter()
        .map(|(n, (a, b, w))| format!("{}:[{a},{b},{w:.3}]", esc(n)))
        .collect();
    let oc: Vec<String> =
        r.outcomes.lock().unwrap().iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect();
    let sm: Vec<String> = r
        .samples
        .lock()
        .unwrap()
        .iter()
        .map(|(a, b)| esc(&format!("{a}: {b}")))
        .collect();
    write!(o, ",\"samples\":[{}]", sm.join(",")).unwrap();
    let n: u64 = r.seen.lock().unwrap().values().sum();
    write!(
        o,
        ",\"violations\":[{}],\"violation_count\":{n},\"known\":[{}],\"sections\":{{{}}},\"outcomes\":{{{}}}}}",
        v.join(","),
        k.join(","),
        s.join(","),
        oc.join(",")
    )
    .unwrap();
    match std::env::var("HV_OUT") {
        Ok(p) => std::fs::write(p, &o).expect("cannot write the result"),
        Err(_) => println!("{o}"),
    }
    std::process::exit(if n > 0 { 1 } else { 0 });
}

/// All sequences over `0..k` of length exactly `n`, in lexicographic order.
pub fn words(k: usize, n: usize) -> impl Iterator<Item = Vec<usize>> {
    let total = (k as u64).checked_pow(n as u32).unwrap();
    (0..total).map(move |mut i| {
        let mut v = vec![0; n];
        for x in v.iter_mut().rev() {
            *x = (i % k as u64) as usize;
            i /= k as u64;
        }
        v
    })
}

/// f(0..n) on all cores
pub fn pmap<T: Send>(n: usize, f: impl Fn(usize) -> T + Sync) -> Vec<T> {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out: Vec<std::sync::Mutex<Option<T>>> = (0..n).map(|_| Default::default()).collect();
    std::thread::scope(|s| {
        for _ in 0..8.min(n) {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if i >= n {
                    return;
                }
                let v = f(i);
                *out[i].lock().unwrap() = Some(v);
            });
        }
    });
    out.into_iter().map(|o| o.into_inner().unwrap().unwrap()).collect()
}

/// Long words over k letters: of every length to 72 and some beyond, cycles through the letters with each start,
/// and one foreign letter (0) at the front, in the middle and at the end of a list of the others.
pub fn long_words(k: usize, extra: &[usize]) -> Vec<Vec<usize>> {
    let mut v = vec![];
    for n in (0..=72).chain(extra.iter().copied()) {
        for s in 0..k {
            v.push((0..n).map(|i| (i + s + i / 7) % k).collect());
        }
        for at in [0, n / 2, n.saturating_sub(1)] {
            if n > 0 && k > 1 {
                let mut w: Vec<usize> = (0..n).map(|i| 1 + i % (k - 1)).collect();
                w[at] = 0;
                v.push(w);
            }
        }
    }
    v
}
