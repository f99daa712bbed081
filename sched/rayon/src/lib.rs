//! The part of rayon's interface that numeric code uses, run by the controlled scheduler.
use std::cell::RefCell;
use std::panic::resume_unwind;

pub fn current_num_threads() -> usize {
    ctl::pool_size()
}
pub fn max_num_threads() -> usize {
    1 << 16
}
pub fn current_thread_index() -> Option<usize> {
    None
}
pub fn join<A: Send, B: Send>(a: impl FnOnce() -> A + Send, b: impl FnOnce() -> B + Send) -> (A, B) {
    match ctl::mode() {
        None => (a(), b()),
        Some(ctl::Mode::Order) => {
            if ctl::choose(2) == 0 {
                let x = a();
                (x, b())
            } else {
                let y = b();
                (a(), y)
            }
        }
        Some(ctl::Mode::Threads) => std::thread::scope(|s| {
            let t = ctl::register().unwrap();
            let h = s.spawn(move || t.run(b));
            ctl::yield_point();
            let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(a));
            ctl::join_children();
            let y = h.join().unwrap_or_else(Err);
            match (x, y) {
                (Ok(x), Ok(y)) => (x, y),
                (Err(e), _) | (_, Err(e)) => resume_unwind(e),
            }
        }),
    }
}
type Job<'s> = Box<dyn FnOnce(&Scope<'s>) + Send + 's>;
pub struct Scope<'s> {
    queue: std::sync::Mutex<Vec<Job<'s>>>,
}
impl<'s> Scope<'s> {
    pub fn spawn<F: FnOnce(&Scope<'s>) + Send + 's>(&self, f: F) {
        self.queue.lock().unwrap().push(Box::new(f));
        // in Threads mode the job is picked up by the driver thread of the scope
        if ctl::mode() == Some(ctl::Mode::Threads) {
            SPAWNER.with(|s| {
                let p = s.borrow().last().copied();
                if let Some(p) = p {
                    let j = self.queue.lock().unwrap().pop().unwrap();
                    // SAFETY: the scope outlives its jobs: `scope` waits for them before it returns
                    let j: Job<'static> = unsafe { std::mem::transmute(j) };
                    let me: &'static Scope<'static> = unsafe { std::mem::transmute(self) };
                    let h: &Handles = unsafe { &*(p as *const Handles) };
                    h.start(j, me);
                }
            });
            ctl::yield_point();
        }
    }
}
#[derive(Default)]
struct Handles {
    v: std::sync::Mutex<Vec<std::thread::JoinHandle<std::thread::Result<()>>>>,
}
impl Handles {
    fn start(&self, j: Job<'static>, s: &'static Scope<'static>) {
        let t = ctl::register().unwrap();
        let p = self as *const Handles as usize;
        let h = std::thread::spawn(move || {
            SPAWNER.with(|s| s.borrow_mut().push(p));
            t.run(|| {
                j(s);
                // jobs spawned by this job
                ctl::join_children();
            })
        });
        self.v.lock().unwrap().push(h);
    }
}
thread_local! {
    static SPAWNER: RefCell<Vec<usize>> = const { RefCell::new(vec![]) };
}
pub fn scope<'s, R>(f: impl FnOnce(&Scope<'s>) -> R) -> R {
    let s = Scope { queue: Default::default() };
    if ctl::mode() == Some(ctl::Mode::Threads) {
        let h = Handles::default();
        SPAWNER.with(|x| x.borrow_mut().push(&h as *const Handles as usize));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&s)));
        SPAWNER.with(|x| x.borrow_mut().pop());
        ctl::join_children();
        let mut bad = None;
        loop {
            let Some(t) = h.v.lock().unwrap().pop() else { break };
            if let Err(e) = t.join().unwrap_or_else(Err) {
                bad = Some(e);
            }
        }
        match (r, bad) {
            (Err(e), _) | (_, Some(e)) => resume_unwind(e),
            (Ok(r), None) => r,
        }
    } else {
        let r = f(&s);
        loop {
            let mut q = s.queue.lock().unwrap();
            if q.is_empty() {
                break;
            }
            let i = ctl::choose(q.len());
            let j = q.remove(i);
            drop(q);
            j(&s);
        }
        r
    }
}
pub fn in_place_scope<'s, R>(f: impl FnOnce(&Scope<'s>) -> R) -> R {
    scope(f)
}
/// runs f on every item, as tasks; results in order
fn tasks<T: Send, U: Send>(items: Vec<T>, f: &(impl Fn(T) -> U + Sync)) -> Vec<U> {
    let n = items.len();
    if n == 0 {
        return vec![];
    }
    // long inputs are split in two pieces, short ones into their items
    let size = if n <= 12 { 1 } else { n.div_ceil(2) };
    let mut pieces: Vec<Vec<T>> = vec![];
    let mut it = items.into_iter();
    loop {
        let p: Vec<T> = it.by_ref().take(size).collect();
        if p.is_empty() {
            break;
        }
        pieces.push(p);
    }
    let out: Vec<std::sync::Mutex<Vec<U>>> = pieces.iter().map(|_| Default::default()).collect();
    scope(|s| {
        for (p, o) in pieces.into_iter().zip(&out) {
            s.spawn(move |_| {
                let v: Vec<U> = p.into_iter().map(f).collect();
                *o.lock().unwrap() = v;
            });
        }
    });
    out.into_iter().flat_map(|m| m.into_inner().unwrap()).collect()
}
pub mod iter {
    use super::tasks;
    pub struct Par<T>(pub(crate) Vec<T>);
    pub trait IntoParallelIterator {
        type Item: Send;
        fn into_par_iter(self) -> Par<Self::Item>;
    }
    impl<I: IntoIterator> IntoParallelIterator for I
    where
        I::Item: Send,
    {
        type Item = I::Item;
        fn into_par_iter(self) -> Par<I::Item> {
            Par(self.into_iter().collect())
        }
    }
    impl<T: Send> IntoIterator for Par<T> {
        type Item = T;
        type IntoIter = std::vec::IntoIter<T>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.into_iter()
        }
    }
    pub trait IntoParallelRefIterator<'a> {
        type Item: Send + 'a;
        fn par_iter(&'a self) -> Par<Self::Item>;
    }
    impl<'a, T: Sync + 'a> IntoParallelRefIterator<'a> for [T] {
        type Item = &'a T;
        fn par_iter(&'a self) -> Par<&'a T> {
            Par(self.iter().collect())
        }
    }
    impl<'a, T: Sync + 'a> IntoParallelRefIterator<'a> for Vec<T> {
        type Item = &'a T;
        fn par_iter(&'a self) -> Par<&'a T> {
            Par(self.iter().collect())
        }
    }
    pub trait IntoParallelRefMutIterator<'a> {
        type Item: Send + 'a;
        fn par_iter_mut(&'a mut self) -> Par<Self::Item>;
    }
    impl<'a, T: Send + 'a> IntoParallelRefMutIterator<'a> for [T] {
        type Item = &'a mut T;
        fn par_iter_mut(&'a mut self) -> Par<&'a mut T> {
            Par(self.iter_mut().collect())
        }
    }
    impl<'a, T: Send + 'a> IntoParallelRefMutIterator<'a> for Vec<T> {
        type Item = &'a mut T;
        fn par_iter_mut(&'a mut self) -> Par<&'a mut T> {
            Par(self.iter_mut().collect())
        }
    }
    /// order-preserving transformations
    pub trait IndexedParallelIterator: Sized {
        type Item: Send;
        fn items(self) -> Vec<Self::Item>;
        fn enumerate(self) -> Par<(usize, Self::Item)> {
            Par(self.items().into_iter().enumerate().collect())
        }
        fn rev(self) -> Par<Self::Item> {
            Par(self.items().into_iter().rev().collect())
        }
        fn zip<J: IntoIterator>(self, o: J) -> Par<(Self::Item, J::Item)>
        where
            J::Item: Send,
        {
            Par(self.items().into_iter().zip(o).collect())
        }
        fn take(self, n: usize) -> Par<Self::Item> {
            Par(self.items().into_iter().take(n).collect())
        }
        fn skip(self, n: usize) -> Par<Self::Item> {
            Par(self.items().into_iter().skip(n).collect())
        }
        fn step_by(self, n: usize) -> Par<Self::Item> {
            Par(self.items().into_iter().step_by(n).collect())
        }
        fn chunks(self, n: usize) -> Par<Vec<Self::Item>> {
            let mut it = self.items().into_iter();
            let mut v = vec![];
            loop {
                let c: Vec<_> = it.by_ref().take(n).collect();
                if c.is_empty() {
                    return Par(v);
                }
                v.push(c);
            }
        }
        fn with_min_len(self, _: usize) -> Par<Self::Item> {
            Par(self.items())
        }
        fn with_max_len(self, _: usize) -> Par<Self::Item> {
            Par(self.items())
        }
        fn len(self) -> usize {
            self.items().len()
        }
    }
    impl<T: Send> IndexedParallelIterator for Par<T> {
        type Item = T;
        fn items(self) -> Vec<T> {
            self.0
        }
    }
    /// everything that runs user code
    pub trait ParallelIterator: Sized {
        type Item: Send;
        fn list(self) -> Vec<Self::Item>;
        fn for_each<F: Fn(Self::Item) + Sync>(self, f: F) {
            tasks(self.list(), &f);
        }
        fn map<U: Send, F: Fn(Self::Item) -> U + Sync>(self, f: F) -> Par<U> {
            Par(tasks(self.list(), &f))
        }
        fn flat_map_iter<U: Send, I: IntoIterator<Item = U>, F: Fn(Self::Item) -> I + Sync>(self, f: F) -> Par<U> {
            let v = tasks(self.list(), &|x| f(x).into_iter().collect::<Vec<U>>());
            Par(v.into_iter().flatten().collect())
        }
        fn filter<F: Fn(&Self::Item) -> bool + Sync>(self, f: F) -> Par<Self::Item> {
            let v = tasks(self.list(), &|x| if f(&x) { Some(x) } else { None });
            Par(v.into_iter().flatten().collect())
        }
        fn filter_map<U: Send, F: Fn(Self::Item) -> Option<U> + Sync>(self, f: F) -> Par<U> {
            Par(tasks(self.list(), &f).into_iter().flatten().collect())
        }
        fn collect<B: FromIterator<Self::Item>>(self) -> B {
            self.list().into_iter().collect()
        }
        fn sum<S: std::iter::Sum<Self::Item> + Send>(self) -> S {
            self.list().into_iter().sum()
        }
        fn product<S: std::iter::Product<Self::Item> + Send>(self) -> S {
            self.list().into_iter().product()
        }
        fn count(self) -> usize {
            self.list().len()
        }
        fn any<F: Fn(Self::Item) -> bool + Sync>(self, f: F) -> bool {
            tasks(self.list(), &f).into_iter().any(|x| x)
        }
        fn all<F: Fn(Self::Item) -> bool + Sync>(self, f: F) -> bool {
            tasks(self.list(), &f).into_iter().all(|x| x)
        }
        fn copied<'a, T: Copy + Send + 'a>(self) -> Par<T>
        where
            Self: ParallelIterator<Item = &'a T>,
            T: Sync,
        {
            Par(self.list().into_iter().copied().collect())
        }
        fn cloned<'a, T: Clone + Send + 'a>(self) -> Par<T>
        where
            Self: ParallelIterator<Item = &'a T>,
            T: Sync,
        {
            Par(self.list().into_iter().cloned().collect())
        }
        /// associative reduction, bracketed as chosen
        fn reduce<I: Fn() -> Self::Item + Sync, F: Fn(Self::Item, Self::Item) -> Self::Item + Sync>(self, id: I, f: F) -> Self::Item {
            let mut v = self.list();
            if v.is_empty() {
                return id();
            }
            while v.len() > 1 {
                let i = ctl::choose(v.len() - 1);
                let b = v.remove(i + 1);
                let a = v.remove(i);
                v.insert(i, f(a, b));
            }
            f(id(), v.pop().unwrap())
        }
        fn fold<A: Send, I: Fn() -> A + Sync, F: Fn(A, Self::Item) -> A + Sync>(self, id: I, f: F) -> Par<A> {
            let v = self.list();
            let size = v.len().div_ceil(2).max(1);
            let p = IndexedParallelIterator::chunks(Par(v), size);
            Par(tasks(p.0, &|c: Vec<Self::Item>| c.into_iter().fold(id(), &f)))
        }
    }
    impl<T: Send> ParallelIterator for Par<T> {
        type Item = T;
        fn list(self) -> Vec<T> {
            self.0
        }
    }
}
pub mod slice {
    use super::iter::Par;
    pub trait ParallelSlice<T: Sync> {
        fn par_chunks(&self, n: usize) -> Par<&[T]>;
        fn par_chunks_exact(&self, n: usize) -> Par<&[T]>;
    }
    impl<T: Sync> ParallelSlice<T> for [T] {
        fn par_chunks(&self, n: usize) -> Par<&[T]> {
            Par(self.chunks(n).collect())
        }
        fn par_chunks_exact(&self, n: usize) -> Par<&[T]> {
            Par(self.chunks_exact(n).collect())
        }
    }
    pub trait ParallelSliceMut<T: Send> {
        fn par_chunks_mut(&mut self, n: usize) -> Par<&mut [T]>;
        fn par_chunks_exact_mut(&mut self, n: usize) -> Par<&mut [T]>;
    }
    impl<T: Send> ParallelSliceMut<T> for [T] {
        fn par_chunks_mut(&mut self, n: usize) -> Par<&mut [T]> {
            Par(self.chunks_mut(n).collect())
        }
        fn par_chunks_exact_mut(&mut self, n: usize) -> Par<&mut [T]> {
            Par(self.chunks_exact_mut(n).collect())
        }
    }
}
pub mod prelude {
    pub use crate::iter::{
        IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelIterator,
    };
    pub use crate::slice::{ParallelSlice, ParallelSliceMut};
}
