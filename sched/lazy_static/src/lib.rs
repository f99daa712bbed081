//! lazy_static under the controlled scheduler: first use is a scheduling point, and an
//! execution can start from the uninitialised state again.
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU8, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

pub struct Lazy<T: 'static> {
    pub state: AtomicU8,
    pub ptr: AtomicPtr<T>,
    pub known: AtomicBool,
    pub owner: AtomicUsize,
}
static ALL: Mutex<Vec<&'static AtomicU8>> = Mutex::new(vec![]);
/// how often any initialiser ran
pub static INITS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// only uses before initialisation is complete are scheduling points?
pub static COARSE: AtomicBool = AtomicBool::new(false);

/// Back to the state before first use.
pub fn reset_all() {
    for s in ALL.lock().unwrap().iter() {
        s.store(0, SeqCst);
    }
}
pub fn count() -> usize {
    ALL.lock().unwrap().len()
}
impl<T: 'static + Sync> Lazy<T> {
    pub const fn new() -> Self {
        Lazy { state: AtomicU8::new(0), ptr: AtomicPtr::new(std::ptr::null_mut()), known: AtomicBool::new(false), owner: AtomicUsize::new(0) }
    }
    pub fn get(&'static self, init: fn() -> T) -> &'static T {
        if !COARSE.load(SeqCst) || self.state.load(SeqCst) != 2 {
            ctl::yield_point();
        }
        let id = &self.state as *const _ as usize;
        loop {
            match self.state.load(SeqCst) {
                2 => return unsafe { &*self.ptr.load(SeqCst) },
                0 => {
                    if self.state.compare_exchange(0, 1, SeqCst, SeqCst).is_err() {
                        continue;
                    }
                    self.owner.store(ctl::execution(), SeqCst);
                    if !self.known.swap(true, SeqCst) {
                        ALL.lock().unwrap().push(&self.state);
                    }
                    ctl::yield_point();
                    INITS.fetch_add(1, SeqCst);
                    let v = init();
                    ctl::yield_point();
                    // leaked on purpose: references to it are 'static
                    self.ptr.store(Box::into_raw(Box::new(v)), SeqCst);
                    self.state.store(2, SeqCst);
                    ctl::wake(id);
                    ctl::yield_point();
                }
                // another execution is at it: not a matter of this schedule
                _ if self.owner.load(SeqCst) != ctl::execution() => std::thread::yield_now(),
                _ => ctl::block_on(id),
            }
        }
    }
}
pub trait LazyStatic {
    fn initialize(lazy: &Self);
}
pub fn initialize<T: LazyStatic>(lazy: &T) {
    LazyStatic::initialize(lazy);
}
#[macro_export]
macro_rules! lazy_static {
    ($(#[$m:meta])* static ref $n:ident : $t:ty = $e:expr; $($rest:tt)*) => {
        $crate::__lazy!($(#[$m])* () static ref $n : $t = $e;);
        $crate::lazy_static!($($rest)*);
    };
    ($(#[$m:meta])* pub static ref $n:ident : $t:ty = $e:expr; $($rest:tt)*) => {
        $crate::__lazy!($(#[$m])* (pub) static ref $n : $t = $e;);
        $crate::lazy_static!($($rest)*);
    };
    ($(#[$m:meta])* pub ($($v:tt)+) static ref $n:ident : $t:ty = $e:expr; $($rest:tt)*) => {
        $crate::__lazy!($(#[$m])* (pub ($($v)+)) static ref $n : $t = $e;);
        $crate::lazy_static!($($rest)*);
    };
    () => ()
}
#[doc(hidden)]
#[macro_export]
macro_rules! __lazy {
    ($(#[$m:meta])* ($($v:tt)*) static ref $n:ident : $t:ty = $e:expr;) => {
        #[allow(missing_copy_implementations, non_camel_case_types, dead_code, missing_debug_implementations)]
        $(#[$m])*
        $($v)* struct $n { __p: () }
        #[doc(hidden)]
        #[allow(non_upper_case_globals)]
        $($v)* static $n: $n = $n { __p: () };
        impl ::core::ops::Deref for $n {
            type Target = $t;
            fn deref(&self) -> &$t {
                fn init() -> $t { $e }
                static L: $crate::Lazy<$t> = $crate::Lazy::new();
                L.get(init)
            }
        }
        impl $crate::LazyStatic for $n {
            fn initialize(l: &Self) { let _ = &**l; }
        }
    };
}
