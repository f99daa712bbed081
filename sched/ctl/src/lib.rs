//! A controlled scheduler for logical tasks.
//!
//! Off: everything runs inline, in program order.
//! Order: tasks run to completion on the calling thread, in a chosen order.
//! Threads: every task has a thread, exactly one of them runs at a time, and at every scheduling
//! point the next one is chosen.
//!
//! Choices come from a script; after its end the default 0 is taken (keep running the current
//! task, or the first ready one). The options met are recorded, so that a caller can enumerate
//! all executions.
use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Order,
    Threads,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Status {
    Ready,
    /// waits until this many of its children are done
    Join,
    /// waits for a resource
    Wait(usize),
    Done,
}
struct Task {
    status: Status,
    /// unfinished children
    kids: usize,
    parent: Option<usize>,
    /// is it known to sit in a lock of the operating system?
    stuck: bool,
}
struct State {
    tasks: Vec<Task>,
    current: usize,
    script: Vec<usize>,
    trace: Vec<usize>,
    ticks: u64,
    deadlock: bool,
    stuck_seen: bool,
    last: Instant,
}
pub struct Ctl {
    mode: Mode,
    pool: usize,
    m: Mutex<State>,
    cv: Condvar,
    limit: usize,
}
thread_local! {
    static ME: RefCell<Option<(Arc<Ctl>, usize)>> = const { RefCell::new(None) };
}
/// The result of one execution.
pub struct Run<T> {
    /// what the body returned, or the message of its panic
    pub value: Result<T, String>,
    /// number of options at each choice point
    pub trace: Vec<usize>,
    pub deadlock: bool,
    pub tasks: usize,
    /// a task was seen blocked outside the scheduler
    pub stuck: bool,
}
fn me() -> Option<(Arc<Ctl>, usize)> {
    ME.with(|m| m.borrow().clone())
}
pub fn pool_size() -> usize {
    me().map_or(1, |(c, _)| c.pool)
}
/// which execution the caller belongs to; 0 when none
pub fn execution() -> usize {
    me().map_or(0, |(c, _)| Arc::as_ptr(&c) as usize)
}
pub fn mode() -> Option<Mode> {
    me().map(|(c, _)| c.mode)
}
fn message(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}
/// Runs `body` under the script.
pub fn run<T>(mode: Mode, pool: usize, script: &[usize], body: impl FnOnce() -> T) -> Run<T> {
    let c = Arc::new(Ctl {
        mode,
        pool,
        m: Mutex::new(State {
            tasks: vec![Task { status: Status::Ready, kids: 0, parent: None, stuck: false }],
            current: 0,
            script: script.to_vec(),
            trace: vec![],
            ticks: 0,
            deadlock: false,
            stuck_seen: false,
            last: Instant::now(),
        }),
        cv: Condvar::new(),
        limit: 1 << 20,
    });
    let old = ME.with(|m| m.borrow_mut().replace((c.clone(), 0)));
    let value = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body)).map_err(message);
    ME.with(|m| *m.borrow_mut() = old);
    let s = c.m.lock().unwrap();
    Run { value, trace: s.trace.clone(), deadlock: s.deadlock, tasks: s.tasks.len(), stuck: s.stuck_seen }
}
impl State {
    fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let i = self.trace.len();
        self.trace.push(n);
        self.script.get(i).copied().unwrap_or(0).min(n - 1)
    }
    fn ready(&self) -> Vec<usize> {
        (0..self.tasks.len()).filter(|i| self.tasks[*i].status == Status::Ready && !self.tasks[*i].stuck).collect()
    }
    /// hands the baton to a chosen ready task; the current one comes first if it can go on
    fn hand_over(&mut self, me: usize) {
        let mut v = self.ready();
        if let Some(i) = v.iter().position(|t| *t == me) {
            let t = v.remove(i);
            v.insert(0, t);
        }
        if v.is_empty() {
            // nothing can run (unless a task is blocked outside the scheduler)
            if !self.tasks.iter().any(|t| t.stuck) && !self.tasks.iter().all(|t| t.status == Status::Done) {
                self.deadlock = true;
            }
            return;
        }
        let c = self.choose(v.len());
        self.current = v[c];
        self.ticks += 1;
        self.last = Instant::now();
    }
}
impl Ctl {
    fn wait_turn(&self, id: usize) {
        let mut s = self.m.lock().unwrap();
        self.cv.notify_all();
        loop {
            if s.deadlock {
                drop(s);
                if std::thread::panicking() {
                    return;
                }
                panic!("deadlock: no task can run");
            }
            if s.current == id && s.tasks[id].status == Status::Ready {
                s.tasks[id].stuck = false;
                return;
            }
            let (t, to) = self.cv.wait_timeout(s, Duration::from_millis(500)).unwrap();
            s = t;
            // the task with the baton sits in a lock held by a task that waits for the baton
            if to.timed_out() && s.last.elapsed() > Duration::from_millis(1500) {
                let cur = s.current;
                if cur != id {
                    s.tasks[cur].stuck = true;
                    s.stuck_seen = true;
                    let v = s.ready();
                    if let Some(t) = v.first() {
                        s.current = *t;
                        s.last = Instant::now();
                        self.cv.notify_all();
                    }
                }
            }
        }
    }
}
/// A scheduling point.
pub fn yield_point() {
    let Some((c, id)) = me() else { return };
    if c.mode != Mode::Threads {
        return;
    }
    let mut s = c.m.lock().unwrap();
    if s.tasks[id].stuck || s.current != id {
        // it was taken for blocked and runs again
        s.tasks[id].stuck = false;
        drop(s);
        return c.wait_turn(id);
    }
    if s.ticks as usize > c.limit {
        return;
    }
    s.last = Instant::now();
    s.hand_over(id);
    let go = s.current == id;
    drop(s);
    if !go {
        c.wait_turn(id);
    }
}
/// Blocks the current task on a resource until `wake` of it.
pub fn block_on(res: usize) {
    let Some((c, id)) = me() else { return std::thread::yield_now() };
    if c.mode != Mode::Threads {
        return std::thread::yield_now();
    }
    let mut s = c.m.lock().unwrap();
    s.tasks[id].status = Status::Wait(res);
    s.hand_over(id);
    drop(s);
    c.wait_turn(id);
}
pub fn wake(res: usize) {
    let Some((c, _)) = me() else { return };
    let mut s = c.m.lock().unwrap();
    for t in &mut s.tasks {
        if t.status == Status::Wait(res) {
            t.status = Status::Ready;
        }
    }
}
/// Picks one of `n` in Order mode.
pub fn choose(n: usize) -> usize {
    match me() {
        Some((c, _)) => c.m.lock().unwrap().choose(n),
        None => 0,
    }
}
/// A new logical task, child of the current one. The closure must run `body` on a new thread.
pub struct Spawned {
    c: Arc<Ctl>,
    id: usize,
}
/// Registers a child task; `None` when tasks are to run inline.
pub fn register() -> Option<Spawned> {
    let (c, id) = me()?;
    if c.mode != Mode::Threads {
        return None;
    }
    let mut s = c.m.lock().unwrap();
    let n = s.tasks.len();
    s.tasks.push(Task { status: Status::Ready, kids: 0, parent: Some(id), stuck: false });
    s.tasks[id].kids += 1;
    drop(s);
    Some(Spawned { c, id: n })
}
impl Spawned {
    /// on the task's own thread
    pub fn run<T>(self, f: impl FnOnce() -> T) -> std::thread::Result<T> {
        ME.with(|m| *m.borrow_mut() = Some((self.c.clone(), self.id)));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            self.c.wait_turn(self.id);
            f()
        }));
        let mut s = self.c.m.lock().unwrap();
        s.tasks[self.id].status = Status::Done;
        s.tasks[self.id].stuck = false;
        let p = s.tasks[self.id].parent.unwrap();
        s.tasks[p].kids -= 1;
        if s.tasks[p].kids == 0 && s.tasks[p].status == Status::Join {
            s.tasks[p].status = Status::Ready;
        }
        if s.current == self.id {
            s.hand_over(self.id);
        }
        drop(s);
        self.c.cv.notify_all();
        r
    }
}
/// Waits until all children of the current task are done.
pub fn join_children() {
    let Some((c, id)) = me() else { return };
    if c.mode != Mode::Threads {
        return;
    }
    let mut s = c.m.lock().unwrap();
    s.tasks[id].stuck = false;
    if s.tasks[id].kids == 0 {
        return;
    }
    s.tasks[id].status = Status::Join;
    if s.current == id {
        s.hand_over(id);
    }
    drop(s);
    c.wait_turn(id);
}
