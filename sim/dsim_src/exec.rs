//! Discrete-event executor: tasks, virtual time, and the wrapper every library call runs in.
use std::cell::{Cell, RefCell};
use std::cmp::Reverse;
use std::collections::{BinaryHeap, VecDeque};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

type Task = Pin<Box<dyn Future<Output = ()>>>;

struct TaskWaker {
    id: usize,
    ready: Arc<Mutex<VecDeque<usize>>>,
}
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.ready.lock().unwrap().push_back(self.id);
    }
}

struct Timer {
    fired: Cell<bool>,
    waker: RefCell<Option<Waker>>,
}

pub struct Exec {
    tasks: RefCell<Vec<Option<Task>>>,
    names: RefCell<Vec<String>>,
    spawned: RefCell<Vec<(Task, String)>>,
    ready: Arc<Mutex<VecDeque<usize>>>,
    timers: RefCell<BinaryHeap<Reverse<(u64, u64)>>>,
    slots: RefCell<Vec<Rc<Timer>>>,
    pub now: Cell<u64>,
    pub polls: Cell<u64>,
    pub order: Cell<u64>,
}

thread_local! {
    static EXEC: RefCell<Option<Rc<Exec>>> = RefCell::new(None);
    pub static IN_LIB: Cell<bool> = Cell::new(false);
    pub static PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
    static SIM_NOW: Cell<u64> = Cell::new(0);
}

/// Virtual time in microseconds, visible to the clock seam.
pub fn sim_now() -> u64 {
    SIM_NOW.try_with(|n| n.get()).unwrap_or(0)
}
pub fn set_clock(t: u64) {
    SIM_NOW.with(|n| n.set(t));
}

pub fn current() -> Rc<Exec> {
    EXEC.with(|e| e.borrow().clone().expect("executor"))
}

pub fn spawn(name: String, f: impl Future<Output = ()> + 'static) {
    current().spawned.borrow_mut().push((Box::pin(f), name));
}

pub fn now() -> u64 {
    current().now.get()
}

pub struct Delay {
    us: u64,
    timer: Option<Rc<Timer>>,
}

/// Suspend for `us` microseconds of virtual time (zero: do not suspend).
pub fn delay(us: u64) -> Delay {
    Delay { us, timer: None }
}

impl Future for Delay {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.us == 0 {
            return Poll::Ready(());
        }
        match &self.timer {
            None => {
                let e = current();
                let t = Rc::new(Timer { fired: Cell::new(false), waker: RefCell::new(Some(cx.waker().clone())) });
                let mut slots = e.slots.borrow_mut();
                e.timers.borrow_mut().push(Reverse((e.now.get() + self.us, slots.len() as u64)));
                slots.push(t.clone());
                drop(slots);
                self.timer = Some(t);
                Poll::Pending
            }
            Some(t) => {
                if t.fired.get() {
                    Poll::Ready(())
                } else {
                    *t.waker.borrow_mut() = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        }
    }
}

pub enum Ended {
    Finished,
    /// Names of tasks that can never continue.
    Stalled(Vec<String>),
    StepLimit,
}

impl Exec {
    pub fn new() -> Rc<Exec> {
        let e = Rc::new(Exec {
            tasks: RefCell::new(vec![]),
            names: RefCell::new(vec![]),
            spawned: RefCell::new(vec![]),
            ready: Arc::new(Mutex::new(VecDeque::new())),
            timers: RefCell::new(BinaryHeap::new()),
            slots: RefCell::new(vec![]),
            now: Cell::new(0),
            polls: Cell::new(0),
            order: Cell::new(0xcbf29ce484222325),
        });
        EXEC.with(|x| *x.borrow_mut() = Some(e.clone()));
        set_clock(0);
        e
    }
    fn admit(&self) {
        let mut sp = self.spawned.borrow_mut();
        for (t, name) in sp.drain(..) {
            let mut tasks = self.tasks.borrow_mut();
            self.ready.lock().unwrap().push_back(tasks.len());
            tasks.push(Some(t));
            self.names.borrow_mut().push(name);
        }
    }
    /// Run until nothing can continue.  `pick(n)` chooses among n runnable tasks.
    pub fn run(&self, mut pick: impl FnMut(u64) -> u64) -> Ended {
        loop {
            self.admit();
            let id = {
                let mut r = self.ready.lock().unwrap();
                if r.is_empty() {
                    None
                } else {
                    let n = r.len() as u64;
                    drop(r);
                    let i = if n > 1 { pick(n) as usize } else { 0 };
                    r = self.ready.lock().unwrap();
                    r.remove(i)
                }
            };
            let id = match id {
                Some(id) => id,
                None => {
                    let next = self.timers.borrow_mut().pop();
                    match next {
                        Some(Reverse((t, slot))) => {
                            self.now.set(t.max(self.now.get()));
                            set_clock(self.now.get());
                            let tm = self.slots.borrow()[slot as usize].clone();
                            tm.fired.set(true);
                            let w = tm.waker.borrow_mut().take();
                            if let Some(w) = w {
                                w.wake();
                            }
                            continue;
                        }
                        None => {
                            let tasks = self.tasks.borrow();
                            let names = self.names.borrow();
                            let stuck: Vec<String> = tasks.iter().zip(names.iter()).filter(|(t, _)| t.is_some()).map(|(_, n)| n.clone()).collect();
                            return if stuck.is_empty() { Ended::Finished } else { Ended::Stalled(stuck) };
                        }
                    }
                }
            };
            self.polls.set(self.polls.get() + 1);
            if self.polls.get() > 400_000 {
                return Ended::StepLimit;
            }
            self.order.set((self.order.get() ^ id as u64).wrapping_mul(0x100000001b3));
            let task = self.tasks.borrow_mut()[id].take();
            if let Some(mut t) = task {
                let waker = Waker::from(Arc::new(TaskWaker { id, ready: self.ready.clone() }));
                let mut cx = Context::from_waker(&waker);
                if t.as_mut().poll(&mut cx).is_pending() {
                    self.tasks.borrow_mut()[id] = Some(t);
                }
            }
        }
    }
    pub fn clear(&self) {
        let t: Vec<_> = self.tasks.borrow_mut().drain(..).collect();
        drop(t);
        EXEC.with(|x| *x.borrow_mut() = None);
    }
}

/// Install the hook that records library panics silently.
pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let in_lib = IN_LIB.with(|f| f.get());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if in_lib && !loc.contains("dsim_src/") {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "panic".into());
            PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
        } else {
            default(info);
        }
    }));
}

pub enum LibOut<T> {
    Done(T),
    Cancelled,
    Panicked(String),
}

/// Runs one library future: catches panics, collects the random draws made by it, and drops it when
/// `stop(awaits)` says so at a suspension point.
pub struct LibCall<'a, T> {
    pub fut: Option<Pin<Box<dyn Future<Output = T> + 'a>>>,
    pub stop: Box<dyn FnMut(u32) -> bool + 'a>,
    pub sink: Box<dyn FnMut((Vec<askar_crypto::sim::AeadUse>, Vec<askar_crypto::sim::Drawn>)) + 'a>,
    pub awaits: u32,
}

fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let prev = IN_LIB.with(|x| x.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_LIB.with(|x| x.set(prev));
    match r {
        Ok(v) => Ok(v),
        Err(e) => match PANIC.with(|p| p.borrow_mut().take()) {
            Some((m, l)) => Err(format!("{} at {}", m, l)),
            // a panic of the simulator itself
            None => std::panic::resume_unwind(e),
        },
    }
}

/// A synchronous library call.
pub fn lib_sync<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    guarded(f)
}

impl<'a, T> Future for LibCall<'a, T> {
    type Output = LibOut<T>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<LibOut<T>> {
        let me = &mut *self;
        if me.awaits > 0 && (me.stop)(me.awaits) {
            let f = me.fut.take();
            if let Err(p) = guarded(move || drop(f)) {
                return Poll::Ready(LibOut::Panicked(p));
            }
            return Poll::Ready(LibOut::Cancelled);
        }
        let fut = me.fut.as_mut().expect("polled after completion");
        askar_crypto::sim::take_log();
        let r = guarded(|| fut.as_mut().poll(cx));
        (me.sink)(askar_crypto::sim::take_log());
        match r {
            Err(p) => {
                let f = me.fut.take();
                let _ = guarded(move || drop(f));
                Poll::Ready(LibOut::Panicked(p))
            }
            Ok(Poll::Pending) => {
                me.awaits += 1;
                Poll::Pending
            }
            Ok(Poll::Ready(v)) => {
                let f = me.fut.take();
                let _ = guarded(move || drop(f));
                Poll::Ready(LibOut::Done(v))
            }
        }
    }
}

thread_local! {
    static WALL: Cell<u64> = Cell::new(1_700_000_000);
}
/// Wall clock of the simulation, in seconds at virtual time zero.
pub fn set_wall(t: u64) {
    WALL.with(|w| w.set(t));
}
pub fn wall() -> u64 {
    WALL.try_with(|w| w.get()).unwrap_or(0)
}
