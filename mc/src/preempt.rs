//! Two operations on two threads of the operating system, one of which runs at a time. A thread is
//! preempted at the allocation (or deallocation) with a chosen number, in the middle of a poll or of a
//! plain call, wherever that is; the other one then runs to its end, to its own preemption, or until it
//! has to wait.
use crate::clock;
use crate::exec::{self, guarded, Flag, Out, Rec, World, WORLD};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicU64, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Mutex};
use std::task::{Context, Poll, Waker};

pub struct Points;

thread_local! {
    /// points until the preemption; 0: not counting
    static LEFT: Cell<u64> = const { Cell::new(0) };
    static SEAT: Cell<(*const Duel, u32)> = const { Cell::new((std::ptr::null(), 0)) };
    static PARTNER: RefCell<Option<mpsc::Sender<Box<dyn FnOnce() + Send>>>> = const { RefCell::new(None) };
}

#[inline]
fn point() {
    let _ = LEFT.try_with(|l| {
        let n = l.get();
        if n != 0 {
            l.set(n - 1);
            if n == 1 {
                preempted();
            }
        }
    });
}

#[cold]
fn preempted() {
    let (duel, me) = SEAT.get();
    if let Some(d) = unsafe { duel.as_ref() } {
        d.preemptions.fetch_add(1, SeqCst);
        d.pass(me);
    }
}

unsafe impl GlobalAlloc for Points {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point();
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        point();
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        point();
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        point();
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static POINTS: Points = Points;

#[derive(Default)]
struct Duel {
    /// whose turn it is
    turn: AtomicU32,
    done: [AtomicBool; 2],
    tid: [AtomicI32; 2],
    preemptions: AtomicU64,
    /// how often a thread had to wait in the operating system for the other
    blocked: AtomicU64,
}

// (std's timed waits would read the virtual clock)
fn futex_wait(a: &AtomicU32, v: u32) {
    let t = libc::timespec { tv_sec: 0, tv_nsec: 1_000_000 };
    unsafe { libc::syscall(libc::SYS_futex, a.as_ptr(), libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG, v, &t) };
}
fn futex_wake(a: &AtomicU32) {
    unsafe { libc::syscall(libc::SYS_futex, a.as_ptr(), libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG, i32::MAX) };
}

/// Whether a thread of this process sleeps.
fn sleeps(tid: i32) -> bool {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    s.rsplit(')').next().is_some_and(|r| r.trim_start().starts_with('S'))
}

impl Duel {
    /// The other one's turn, until it gives it back or sleeps on something else.
    fn pass(&self, me: u32) {
        let other = 1 - me;
        if self.done[other as usize].load(SeqCst) {
            return;
        }
        self.turn.store(other, SeqCst);
        futex_wake(&self.turn);
        self.wait(me);
    }

    fn wait(&self, me: u32) {
        let other = 1 - me;
        let mut asleep = 0;
        for _ in 0..200 {
            if self.turn.load(SeqCst) == me {
                return;
            }
            std::hint::spin_loop();
        }
        while self.turn.load(SeqCst) != me {
            futex_wait(&self.turn, other);
            if self.turn.load(SeqCst) == me {
                return;
            }
            let tid = self.tid[other as usize].load(SeqCst);
            asleep = if tid != 0 && sleeps(tid) { asleep + 1 } else { 0 };
            if asleep >= 3 && self.turn.compare_exchange(other, me, SeqCst, SeqCst).is_ok() {
                self.blocked.fetch_add(1, SeqCst);
                return;
            }
        }
    }
}

pub type Fut = Pin<Box<dyn Future<Output = Result<String, String>>>>;

/// One operation, with the services, the clock and the preemption point of its thread.
pub struct Side {
    pub world: World,
    pub now: i128,
    /// preempted at this point of its execution; 0: never
    pub at: u64,
    pub op: Box<dyn FnOnce() -> Fut + Send>,
}

#[derive(Debug)]
pub struct End {
    pub out: Out<String>,
    pub log: Vec<Rec>,
    /// allocations and deallocations of the operation, if it was not preempted
    pub points: u64,
}

fn execute(s: Side, duel: Option<(&Duel, u32)>) -> End {
    exec::init();
    clock::set(s.now);
    WORLD.with(|w| *w.borrow_mut() = s.world);
    SEAT.set(match duel {
        Some((d, me)) => (d as *const Duel, me),
        None => (std::ptr::null(), 0),
    });
    if let Some((d, me)) = duel {
        d.tid[me as usize].store(unsafe { libc::syscall(libc::SYS_gettid) } as i32, SeqCst);
        if me == 1 {
            d.wait(1);
        }
    }
    let start = if s.at == 0 { u64::MAX } else { s.at };
    LEFT.set(start);
    let out = poll_to_end(s.op, duel);
    let points = start - LEFT.replace(0);
    SEAT.set((std::ptr::null(), 0));
    End { out, log: exec::traffic(), points }
}

fn poll_to_end(op: Box<dyn FnOnce() -> Fut + Send>, duel: Option<(&Duel, u32)>) -> Out<String> {
    let mut fut = match guarded(op) {
        Ok(f) => f,
        Err(p) => return Out::Panic(p),
    };
    let flag = Flag::new();
    let waker = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    let mut idle = 0;
    loop {
        match guarded(|| fut.as_mut().poll(&mut cx)) {
            Err(p) => {
                let _ = guarded(move || drop(fut));
                return Out::Panic(p);
            }
            Ok(Poll::Ready(r)) => {
                let _ = guarded(move || drop(fut));
                return match r {
                    Ok(s) => Out::Ok(s),
                    Err(e) => Out::Err(e),
                };
            }
            Ok(Poll::Pending) => {
                while !flag.take() {
                    exec::drive();
                    if flag.take() {
                        break;
                    }
                    // nothing to do here: the other one's turn; twice for nothing is a hang
                    if let Some((d, me)) = duel {
                        d.pass(me);
                    }
                    if flag.take() {
                        break;
                    }
                    idle += 1;
                    if idle > 3 {
                        let _ = guarded(move || drop(fut));
                        return Out::Hang;
                    }
                }
            }
        }
    }
}

/// One operation alone.
pub fn alone(s: Side) -> End {
    execute(s, None)
}

/// Both operations, `a` first; (ends, preemptions, waits in the operating system).
pub fn duel(a: Side, b: Side) -> ([End; 2], u64, u64) {
    let d = Arc::new(Duel::default());
    let other: Arc<Mutex<Option<End>>> = Arc::default();
    let (d1, o1) = (d.clone(), other.clone());
    let job: Box<dyn FnOnce() + Send> = Box::new(move || {
        let e = execute(b, Some((&d1, 1)));
        *o1.lock().unwrap() = Some(e);
        d1.done[1].store(true, SeqCst);
        d1.turn.store(0, SeqCst);
        futex_wake(&d1.turn);
    });
    PARTNER.with(|p| {
        let mut p = p.borrow_mut();
        let tx = p.get_or_insert_with(|| {
            let (tx, rx) = mpsc::channel::<Box<dyn FnOnce() + Send>>();
            std::thread::spawn(move || {
                for job in rx {
                    job();
                }
            });
            tx
        });
        tx.send(job).expect("partner");
    });
    let first = execute(a, Some((&d, 0)));
    d.done[0].store(true, SeqCst);
    while !d.done[1].load(SeqCst) {
        d.turn.store(1, SeqCst);
        futex_wake(&d.turn);
        futex_wait(&d.turn, 1);
    }
    let second = other.lock().unwrap().take().expect("an end");
    ([first, second], d.preemptions.load(SeqCst), d.blocked.load(SeqCst))
}
