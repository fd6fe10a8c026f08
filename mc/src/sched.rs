//! A controlled scheduler.  Real OS threads run the real code, one at a time, as the controller dictates.
//! Scheduling points are either the arithmetic operations of the element type `Sch`, or - for any element type -
//! every machine instruction: `stepped` runs a closure with the processor's trap flag set, and the trap handler is
//! the scheduling point.
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Once};
use std::thread;
use std::time::{Duration, Instant};

const IDLE: u32 = 0;
const RUN: u32 = 1;
const YIELDED: u32 = 2;
const DONE: u32 = 3;

pub struct Slot {
    state: AtomicU32,
    budget: AtomicI64,
    progress: AtomicU64,
    tid: AtomicU32,
}
thread_local! {
    static ME: Cell<*const Slot> = const { Cell::new(std::ptr::null()) };
}
extern "C" {
    fn gettid() -> i32;
    fn sigaction(sig: i32, act: *const SigAct, old: *mut SigAct) -> i32;
}
#[repr(C)]
struct SigAct {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
/// wait on / wake the word, by system call so that it can be done inside a signal handler
fn futex(w: &AtomicU32, op: u64, val: u64, timeout_ns: i64) {
    let ts = [timeout_ns / 1_000_000_000, timeout_ns % 1_000_000_000];
    let tp = if timeout_ns > 0 { ts.as_ptr() as u64 } else { 0 };
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") 202u64 => _, in("rdi") w as *const _ as u64, in("rsi") op | 128, in("rdx") val, in("r10") tp,
            in("r8") 0u64, in("r9") 0u64, lateout("rcx") _, lateout("r11") _);
    }
}
fn wait_change(w: &AtomicU32, val: u32, ns: i64) {
    futex(w, 0, val as u64, ns)
}
fn wake(w: &AtomicU32) {
    futex(w, 1, i32::MAX as u64, 0)
}
const FREE: i64 = i64::MAX / 2;
const EFLAGS: usize = 5 + 17; // uc_flags, uc_link, uc_stack (3 words), then the general registers
extern "C" fn trap(_sig: i32, _info: *mut u8, uc: *mut u64) {
    ME.with(|m| {
        let p = m.get();
        if p.is_null() || unsafe { &*p }.budget.load(SeqCst) > FREE / 2 {
            // granted everything: full speed
            unsafe { *uc.add(EFLAGS) &= !0x100 }
            return;
        }
        point()
    })
}
/// Run f with every machine instruction a scheduling point of this thread.
pub fn stepped<R>(f: impl FnOnce() -> R) -> R {
    static ON: Once = Once::new();
    ON.call_once(|| {
        let a = SigAct { handler: trap as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
        if unsafe { sigaction(5, &a, std::ptr::null_mut()) } != 0 {
            panic!("harness: sigaction");
        }
    });
    struct D;
    impl Drop for D {
        #[inline(never)]
        fn drop(&mut self) {
            unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], 0xfffffffffffffeff", "popfq") }
        }
    }
    let d = D;
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
    let r = f();
    drop(d);
    r
}
/// a scheduling point
#[inline]
pub fn point() {
    ME.with(|m| {
        let p = m.get();
        if !p.is_null() {
            let s = unsafe { &*p };
            if s.budget.fetch_sub(1, SeqCst) <= 0 {
                s.stop();
            }
            s.progress.fetch_add(1, SeqCst);
        }
    })
}
impl Slot {
    #[cold]
    fn stop(&self) {
        self.set_and_wake(YIELDED);
        self.wait_run();
        self.budget.fetch_sub(1, SeqCst);
    }
    fn set_and_wake(&self, st: u32) {
        self.state.store(st, SeqCst);
        wake(&self.state);
    }
    fn wait_run(&self) {
        let mut spins = 0;
        loop {
            let st = self.state.load(SeqCst);
            if st == RUN {
                return;
            }
            spins += 1;
            if spins < 100 {
                std::hint::spin_loop()
            } else {
                wait_change(&self.state, st, 50_000_000)
            }
        }
    }
}
type Job = Box<dyn FnOnce() + Send>;
struct Th {
    slot: Arc<Slot>,
    tx: mpsc::Sender<Job>,
}
pub struct Sched {
    th: Vec<Th>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ev {
    Yielded,
    Done,
    Blocked,
}
pub enum End {
    Finished,
    Deadlock(String),
}
impl Sched {
    pub fn new(n: usize) -> Sched {
        let th = (0..n)
            .map(|_| {
                let slot = Arc::new(Slot {
                    state: AtomicU32::new(IDLE),
                    budget: AtomicI64::new(0),
                    progress: AtomicU64::new(0),
                    tid: AtomicU32::new(0),
                });
                let (tx, rx) = mpsc::channel::<Job>();
                let s2 = slot.clone();
                thread::spawn(move || {
                    s2.tid.store(unsafe { gettid() } as u32, SeqCst);
                    for j in rx {
                        s2.wait_run();
                        ME.with(|m| m.set(&*s2));
                        j();
                        ME.with(|m| m.set(std::ptr::null()));
                        s2.set_and_wake(DONE);
                    }
                });
                Th { slot, tx }
            })
            .collect();
        Sched { th }
    }
    pub fn start(&self, i: usize, j: Job) {
        self.th[i].slot.state.store(IDLE, SeqCst);
        self.th[i].slot.budget.store(0, SeqCst);
        self.th[i].tx.send(j).expect("harness: worker thread gone");
    }
    fn wait(&self, i: usize) -> Ev {
        let s = &self.th[i].slot;
        let mut spins = 0;
        let mut last = (s.progress.load(SeqCst), Instant::now());
        let mut asleep = 0;
        loop {
            match s.state.load(SeqCst) {
                YIELDED => return Ev::Yielded,
                DONE => return Ev::Done,
                _ => {}
            }
            spins += 1;
            if spins < 100 {
                std::hint::spin_loop();
                continue;
            }
            wait_change(&s.state, RUN, 1_000_000);
            if s.state.load(SeqCst) != RUN {
                continue;
            }
            let p = s.progress.load(SeqCst);
            if p != last.0 {
                last = (p, Instant::now());
                asleep = 0;
                continue;
            }
            // no progress: asleep (waiting for a lock), or spinning on one?
            if last.1.elapsed() > Duration::from_millis(2) {
                if sleeping(s.tid.load(SeqCst)) {
                    asleep += 1;
                } else {
                    asleep = 0;
                }
                if asleep >= 2 || last.1.elapsed() > Duration::from_secs(5) {
                    return Ev::Blocked;
                }
            }
        }
    }
    /// Let thread i run for `budget` operations (or to its end, when negative).
    pub fn grant(&self, i: usize, budget: i64) -> Ev {
        let s = &self.th[i].slot;
        s.budget.store(if budget < 0 { FREE } else { budget }, SeqCst);
        s.state.store(RUN, SeqCst);
        wake(&s.state);
        let e = self.wait(i);
        if e == Ev::Blocked {
            // if it wakes up later it stops at its next operation
            s.budget.store(0, SeqCst);
        }
        e
    }
    /// A grant that is given up only when the thread has not moved for five seconds: no other thread is running.
    pub fn grant_alone(&self, i: usize, budget: i64) -> Ev {
        let mut e = self.grant(i, budget);
        let t = Instant::now();
        while e == Ev::Blocked && t.elapsed() < Duration::from_secs(5) {
            e = self.wait(i);
        }
        e
    }
    /// operations thread i has made since it exists
    pub fn steps(&self, i: usize) -> u64 {
        self.th[i].slot.progress.load(SeqCst)
    }
    /// After Blocked: has it got through meanwhile?
    pub fn look(&self, i: usize) -> Ev {
        match self.th[i].slot.state.load(SeqCst) {
            DONE => Ev::Done,
            YIELDED => Ev::Yielded,
            _ => Ev::Blocked,
        }
    }
    /// Run the jobs already started under the schedule: (thread, operations) segments, then everything to completion.
    /// Returns how it ended and the number of context switches made.
    pub fn run(&self, n: usize, segs: &[(usize, i64)]) -> (End, u64) {
        let mut blocked = vec![false; n];
        let mut done = vec![false; n];
        let mut switches = 0;
        let mut step = |t: usize, b: i64, blocked: &mut Vec<bool>, done: &mut Vec<bool>| {
            if done[t] {
                return;
            }
            if blocked[t] {
                // it holds a grant of zero: see whether it got through
                match self.th[t].slot.state.load(SeqCst) {
                    DONE => {
                        done[t] = true;
                        blocked[t] = false;
                        return;
                    }
                    YIELDED => blocked[t] = false,
                    _ => return,
                }
            }
            switches += 1;
            match self.grant(t, b) {
                Ev::Done => done[t] = true,
                Ev::Yielded => {}
                Ev::Blocked => blocked[t] = true,
            }
        };
        for (t, b) in segs {
            step(*t, *b, &mut blocked, &mut done);
        }
        let mut stuck = 0;
        while done.iter().any(|d| !d) {
            let mut moved = false;
            for t in 0..n {
                if !done[t] {
                    let was = blocked[t];
                    step(t, -1, &mut blocked, &mut done);
                    if done[t] || !(was && blocked[t]) && !blocked[t] {
                        moved = true;
                    }
                }
            }
            if moved {
                stuck = 0;
            } else {
                stuck += 1;
                thread::sleep(Duration::from_millis(if stuck < 10 { 1 } else { 10 }));
                if stuck > 60 {
                    let l: Vec<usize> = (0..n).filter(|t| !done[*t]).collect();
                    if stuck < 3000 && l.iter().any(|t| !sleeping(self.th[*t].slot.tid.load(SeqCst))) {
                        continue; // got through in the meantime and still running
                    }
                    return (End::Deadlock(format!("threads {:?} wait forever", l)), switches);
                }
            }
        }
        (End::Finished, switches)
    }
}
fn sleeping(tid: u32) -> bool {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).unwrap_or_default();
    s.rsplit(')').next().map_or(false, |r| r.trim_start().starts_with('S'))
}

/// f64 whose operations are scheduling points
#[derive(Clone, Copy, Debug)]
pub struct Sch(pub f64);
crate::impl_scalar!(#[inline(never)] Sch,
    lift = |v: f64| { point(); Sch(v) },
    add = |a: Sch, b: Sch| { point(); Sch(a.0 + b.0) },
    sub = |a: Sch, b: Sch| { point(); Sch(a.0 - b.0) },
    mul = |a: Sch, b: Sch| { point(); Sch(a.0 * b.0) },
    div = |a: Sch, b: Sch| { point(); Sch(a.0 / b.0) },
    neg = |a: Sch| { point(); Sch(-a.0) },
    eq = |a: &Sch, b: &Sch| { point(); a.0 == b.0 },
    sign = |a: &Sch| a.0);
use rustdct::rustfft::num_traits::{FloatConst, FromPrimitive, Num, One, Signed, Zero};
use std::ops::{Add, Div, Mul, Neg, Rem, Sub};
impl crate::sc::Sc for Sch {
    const EPS: f64 = f64::EPSILON;
    const NAME: &'static str = "sch";
    const NANV: Sch = Sch(f64::NAN);
    fn of(v: f64) -> Sch {
        Sch(v)
    }
    fn f(self) -> f64 {
        self.0
    }
    fn bits(self) -> u64 {
        self.0.to_bits()
    }
}
