//! Several threads, interleaved at the granularity of single machine instructions.
//!
//! A thread that runs an operation under control does so with the processor's trap flag
//! set, so that it gets a SIGTRAP after every instruction; the handler counts instructions
//! and passes the turn to another thread where the schedule says so.  Nothing in the code
//! under test has to cooperate.  A thread that makes no progress while it has the turn (it
//! waits for a lock another thread holds) loses it after a while, so code that blocks is
//! not driven into a deadlock; whatever interleaving comes out of that is a real one.
//!
//! A schedule is `free` (threads just run) or `thread:instructions,...`; 0 instructions
//! means to the end of the thread's program.  After the schedule the rest runs thread by
//! thread.

use crate::ops::{plain, Fds, Res, State};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};

const MAX_Q: usize = 64;
const MAX_T: usize = 4;
const STEAL_NS: i64 = 3_000_000;

static QUANTA: [(AtomicI32, AtomicU64); MAX_Q] = [const { (AtomicI32::new(-1), AtomicU64::new(0)) }; MAX_Q];
static N_QUANTA: AtomicUsize = AtomicUsize::new(0);
static THREADS: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
/// instructions left in the current quantum; u64::MAX: to the end
static LEFT: AtomicU64 = AtomicU64::new(0);
static TURN: AtomicI32 = AtomicI32::new(-1);
static PROGRESS: AtomicU64 = AtomicU64::new(0);
static DONE: [AtomicBool; MAX_T] = [const { AtomicBool::new(false) }; MAX_T];
static SEQ: AtomicU64 = AtomicU64::new(0);
static STOLEN: AtomicU32 = AtomicU32::new(0);

thread_local! {
    static ME: Cell<i32> = const { Cell::new(-1) };
    static STEPS: Cell<u64> = const { Cell::new(0) };
}

fn futex(op: i32, val: i32, timeout: *const libc::timespec) {
    unsafe { libc::syscall(libc::SYS_futex, TURN.as_ptr(), op, val, timeout) };
}

fn give(t: i32) {
    TURN.store(t, SeqCst);
    futex(libc::FUTEX_WAKE, i32::MAX, std::ptr::null());
}

/// Chooses who runs next, when the quantum is used up or the thread has ended
fn advance() {
    let n = THREADS.load(SeqCst);
    loop {
        let q = NEXT.load(SeqCst);
        if q < N_QUANTA.load(SeqCst) {
            NEXT.store(q + 1, SeqCst);
            let (t, k) = (QUANTA[q].0.load(SeqCst), QUANTA[q].1.load(SeqCst));
            if !DONE[t as usize].load(SeqCst) {
                LEFT.store(if k == 0 { u64::MAX } else { k }, SeqCst);
                give(t);
                return;
            }
        } else {
            LEFT.store(u64::MAX, SeqCst);
            for (t, d) in DONE.iter().enumerate().take(n) {
                if !d.load(SeqCst) {
                    give(t as i32);
                    return;
                }
            }
            give(-2);
            return;
        }
    }
}

fn wait_turn(me: i32) {
    let mut seen = PROGRESS.load(SeqCst);
    loop {
        let t = TURN.load(SeqCst);
        if t == me {
            return;
        }
        let ts = libc::timespec { tv_sec: 0, tv_nsec: STEAL_NS };
        futex(libc::FUTEX_WAIT, t, &ts);
        let now = PROGRESS.load(SeqCst);
        if TURN.load(SeqCst) == t && now == seen && t >= 0 {
            // the thread that has the turn waits for something: go on without it
            if TURN.compare_exchange(t, me, SeqCst, SeqCst).is_ok() {
                STOLEN.fetch_add(1, SeqCst);
                return;
            }
        }
        seen = now;
    }
}

const TF: i64 = 0x100;

extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let errno = *libc::__errno_location();
        let me = ME.get();
        let regs = &mut (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs;
        if me < 0 {
            regs[libc::REG_EFL as usize] &= !TF;
            return;
        }
        STEPS.set(STEPS.get() + 1);
        if TURN.load(SeqCst) != me {
            wait_turn(me);
        }
        PROGRESS.fetch_add(1, SeqCst);
        let left = LEFT.load(SeqCst);
        if left == u64::MAX {
            // nobody interrupts this thread any more
            regs[libc::REG_EFL as usize] &= !TF;
        } else if left > 1 {
            LEFT.store(left - 1, SeqCst);
        } else {
            advance();
            wait_turn(me);
            if LEFT.load(SeqCst) == u64::MAX {
                regs[libc::REG_EFL as usize] &= !TF;
            }
        }
        *libc::__errno_location() = errno;
    }
}

#[cfg(target_arch = "x86_64")]
#[inline(always)]
fn trap_flag(on: bool) {
    unsafe {
        if on {
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        } else {
            std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        }
    }
}

#[cfg(not(target_arch = "x86_64"))]
fn trap_flag(_: bool) {}

fn install() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_RESTART;
        assert_eq!(libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut()), 0);
    }
}

/// answers `invoked,returned,instructions,answer` per operation
fn thread(me: i32, ops: &[&str], controlled: bool, ready: &AtomicUsize) -> String {
    let mut out = Vec::with_capacity(ops.len());
    ME.set(me);
    if controlled {
        ready.fetch_add(1, SeqCst);
        wait_turn(me);
    } else {
        ready.fetch_add(1, SeqCst);
        let mut spins = 0;
        while ready.load(SeqCst) < THREADS.load(SeqCst) {
            std::hint::spin_loop();
            spins += 1;
            if spins > 500 {
                std::thread::yield_now();
            }
        }
    }
    for op in ops {
        if controlled && TURN.load(SeqCst) != me {
            wait_turn(me);
        }
        STEPS.set(0);
        let inv = SEQ.fetch_add(1, SeqCst);
        let r = catch_unwind(AssertUnwindSafe(|| {
            if controlled && LEFT.load(SeqCst) != u64::MAX {
                trap_flag(true);
            }
            let r = plain(op);
            trap_flag(false);
            r
        }));
        trap_flag(false);
        let ret = SEQ.fetch_add(1, SeqCst);
        out.push(format!("{inv},{ret},{},{}", STEPS.get(), r.unwrap_or(Res::S("PANIC")).show()));
    }
    ME.set(-1);
    if controlled {
        DONE[me as usize].store(true, SeqCst);
        if TURN.load(SeqCst) == me {
            advance();
        }
    }
    out.join(" ")
}

/// whether instructions can be counted here
fn works() -> bool {
    THREADS.store(1, SeqCst);
    ME.set(0);
    TURN.store(0, SeqCst);
    LEFT.store(1 << 30, SeqCst);
    trap_flag(true);
    std::hint::black_box(0);
    trap_flag(false);
    ME.set(-1);
    let n = STEPS.get();
    TURN.store(-1, SeqCst);
    n > 0
}

pub fn run(line: &str, fds: &Fds) -> String {
    let mut parts = line.split(';');
    let mut st = State::new(fds);
    let mut out = Vec::new();
    let pre: Vec<String> = parts.next().unwrap().split_whitespace().map(|op| st.run(op)).collect();
    out.push(pre.join(" "));
    let sched = parts.next().unwrap().trim();
    let mut controlled = sched != "free";
    if controlled {
        install();
        if !works() {
            controlled = false;
        }
    }
    let progs: Vec<Vec<&str>> = parts.map(|p| p.split_whitespace().collect()).collect();
    assert!(progs.len() <= MAX_T);
    THREADS.store(progs.len(), SeqCst);
    if controlled {
        let mut n = 0;
        for q in sched.split(',').filter(|q| !q.is_empty()).take(MAX_Q) {
            let (t, k) = q.split_once(':').unwrap();
            QUANTA[n].0.store(t.parse().unwrap(), SeqCst);
            QUANTA[n].1.store(k.parse().unwrap(), SeqCst);
            n += 1;
        }
        N_QUANTA.store(n, SeqCst);
    }
    let ready = AtomicUsize::new(0);
    std::thread::scope(|s| {
        let h: Vec<_> = progs
            .iter()
            .enumerate()
            .map(|(i, ops)| {
                let ready = &ready;
                s.spawn(move || thread(i as i32, ops, controlled, ready))
            })
            .collect();
        if controlled {
            while ready.load(SeqCst) < progs.len() {
                std::thread::yield_now();
            }
            advance();
        }
        for h in h {
            out.push(h.join().unwrap());
        }
    });
    out.push(format!("{} {}", u8::from(controlled), STOLEN.load(SeqCst)));
    // what is left when all have ended
    let end: Vec<String> = ["G", "H"].iter().map(|op| st.run(op)).collect();
    out.push(end.join(" "));
    out.join(";")
}
