//! The thread scheduler: real threads, one running at a time. Which thread runs and for how many
//! steps is written in the schedule; threads are switched at edges of the code under test, at
//! consultations of the context, at futex waits and at the end of a thread.
use crate::cov;
use crate::os;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::*};

pub const MAX: usize = 16;
const NOBODY: u32 = 255;
pub const DEADLOCK_EXIT: i32 = 78;
/// turn taken by nobody's schedule: steps per turn once the schedule is used up
const FAIR: u64 = 20_000;

thread_local! {
    static ME: Cell<u32> = const { Cell::new(NOBODY) };
}

#[derive(Clone, Copy, PartialEq)]
enum St {
    Absent,
    Ready,
    /// waiting on a futex; with a time limit or not
    Wait(usize, bool),
    Done,
}
struct Sched {
    n: usize,
    st: [St; MAX],
    timed_out: [bool; MAX],
    plan: Vec<(u64, usize)>,
    pos: usize,
    trace: Vec<(u32, u64)>,
    waits: u64,
    switches: u64,
    /// chance in 16 of a switch before an access to static data, and its seed
    shared: (u64, u64),
    accesses: u64,
}
static TURN: AtomicU32 = AtomicU32::new(NOBODY);
static mut S: Sched = Sched { n: 0, st: [St::Absent; MAX], timed_out: [false; MAX], plan: vec![], pos: 0, trace: vec![], waits: 0, switches: 0, shared: (0, 0), accesses: 0 };

#[allow(static_mut_refs)]
fn s() -> &'static mut Sched {
    // only the thread whose turn it is touches it
    unsafe { &mut S }
}

fn wait_turn(me: u32) {
    loop {
        let t = TURN.load(Acquire);
        if t == me {
            return;
        }
        unsafe { raw_futex(&TURN, libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG, t) };
    }
}
unsafe fn raw_futex(a: &AtomicU32, op: i32, v: u32) {
    let me = ME.with(|m| m.replace(NOBODY));
    libc::syscall(libc::SYS_futex, a as *const AtomicU32, op, v, std::ptr::null::<libc::timespec>());
    ME.with(|m| m.set(me));
}
fn give(to: u32) {
    TURN.store(to, Release);
    unsafe { raw_futex(&TURN, libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG, i32::MAX as u32) };
}

/// Code under test is about to read or write data that all threads see.
pub fn shared_access() {
    let me = ME.with(|m| m.get());
    if me == NOBODY {
        return;
    }
    let s = s();
    s.accesses += 1;
    let h = crate::rng::mix(s.shared.1 ^ crate::rng::mix(s.accesses));
    if h % 16 < s.shared.0 {
        switch(pick_with(me, Some((FAIR, (h >> 8) as usize))), me)
    }
}
fn switch(to: Option<u32>, me: u32) {
    if let Some(to) = to {
        if to != me {
            give(to);
            wait_turn(me);
        }
    }
}

/// Who runs next, and for how long. `None`: nobody is left.
fn pick(me: u32) -> Option<u32> {
    pick_with(me, None)
}
fn pick_with(me: u32, how: Option<(u64, usize)>) -> Option<u32> {
    let s = s();
    let mut ready: Vec<u32> = (0..s.n as u32).filter(|i| s.st[*i as usize] == St::Ready).collect();
    if ready.is_empty() {
        // time passes: somebody's wait ends
        let Some(t) = (0..s.n).find(|i| matches!(s.st[*i], St::Wait(_, true))) else {
            if s.st[..s.n].iter().all(|x| *x == St::Done) {
                return None;
            }
            unsafe { libc::_exit(DEADLOCK_EXIT) }
        };
        s.st[t] = St::Ready;
        s.timed_out[t] = true;
        ready.push(t as u32);
    }
    let planned = how.or_else(|| s.plan.get(s.pos).copied());
    let (slice, who) = match planned {
        Some((k, w)) => (k.max(1), ready[w % ready.len()]),
        None => (FAIR, *ready.iter().find(|r| **r > me || me == NOBODY).unwrap_or(&ready[0])),
    };
    if how.is_none() {
        s.pos += 1;
    }
    s.switches += 1;
    if s.trace.len() < 4096 {
        s.trace.push((who, cov::steps()));
    }
    cov::set_preempt(Some(cov::steps() + slice), preempt);
    Some(who)
}

/// Lets the schedule decide who goes on.
pub fn preempt() {
    let me = ME.with(|m| m.get());
    if me == NOBODY {
        return;
    }
    switch(pick(me), me)
}

extern "C" fn futex(addr: *mut u32, op: i32, val: u32, timeout: *const libc::timespec, ret: *mut i64) -> i32 {
    let me = ME.with(|m| m.get());
    if me == NOBODY {
        return 0;
    }
    let sch = s();
    match op & 0x7f {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => unsafe {
            if *addr != val {
                *ret = -(libc::EAGAIN as i64);
                return 1;
            }
            sch.waits += 1;
            sch.st[me as usize] = St::Wait(addr as usize, !timeout.is_null());
            switch(pick(me), me);
            *ret = if std::mem::take(&mut s().timed_out[me as usize]) { -(libc::ETIMEDOUT as i64) } else { 0 };
            1
        },
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let mut n = 0;
            for i in 0..sch.n {
                if n < val as i64 && matches!(sch.st[i], St::Wait(a, _) if a == addr as usize) {
                    sch.st[i] = St::Ready;
                    n += 1;
                }
            }
            if n > 0 {
                unsafe { *ret = n };
                return 1;
            }
            0
        }
        _ => 0,
    }
}
extern "C" fn yield_() -> i32 {
    if ME.with(|m| m.get()) == NOBODY {
        return 0;
    }
    preempt();
    1
}
extern "C" fn no_tty(_: i32) -> i32 {
    0
}

pub struct Done<T> {
    pub accesses: u64,
    pub out: Vec<Option<T>>,
    pub trace: Vec<(u32, u64)>,
    pub waits: u64,
    pub switches: u64,
}

/// Runs the functions as threads under the schedule of (steps, pick). To be called in a process
/// of its own.
pub fn run<T: Send>(plan: Vec<(u64, usize)>, shared: (u64, u64), fs: Vec<Box<dyn FnOnce() -> T + Send + '_>>) -> Done<T> {
    let n = fs.len().min(MAX);
    *s() = Sched { n, st: [St::Absent; MAX], timed_out: [false; MAX], plan, pos: 0, trace: vec![], waits: 0, switches: 0, shared, accesses: 0 };
    for i in 0..n {
        s().st[i] = St::Ready;
    }
    TURN.store(NOBODY, SeqCst);
    os::set(&os::Hooks { futex: Some(futex), yield_: Some(yield_), isatty: Some(no_tty), ..os::NONE });
    let out = std::thread::scope(|sc| {
        let hs: Vec<_> = fs
            .into_iter()
            .take(n)
            .enumerate()
            .map(|(i, f)| {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, move || {
                        ME.with(|m| m.set(i as u32));
                        wait_turn(i as u32);
                        let r = f();
                        s().st[i] = St::Done;
                        let to = pick(i as u32);
                        if to.is_none() {
                            cov::set_preempt(None, preempt);
                        }
                        ME.with(|m| m.set(NOBODY));
                        give(to.unwrap_or(NOBODY - 1));
                        r
                    })
                    .unwrap()
            })
            .collect();
        if let Some(first) = pick(NOBODY) {
            give(first);
        }
        hs.into_iter().map(|h| h.join().ok()).collect()
    });
    os::set(&os::NONE);
    Done { out, trace: std::mem::take(&mut s().trace), waits: s().waits, switches: s().switches, accesses: s().accesses }
}
