//! System-call boundary of the library. With `--cfg vh_shim` (rustix built on libc) the functions
//! below replace those of libc, so every system call made by the library is a point where delays,
//! failures, interruptions and virtual time are injected. Without it only `enter`/`leave` remain.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, Ordering::SeqCst};

thread_local! {
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
    static DELAY_RNG: Cell<u64> = const { Cell::new(0) };
    static HUSH: Cell<bool> = const { Cell::new(false) };
}
pub fn enter() {
    IN_LIB.with(|c| c.set(true));
    let n = ARMED.with(|a| a.replace(0));
    if n != 0 {
        single_step(n);
    }
}
pub fn leave() {
    IN_LIB.with(|c| c.set(false));
}
pub fn inside() -> bool {
    IN_LIB.with(|c| c.get())
}
pub const ACTIVE: bool = cfg!(vh_shim);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(usize)]
pub enum Call {
    EpollCreate,
    EpollAdd,
    EpollMod,
    EpollDel,
    EpollWait,
    Poll,
    Read,
    Write,
    Pipe,
    Pipe2,
    Eventfd,
    TimerCreate,
    TimerSet,
    Fcntl,
    Futex,
    /// A change of a timer's registration (instead of EpollMod, while failures of it are asked for).
    TimerArm,
}
pub const CALLS: [Call; 16] = [
    Call::EpollCreate, Call::EpollAdd, Call::EpollMod, Call::EpollDel, Call::EpollWait, Call::Poll, Call::Read, Call::Write,
    Call::Pipe, Call::Pipe2, Call::Eventfd, Call::TimerCreate, Call::TimerSet, Call::Fcntl, Call::Futex,
    Call::TimerArm,
];
const NC: usize = 16;

/// Random delays: probability (per 1024) of pausing before or after a library system call.
pub static DELAY_PROB: AtomicU32 = AtomicU32::new(0);
/// Targeted delay: call kind + 1 (0: none), phase (0 before, 1 after), length in microseconds.
pub static TARGET: AtomicU32 = AtomicU32::new(0);
pub static TARGET_PHASE: AtomicU32 = AtomicU32::new(0);
pub static TARGET_US: AtomicU32 = AtomicU32::new(0);
pub static SEEN: [AtomicU64; NC] = [const { AtomicU64::new(0) }; NC];

/// Faults: for each call, how many matching calls to let pass, how many to fail, and with what.
pub struct Fault {
    pub skip: AtomicI64,
    pub times: AtomicI64,
    pub errno: AtomicU32,
    pub hits: AtomicU64,
}
pub static FAULTS: [Fault; NC] = [const { Fault { skip: AtomicI64::new(0), times: AtomicI64::new(0), errno: AtomicU32::new(0), hits: AtomicU64::new(0) } }; NC];
static ANY_FAULT: AtomicBool = AtomicBool::new(false);

pub fn set_fault(c: Call, skip: i64, times: i64, errno: i32) {
    let f = &FAULTS[c as usize];
    f.skip.store(skip, SeqCst);
    f.errno.store(errno as u32, SeqCst);
    f.hits.store(0, SeqCst);
    f.times.store(times, SeqCst);
    ANY_FAULT.store(true, SeqCst);
}
pub fn clear_faults() {
    ANY_FAULT.store(false, SeqCst);
    for f in &FAULTS {
        f.times.store(0, SeqCst);
    }
}
pub fn fault_hits(c: Call) -> u64 {
    FAULTS[c as usize].hits.load(SeqCst)
}
pub fn off() {
    DELAY_PROB.store(0, SeqCst);
    TARGET.store(0, SeqCst);
    clear_faults();
    leave();
    HUSH.with(|h| h.set(true));
}
/// Ready for the next iteration.
pub fn set_regime_off() {
    no_regime();
    clear_faults();
    off_undo();
}
pub fn off_undo() {
    HUSH.with(|h| h.set(false));
}
pub fn seen(c: Call) -> u64 {
    SEEN[c as usize].load(SeqCst)
}
/// Choose a delay regime for an iteration; returns its description.
pub fn random_regime(rng: &mut crate::rng::Rng) -> String {
    no_regime();
    if !cfg!(vh_slow) && rng.chance(1, 3) {
        return start_stalls(rng);
    }
    delay_regime(rng)
}
/// Without stalls.
pub fn delay_regime(rng: &mut crate::rng::Rng) -> String {
    no_regime();
    if !ACTIVE {
        return "none".into();
    }
    match rng.below(4) {
        0 => "none".into(),
        1 => {
            let p = *rng.pick(&[30u32, 150, 500]);
            DELAY_PROB.store(p, SeqCst);
            format!("random {p}/1024")
        }
        _ => {
            let c = *rng.pick(&[Call::EpollMod, Call::EpollWait, Call::Poll, Call::Read, Call::Write, Call::Read, Call::Write, Call::TimerSet, Call::Futex]);
            let ph = rng.below(2) as u32;
            let us = *rng.pick(&[20u32, 100, 400, 1500]);
            TARGET_PHASE.store(ph, SeqCst);
            TARGET_US.store(us, SeqCst);
            TARGET.store(c as u32 + 1, SeqCst);
            format!("{} {c:?} {us}us", if ph == 0 { "before" } else { "after" })
        }
    }
}
pub fn no_regime() {
    TARGET.store(0, SeqCst);
    DELAY_PROB.store(0, SeqCst);
    STALL_UNTIL.store(0, SeqCst);
}

// Stalls: another thread interrupts threads that are inside the library with a signal whose
// handler sleeps for a moment, so that they pause between any two instructions.
static STALL_UNTIL: AtomicU64 = AtomicU64::new(0);
static STALL_MAX_US: AtomicU64 = AtomicU64::new(0);
static STALL_STEPS: AtomicU32 = AtomicU32::new(0);
static STALL_GAP_US: AtomicU64 = AtomicU64::new(0);
/// While nonzero, no new stalls begin.
pub static STALL_HOLD: AtomicU32 = AtomicU32::new(0);
pub static STALLS: AtomicU64 = AtomicU64::new(0);
pub fn stalling() -> bool {
    crate::sys::now_ns() < STALL_UNTIL.load(SeqCst) + 20_000_000
}
thread_local! {
    /// Instructions still to be executed one at a time, and the pause after them.
    static STEPS: Cell<u32> = const { Cell::new(0) };
    static STEPS_US: Cell<u64> = const { Cell::new(0) };
}
pub static STEPPED: AtomicU64 = AtomicU64::new(0);
const TF: i64 = 0x100;
fn over(now: u64) -> bool {
    !inside() || now >= STALL_UNTIL.load(SeqCst)
}
fn pause_and_go(us: u64) {
    // (A raw system call: errno is left alone.)
    crate::sys::sleep(std::time::Duration::from_micros(us));
    let now = crate::sys::now_ns();
    let gap = STALL_GAP_US.load(SeqCst);
    crate::vp::stalled_until(now + 1000 * (crate::rng::mix(now, 7) % (gap * 4 + 1)));
}
extern "C" fn on_stall(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    let now = crate::sys::now_ns();
    if over(now) {
        crate::vp::stalled_until(now);
        return;
    }
    STALLS.fetch_add(1, SeqCst);
    let r = crate::rng::mix(now, crate::sys::gettid() as u64);
    let max = STALL_MAX_US.load(SeqCst).max(1);
    let us = if r % 3 == 0 { (r >> 8) % max } else { (r >> 8) % (max / 8 + 2) };
    let steps = STALL_STEPS.load(SeqCst) as u64;
    if steps > 0 && r & 0x8000_0000 != 0 {
        // Go on one instruction at a time, then pause.
        STEPS.with(|s| s.set(1 + ((r >> 40) % steps) as u32));
        STEPS_US.with(|s| s.set(if r & 0x4000_0000 != 0 { us } else { 0 }));
        unsafe { (*(uc as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_EFL as usize] |= TF };
        return;
    }
    pause_and_go(us);
}
extern "C" fn on_step(_: i32, info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    const TRAP_TRACE: i32 = 2;
    let efl = unsafe { &mut (*(uc as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_EFL as usize] };
    if unsafe { (*info).si_code } != TRAP_TRACE {
        // Not ours.
        unsafe { libc::signal(libc::SIGTRAP, libc::SIG_DFL) };
        crate::sys::raw3(libc::SYS_tgkill, unsafe { libc::getpid() } as usize, crate::sys::gettid() as usize, libc::SIGTRAP as usize);
        return;
    }
    let n = STEPS.with(|s| {
        let n = s.get().saturating_sub(1);
        s.set(n);
        n
    });
    STEPPED.fetch_add(1, SeqCst);
    if HOLDING.with(|h| h.get()) {
        if n == 0 || !inside() {
            *efl &= !TF;
            HOLDING.with(|h| h.set(false));
            if inside() {
                // (It may hold a lock of the allocator, which those who are to release it need.)
                hold(40_000_000);
            }
        }
    } else if !inside() || STALL_UNTIL.load(SeqCst) == 0 {
        *efl &= !TF;
        crate::vp::stalled_until(0);
    } else if n == 0 {
        *efl &= !TF;
        pause_and_go(STEPS_US.with(|s| s.get()));
    }
}
pub fn stalls_only(rng: &mut crate::rng::Rng) -> String {
    no_regime();
    if cfg!(vh_slow) {
        return "none".into();
    }
    start_stalls(rng)
}
fn handlers() {
    static STARTED: std::sync::Once = std::sync::Once::new();
    STARTED.call_once(|| unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_stall as *const () as usize;
        sa.sa_flags = libc::SA_RESTART | libc::SA_SIGINFO;
        libc::sigaddset(&mut sa.sa_mask, libc::SIGTRAP);
        libc::sigaction(libc::SIGUSR2, &sa, std::ptr::null_mut());
        sa.sa_sigaction = on_step as *const () as usize;
        libc::sigaddset(&mut sa.sa_mask, libc::SIGUSR1);
        libc::sigaddset(&mut sa.sa_mask, libc::SIGUSR2);
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    });
}

// Holds: a thread stops after a number of instructions of a library call, or at a system call of
// it, until it is released.
thread_local! {
    static ARMED: Cell<u32> = const { Cell::new(0) };
    static ARMED_AT: Cell<u32> = const { Cell::new(0) };
    static ARMED_HOOKS: Cell<u32> = const { Cell::new(0) };
    static HOLDING: Cell<bool> = const { Cell::new(false) };
    static HOLD_ID: Cell<usize> = const { Cell::new(0) };
}
const NHOLDS: usize = 4;
/// 0: running, 1: held, 2: released.
static HOLDS: [AtomicU32; NHOLDS] = [const { AtomicU32::new(0) }; NHOLDS];
static HELD_CALL: AtomicU32 = AtomicU32::new(0);
static FREE: AtomicBool = AtomicBool::new(false);
/// The calling thread is number `i`, and is not held so far.
pub fn hold_as(i: usize) {
    handlers();
    HOLD_ID.with(|h| h.set(i));
}
pub fn holds_reset() {
    FREE.store(false, SeqCst);
    HELD_CALL.store(0, SeqCst);
    for h in &HOLDS {
        h.store(0, SeqCst);
    }
}
/// The next library call of this thread is to be held after so many instructions or at its n-th
/// system call.
pub fn arm(steps: u32, hooks: u32) {
    ARMED.with(|a| a.set(steps));
    ARMED_AT.with(|a| a.set(steps));
    ARMED_HOOKS.with(|a| a.set(hooks));
}
/// The number of instructions executed one by one.
pub fn disarm() -> u32 {
    ARMED.with(|a| a.set(0));
    ARMED_HOOKS.with(|a| a.set(0));
    ARMED_AT.with(|a| a.replace(0)) - STEPS.with(|s| s.replace(0))
}
pub fn held(i: usize) -> bool {
    HOLDS[i].load(SeqCst) == 1
}
/// The system call at which the last one was held.
pub fn held_call() -> Option<Call> {
    let c = HELD_CALL.load(SeqCst);
    (c > 0).then(|| CALLS[c as usize - 1])
}
pub fn release(i: usize) {
    HOLDS[i].store(2, SeqCst);
}
/// None is held any more.
pub fn release_all() {
    FREE.store(true, SeqCst);
}
fn hold(limit: u64) {
    let i = HOLD_ID.with(|h| h.get());
    if FREE.load(SeqCst) || HOLDS[i].compare_exchange(0, 1, SeqCst, SeqCst).is_err() {
        return;
    }
    let t = crate::sys::now_ns();
    while HOLDS[i].load(SeqCst) == 1 && !FREE.load(SeqCst) && crate::sys::now_ns() - t < limit {
        crate::sys::sleep(std::time::Duration::from_micros(20));
    }
    let _ = HOLDS[i].compare_exchange(1, 2, SeqCst, SeqCst);
}
#[cfg(target_arch = "x86_64")]
fn single_step(n: u32) {
    STEPS.with(|s| s.set(n));
    HOLDING.with(|h| h.set(true));
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
}

fn start_stalls(rng: &mut crate::rng::Rng) -> String {
    handlers();
    static STARTED: std::sync::Once = std::sync::Once::new();
    STARTED.call_once(|| {
        std::thread::Builder::new()
            .name("staller".into())
            .spawn(|| {
                let mut r = crate::rng::Rng::new(crate::report::ITER_SEED.load(SeqCst) ^ 0x57a11);
                loop {
                    if crate::sys::now_ns() >= STALL_UNTIL.load(SeqCst) || STALL_HOLD.load(SeqCst) > 0 {
                        crate::sys::sleep(std::time::Duration::from_micros(300));
                        continue;
                    }
                    if let Some(tid) = crate::vp::pick_to_stall(r.next(), crate::sys::now_ns()) {
                        let sig = libc::SIGUSR2 as usize;
                        crate::sys::raw3(libc::SYS_tgkill, unsafe { libc::getpid() } as usize, tid as usize, sig);
                    }
                    let gap = STALL_GAP_US.load(SeqCst).max(1);
                    let t0 = crate::sys::now_ns();
                    let d = 1000 * (r.next() % gap);
                    while crate::sys::now_ns() - t0 < d {
                        std::hint::spin_loop();
                    }
                }
            })
            .unwrap();
    });
    let max = *rng.pick(&[40u64, 200, 800]);
    let gap = *rng.pick(&[4u64, 15, 60]);
    let ms = *rng.pick(&[150u64, 250, 400]);
    STALL_MAX_US.store(max, SeqCst);
    STALL_GAP_US.store(gap, SeqCst);
    let steps = *rng.pick(&[0u32, 100, 400, 400, 1500]);
    STALL_STEPS.store(steps, SeqCst);
    STALL_UNTIL.store(crate::sys::now_ns() + ms * 1_000_000, SeqCst);
    format!("stalls up to {max}us every {gap}us for {ms}ms, up to {steps} single steps")
}

#[allow(dead_code)]
fn delay_point(c: Call, phase: u32) {
    let n = ARMED_HOOKS.with(|a| a.get());
    if n > 0 {
        // (Before and after a system call are two places.)
        ARMED_HOOKS.with(|a| a.set(n - 1));
        if n == 1 {
            HELD_CALL.store(c as u32 + 1, SeqCst);
            hold(10_000_000_000);
        }
    }
    let t = TARGET.load(SeqCst);
    if t == c as u32 + 1 && TARGET_PHASE.load(SeqCst) == phase {
        let r = next_rand();
        if r % 4 != 0 {
            crate::sys::sleep(std::time::Duration::from_micros(1 + r / 4 % TARGET_US.load(SeqCst) as u64));
        }
    }
    let p = DELAY_PROB.load(SeqCst);
    if p != 0 {
        let r = next_rand();
        if (r % 1024) < p as u64 {
            match (r >> 10) % 4 {
                0 => crate::sys::yield_now(),
                1 => {
                    for _ in 0..(r >> 12) % 4000 {
                        std::hint::spin_loop();
                    }
                }
                _ => crate::sys::sleep(std::time::Duration::from_micros((r >> 12) % 300)),
            }
        }
    }
}
fn next_rand() -> u64 {
    DELAY_RNG.with(|c| {
        let mut s = c.get();
        if s == 0 {
            s = crate::sys::gettid() as u64 ^ crate::report::ITER_SEED.load(SeqCst);
        }
        let mut r = crate::rng::Rng(s);
        let v = r.next();
        c.set(r.0);
        v
    })
}

// ---------------------------------------------------------------------------------------------
// Virtual time (single-threaded workloads only).
pub struct Vt {
    pub on: bool,
    pub now: u64,
    pub timers: Vec<(i32, Option<u64>)>,
    /// Things that happen at given virtual times while a wait is in progress.
    pub plan: Vec<(u64, VtAction)>,
    pub done: u64,
    /// Set when a wait would have slept for ever.
    pub stuck: bool,
    pub sleeps: u64,
    pub interruptions: u64,
}
pub enum VtAction {
    Interrupt,
    Run(Box<dyn FnMut()>),
}
pub struct VtCell(std::cell::UnsafeCell<Vt>);
unsafe impl Sync for VtCell {}
pub static VT: VtCell = VtCell(std::cell::UnsafeCell::new(Vt { on: false, now: 0, timers: Vec::new(), plan: Vec::new(), done: 0, stuck: false, sleeps: 0, interruptions: 0 }));
thread_local! { static VT_THREAD: Cell<bool> = const { Cell::new(false) }; }
/// The virtual clock of this thread (the caller is the only user).
#[allow(clippy::mut_from_ref)]
pub fn vt() -> &'static mut Vt {
    VT_THREAD.with(|t| t.set(true));
    unsafe { &mut *VT.0.get() }
}
fn vt_active() -> bool {
    VT_THREAD.with(|t| t.get()) && inside() && unsafe { (*VT.0.get()).on }
}

#[cfg(vh_shim)]
mod imp {
    use super::*;
    use crate::sys::{raw3, raw6};
    use libc::{c_int, c_long, c_void, size_t, ssize_t};

    fn hooked() -> bool {
        inside() && !HUSH.with(|h| h.get())
    }
    fn errno(e: i32) {
        unsafe { *libc::__errno_location() = e }
    }
    fn ret(r: isize) -> isize {
        if r < 0 && r > -4096 {
            errno(-r as i32);
            -1
        } else {
            r
        }
    }
    fn is_timer(fd: c_int) -> bool {
        let path = format!("/proc/self/fd/{fd}\0");
        let mut b = [0u8; 64];
        let n = crate::sys::raw4(libc::SYS_readlinkat, libc::AT_FDCWD as isize as usize, path.as_ptr() as usize, b.as_mut_ptr() as usize, b.len());
        n > 0 && b[..n as usize].windows(7).any(|w| w == b"timerfd")
    }
    /// Returns the errno to fail with, if any.
    fn before(c: Call) -> Option<i32> {
        SEEN[c as usize].fetch_add(1, SeqCst);
        delay_point(c, 0);
        if ANY_FAULT.load(SeqCst) {
            let f = &FAULTS[c as usize];
            if f.times.load(SeqCst) > 0 {
                if f.skip.fetch_sub(1, SeqCst) > 0 {
                    return None;
                }
                if f.times.fetch_sub(1, SeqCst) > 0 {
                    f.hits.fetch_add(1, SeqCst);
                    return Some(f.errno.load(SeqCst) as i32);
                }
            }
        }
        None
    }
    fn hook(c: Call, f: impl FnOnce() -> isize) -> isize {
        if !hooked() {
            return ret(f());
        }
        if let Some(e) = before(c) {
            errno(e);
            return -1;
        }
        let r = f();
        delay_point(c, 1);
        ret(r)
    }

    /// Let virtual time pass until `ready` reports something or the limit is reached.
    fn vt_sleep(limit: Option<u64>, mut ready: impl FnMut(bool) -> isize) -> isize {
        let v = vt();
        v.sleeps += 1;
        loop {
            let r = ready(false);
            if r != 0 {
                return ret(r);
            }
            // The next thing that happens.
            let mut next: Option<u64> = limit;
            for (_, e) in &v.timers {
                if let Some(e) = e {
                    next = Some(next.map_or(*e, |n| n.min(*e)));
                }
            }
            let plan = v.plan.iter().map(|p| p.0).min();
            if let Some(p) = plan {
                if next.map_or(true, |n| p <= n) {
                    let i = v.plan.iter().position(|x| x.0 == p).unwrap();
                    let (at, a) = v.plan.remove(i);
                    v.now = v.now.max(at);
                    v.done += 1;
                    match a {
                        VtAction::Interrupt => {
                            v.interruptions += 1;
                            errno(libc::EINTR);
                            return -1;
                        }
                        VtAction::Run(mut f) => {
                            leave();
                            f();
                            enter();
                            continue;
                        }
                    }
                }
            }
            let Some(next) = next else {
                v.stuck = true;
                errno(libc::EDEADLK);
                return -1;
            };
            v.now = v.now.max(next);
            let mut fired = false;
            for (fd, e) in v.timers.iter_mut() {
                if e.map_or(false, |e| e <= v.now) {
                    *e = None;
                    fired = true;
                    let its = libc::itimerspec { it_interval: libc::timespec { tv_sec: 0, tv_nsec: 0 }, it_value: libc::timespec { tv_sec: 0, tv_nsec: 1 } };
                    unsafe { raw6(libc::SYS_timerfd_settime, *fd as usize, 0, &its as *const _ as usize, 0, 0, 0) };
                    // Wait until the kernel has really made it readable.
                    let mut p = libc::pollfd { fd: *fd, events: libc::POLLIN, revents: 0 };
                    raw3(libc::SYS_poll, &mut p as *mut _ as usize, 1, 1000);
                }
            }
            if fired {
                let r = ready(true);
                if r != 0 {
                    return ret(r);
                }
            }
            if limit.map_or(false, |l| v.now >= l) {
                return ret(ready(false));
            }
        }
    }
    fn ms_limit(ms: c_int) -> Option<u64> {
        (ms >= 0).then(|| vt().now + ms as u64 * 1_000_000)
    }

    #[no_mangle]
    pub unsafe extern "C" fn epoll_wait(ep: c_int, ev: *mut libc::epoll_event, max: c_int, ms: c_int) -> c_int {
        hook(Call::EpollWait, || {
            if vt_active() {
                let r = vt_sleep(ms_limit(ms), |_| raw6(libc::SYS_epoll_wait, ep as usize, ev as usize, max as usize, 0, 0, 0));
                return if r < 0 { -(*libc::__errno_location() as isize) } else { r };
            }
            raw6(libc::SYS_epoll_wait, ep as usize, ev as usize, max as usize, ms as usize, 0, 0)
        }) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: libc::nfds_t, ms: c_int) -> c_int {
        hook(Call::Poll, || {
            if vt_active() {
                let r = vt_sleep(ms_limit(ms), |_| raw3(libc::SYS_poll, fds as usize, n as usize, 0));
                return if r < 0 { -(*libc::__errno_location() as isize) } else { r };
            }
            raw3(libc::SYS_poll, fds as usize, n as usize, ms as usize)
        }) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn epoll_create1(flags: c_int) -> c_int {
        hook(Call::EpollCreate, || raw3(libc::SYS_epoll_create1, flags as usize, 0, 0)) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut libc::epoll_event) -> c_int {
        let c = match op {
            libc::EPOLL_CTL_ADD => Call::EpollAdd,
            libc::EPOLL_CTL_MOD if FAULTS[Call::TimerArm as usize].times.load(SeqCst) > 0 && is_timer(fd) => Call::TimerArm,
            libc::EPOLL_CTL_MOD => Call::EpollMod,
            _ => Call::EpollDel,
        };
        hook(c, || raw6(libc::SYS_epoll_ctl, ep as usize, op as usize, fd as usize, ev as usize, 0, 0)) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
        hook(Call::Read, || raw3(libc::SYS_read, fd as usize, b as usize, n))
    }
    #[no_mangle]
    pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
        hook(Call::Write, || raw3(libc::SYS_write, fd as usize, b as usize, n))
    }
    #[no_mangle]
    pub unsafe extern "C" fn pipe(p: *mut c_int) -> c_int {
        hook(Call::Pipe, || raw3(libc::SYS_pipe, p as usize, 0, 0)) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn pipe2(p: *mut c_int, flags: c_int) -> c_int {
        hook(Call::Pipe2, || raw3(libc::SYS_pipe2, p as usize, flags as usize, 0)) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn timerfd_create(clock: c_int, flags: c_int) -> c_int {
        hook(Call::TimerCreate, || raw3(libc::SYS_timerfd_create, clock as usize, flags as usize, 0)) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn timerfd_settime(fd: c_int, flags: c_int, new: *const libc::itimerspec, old: *mut libc::itimerspec) -> c_int {
        hook(Call::TimerSet, || {
            if vt_active() {
                let n = &(*new).it_value;
                if n.tv_nsec < 0 || n.tv_nsec > 999_999_999 || n.tv_sec < 0 {
                    return -(libc::EINVAL as isize);
                }
                let v = vt();
                let e = if n.tv_sec == 0 && n.tv_nsec == 0 {
                    None
                } else {
                    let d = (n.tv_sec as u64).saturating_mul(1_000_000_000).saturating_add(n.tv_nsec as u64);
                    Some(if flags & libc::TFD_TIMER_ABSTIME != 0 { d } else { v.now.saturating_add(d) })
                };
                v.timers.retain(|t| t.0 != fd);
                v.timers.push((fd, e));
                let zero: libc::itimerspec = std::mem::zeroed();
                return raw6(libc::SYS_timerfd_settime, fd as usize, 0, &zero as *const _ as usize, old as usize, 0, 0);
            }
            raw6(libc::SYS_timerfd_settime, fd as usize, flags as usize, new as usize, old as usize, 0, 0)
        }) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
        hook(Call::Fcntl, || raw3(libc::SYS_fcntl, fd as usize, cmd as usize, arg)) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
        hook(Call::Fcntl, || raw3(libc::SYS_fcntl, fd as usize, cmd as usize, arg)) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
        if vt_active() && clock == libc::CLOCK_MONOTONIC {
            let n = vt().now;
            (*ts).tv_sec = (n / 1_000_000_000) as _;
            (*ts).tv_nsec = (n % 1_000_000_000) as _;
            return 0;
        }
        ret(raw3(libc::SYS_clock_gettime, clock as usize, ts as usize, 0)) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
        let call = match n {
            libc::SYS_eventfd2 => Some(Call::Eventfd),
            libc::SYS_futex => Some(Call::Futex),
            _ => None,
        };
        match call {
            Some(call) => hook(call, || raw6(n, a, b, c, d, e, f)) as c_long,
            None => ret(raw6(n, a, b, c, d, e, f)) as c_long,
        }
    }
}
