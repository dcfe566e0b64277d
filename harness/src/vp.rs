//! The library as the workloads call it: every call is announced to the monitor thread, which
//! recognises calls that are stuck by looking at the calling thread (asleep and not scheduled at
//! all), never by a wall-clock deadline alone.
use crate::report;
use crate::sys;
use polling::{AsRawSource, AsSource, Event, Events, PollMode, Poller};
use std::cell::Cell;
use std::io;
use std::os::fd::BorrowedFd;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Duration;

pub const SLOTS: usize = 96;
struct Slot {
    used: AtomicBool,
    /// Not to be stalled.
    exempt: AtomicBool,
    /// When it may be stalled again.
    stall_next: AtomicU64,
    tid: AtomicI32,
    /// Odd while a library call is in progress.
    seq: AtomicU64,
    /// The call has to return once this time is reached (u64::MAX: no obligation).
    must_after: AtomicU64,
    kind: AtomicUsize,
    desc: Mutex<String>,
}
const KINDS: &[&str] = &["", "op-blocked", "timeout-overrun", "missed-ready-blocked", "notify-lost", "second-wait-blocked", "notify-blocked", "wait0-blocked", "wait-blocked"];
fn kind_index(k: &'static str) -> usize {
    KINDS.iter().position(|x| *x == k).unwrap_or_else(|| panic!("harness: unknown kind {k}"))
}
#[allow(clippy::declare_interior_mutable_const)]
const EMPTY: Slot = Slot {
    used: AtomicBool::new(false),
    exempt: AtomicBool::new(false),
    stall_next: AtomicU64::new(0),
    tid: AtomicI32::new(0),
    seq: AtomicU64::new(0),
    must_after: AtomicU64::new(u64::MAX),
    kind: AtomicUsize::new(0),
    desc: Mutex::new(String::new()),
};
static TABLE: [Slot; SLOTS] = [EMPTY; SLOTS];
struct Owner(usize);
impl Drop for Owner {
    fn drop(&mut self) {
        TABLE[self.0].used.store(false, SeqCst);
    }
}
thread_local! {
    static MY: Owner = {
        let i = (0..SLOTS).find(|&i| TABLE[i].used.compare_exchange(false, true, SeqCst, SeqCst).is_ok()).expect("harness: too many threads");
        TABLE[i].tid.store(sys::gettid(), SeqCst);
        TABLE[i].must_after.store(u64::MAX, SeqCst);
        TABLE[i].stall_next.store(0, SeqCst);
        MY_SLOT.with(|m| m.set(i));
        Owner(i)
    };
    static MY_SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static DRIVER: Cell<bool> = const { Cell::new(false) };
}
pub fn mark_driver() {
    DRIVER.with(|d| d.set(true));
}
pub fn on_driver_thread() -> bool {
    DRIVER.with(|d| d.get())
}
/// The monitor slot of the calling thread.
pub fn my_slot() -> usize {
    MY.with(|m| m.0)
}
pub fn slot_tid(slot: usize) -> i32 {
    TABLE[slot].tid.load(SeqCst)
}
pub fn slot_in_call(slot: usize) -> Option<u64> {
    let s = TABLE[slot].seq.load(SeqCst);
    (s % 2 == 1).then_some(s)
}
pub fn slot_seq(slot: usize) -> u64 {
    TABLE[slot].seq.load(SeqCst)
}

pub fn exempt_from_stalls(slot: usize, on: bool) {
    TABLE[slot].exempt.store(on, SeqCst);
}
/// Some thread with a library call in progress that may be stalled now.
pub fn pick_to_stall(r: u64, now: u64) -> Option<i32> {
    // Slots in use are the low ones.
    let n = TABLE.iter().rposition(|s| s.used.load(SeqCst)).map_or(0, |i| i + 1);
    let i = (0..n).map(|k| (r as usize % SLOTS + k) % n).find(|&i| {
        let s = &TABLE[i];
        s.used.load(SeqCst) && s.seq.load(SeqCst) % 2 == 1 && !s.exempt.load(SeqCst) && s.stall_next.load(SeqCst) <= now
    })?;
    TABLE[i].stall_next.store(now + 3_000_000, SeqCst);
    Some(TABLE[i].tid.load(SeqCst))
}
/// Called by a stalled thread at the end.
pub fn stalled_until(t: u64) {
    let i = MY_SLOT.with(|m| m.get());
    if i < SLOTS {
        TABLE[i].stall_next.store(t, SeqCst);
    }
}

pub struct Owed {
    pub slot: usize,
    pub kind: &'static str,
    pub pred: Box<dyn Fn() -> Option<String> + Send>,
}
static OWED: Mutex<Vec<Owed>> = Mutex::new(Vec::new());
/// While `pred` yields an explanation, the call in progress on `slot` has to return.
pub fn owe(slot: usize, kind: &'static str, pred: impl Fn() -> Option<String> + Send + 'static) {
    OWED.lock().unwrap().push(Owed { slot, kind, pred: Box::new(pred) });
}
pub fn clear_owed() {
    OWED.lock().unwrap().clear();
}

pub fn call<R>(kind: &'static str, must_after: u64, desc: impl FnOnce() -> String, f: impl FnOnce() -> R) -> R {
    let s = &TABLE[my_slot()];
    s.kind.store(kind_index(kind), SeqCst);
    s.must_after.store(must_after, SeqCst);
    if must_after == 0 {
        // Cheap path for operations that never block: no description needed until stuck.
        if let Ok(mut d) = s.desc.try_lock() {
            *d = desc();
        }
    } else {
        *s.desc.lock().unwrap() = desc();
    }
    s.seq.fetch_add(1, SeqCst);
    crate::shim::enter();
    let r = f();
    crate::shim::leave();
    s.seq.fetch_add(1, SeqCst);
    s.must_after.store(u64::MAX, SeqCst);
    r
}

pub struct P {
    pub p: Poller,
}
impl P {
    pub fn new() -> P {
        let p = call("op-blocked", 0, || "Poller::new".into(), Poller::new);
        match p {
            Ok(p) => P { p },
            Err(e) => report::violation("create-error", format!("Poller::new failed: {e:?}")),
        }
    }
    pub fn try_new() -> io::Result<P> {
        call("op-blocked", 0, || "Poller::new".into(), Poller::new).map(|p| P { p })
    }
    pub fn add(&self, fd: impl AsRawSource, ev: Event, mode: PollMode) -> io::Result<()> {
        let raw = fd.raw();
        call("op-blocked", 0, || format!("add key {} {mode:?}", ev.key), || unsafe {
            if ev.key % 3 == 0 && raw >= 0 {
                let b = BorrowedFd::borrow_raw(raw);
                if mode == PollMode::Oneshot && ev.key % 2 == 0 {
                    self.p.add(&b, ev)
                } else {
                    self.p.add_with_mode(&b, ev, mode)
                }
            } else if mode == PollMode::Oneshot && ev.key % 2 == 0 {
                self.p.add(fd, ev)
            } else {
                self.p.add_with_mode(fd, ev, mode)
            }
        })
    }
    pub fn modify(&self, fd: impl AsSource, ev: Event, mode: PollMode) -> io::Result<()> {
        call("op-blocked", 0, || format!("modify key {} {mode:?}", ev.key), || {
            if mode == PollMode::Oneshot && ev.key % 2 == 0 {
                self.p.modify(fd, ev)
            } else {
                self.p.modify_with_mode(fd, ev, mode)
            }
        })
    }
    pub fn delete(&self, fd: impl AsSource) -> io::Result<()> {
        call("op-blocked", 0, || "delete".into(), || self.p.delete(fd))
    }
    /// Formatting for a debugging message.
    pub fn debug(&self) -> usize {
        call("op-blocked", 0, || "formatting the poller".into(), || format!("{:?}", self.p).len())
    }
    pub fn notify(&self) -> io::Result<()> {
        call("notify-blocked", 0, || "notify".into(), || self.p.notify())
    }
    /// A wait. It has to return when its timeout is over; with `must`, it has to return at once.
    pub fn wait(&self, ev: &mut Events, t: Option<Duration>, must: Option<&'static str>) -> io::Result<usize> {
        let (kind, after) = match (must, t) {
            (Some(k), _) => (k, 1),
            (None, None) => ("wait-blocked", u64::MAX),
            (None, Some(t)) if t.is_zero() => ("wait0-blocked", 1),
            (None, Some(t)) => (
                "timeout-overrun",
                sys::now_ns().saturating_add(t.as_nanos().min(u64::MAX as u128 / 2) as u64),
            ),
        };
        call(kind, after, || format!("wait({t:?})"), || self.p.wait(ev, t))
    }
}

pub fn quiet_samples() -> u64 {
    if cfg!(vh_slow) {
        500
    } else {
        150
    }
}
/// The monitor: declares calls stuck.
pub fn start_monitor() {
    std::thread::Builder::new()
        .name("monitor".into())
        .spawn(|| {
            #[derive(Clone, Copy)]
            struct Tr {
                seq: u64,
                facts: sys::ThreadFacts,
                quiet: u64,
                cpu0: u64,
                sw0: u64,
                first: u64,
            }
            let mut tr: Vec<Option<Tr>> = vec![None; SLOTS];
            loop {
                sys::sleep(Duration::from_millis(10));
                let now = sys::now_ns();
                for i in 0..SLOTS {
                    let s = &TABLE[i];
                    if !s.used.load(SeqCst) {
                        tr[i] = None;
                        continue;
                    }
                    let seq = s.seq.load(SeqCst);
                    if seq % 2 == 0 {
                        tr[i] = None;
                        continue;
                    }
                    let mut kind = None;
                    let mut why = String::new();
                    if now >= s.must_after.load(SeqCst) {
                        kind = Some(KINDS[s.kind.load(SeqCst)]);
                    }
                    if kind.is_none() {
                        if let Ok(owed) = OWED.try_lock() {
                            for o in owed.iter().filter(|o| o.slot == i) {
                                if let Some(w) = (o.pred)() {
                                    kind = Some(o.kind);
                                    why = w;
                                    break;
                                }
                            }
                        }
                    }
                    let Some(kind) = kind else {
                        tr[i] = None;
                        continue;
                    };
                    let Some(f) = sys::thread_facts(s.tid.load(SeqCst)) else { continue };
                    match &mut tr[i] {
                        Some(t) if t.seq == seq => {
                            if t.facts == f && f.state == b'S' {
                                t.quiet += 1;
                            } else {
                                t.quiet = 0;
                                t.facts = f;
                            }
                            let spin = f.cpu_ticks.saturating_sub(t.cpu0) >= 500; // 5 s of CPU
                            let churn = now - t.first >= 20_000_000_000 && f.switches.saturating_sub(t.sw0) >= 1000;
                            if t.quiet >= quiet_samples() || spin || churn {
                                // The call may just have ended: the obligation must still stand.
                                if s.seq.load(SeqCst) != seq {
                                    tr[i] = None;
                                    continue;
                                }
                                let desc = s.desc.try_lock().map(|d| d.clone()).unwrap_or_default();
                                let how = if spin { "running without returning" } else if churn { "woken again and again without returning" } else { "asleep, not scheduled" };
                                report::violation(kind, format!("{desc}: still {how} {} ms after it had to return. {why}", (now - t.first) / 1_000_000));
                            }
                        }
                        _ => tr[i] = Some(Tr { seq, facts: f, quiet: 0, cpu0: f.cpu_ticks, sw0: f.switches, first: now }),
                    }
                }
            }
        })
        .unwrap();
}

/// Panics raised inside the library are violations; anywhere else they are harness errors.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<report::Foreign>() {
            return;
        }
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let harness = loc.starts_with("src/") || loc.contains("/verif/harness");
        if crate::shim::inside() && !harness {
            report::violation("panic", format!("panic inside a library call at {loc}: {msg}"));
        }
        report::inconclusive(format!("harness panic at {loc}: {msg}"));
    }));
}
/// The back end built on poll, in any of its forms.
pub const POLL: bool = cfg!(any(polling_test_poll_backend, vh_poll));
pub const KQUEUE: bool = cfg!(vh_kq);
pub const PORT: bool = cfg!(vh_port);
pub const EPOLL: bool = !POLL && !KQUEUE && !PORT;
pub fn supports_edge_backend() -> bool {
    !POLL && !PORT
}
pub fn supports_level_backend() -> bool {
    !PORT
}
/// Level mode, or what there is instead for registrations that are not meant to be delivered.
pub const LEVEL: PollMode = if PORT { PollMode::Oneshot } else { PollMode::Level };
/// One of the modes that this system has.
pub fn fit(m: PollMode) -> PollMode {
    match m {
        _ if PORT => PollMode::Oneshot,
        PollMode::Edge if !supports_edge_backend() => PollMode::Level,
        PollMode::EdgeOneshot if !supports_edge_backend() => PollMode::Oneshot,
        m => m,
    }
}

/// A second thread that carries out some of the steps of a single-threaded history.
pub struct Elsewhere {
    tx: Option<std::sync::mpsc::Sender<Box<dyn FnOnce() + Send>>>,
    done: std::sync::mpsc::Receiver<()>,
    h: Option<std::thread::JoinHandle<()>>,
}
impl Elsewhere {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Elsewhere {
        let (tx, rx) = std::sync::mpsc::channel::<Box<dyn FnOnce() + Send>>();
        let (dtx, done) = std::sync::mpsc::channel();
        let h = std::thread::spawn(move || {
            for f in rx {
                f();
                if dtx.send(()).is_err() {
                    break;
                }
            }
        });
        Elsewhere { tx: Some(tx), done, h: Some(h) }
    }
    /// Runs `f` there and returns when it is finished.
    pub fn run<R: Send>(&self, f: impl FnOnce() -> R + Send) -> R {
        let mut out = None;
        {
            let slot = &mut out;
            let job: Box<dyn FnOnce() + Send + '_> = Box::new(move || *slot = Some(std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))));
            // Finished before this function returns.
            let job: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(job) };
            self.tx.as_ref().unwrap().send(job).expect("harness: the second thread has ended");
            self.done.recv().expect("harness: the second thread has ended");
        }
        out.unwrap().unwrap_or_else(|e| std::panic::resume_unwind(e))
    }
}
impl Drop for Elsewhere {
    fn drop(&mut self) {
        self.tx = None;
        if let Some(h) = self.h.take() {
            let _ = h.join();
        }
    }
}
