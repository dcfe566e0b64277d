//! Histories of the filters that only kqueue has (`polling::os::kqueue`): timers, signals and
//! processes, among ordinary sources, on the simulated kqueue.
use crate::conc::fdb;
use crate::report::{self, Hash};
use crate::sys;
use crate::vp::{self, P};
use crate::Ctx;
use polling::os::kqueue::{Filter, PollerKqueueExt, Process, ProcessOps, Signal, Timer};
use polling::{Event, Events, PollMode, Poller};
use simos::kqueue::raise;
use simos::sim::{self, Site};
use std::io::ErrorKind as K;
use std::num::{NonZeroI32, NonZeroUsize};
use std::process::{Child, Command, Stdio};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum What {
    Timer(usize),
    Signal(i32),
    /// The index of a child process.
    Process(usize),
    /// A file descriptor.
    Fd(i32),
}
struct F {
    what: What,
    key: usize,
    mode: PollMode,
    /// Nothing is due any more after the delivery of a oneshot registration.
    armed: bool,
    /// Timers: the interval and when it was set (before and after the call).
    every: u64,
    set: (u64, u64),
    /// Deliveries since then.
    n: u64,
    /// Signals: raised since the last delivery; `must` if since the registration too.
    may: bool,
    must: bool,
}
struct Proc {
    child: Option<Child>,
    pid: i32,
    ended: bool,
}
struct W<'a> {
    cx: &'a mut Ctx,
    p: P,
    fs: Vec<F>,
    procs: Vec<Proc>,
    fds: Vec<i32>,
    /// A notification must / may still end a wait.
    notified: bool,
    maybe: bool,
    /// No key is used twice.
    next: usize,
    h: Hash,
    delivered: u64,
}
fn bad(k: &str, d: String) -> ! {
    report::violation(k, d)
}
fn oneshot(f: &F) -> bool {
    matches!(f.mode, PollMode::Oneshot | PollMode::EdgeOneshot)
}
fn ready(fd: i32) -> bool {
    sys::probe(fd) & sys::IN != 0
}

impl W<'_> {
    /// Calls `f` with the filter.
    fn op(&mut self, op: u8, what: What, every: u64, key: usize, mode: PollMode) -> std::io::Result<()> {
        fn go<T: Filter>(p: &Poller, op: u8, f: T, key: usize, mode: PollMode) -> std::io::Result<()> {
            match op {
                0 => p.add_filter(f, key, mode),
                1 => p.modify_filter(f, key, mode),
                _ => p.delete_filter(f),
            }
        }
        let (p, by_ref, exact) = (&self.p.p, self.cx.rng.chance(1, 3), self.cx.rng.chance(1, 2));
        let name = ["add", "modify", "delete"][op as usize];
        vp::call("op-blocked", 0, || format!("{name}_filter({what:?})"), || match what {
            What::Timer(id) => {
                let t = Timer { id, timeout: Duration::from_nanos(every) };
                if by_ref {
                    go(p, op, &t, key, mode)
                } else {
                    go(p, op, t, key, mode)
                }
            }
            What::Signal(s) => go(p, op, Signal(s), key, mode),
            What::Process(i) => {
                let q = &self.procs[i];
                let f = match (&q.child, exact) {
                    (Some(c), true) => unsafe { Process::new(c, ProcessOps::Exit) },
                    _ => unsafe { Process::from_pid(NonZeroI32::new(q.pid).unwrap(), ProcessOps::Exit) },
                };
                go(p, op, f, key, mode)
            }
            What::Fd(fd) => match op {
                0 => unsafe { p.add_with_mode(fd, Event::readable(key), mode) },
                1 => p.modify_with_mode(fdb(fd), Event::readable(key), mode),
                _ => p.delete(fdb(fd)),
            },
        })
    }
    fn some(&mut self) -> What {
        // The numbers of different kinds are no concern of each other.
        let n = *self.cx.rng.pick(&[10, 12, 15]);
        match self.cx.rng.below(8) {
            0..=2 => What::Timer(*self.cx.rng.pick(&[0, n, self.fds[0] as usize, usize::MAX, self.procs.first().map_or(7, |p| p.pid as usize)])),
            3 | 4 => What::Signal(n as i32),
            5 if !self.procs.is_empty() => What::Process(self.cx.rng.below(self.procs.len())),
            _ => What::Fd(*self.cx.rng.pick(&self.fds)),
        }
    }
    fn interval(&mut self) -> u64 {
        *self.cx.rng.pick(&[1_000, 200_000, 1_000_000, 1_500_000, 3_000_000, 9_000_000, 40_000_000, 3_600_000_000_000, u32::MAX as u64 * 1_000_000])
    }
    fn change(&mut self, op: u8, what: What, inject: bool) {
        let reg = self.fs.iter().position(|f| f.what == what);
        self.next += 1;
        let key = self.next;
        let mode = *self.cx.rng.pick(&[PollMode::Oneshot, PollMode::Oneshot, PollMode::Level, PollMode::Edge, PollMode::EdgeOneshot]);
        let every = self.interval();
        let fault = (inject && self.cx.rng.chance(1, 3)).then(|| {
            let s = *self.cx.rng.pick(&[Site::Change, Site::Receipt]);
            let e = *self.cx.rng.pick(&[libc::ENOMEM, libc::EINVAL, libc::EACCES, libc::EIO]);
            sim::plan(s, if s == Site::Receipt && matches!(what, What::Fd(_)) { self.cx.rng.below(2) as i64 } else { 0 }, 1, e);
            (s, e)
        });
        let t0 = sys::now_ns();
        let r = self.op(op, what, every, key, mode);
        let t1 = sys::now_ns();
        let hit = fault.filter(|f| sim::hits(f.0) > 0);
        sim::unplan();
        report::log(format!("{} {what:?} key {key} {mode:?} {every} ns, failing {fault:?}: {r:?}", ["add", "modify", "delete"][op as usize]));
        self.h.add(op as u64 * 8 + r.is_ok() as u64);
        if let Some((s, e)) = hit {
            report::count("faults_injected", 1);
            match &r {
                Err(x) if x.raw_os_error() == Some(e) => {}
                // An unregistered source is refused all the same.
                Err(x) if op > 0 && reg.is_none() && x.kind() == K::NotFound => {}
                Err(x) => bad("fault-error", format!("{what:?}: {s:?} failed with errno {e}, reported as {x:?}")),
                Ok(()) => bad("fault-hidden", format!("{what:?}: the call succeeded although {s:?} failed with errno {e}")),
            }
            match (op, reg) {
                (0, _) => {
                    // Not registered: as if the call had not been made.
                    if !matches!(what, What::Process(_)) {
                        if let r @ (Ok(()) | Err(_)) = self.op(1, what, every, key, mode) {
                            if !r.as_ref().is_err_and(|e| e.kind() == K::NotFound) {
                                bad("fault-registered", format!("{what:?}: modify after an add that failed returned {r:?}"));
                            }
                        }
                    }
                }
                (1, Some(i)) if matches!(what, What::Fd(_)) => {
                    // Possibly in part: set it anew.
                    let r = self.op(1, what, every, key, mode);
                    if let Err(e) = r {
                        bad("op-result", format!("{what:?}: modify after a failed one returned {e:?}"));
                    }
                    let f = &mut self.fs[i];
                    (f.key, f.mode, f.armed) = (key, mode, true);
                }
                (2, Some(i)) if matches!(what, What::Fd(_)) => {
                    if let Err(e) = self.op(2, what, every, key, mode) {
                        bad("op-result", format!("{what:?}: delete after a failed one returned {e:?}"));
                    }
                    self.fs.swap_remove(i);
                }
                _ => {}
            }
            return;
        }
        let want = match (op, reg) {
            (0, Some(_)) => Some(K::AlreadyExists),
            (1 | 2, None) => Some(K::NotFound),
            _ => None,
        };
        match (&r, want) {
            (Ok(()), None) => {}
            (Err(e), Some(k)) if e.kind() == k => {
                report::count("refused", 1);
                return;
            }
            // The process may be gone for good.
            (Err(e), None) if matches!(what, What::Process(i) if self.procs[i].child.is_none()) && e.raw_os_error() == Some(libc::ESRCH) => return,
            _ => bad("op-result", format!("{} of {what:?}, which is {}registered, returned {r:?}", ["add", "modify", "delete"][op as usize], if reg.is_some() { "" } else { "not " })),
        }
        report::count("registrations", 1);
        match op {
            0 => self.fs.push(F { what, key, mode, armed: true, every, set: (t0, t1), n: 0, may: false, must: false }),
            1 => {
                let f = &mut self.fs[reg.unwrap()];
                let may = f.may && f.armed;
                *f = F { what, key, mode, armed: true, every, set: (t0, t1), n: 0, may, must: false };
            }
            _ => {
                self.fs.swap_remove(reg.unwrap());
            }
        }
    }
    /// Is this certainly to be delivered (by a wait that begins now)?
    fn due(&self, f: &F) -> bool {
        f.armed
            && match f.what {
                What::Timer(_) => f.n == 0 && sys::now_ns() >= f.set.1.saturating_add(f.every).saturating_add(5_000_000),
                What::Signal(_) => f.must,
                What::Process(i) => f.n == 0 && self.procs[i].ended && self.procs[i].child.is_some(),
                // (Edges are the business of other scenarios.)
                What::Fd(fd) => ready(fd) && !matches!(f.mode, PollMode::Edge | PollMode::EdgeOneshot),
            }
    }
    fn wait(&mut self, cap: usize) {
        let due: Vec<What> = self.fs.iter().filter(|f| self.due(f)).map(|f| f.what).collect();
        let must = !due.is_empty() || self.notified;
        let soon = self.fs.iter().any(|f| f.armed && f.n == 0 && matches!(f.what, What::Timer(_)) && f.every < 50_000_000);
        let t = match self.cx.rng.below(4) {
            0 if must => None,
            1 if must || soon => Some(Duration::from_secs(if must { 3600 } else { 30 })),
            2 => Some(Duration::from_micros(self.cx.rng.range(1, 4000) as u64)),
            _ => Some(Duration::ZERO),
        };
        let mut ev = Events::with_capacity(NonZeroUsize::new(cap).unwrap());
        let t0 = sys::now_ns();
        let n = match self.p.wait(&mut ev, t, must.then_some(if due.is_empty() { "notify-lost" } else { "missed-ready-blocked" })) {
            Ok(n) => n,
            Err(e) => bad("wait-error", format!("{e:?}")),
        };
        let t1 = sys::now_ns();
        let got: Vec<Event> = ev.iter().collect();
        report::log(format!("wait({t:?}) due {due:?}: {n} {:?}", got.iter().map(|e| e.key).collect::<Vec<_>>()));
        report::count("waits", 1);
        if n != got.len() || n > cap {
            bad("event-count", format!("wait returned {n}, the container ({cap}) holds {}", got.len()));
        }
        let mut seen = vec![];
        for e in &got {
            let Some(i) = self.fs.iter().position(|f| f.key == e.key) else {
                bad("unknown-key", format!("{e:?} is no registration's"));
            };
            if seen.contains(&e.key) {
                bad("duplicate-event", format!("{e:?} twice in one wait"));
            }
            seen.push(e.key);
            let f = &mut self.fs[i];
            let d = format!("{:?} {:?} set {:?} every {} delivered {}", f.what, f.mode, f.set, f.every, f.n);
            if !e.readable || e.writable {
                bad("flags", format!("{e:?} for {d}"));
            }
            if !f.armed {
                bad("oneshot-again", format!("{d}: delivered again"));
            }
            f.n += 1;
            match f.what {
                What::Timer(_) => {
                    let k = if oneshot(f) { 1 } else { f.n };
                    if t1 < f.set.0.saturating_add(f.every.saturating_mul(k)) {
                        bad("early-timer", format!("{d}: event {} at {t1}", f.n));
                    }
                }
                What::Signal(_) => {
                    if !f.may {
                        bad("spurious-event", format!("{d}: no signal"));
                    }
                    (f.may, f.must) = (false, false);
                }
                What::Process(i) => {
                    if !self.procs[i].ended {
                        bad("spurious-event", format!("{d}: it has not ended"));
                    }
                    f.armed = false;
                }
                What::Fd(fd) => {
                    if !ready(fd) {
                        bad("spurious-event", format!("{d}: not readable"));
                    }
                }
            }
            if oneshot(f) {
                f.armed = false;
            }
            self.delivered += 1;
        }
        self.h.add(n as u64);
        if n + 4 < cap {
            // (A notification takes up room, too.)
            for w in due {
                let f = self.fs.iter().find(|f| f.what == w).unwrap();
                if !seen.contains(&f.key) {
                    bad("missed-oneshot", format!("{w:?} ({:?}) was due and is not delivered", f.mode));
                }
            }
        }
        if n == 0 && !self.notified && !self.maybe {
            match t {
                None => bad("early-timeout", "a wait without timeout returned with nothing".into()),
                Some(t) if t1 - t0 < t.as_nanos() as u64 => bad("early-timeout", format!("wait({t:?}) returned nothing after {} ns", t1 - t0)),
                _ => {}
            }
        }
        self.maybe = n + 4 >= cap && (self.maybe || self.notified);
        self.notified = false;
    }
}

pub fn run(cx: &mut Ctx) {
    let faults = cx.profile == "faults";
    crate::simseq::delays(&mut cx.rng);
    let p = P::new();
    let mut w = W { cx, p, fs: vec![], procs: vec![], fds: vec![sys::eventfd(0), sys::eventfd(1)], notified: false, maybe: false, next: 100, h: Hash::new(), delivered: 0 };
    let steps = w.cx.rng.range(8, 60);
    for _ in 0..steps {
        match w.cx.rng.below(20) {
            0 if w.procs.len() < 2 => {
                let c = Command::new("/bin/cat").stdin(Stdio::piped()).stdout(Stdio::null()).stderr(Stdio::null()).spawn();
                let Ok(c) = c else { report::inconclusive("harness: no child process") };
                w.procs.push(Proc { pid: c.id() as i32, child: Some(c), ended: false });
            }
            1 => {
                // A child ends (and may be waited for).
                let i = w.cx.rng.below(w.procs.len() + 1);
                if i < w.procs.len() && !w.procs[i].ended {
                    w.procs[i].ended = true;
                    let mut c = w.procs[i].child.take().unwrap();
                    report::log(format!("child {i} ends"));
                    drop(c.stdin.take());
                    let mut si: libc::siginfo_t = unsafe { std::mem::zeroed() };
                    unsafe { libc::waitid(libc::P_PID, c.id(), &mut si, libc::WEXITED | libc::WNOWAIT) };
                    w.procs[i].child = Some(c);
                }
            }
            2..=6 => {
                let x = w.some();
                w.change(0, x, faults);
            }
            7..=9 => {
                let x = match w.fs.is_empty() || w.cx.rng.chance(1, 5) {
                    true => w.some(),
                    false => w.fs[w.cx.rng.below(w.fs.len())].what,
                };
                w.change(1, x, faults);
            }
            10 => {
                let x = match w.fs.is_empty() || w.cx.rng.chance(1, 5) {
                    true => w.some(),
                    false => w.fs[w.cx.rng.below(w.fs.len())].what,
                };
                w.change(2, x, faults);
            }
            11 | 12 => {
                let s = *w.cx.rng.pick(&[10, 12, 15]);
                report::log(format!("signal {s}"));
                // (Registered filters alone see it.)
                raise(s);
                for f in &mut w.fs {
                    if f.what == What::Signal(s) {
                        (f.may, f.must) = (true, true);
                    }
                }
            }
            13 => {
                if let Err(e) = w.p.notify() {
                    bad("notify-error", format!("{e:?}"));
                }
                report::log("notify");
                w.notified = true;
            }
            14 => {
                let fd = *w.cx.rng.pick(&w.fds);
                if w.cx.rng.chance(1, 2) {
                    sys::write(fd, &1u64.to_ne_bytes());
                } else {
                    sys::read(fd, &mut [0; 8]);
                }
            }
            15 => {
                let us = *w.cx.rng.pick(&[100, 1000, 5000, 10_000]);
                sys::sleep(Duration::from_micros(us));
            }
            _ => {
                let cap = *w.cx.rng.pick(&[1, 2, 8, 64]);
                w.wait(cap);
            }
        }
    }
    w.wait(64);
    let (n, h) = (w.delivered, w.h.0);
    for i in 0..w.procs.len() {
        let mut c = w.procs[i].child.take().unwrap();
        drop(c.stdin.take());
        let _ = c.wait();
    }
    let W { p, fds, .. } = w;
    drop(p);
    for fd in fds {
        sys::close(fd);
    }
    sim::delays(0, 0);
    report::count("deliveries", n);
    if n > 0 {
        report::distinct(h);
        report::sample(|| report::history().join("; "));
    }
}
