//! Race windows, one at a time: threads are held after a chosen number of instructions (or at a
//! chosen system call) inside a library call while others carry out whole calls.
use crate::conc::{after_quiet, events, fdb, us};
use crate::report;
use crate::shim;
use crate::sys;
use crate::vp::{self, P};
use crate::Ctx;
use polling::{Event, PollMode};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum What {
    /// Register a source that is ready.
    Add,
    /// Arm one that is registered without interest and ready.
    Arm,
    /// Make an armed one ready.
    Ready,
    Delete,
    /// Delete, and register again when ready.
    Renew,
    RefusedAdd,
    RefusedModify,
    RefusedDelete,
    Notify,
    Poll,
    Wait,
}
use What::*;
const ALL: [What; 11] = [Add, Arm, Ready, Delete, Renew, RefusedAdd, RefusedModify, RefusedDelete, Notify, Poll, Wait];
impl What {
    fn registers(self) -> bool {
        matches!(self, Add | Arm | Delete | Renew | RefusedAdd | RefusedModify | RefusedDelete)
    }
}

/// The number of instructions of each kind of call, as measured.
static LENGTH: [AtomicU32; ALL.len()] = [const { AtomicU32::new(0) }; ALL.len()];

struct Step {
    what: What,
    fd: i32,
    key: usize,
    mode: PollMode,
    write: bool,
    /// Hold the call after so many instructions or at such a system call (one of them 0).
    steps: u32,
    hooks: u32,
}
impl Step {
    fn event(&self) -> Event {
        if self.write {
            Event::writable(self.key)
        } else {
            Event::readable(self.key)
        }
    }
}
struct Shared {
    p: P,
    /// How often each key was delivered.
    got: Vec<AtomicU32>,
    notifies: AtomicU32,
    empties: AtomicU32,
    /// The call number of the waiting thread when the last notification was begun.
    at_notify: AtomicU64,
    waiter: AtomicUsize,
    waiting: AtomicBool,
    stop: AtomicBool,
}
impl Shared {
    fn take(&self, ev: &polling::Events) {
        for e in ev.iter() {
            match self.got.get(e.key) {
                Some(g) => g.fetch_add(1, SeqCst),
                None => report::violation("unknown-key", format!("an event with key {}", e.key)),
            };
        }
    }
    fn notify(&self) {
        let w = self.waiter.load(SeqCst);
        if w != usize::MAX {
            self.at_notify.store(vp::slot_seq(w), SeqCst);
        }
        self.notifies.fetch_add(1, SeqCst);
        self.p.notify().unwrap_or_else(|e| report::violation("notify-error", format!("notify returned {e:?}")));
    }
}
fn ok(what: &str, r: std::io::Result<()>) {
    if let Err(e) = r {
        report::violation("op-result", format!("{what} returned {e:?}"));
    }
}
fn refused(what: &str, r: std::io::Result<()>) {
    if r.is_ok() {
        report::violation("op-result", format!("{what} succeeded"));
    }
}
fn perform(s: &Shared, x: &Step, ev: &mut polling::Events) {
    shim::arm(x.steps, x.hooks);
    let p = &s.p;
    match x.what {
        Add => ok("add", p.add(x.fd, x.event(), x.mode)),
        Arm => ok("modify", p.modify(fdb(x.fd), x.event(), x.mode)),
        Ready => {
            sys::write(x.fd, &1u64.to_ne_bytes());
        }
        Delete => ok("delete", p.delete(fdb(x.fd))),
        Renew => {
            ok("delete", p.delete(fdb(x.fd)));
            sys::write(x.fd, &1u64.to_ne_bytes());
            ok("add", p.add(x.fd, x.event(), x.mode));
        }
        RefusedAdd => refused("adding a registered source", p.add(x.fd, x.event(), x.mode)),
        RefusedModify => refused("modifying a source that is not registered", p.modify(fdb(x.fd), x.event(), x.mode)),
        RefusedDelete => refused("deleting a source that is not registered", p.delete(fdb(x.fd))),
        Notify => s.notify(),
        Poll | Wait => {
            ev.clear();
            let t = if x.what == Poll { Some(Duration::ZERO) } else { None };
            let n = p.wait(ev, t, None).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
            if n != ev.len() {
                report::violation("count", format!("wait returned {n} with {} events", ev.len()));
            }
            s.take(ev);
        }
    }
    let n = shim::disarm();
    if x.steps == u32::MAX {
        LENGTH[x.what as usize].fetch_max(n.max(1), SeqCst);
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum State {
    Held,
    Done,
    Asleep,
}
/// Until the thread is held, done or asleep.
fn settle(t: usize, h: &std::thread::JoinHandle<()>, tid: &AtomicI32, quiet: Duration) -> State {
    let start = sys::now_ns();
    let mut last = None;
    let (mut since, mut look) = (start, start + 150_000);
    loop {
        if shim::held(t) {
            return State::Held;
        }
        if h.is_finished() {
            return State::Done;
        }
        let now = sys::now_ns();
        if now >= look {
            let f = match tid.load(SeqCst) {
                0 => None,
                id => sys::thread_facts(id).filter(|f| f.state == b'S'),
            };
            if f.is_none() || f != last {
                since = now;
            } else if now - since >= quiet.as_nanos() as u64 && !shim::held(t) {
                return State::Asleep;
            }
            last = f;
            look = now + 100_000;
        }
        if now - start > 20_000_000 {
            return State::Asleep;
        }
        sys::yield_now();
    }
}

pub fn windows(cx: &mut Ctx) {
    let rng = &mut cx.rng;
    shim::no_regime();
    shim::holds_reset();
    // A notification while a registration call is held up.
    let up = shim::ACTIVE && vp::POLL && rng.chance(1, 12);
    let with_waiter = up || rng.chance(2, 3);
    let nt = if up { 2 } else { rng.range(2, 3) };
    let cap = *rng.pick(&[1usize, 2, 16]);
    let mut nkeys = 0usize;
    let mut fds = vec![];
    let mut plans: Vec<Vec<Step>> = vec![];
    let refusals = vp::EPOLL || vp::POLL;
    let (mut waits, mut polls) = (0, 0);
    for t in 0..nt {
        let mut plan = vec![];
        let n = if up || rng.chance(2, 3) { 1 } else { 2 };
        for i in 0..n {
            let what = loop {
                let w = *rng.pick(&ALL);
                let w = if rng.chance(1, 4) { Notify } else { w };
                let w = if up && t == 1 { Notify } else { w };
                let fine = match w {
                    _ if up && t == 0 && !w.registers() => false,
                    RefusedAdd | RefusedModify | RefusedDelete => refusals,
                    // One thread at most that sleeps.
                    Wait => !with_waiter && waits == 0 && i == 0,
                    _ => true,
                };
                if fine {
                    break w;
                }
            };
            waits += (what == Wait) as u32;
            polls += (what == Poll) as u32;
            let mode = if vp::supports_edge_backend() { *rng.pick(&[PollMode::Oneshot, PollMode::Edge, PollMode::EdgeOneshot]) } else { PollMode::Oneshot };
            let write = matches!(what, Add | Arm) && rng.chance(1, 4);
            let fd = match what {
                Notify | Poll | Wait => -1,
                Add | Arm => sys::eventfd(1),
                _ => sys::eventfd(0),
            };
            if fd >= 0 {
                fds.push(fd);
            }
            plan.push(Step { what, fd, key: nkeys, mode, write, steps: 0, hooks: 0 });
            nkeys += 1;
        }
        // Which call to hold, and where.
        if t == 0 || !up && rng.chance(1, 2) {
            let i = rng.below(plan.len());
            let x = &mut plan[i];
            if x.what == Ready {
                plans.push(plan);
                continue;
            }
            if up {
                x.hooks = rng.range(1, 2) as u32;
            } else if shim::ACTIVE && rng.chance(1, 3) {
                x.hooks = rng.range(1, 8) as u32;
            } else {
                let len = LENGTH[x.what as usize].load(SeqCst);
                // Once in a while, count.
                x.steps = if len == 0 || rng.chance(1, 40) { u32::MAX } else { 1 + rng.below(len as usize) as u32 };
            }
        }
        plans.push(plan);
    }
    let s = Arc::new(Shared {
        p: P::new(),
        got: (0..2 * nkeys + 1).map(|_| AtomicU32::new(0)).collect(),
        notifies: AtomicU32::new(0),
        empties: AtomicU32::new(0),
        at_notify: AtomicU64::new(u64::MAX),
        waiter: AtomicUsize::new(usize::MAX),
        waiting: AtomicBool::new(true),
        stop: AtomicBool::new(false),
    });
    // What is registered beforehand.
    for x in plans.iter().flatten() {
        match x.what {
            Arm => ok("add", s.p.add(x.fd, Event::none(x.key), if vp::supports_edge_backend() { x.mode } else { vp::LEVEL })),
            Ready | Delete | Renew | RefusedAdd => ok("add", s.p.add(x.fd, Event::readable(x.key), x.mode)),
            _ => {}
        }
    }
    // Who sleeps meanwhile.
    let quiet = us(400);
    let wtid = Arc::new(AtomicI32::new(0));
    let waiter = with_waiter.then(|| {
        let (s, wtid, alone) = (s.clone(), wtid.clone(), polls == 0);
        std::thread::spawn(move || {
            let mut ev = events(cap);
            s.waiter.store(vp::my_slot(), SeqCst);
            wtid.store(sys::gettid(), SeqCst);
            loop {
                ev.clear();
                let n = s.p.wait(&mut ev, None, None).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
                if n != ev.len() {
                    report::violation("count", format!("wait returned {n} with {} events", ev.len()));
                }
                s.take(&ev);
                if s.stop.load(SeqCst) {
                    break;
                }
                if n == 0 && alone && s.empties.fetch_add(1, SeqCst) >= s.notifies.load(SeqCst) {
                    report::violation("early-timeout", "a wait without timeout ended without events or a notification".to_string());
                }
                report::count("waits", 1);
                report::count("events", n as u64);
                if n == 0 && !alone {
                    sys::sleep(us(50));
                }
            }
            s.waiting.store(false, SeqCst);
        })
    });
    if waiter.is_some() {
        while wtid.load(SeqCst) == 0 {
            sys::yield_now();
        }
        if rng.chance(3, 4) {
            sys::wait_asleep(wtid.load(SeqCst), us(600), Duration::from_millis(20));
        }
    }
    // One thread after the other, as far as they get.
    let describe = |p: &Vec<Step>| p.iter().map(|x| format!("{:?}{}", x.what, if x.steps == u32::MAX { " (counted)".into() } else if x.steps > 0 { format!(" (held after {} instructions)", x.steps) } else if x.hooks > 0 { format!(" (held at system call {})", x.hooks) } else { String::new() })).collect::<Vec<_>>().join(", ");
    let text: Vec<String> = plans.iter().map(describe).collect();
    report::log(format!("{}{}", text.join(" | "), if with_waiter { " | a thread that waits" } else { "" }));
    let plans: Vec<Arc<Vec<Step>>> = plans.into_iter().map(Arc::new).collect();
    let mut threads = vec![];
    let mut states = vec![];
    let mut early = false;
    for (t, plan) in plans.iter().enumerate() {
        // Another thread's registration call is held before or after its first system call, which
        // on the poll back end is the one that interrupts the wait. Nobody has to wait for it.
        let last = t + 1 == nt;
        if last && vp::POLL && waiter.is_some() && threads.len() == 1 && plan.iter().all(|x| x.what == Notify && x.steps == 0 && x.hooks == 0) {
            let a: &Arc<Vec<Step>> = &plans[0];
            early = states[0] == State::Held
                && a.iter().position(|x| x.hooks > 0).map_or(false, |i| a[i].what.registers() && a[i].hooks <= 2 && a[..i].iter().all(|x| !matches!(x.what, Poll)))
                && shim::held_call() == Some(shim::Call::Write)
                && sys::wait_asleep(wtid.load(SeqCst), us(8000), Duration::from_millis(40));
        }
        let (s2, plan) = (s.clone(), plan.clone());
        let tid = Arc::new(AtomicI32::new(0));
        let tid2 = tid.clone();
        let h = std::thread::spawn(move || {
            shim::hold_as(t);
            tid2.store(sys::gettid(), SeqCst);
            let mut ev = events(cap);
            for x in plan.iter() {
                perform(&s2, x, &mut ev);
            }
        });
        let st = settle(t, &h, &tid, quiet);
        states.push(st);
        threads.push((h, tid));
        if early && st == State::Done {
            // The waiting thread was asleep and has been notified since.
            let w = s.waiter.load(SeqCst);
            let at = s.at_notify.load(SeqCst);
            vp::owe(w, "notify-lost", move || (vp::slot_seq(w) <= (at | 1)).then(|| "it was notified, while another thread's registration call was held up".into()));
            let t0 = sys::now_ns();
            while vp::slot_seq(w) <= (at | 1) && sys::now_ns() - t0 < 20_000_000_000 {
                sys::sleep(us(100));
            }
            vp::clear_owed();
            report::count("early_wakes", 1);
        }
    }
    // Let them go on, in some order.
    let mut order: Vec<usize> = (0..nt).collect();
    for i in (1..nt).rev() {
        order.swap(i, rng.below(i + 1));
    }
    let mut nheld = 0;
    for &t in &order {
        if shim::held(t) {
            nheld += 1;
            shim::release(t);
            settle(t, &threads[t].0, &threads[t].1, quiet);
        }
    }
    shim::release_all();
    // A thread asleep in wait that has not been sent anything.
    if waits > 0 {
        while threads.iter().enumerate().any(|(t, h)| !h.0.is_finished() && plans[t].iter().all(|x| x.what != Wait)) {
            sys::sleep(us(100));
        }
        let t = plans.iter().position(|p| p.iter().any(|x| x.what == Wait)).unwrap();
        let start = sys::now_ns();
        while !threads[t].0.is_finished() && sys::now_ns() - start < 1_000_000 {
            sys::yield_now();
        }
        if !threads[t].0.is_finished() {
            s.notify();
        }
    }
    for (h, _) in threads {
        h.join().expect("harness: thread");
    }
    // What has to have been delivered.
    let due: Vec<usize> = plans.iter().flat_map(|p| p.iter()).filter(|x| matches!(x.what, Add | Arm | Ready | Renew)).map(|x| x.key).collect();
    let missing = {
        let (s, due) = (s.clone(), due.clone());
        move || due.iter().copied().filter(|&k| s.got[k].load(SeqCst) == 0).collect::<Vec<_>>()
    };
    let mut ev = events(cap);
    if let Some(w) = waiter {
        let slot = s.waiter.load(SeqCst);
        {
            let m = missing.clone();
            vp::owe(slot, "missed-ready-blocked", move || {
                let m = m();
                (!m.is_empty()).then(|| format!("the sources with keys {m:?} are ready and have not been delivered"))
            });
        }
        // (A notification may be consumed by another thread's wait.)
        let at = if polls == 0 { s.at_notify.load(SeqCst) } else { u64::MAX };
        if at != u64::MAX {
            vp::owe(slot, "notify-lost", move || (vp::slot_seq(slot) <= (at | 1)).then(|| "it has been notified since it began".into()));
        }
        let t0 = sys::now_ns();
        while (!missing().is_empty() || (at != u64::MAX && vp::slot_seq(slot) <= (at | 1))) && sys::now_ns() - t0 < 30_000_000_000 {
            sys::sleep(us(50));
        }
        vp::clear_owed();
        // The last one.
        s.stop.store(true, SeqCst);
        s.notify();
        vp::owe(slot, "notify-lost", || Some("it has been notified".into()));
        w.join().expect("harness: waiter");
        vp::clear_owed();
        // The last wait may have been ended by an earlier notification.
        ev.clear();
        let n = s.p.wait(&mut ev, Some(Duration::ZERO), None).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
        s.take(&ev);
        if n > 0 {
            report::violation("dup-oneshot", format!("delivered again: {:?}", ev.iter().collect::<Vec<_>>()));
        }
    } else {
        let n0 = s.notifies.load(SeqCst);
        let plain = plans.iter().flat_map(|p| p.iter()).all(|x| !matches!(x.what, Poll | Wait));
        if plain && n0 > 0 {
            ev.clear();
            s.p.wait(&mut ev, None, Some("notify-lost")).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
            s.take(&ev);
        }
        let mut tries = 0;
        // Where a full container leaves a notification for a later wait, enough to take it.
        let least = if vp::KQUEUE || vp::PORT { due.len() + 3 } else { 2 };
        while !missing().is_empty() || tries < least {
            ev.clear();
            s.p.wait(&mut ev, Some(Duration::ZERO), None).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
            s.take(&ev);
            tries += 1;
            if tries > due.len() + 4 {
                report::violation("missed-now", format!("the sources with keys {:?} are ready and were not delivered by {tries} waits", missing()));
            }
        }
    }
    for x in plans.iter().flat_map(|p| p.iter()) {
        let n = s.got[x.key].load(SeqCst);
        let want = due.contains(&x.key) as u32;
        if n != want {
            let k = if n < want { "missed-oneshot" } else if want == 0 { "spurious-event" } else { "dup-oneshot" };
            report::violation(k, format!("{:?} in mode {:?}: delivered {n} times", x.what, x.mode));
        }
    }
    after_quiet(&s.p, &mut ev);
    // The registrations are what they should be.
    let mut live = vec![];
    for x in plans.iter().flat_map(|p| p.iter()) {
        match x.what {
            Add | Arm | Ready | Renew | RefusedAdd => {
                sys::read(x.fd, &mut [0; 8]);
                ok("modify", s.p.modify(fdb(x.fd), Event::readable(nkeys + x.key), PollMode::Oneshot));
                live.push(x);
            }
            Delete | RefusedModify | RefusedDelete => {
                sys::write(x.fd, &1u64.to_ne_bytes());
                refused("deleting a source that is not registered", if refusals || vp::KQUEUE { s.p.delete(fdb(x.fd)) } else { Err(std::io::ErrorKind::NotFound.into()) });
            }
            _ => {}
        }
    }
    ev.clear();
    let n = s.p.wait(&mut ev, Some(Duration::ZERO), None).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
    if n != 0 {
        report::violation("stale-event", format!("nothing registered is ready: {:?}", ev.iter().collect::<Vec<_>>()));
    }
    for x in &live {
        sys::write(x.fd, &1u64.to_ne_bytes());
        ev.clear();
        let n = s.p.wait(&mut ev, None, Some("missed-ready-blocked")).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
        if n != 1 || ev.iter().any(|e| e.key != nkeys + x.key) {
            report::violation("missed-oneshot", format!("instead of one event: {:?}", ev.iter().collect::<Vec<_>>()));
        }
        ok("delete", s.p.delete(fdb(x.fd)));
    }
    for fd in fds {
        sys::close(fd);
    }
    report::count("held", nheld);
    let mut h = report::Hash::new();
    for t in &text {
        h.adds(t);
    }
    h.add(with_waiter as u64 | (order[0] as u64) << 2 | (cap as u64) << 8);
    report::distinct(h.0);
    if nheld > 0 {
        report::sample(|| report::history().join(" "));
    }
}
