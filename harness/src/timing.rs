//! Timeouts: real lower bounds under activity, timeouts far beyond any test's patience observed
//! asleep and ended on request, exact behaviour on a virtual clock, signals around deadlines.
use crate::conc::{events, fdb, us};
use crate::report;
use crate::rng::Rng;
use crate::shim::{self, VtAction};
use crate::sys;
use crate::vp::{self, P};
use crate::Ctx;
use polling::{Event, Events, PollMode};
use std::cell::Cell;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Duration;

fn ns(n: u64) -> Duration {
    Duration::from_nanos(n)
}
fn ok(r: std::io::Result<()>, what: &str) {
    if let Err(e) = r {
        report::violation(if what == "notify" { "notify-error" } else { "op-result" }, format!("{what} returned {e:?}"));
    }
}
fn wait(p: &P, ev: &mut Events, t: Option<Duration>, must: Option<&'static str>) -> usize {
    ev.clear();
    match p.wait(ev, t, must) {
        Ok(n) if n == ev.len() => n,
        Ok(n) => report::violation("count", format!("wait returned {n}, the container holds {}", ev.len())),
        Err(e) => report::violation("wait-error", format!("wait({t:?}) returned {e:?}")),
    }
}

/// Real waits of up to some milliseconds, in sequences with events and notifications, while other
/// threads register, and signals arrive.
pub fn timing(cx: &mut Ctx) {
    let rng = &mut cx.rng;
    let regime = shim::random_regime(rng);
    // Several pollers take turns: the timers, sources and notifications of one are no concern of
    // the others.
    let np = if cx.params.contains_key("pollers") || rng.chance(1, 3) { rng.range(2, 4) } else { 1 };
    let ps: Vec<Arc<P>> = (0..np).map(|_| Arc::new(P::new())).collect();
    let efds: Vec<i32> = (0..np).map(|_| sys::eventfd(0)).collect();
    for (p, e) in ps.iter().zip(&efds) {
        ok(p.add(*e, Event::none(1), PollMode::Oneshot), "add");
    }
    // (With a full container a notification may wait for the next one on kqueue and event ports.)
    let mut ev = events(*rng.pick(if vp::KQUEUE || vp::PORT { &[4usize, 16, 1024] } else { &[1usize, 4, 1024] }));
    let signals = rng.chance(1, 3);
    let churn = rng.chance(1, 3);
    let steps = rng.range(4, 14);
    report::log(format!("{np} pollers, {steps} steps, signals {signals}, churn {churn}, delays: {regime}"));
    let stop = Arc::new(AtomicBool::new(false));
    let h = churn.then(|| {
        let (p, stop) = (ps[0].clone(), stop.clone());
        let mut r = rng.fork();
        std::thread::spawn(move || {
            let e = sys::eventfd(0);
            while !stop.load(SeqCst) {
                ok(p.add(e, Event::readable(2), vp::LEVEL), "add");
                ok(p.modify(fdb(e), Event::writable(2), PollMode::Oneshot).and(p.modify(fdb(e), Event::none(2), PollMode::Oneshot)), "modify");
                ok(p.delete(fdb(e)), "delete");
                sys::sleep(us(1 + r.below(400) as u64));
            }
            sys::close(e);
        })
    });
    let storm = signals.then(|| sys::Storm::start(us(*rng.pick(&[20u64, 100, 700]))));
    let mut hash = report::Hash::new();
    for i in 0..steps {
        let k = rng.below(np);
        let (p, efd) = (&ps[k], efds[k]);
        let mut armed = false;
        hash.add(k as u64);
        if rng.chance(1, 10) {
            // No timeout: only the notification of another thread may end this wait.
            let sent = Arc::new(AtomicBool::new(false));
            let (q, s2) = (p.clone(), sent.clone());
            let after = us(rng.range(1, 6000) as u64);
            report::log(format!("poller {k}: wait(None), notified after {after:?}"));
            let th = std::thread::spawn(move || {
                sys::sleep(after);
                s2.store(true, SeqCst);
                ok(q.notify(), "notify");
            });
            let n = wait(p, &mut ev, None, None);
            let was = sent.load(SeqCst);
            th.join().expect("harness: notifier");
            if !was && ev.iter().all(|e| e.key != 2) {
                report::violation("early-timeout", format!("step {i}: wait(None) of poller {k} returned {n} although nothing has happened"));
            }
            // It may have returned for the source of another thread: take the notification away.
            wait(p, &mut ev, Some(Duration::ZERO), None);
            report::count("waits", 2);
            continue;
        }
        let t = match rng.below(14) {
            0 => ns(0),
            1 => ns(1),
            2 => ns(rng.range(2, 999) as u64),
            3 => ns(999),
            4 => us(rng.range(1, 999) as u64),
            5 => ns(999_999),
            6 => us(1000),
            7 => ns(1_000_001),
            8 => ns(1_999_999),
            9 => us(2000),
            10 => us(rng.range(1000, 6000) as u64),
            11 => ns(rng.range(1_000_000, 9_000_000) as u64),
            12 => us(rng.range(1000, 20_000) as u64),
            _ => ns(rng.range(1, 3_000_000) as u64),
        };
        hash.add(t.as_nanos() as u64 / 1000);
        let pre = rng.below(6);
        let mut notified = false;
        if pre == 0 {
            ok(p.notify(), "notify");
            notified = true;
        }
        if pre == 1 {
            ok(p.modify(fdb(efd), Event::readable(1), PollMode::Oneshot), "modify");
            sys::write(efd, &1u64.to_ne_bytes());
            armed = true;
        }
        let t = if pre <= 1 && rng.chance(1, 2) { Duration::from_secs(3600) } else { t };
        report::log(format!("poller {k}: wait({t:?}){}{}", if notified { ", notified" } else { "" }, if armed { ", source ready" } else { "" }));
        let must = if notified { Some("notify-lost") } else if armed { Some("missed-ready-blocked") } else { None };
        let a = sys::now_ns();
        let n = wait(p, &mut ev, Some(t), must);
        let el = sys::now_ns() - a;
        // Another thread's source 2 is writable for a moment.
        let mine = ev.iter().filter(|e| e.key == 1).count();
        let other = n - mine;
        if other > 0 && !churn {
            report::violation("internal-event", format!("{:?}", ev.iter().collect::<Vec<_>>()));
        }
        if mine > 0 && !armed {
            report::violation("spurious-event", format!("{:?}", ev.iter().collect::<Vec<_>>()));
        }
        if n == 0 && !notified && !armed && (el as u128) < t.as_nanos() {
            report::violation("early-timeout", format!("step {i}: wait({t:?}) returned nothing after {el} ns; signals {signals}, registrations by others {churn}"));
        }
        if mine == 0 && armed && !notified && ev.capacity().get() > 1 {
            report::violation("missed-oneshot", format!("step {i}: wait({t:?}) did not deliver a ready source"));
        }
        if mine == 1 {
            let mut b = [0u8; 8];
            sys::read(efd, &mut b);
        } else if armed {
            // Not yet delivered: take it away.
            ok(p.modify(fdb(efd), Event::none(1), PollMode::Oneshot), "modify");
            let mut b = [0u8; 8];
            sys::read(efd, &mut b);
        }
        report::count("waits", 1);
        if n == 0 && !notified {
            report::count("timeouts_observed", 1);
        }
    }
    drop(storm);
    stop.store(true, SeqCst);
    if let Some(h) = h {
        h.join().expect("harness: churn");
    }
    // Precision: the best of many attempts, against the harness's own sleeps.
    if !churn && !signals && rng.chance(1, 4) {
        shim::no_regime();
        let p = &ps[0];
        let t = *rng.pick(&[ns(1), us(50), us(300), us(1000), us(2500)]);
        let (mut best, mut own) = (u64::MAX, u64::MAX);
        for _ in 0..12 {
            let a = sys::now_ns();
            let n = wait(p, &mut ev, Some(t), None);
            let b = sys::now_ns();
            sys::sleep(t);
            let c = sys::now_ns();
            if n != 0 {
                report::violation("spurious-event", format!("{:?}", ev.iter().collect::<Vec<_>>()));
            }
            best = best.min(b - a);
            own = own.min(c - b);
        }
        report::count("precision_checks", 1);
        if best > own.max(t.as_nanos() as u64) + 6_000_000 {
            report::violation("timeout-overrun", format!("the shortest of 12 waits of {t:?} took {best} ns (a plain sleep: {own} ns)"));
        }
    }
    for (p, e) in ps.iter().zip(&efds) {
        ok(p.delete(fdb(*e)), "delete");
        sys::close(*e);
    }
    report::distinct(hash.0);
    report::sample(|| report::history().join("; "));
}

fn long_timeouts() -> Vec<Option<Duration>> {
    let ms = Duration::from_millis;
    let s = Duration::from_secs;
    let mut v: Vec<Option<Duration>> = vec![
        None,
        Some(s(5)), Some(s(60)), Some(s(3600)), Some(s(86_400)), Some(s(30 * 86_400)), Some(s(100 * 365 * 86_400)),
        Some(Duration::MAX), Some(Duration::new(u64::MAX, 0)), Some(Duration::new(u64::MAX, 999_999_999)),
        Some(s(i64::MAX as u64)), Some(s(i64::MAX as u64 - 1)), Some(s(i64::MAX as u64 + 1)), Some(s(u64::MAX / 2)), Some(s(u64::MAX / 1000)), Some(s(u64::MAX / 1000 + 1)),
        Some(s(i32::MAX as u64)), Some(s(i32::MAX as u64 + 1)), Some(s(u32::MAX as u64)), Some(s(u32::MAX as u64 + 1)), Some(s(u32::MAX as u64 + 2)),
        Some(ns(u64::MAX)), Some(ns(i64::MAX as u64)), Some(ns(i64::MAX as u64 + 1)), Some(Duration::from_nanos(u64::MAX) + ns(1)),
    ];
    for b in [31u32, 32, 33, 34, 40, 63] {
        for d in [-2i64, -1, 0, 1, 2, 500] {
            let x = (1u64 << b) as i128 + d as i128;
            v.push(Some(ms(x as u64)));
            v.push(Some(ms(x as u64) + ns(1)));
            if b <= 40 {
                v.push(Some(us(x as u64)));
                if x > 4_000_000_000 {
                    v.push(Some(ns(x as u64)));
                }
            }
        }
    }
    // Nothing shorter than what is watched here.
    v.retain(|t| t.map_or(true, |t| t >= Duration::from_secs(3)));
    v
}

/// Waits with timeouts from seconds to for ever: they stay asleep whatever happens around them
/// until they are ended by an event or a notification.
pub fn long_waits(cx: &mut Ctx) {
    let all = long_timeouts();
    let rng = &mut cx.rng;
    limits(rng);
    // Several at once, each with a poller of its own.
    let k = 6;
    let mut hs = vec![];
    let base = cx.iter as usize * k;
    let mut desc = vec![];
    for j in 0..k {
        let t = all[(base + j) % all.len()];
        let mut r = rng.fork();
        report::distinct(((base + j) % all.len()) as u64 + 1);
        desc.push(format!("{t:?}"));
        hs.push(std::thread::spawn(move || long_wait(t, &mut r)));
    }
    report::log(format!("waits of {}", desc.join(", ")));
    for h in hs {
        h.join().expect("harness: long wait");
    }
    report::sample(|| report::history().join("; "));
}
/// Waits that end at once although their timeouts are at the limits of what the types on the way
/// can hold: milliseconds in an i32, nanoseconds in a u64, the last instant there is, and so on.
fn limits(rng: &mut Rng) {
    let p = P::new();
    let efd = sys::eventfd(1);
    let mut ev = events(4);
    let now = std::time::Instant::now();
    let fits = |t: Duration| now.checked_add(t).is_some();
    let (mut lo, mut hi) = (0u64, u64::MAX);
    while hi - lo > 1 {
        let mid = lo + (hi - lo) / 2;
        if fits(Duration::from_secs(mid)) {
            lo = mid
        } else {
            hi = mid
        }
    }
    let (mut a, mut b) = (0u32, 1_000_000_000);
    while b - a > 1 {
        let mid = a + (b - a) / 2;
        if fits(Duration::new(lo, mid)) {
            a = mid
        } else {
            b = mid
        }
    }
    let end = now + Duration::new(lo, a);
    let near: [Duration; 14] = [
        Duration::from_millis(i32::MAX as u64),
        Duration::from_millis(u32::MAX as u64),
        Duration::from_millis(i64::MAX as u64),
        Duration::from_millis(u64::MAX),
        Duration::from_micros(i32::MAX as u64),
        Duration::from_micros(u64::MAX),
        Duration::from_nanos(i32::MAX as u64),
        Duration::from_nanos(i64::MAX as u64),
        Duration::from_nanos(u64::MAX),
        Duration::from_secs(i32::MAX as u64),
        Duration::from_secs(u32::MAX as u64),
        Duration::from_secs(i64::MAX as u64),
        Duration::from_secs(u64::MAX),
        Duration::MAX,
    ];
    let mut registered = false;
    for i in 0..600 {
        let t = if i % 3 != 0 {
            // Just before, at or just after the last instant.
            let bits = rng.range(1, 17);
            let m = Duration::from_nanos(rng.below(1 << bits) as u64);
            let left = end - std::time::Instant::now();
            if rng.chance(1, 8) {
                left.saturating_add(m)
            } else {
                left - m
            }
        } else {
            let d = Duration::from_nanos(*rng.pick(&[0, 1, 999_999, 1_000_000, 1_000_001, 1_000_000_000, 3_000_000_000]));
            let n = *rng.pick(&near);
            if rng.chance(1, 2) {
                n.saturating_add(d)
            } else {
                n.saturating_sub(d)
            }
        };
        ev.clear();
        if rng.chance(1, 3) {
            if !registered {
                ok(p.add(efd, Event::readable(7), PollMode::Oneshot), "add");
                registered = true;
            } else {
                ok(p.modify(fdb(efd), Event::readable(7), PollMode::Oneshot), "modify");
            }
            let n = wait(&p, &mut ev, Some(t), Some("missed-ready-blocked"));
            if n != 1 || ev.iter().any(|e| e.key != 7) {
                report::violation("missed-oneshot", format!("wait({t:?}) returned {n} with a source ready"));
            }
        } else {
            ok(p.notify(), "notify");
            let n = wait(&p, &mut ev, Some(t), Some("notify-lost"));
            if n != 0 {
                report::violation("spurious-event", format!("wait({t:?}) returned {n} with nothing ready"));
            }
        }
        report::count("limit_waits", 1);
    }
    if registered {
        ok(p.delete(fdb(efd)), "delete");
    }
    sys::close(efd);
}
fn long_wait(t: Option<Duration>, r: &mut Rng) {
    let p = Arc::new(P::new());
    let efd = sys::eventfd(0);
    ok(p.add(efd, Event::readable(5), PollMode::Oneshot), "add");
    let before = r.below(3);
    let mut ev = events(4);
    match before {
        1 => {
            // An earlier wait that timed out.
            wait(&p, &mut ev, Some(us(100)), None);
        }
        2 => {
            // An earlier wait with a timeout still to run, ended by a notification.
            ok(p.notify(), "notify");
            wait(&p, &mut ev, Some(us(1500)), Some("notify-lost"));
        }
        _ => {}
    }
    let tid = Arc::new(AtomicI32::new(0));
    let slot = Arc::new(AtomicUsize::new(0));
    let h = {
        let (p, tid, slot) = (p.clone(), tid.clone(), slot.clone());
        std::thread::spawn(move || {
            let mut ev = events(4);
            slot.store(vp::my_slot(), SeqCst);
            tid.store(sys::gettid(), SeqCst);
            let n = wait(&p, &mut ev, t, None);
            (n, ev.iter().map(|e| e.key).collect::<Vec<_>>())
        })
    };
    while tid.load(SeqCst) == 0 {
        sys::sleep(us(50));
    }
    let tid = tid.load(SeqCst);
    sys::wait_asleep(tid, Duration::from_millis(4), Duration::from_secs(20));
    let s = slot.load(SeqCst);
    let early = |when: &str| {
        if h.is_finished() || vp::slot_in_call(s).is_none() {
            report::violation("early-timeout", format!("wait({t:?}) with nothing to report has returned {when}"));
        }
    };
    early("at once");
    sys::install_handler();
    let e2 = sys::eventfd(0);
    for i in 0..r.range(2, 6) {
        let refused = |r: std::io::Result<()>, k: std::io::ErrorKind, what: &str| match r {
            Err(e) if e.kind() == k => {}
            Ok(()) if vp::PORT => {}
            r => report::violation("op-result", format!("{what} returned {r:?}")),
        };
        match r.below(7) {
            0 => sys::signal_thread(tid),
            3 => refused(p.add(efd, Event::readable(5), PollMode::Oneshot), std::io::ErrorKind::AlreadyExists, "add of a registered source"),
            4 => refused(p.modify(fdb(e2), Event::readable(9), PollMode::Oneshot), std::io::ErrorKind::NotFound, "modify of an unregistered source"),
            5 => refused(p.delete(fdb(e2)), std::io::ErrorKind::NotFound, "delete of an unregistered source"),
            1 => {
                ok(p.add(e2, Event::readable(6 + i), vp::LEVEL), "add");
                ok(p.delete(fdb(e2)), "delete");
            }
            _ => ok(p.modify(fdb(efd), Event::readable(5), PollMode::Oneshot), "modify"),
        }
        sys::sleep(us(r.below(3000) as u64));
        early("after a signal or a registration call");
    }
    sys::close(e2);
    sys::wait_asleep(tid, Duration::from_millis(4), Duration::from_secs(20));
    early("in the end");
    let by_event = r.chance(1, 2);
    vp::owe(s, if by_event { "missed-ready-blocked" } else { "notify-lost" }, move || Some(format!("wait({t:?}): it has been given a reason to return")));
    if by_event {
        sys::write(efd, &1u64.to_ne_bytes());
    } else {
        ok(p.notify(), "notify");
    }
    let (n, keys) = h.join().expect("harness: waiter");
    if by_event != (n == 1 && keys == [5]) || (!by_event && n != 0) {
        report::violation(if by_event { "missed-oneshot" } else { "internal-event" }, format!("wait({t:?}) returned {n} events {keys:?}"));
    }
    // Nothing of the long timeout is left.
    let t2 = us(700);
    ok(p.modify(fdb(efd), Event::none(5), PollMode::Oneshot), "modify");
    let a = sys::now_ns();
    let n = wait(&p, &mut ev, Some(t2), None);
    let el = sys::now_ns() - a;
    if n != 0 || (el as u128) < t2.as_nanos() {
        report::violation(if n > 0 { "spurious-event" } else { "early-timeout" }, format!("wait({t2:?}) after wait({t:?}): {n} events after {el} ns"));
    }
    ok(p.delete(fdb(efd)), "delete");
    sys::close(efd);
    report::count("waits", 2);
    report::count("long_waits", 1);
}

/// The virtual clock: every blocking system call of the library lets time pass instantly, so the
/// return time of a wait is exact for any timeout.
pub fn vtime(cx: &mut Ctx) {
    if !shim::ACTIVE {
        report::inconclusive("the virtual clock needs the interposed build");
    }
    static WATCH: AtomicU64 = AtomicU64::new(0);
    if WATCH.load(SeqCst) == 0 {
        WATCH.store(1, SeqCst);
        std::thread::spawn(|| {
            let (mut last, mut since) = (0, sys::now_ns());
            loop {
                sys::sleep(Duration::from_millis(200));
                let w = WATCH.load(SeqCst);
                if w != last {
                    last = w;
                    since = sys::now_ns();
                } else if sys::now_ns() - since > 20_000_000_000 {
                    report::inconclusive("a wait sleeps in a way the virtual clock does not cover");
                }
            }
        });
    }
    let rng = &mut cx.rng;
    let p = Rc::new(P::new());
    let efd = sys::eventfd(0);
    ok(p.add(efd, Event::none(1), PollMode::Oneshot), "add");
    let mut ev = events(*rng.pick(&[1usize, 2, 64]));
    let v = shim::vt();
    v.timers.clear();
    v.plan.clear();
    v.now = 1 + rng.next() % (1 << rng.range(1, 50));
    v.on = true;
    let precise = vp::supports_edge_backend() && !crate::seccomp_has("timerfd");
    let mut hash = report::Hash::new();
    let day = 86_400_000_000_000u64;
    for _ in 0..rng.range(3, 12) {
        WATCH.fetch_add(1, SeqCst);
        // A timeout of any magnitude.
        let t: Option<Duration> = match rng.below(12) {
            0 => None,
            1 => Some(ns(0)),
            2 => Some(ns(rng.range(1, 2000) as u64)),
            3 => Some(us(rng.range(1, 5000) as u64)),
            4 => Some(us(rng.range(1, 5000) as u64) + ns(rng.range(0, 999) as u64)),
            5 => Some(Duration::from_millis(rng.range(1, 100_000) as u64)),
            6 => Some(Duration::from_millis(rng.range(1, 3_000_000_000) as u64) + ns(rng.below(3) as u64)),
            7 => Some(*rng.pick(&[ns(1), ns(999), ns(999_999), ns(1_000_000), ns(1_000_001), ns(999_999_999), ns(1_000_000_000), ns(1_000_000_001), ns(1 << 31), ns(1 << 32), us(1 << 31), us(1 << 32)])),
            8 => Some(Duration::from_millis((1u64 << 31) - 1 - rng.below(3) as u64)),
            9 => Some(*rng.pick(&[Duration::MAX, Duration::from_secs(u64::MAX), Duration::from_secs(i64::MAX as u64), ns(u64::MAX), ns(i64::MAX as u64)])),
            _ => {
                let e = rng.range(0, 58);
                Some(ns((rng.next() >> (63 - e)).max(1)))
            }
        };
        let start = v.now;
        let tn = t.map_or(u64::MAX, |t| t.as_nanos().min(u64::MAX as u128) as u64);
        let timeout_at = start.saturating_add(tn);
        let span = tn.clamp(1, 50 * 365 * day);
        let at = |rng: &mut Rng| -> u64 {
            start + match rng.below(4) {
                0 => 0,
                1 => rng.next() % span,
                2 => span.saturating_sub(1 + rng.next() % 2_000_000),
                _ => rng.next() % (span + span / 4 + 1),
            }
        };
        let mut plan: Vec<(u64, &str)> = vec![];
        for _ in 0..*rng.pick(&[0usize, 0, 1, 2, 7, 40]) {
            plan.push((at(rng), "interrupt"));
        }
        let mut end = timeout_at;
        let mut cause = "timeout";
        let mut pre_notify = false;
        let armed = rng.chance(1, 2);
        if armed {
            let mut b = [0u8; 8];
            sys::read(efd, &mut b);
            ok(p.modify(fdb(efd), Event::readable(1), PollMode::Oneshot), "modify");
        } else {
            ok(p.modify(fdb(efd), Event::none(1), PollMode::Oneshot), "modify");
        }
        let mut pre_ready = false;
        match rng.below(8) {
            0 => {
                ok(p.notify(), "notify");
                pre_notify = true;
                end = start;
                cause = "notification";
            }
            1 if armed => {
                sys::write(efd, &1u64.to_ne_bytes());
                pre_ready = true;
                end = start;
                cause = "event";
            }
            2 => {
                let a = at(rng);
                plan.push((a, "notify"));
            }
            3 | 4 if armed => {
                let a = at(rng);
                plan.push((a, "event"));
            }
            _ => {}
        }
        if t.map_or(true, |_| tn > 80 * 365 * day) && end == timeout_at {
            // It has to end some time.
            let a = start + 50 * 365 * day + rng.next() % day;
            plan.push((a, "notify"));
        }
        for (a, w) in &plan {
            if *w != "interrupt" && *a < end {
                end = *a;
                cause = if *w == "event" { "event" } else { "notification" };
            }
        }
        let did = Rc::new(Cell::new(0u32));
        for (a, w) in &plan {
            let act = match *w {
                "interrupt" => VtAction::Interrupt,
                "notify" => {
                    let (p, did) = (p.clone(), did.clone());
                    VtAction::Run(Box::new(move || {
                        ok(p.p.notify(), "notify");
                        did.set(did.get() | 1);
                    }))
                }
                _ => {
                    let did = did.clone();
                    VtAction::Run(Box::new(move || {
                        sys::write(efd, &1u64.to_ne_bytes());
                        did.set(did.get() | 2);
                    }))
                }
            };
            v.plan.push((*a, act));
        }
        plan.sort();
        report::log(format!("at {start}: wait({t:?}), armed {armed}, notified {pre_notify}, ready {pre_ready}, plan {:?}", plan.iter().map(|x| (x.0 - start, x.1)).collect::<Vec<_>>()));
        v.stuck = false;
        let (s0, i0) = (v.sleeps, v.interruptions);
        ev.clear();
        let r = p.wait(&mut ev, t, Some(if cause == "notification" { "notify-lost" } else if cause == "event" { "missed-ready-blocked" } else { "timeout-overrun" }));
        let now = v.now;
        v.plan.clear();
        if v.stuck {
            report::violation(match cause { "timeout" => "timeout-overrun", "event" => "missed-ready-blocked", _ => "notify-lost" }, format!("wait({t:?}) would sleep for ever; it had to end by {cause} after {} ns", end - start));
        }
        let n = match r {
            Ok(n) => n,
            Err(e) => report::violation("wait-error", format!("wait({t:?}) returned {e:?} ({} interruptions)", v.interruptions - i0)),
        };
        if v.sleeps == s0 && tn > 0 && end > start {
            report::inconclusive("a wait does not sleep in a way the virtual clock covers");
        }
        let el = now - start;
        let desc = format!("wait({t:?}) with {} interruptions returned {n} events after {el} ns of virtual time; due by {cause} after {} ns", v.interruptions - i0, end - start);
        if now < end {
            report::violation("early-timeout", desc);
        }
        if tn < 80 * 365 * day || end < start + 80 * 365 * day {
            // Without a precise timer long timeouts have to be split, and each part is rounded.
            let slack = if cause != "timeout" || tn == 0 { 0 } else if precise { 100_000 } else { 1_100_000 * (1 + tn / (24 * day)) };
            if now > end + slack {
                report::violation(match cause { "timeout" => "timeout-overrun", "event" => "missed-ready-blocked", _ => "notify-lost" }, desc);
            }
        }
        let ready_now = pre_ready || did.get() & 2 != 0;
        if n > ready_now as usize || (n == 1 && !armed) {
            report::violation("internal-event", format!("{desc}: {:?}", ev.iter().collect::<Vec<_>>()));
        }
        if cause == "event" && now == end && n == 0 && !pre_notify && did.get() & 1 == 0 {
            report::violation("missed-oneshot", desc);
        }
        if n == 1 {
            let e = ev.iter().next().unwrap();
            if e.key != 1 || !e.readable || e.writable {
                report::violation("spurious-event", format!("{e:?}"));
            }
        }
        report::count("waits", 1);
        report::count("interruptions", v.interruptions - i0);
        report::count(&format!("ended_by_{cause}"), 1);
        hash.add(tn);
        hash.add(plan.len() as u64);
        // What happened but was not looked at yet must still be there.
        if did.get() & 1 != 0 || pre_notify {
            // A notification after the end of the wait (never) or before: consumed.
        }
        let mut b = [0u8; 8];
        if n == 0 && ready_now && armed {
            let k = wait(&p, &mut ev, Some(Duration::ZERO), None);
            let k = k + if k == 0 { wait(&p, &mut ev, Some(Duration::ZERO), None) } else { 0 };
            if k != 1 {
                report::violation("missed-oneshot", format!("{desc}; the source became ready but is not delivered afterwards"));
            }
        }
        sys::read(efd, &mut b);
        report::distinct(hash.0);
    }
    v.on = false;
    v.timers.clear();
    let _ = p.delete(fdb(efd));
    sys::close(efd);
    report::sample(|| report::history().join("; "));
}

/// Dense signals up to and beyond the deadline of a wait.
pub fn sigtime(cx: &mut Ctx) {
    let rng = &mut cx.rng;
    let p = Arc::new(P::new());
    let efd = sys::eventfd(0);
    ok(p.add(efd, Event::readable(3), PollMode::Oneshot), "add");
    sys::install_handler();
    let t = us(*rng.pick(&[200u64, 900, 1000, 3000, 7500, 15_000]) + rng.below(300) as u64);
    let gap = *rng.pick(&[5u64, 20, 60, 200, 900]);
    let ending = rng.below(4);
    report::log(format!("wait({t:?}), a signal every {gap} us, ending {ending}"));
    let tid = Arc::new(AtomicI32::new(0));
    let slot = Arc::new(AtomicUsize::new(0));
    let done = Arc::new(AtomicBool::new(false));
    let h = {
        let (p, tid, slot, done) = (p.clone(), tid.clone(), slot.clone(), done.clone());
        std::thread::spawn(move || {
            let mut ev = events(4);
            slot.store(vp::my_slot(), SeqCst);
            tid.store(sys::gettid(), SeqCst);
            let a = sys::now_ns();
            let n = wait(&p, &mut ev, Some(if ending < 2 { t } else { Duration::from_secs(40) }), None);
            let b = sys::now_ns();
            done.store(true, SeqCst);
            (n, a, b)
        })
    };
    while tid.load(SeqCst) == 0 {
        sys::yield_now();
    }
    let (tid, slot) = (tid.load(SeqCst), slot.load(SeqCst));
    let mut cause_at = None;
    let mut at_cause = 0;
    let start = sys::now_ns();
    let mut sent = 0u64;
    let mut first_call = None;
    while !done.load(SeqCst) {
        sys::signal_thread(tid);
        sent += 1;
        sys::sleep(us(gap));
        let now = sys::now_ns();
        if first_call.is_none() {
            first_call = vp::slot_in_call(slot).map(|_| now);
        }
        let due = match cause_at {
            Some(_) => true,
            None => first_call.map_or(false, |f| now > f + t.as_nanos() as u64),
        };
        if due && cause_at.is_none() {
            if ending == 2 {
                sys::write(efd, &1u64.to_ne_bytes());
            }
            if ending == 3 {
                ok(p.notify(), "notify");
            }
            cause_at = Some(now);
            at_cause = sys::HANDLED.load(SeqCst);
        }
        if let Some(c) = cause_at {
            // The waiting thread has run through hundreds of interruptions since.
            let more = sys::HANDLED.load(SeqCst) - at_cause;
            if more > 400 && now > c + 100_000_000 && !done.load(SeqCst) && vp::slot_in_call(slot).is_some() {
                let k = match ending {
                    2 => "missed-ready-blocked",
                    3 => "notify-lost",
                    _ => "timeout-overrun",
                };
                report::violation(k, format!("{more} signals were handled by the waiting thread in the {} ms since the wait had to return", (now - c) / 1_000_000));
            }
        }
        if now - start > 60_000_000_000 {
            report::inconclusive("harness: the signalled wait does not end");
        }
    }
    let (n, a, b) = h.join().expect("harness: waiter");
    let want = (ending == 2) as usize;
    if n != want {
        report::violation(if want == 1 { "missed-oneshot" } else { "spurious-event" }, format!("{n} events instead of {want}"));
    }
    if ending < 2 && ((b - a) as u128) < t.as_nanos() {
        report::violation("early-timeout", format!("wait({t:?}) returned after {} ns while {sent} signals arrived", b - a));
    }
    if ending >= 2 && cause_at.is_none() {
        report::violation("early-timeout", format!("wait(40s) returned after {} ns while {sent} signals arrived", b - a));
    }
    ok(p.delete(fdb(efd)), "delete");
    sys::close(efd);
    report::count("waits", 1);
    report::count("signals", sent);
    report::distinct(rng.next() % 7 + gap * 100 + ending as u64 * 10 + t.as_micros() as u64 * 100_000);
    report::sample(|| format!("{}: {sent} signals, took {} ns", report::history().join(" "), b - a));
}

/// Registration calls by another thread, also refused ones, up to and beyond the moment at which
/// a wait has to return.
pub fn optime(cx: &mut Ctx) {
    let rng = &mut cx.rng;
    let regime = shim::random_regime(rng);
    let p = Arc::new(P::new());
    let (efd, e1, e2) = (sys::eventfd(0), sys::eventfd(0), sys::eventfd(0));
    ok(p.add(efd, Event::readable(3), PollMode::Oneshot), "add");
    ok(p.add(e1, Event::readable(4), PollMode::Oneshot), "add");
    let t = us(*rng.pick(&[100u64, 900, 1000, 3000, 7500, 15_000]) + rng.below(300) as u64);
    let gap = *rng.pick(&[0u64, 5, 60, 200, 500, 1000, 2500]);
    let ending = rng.below(5);
    let ops: Vec<usize> = match rng.below(5) {
        0 => vec![0],
        1 => vec![1],
        2 => vec![2, 3, 4],
        3 => vec![5],
        _ => (0..6).collect(),
    };
    report::log(format!("wait({t:?}), calls {ops:?} every {gap} us, ending {ending}, delays: {regime}"));
    let tid = Arc::new(AtomicI32::new(0));
    let slot = Arc::new(AtomicUsize::new(0));
    let done = Arc::new(AtomicBool::new(false));
    let long = ending >= 2;
    let h = {
        let (p, tid, slot, done) = (p.clone(), tid.clone(), slot.clone(), done.clone());
        std::thread::spawn(move || {
            let mut ev = events(4);
            slot.store(vp::my_slot(), SeqCst);
            tid.store(sys::gettid(), SeqCst);
            let a = sys::now_ns();
            let n = wait(&p, &mut ev, Some(if long { Duration::from_secs(400) } else { t }), None);
            let b = sys::now_ns();
            done.store(true, SeqCst);
            (n, ev.iter().map(|e| e.key).collect::<Vec<_>>(), a, b)
        })
    };
    while tid.load(SeqCst) == 0 {
        sys::yield_now();
    }
    let (tid, slot) = (tid.load(SeqCst), slot.load(SeqCst));
    let mut cause_at: Option<u64> = None;
    let mut first_call = None;
    let (mut calls, mut cycles, mut asleep_for) = (0u64, 0u64, 0u64);
    let mut last_switches = 0;
    let start = sys::now_ns();
    let mut armed_now = false;
    let refused = |r: std::io::Result<()>, k: std::io::ErrorKind, what: &str| match r {
        Err(e) if e.kind() == k => {}
        Ok(()) if vp::PORT => {}
        r => report::violation("op-result", format!("{what} returned {r:?}")),
    };
    while !done.load(SeqCst) {
        match *rng.pick(&ops) {
            0 => ok(p.modify(fdb(e1), Event::readable(4), PollMode::Oneshot), "modify"),
            1 => {
                ok(p.add(e2, Event::readable(5), vp::LEVEL), "add");
                ok(p.delete(fdb(e2)), "delete");
            }
            2 => refused(p.add(e1, Event::readable(4), PollMode::Oneshot), std::io::ErrorKind::AlreadyExists, "add of a registered source"),
            3 => refused(p.modify(fdb(e2), Event::readable(9), PollMode::Oneshot), std::io::ErrorKind::NotFound, "modify of an unregistered source"),
            4 => refused(p.delete(fdb(e2)), std::io::ErrorKind::NotFound, "delete of an unregistered source"),
            // The source that will become ready is off for a moment, never after it is.
            _ if !armed_now => {
                ok(p.modify(fdb(efd), Event::none(3), PollMode::Oneshot), "modify");
                ok(p.modify(fdb(efd), Event::readable(3), PollMode::Oneshot), "modify");
            }
            _ => ok(p.modify(fdb(e1), Event::none(4), vp::LEVEL), "modify"),
        }
        calls += 1;
        // Once the wait has to return it gets room to: calls without a pause may hold it up.
        let g = if cause_at.is_some() { gap.max(300) } else { gap };
        if g > 0 {
            sys::sleep(us(g));
        }
        let now = sys::now_ns();
        if first_call.is_none() {
            first_call = vp::slot_in_call(slot).map(|_| now);
        }
        if cause_at.is_none() && first_call.map_or(false, |f| now > f + t.as_nanos() as u64) {
            armed_now = true;
            cause_at = Some(now);
            shim::no_regime();
            match ending {
                2 => {
                    sys::write(efd, &1u64.to_ne_bytes());
                }
                3 => ok(p.notify(), "notify"),
                4 => {
                    // Ready before it is registered.
                    ok(p.delete(fdb(efd)), "delete");
                    sys::write(efd, &1u64.to_ne_bytes());
                    ok(p.add(efd, Event::readable(3), PollMode::Oneshot), "add");
                }
                _ => {}
            }
        }
        if let Some(c) = cause_at {
            // Rounds of calls during which the waiting thread was scheduled and went to sleep again,
            // and time it was seen asleep between them.
            if let Some(f) = sys::thread_facts(tid) {
                if f.state == b'S' {
                    asleep_for += 1;
                    if f.switches != last_switches {
                        cycles += 1;
                    }
                }
                last_switches = f.switches;
            }
            if cycles > 300 && asleep_for > 300 && now > c + 400_000_000 && !done.load(SeqCst) && vp::slot_in_call(slot).is_some() {
                let k = match ending {
                    2 | 4 => "missed-ready-blocked",
                    3 => "notify-lost",
                    _ => "timeout-overrun",
                };
                report::violation(k, format!("the waiting thread was scheduled and went back to sleep {cycles} times in the {} ms since the wait had to return", (now - c) / 1_000_000));
            }
            if now > c + 3_000_000_000 {
                // It does not move at all: leave it to the monitor.
                let k = match ending {
                    2 | 4 => "missed-ready-blocked",
                    3 => "notify-lost",
                    _ => "timeout-overrun",
                };
                vp::owe(slot, k, || Some("after registration calls by another thread".into()));
                let s0 = sys::now_ns();
                while !done.load(SeqCst) {
                    sys::sleep(us(500));
                    if sys::now_ns() - s0 > 60_000_000_000 {
                        report::inconclusive("harness: the wait does not end");
                    }
                }
                vp::clear_owed();
            }
        }
        if now - start > 90_000_000_000 {
            report::inconclusive("harness: the wait does not end");
        }
    }
    let (n, keys, a, b) = h.join().expect("harness: waiter");
    let want = (ending == 2 || ending == 4) as usize;
    if n != want || (want == 1 && keys != [3]) {
        if n > 0 {
            report::violation("spurious-event", format!("events {keys:?}, expected {want} with key 3"));
        }
        if cause_at.is_some() {
            report::violation("missed-oneshot", format!("{n} events instead of {want}"));
        }
    }
    if !long && ((b - a) as u128) < t.as_nanos() {
        report::violation("early-timeout", format!("wait({t:?}) returned after {} ns among {calls} registration calls", b - a));
    }
    if long && cause_at.is_none() {
        report::violation("early-timeout", format!("wait(400s) returned after {} ns among {calls} registration calls", b - a));
    }
    for f in [efd, e1] {
        ok(p.delete(fdb(f)), "delete");
    }
    for f in [efd, e1, e2] {
        sys::close(f);
    }
    report::count("waits", 1);
    report::count("operations", calls);
    report::distinct(gap * 100 + ending as u64 * 10 + ops.len() as u64 + t.as_micros() as u64 * 100_000);
    report::sample(|| format!("{}: {calls} calls, took {} ns", report::history().join(" "), b - a));
}
