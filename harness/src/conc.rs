//! Concurrent workloads: registration from many threads, a reactor with workers, notification
//! storms, many waiting threads.
use crate::lin::{self, Op, Rec, Rules};
use crate::report;
use crate::rng::Rng;
use crate::seq::exported_fd;
use crate::shim;
use crate::src::{Kind, Sources};
use crate::sys::{self, IN};
use crate::vp::{self, P};
use crate::Ctx;
use polling::{Event, Events, PollMode};
use std::collections::{BTreeMap, BTreeSet};
use std::io::ErrorKind;
use std::num::NonZeroUsize;
use std::os::fd::BorrowedFd;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex};
use std::time::Duration;

pub fn fdb(fd: i32) -> BorrowedFd<'static> {
    unsafe { BorrowedFd::borrow_raw(fd) }
}
pub fn events(cap: usize) -> Events {
    Events::with_capacity(NonZeroUsize::new(cap).unwrap())
}
pub fn us(n: u64) -> Duration {
    Duration::from_micros(n)
}
fn pause(r: &mut Rng) {
    match r.below(8) {
        0 => sys::sleep(us(r.below(120) as u64)),
        1 | 2 => sys::yield_now(),
        3 => {
            for _ in 0..r.below(3000) {
                std::hint::spin_loop();
            }
        }
        _ => {}
    }
}
/// How long a thread has to be quiet to be taken as asleep for good (injected delays are shorter).
fn settle() -> Duration {
    if shim::ACTIVE || shim::stalling() {
        Duration::from_millis(6)
    } else if cfg!(vh_slow) {
        Duration::from_millis(20)
    } else {
        Duration::from_micros(1500)
    }
}
static TICK: AtomicU64 = AtomicU64::new(1);
fn tick() -> u64 {
    TICK.fetch_add(1, SeqCst)
}

/// Registration calls from several threads against a waiting thread; every source's history must
/// be explained by some sequential order, with nothing due at the end.
pub fn registrations(cx: &mut Ctx) {
    let rng = &mut cx.rng;
    let regime = shim::random_regime(rng);
    let mut s = Sources::default();
    let oneshot = rng.chance(3, 4) || vp::PORT;
    let mode = if oneshot { PollMode::Oneshot } else { PollMode::Level };
    let nsrc = rng.range(1, 4);
    let nthreads = rng.range(1, 4);
    let nops = rng.range(3, if nthreads > 2 { 10 } else { 18 });
    let mut fds = vec![];
    let mut ready = vec![];
    for _ in 0..nsrc {
        let k = *rng.pick(&[Kind::Event, Kind::Unix, Kind::PipeR]);
        let v = s.create(k);
        let rd = rng.chance(5, 6);
        if rd {
            let from = s.eps[v[0]].peer.unwrap_or(v[0]);
            s.send(from, 1);
        }
        fds.push(s.eps[v[0]].fd);
        ready.push(rd);
    }
    let churn = rng.chance(1, 3);
    let noise = rng.chance(1, 3);
    let cap = *rng.pick(&[1usize, 2, 8, 64]);
    let wait_style = rng.below(3);
    report::log(format!("{nsrc} sources {fds:?} ready {ready:?}, {nthreads} threads x {nops} operations, {mode:?}, capacity {cap}, wait style {wait_style}, churn {churn}, noise {noise}, delays: {regime}"));
    let p = Arc::new(P::new());
    let stop = Arc::new(AtomicBool::new(false));
    let wtid = Arc::new(AtomicI32::new(0));
    let wslot = Arc::new(AtomicUsize::new(usize::MAX));
    let barrier = Arc::new(Barrier::new(nthreads + 1));
    // Registered before anything else happens, made ready after everything: key 8.
    let sentinel = sys::eventfd(0);
    let seen_sentinel = Arc::new(AtomicBool::new(false));
    p.add(sentinel, Event::readable(8), PollMode::Oneshot).unwrap_or_else(|e| report::violation("op-result", format!("add returned {e:?}")));
    // Waiter.
    let waiter = {
        let (p, stop, wtid, wslot, barrier, seen_sentinel) = (p.clone(), stop.clone(), wtid.clone(), wslot.clone(), barrier.clone(), seen_sentinel.clone());
        let mut r = rng.fork();
        std::thread::spawn(move || {
            let mut ev = events(cap);
            let mut log: Vec<(u64, u64, Vec<usize>)> = vec![];
            wslot.store(vp::my_slot(), SeqCst);
            wtid.store(sys::gettid(), SeqCst);
            barrier.wait();
            let mut waits = 0u64;
            loop {
                let stopping = stop.load(SeqCst);
                ev.clear();
                let t = match wait_style {
                    0 => None,
                    1 => *r.pick(&[None, Some(us(0)), Some(us(50)), Some(us(700))]),
                    _ => *r.pick(&[None, None, None, Some(us(0)), Some(Duration::from_secs(100))]),
                };
                let t = if stopping { Some(Duration::ZERO) } else { t };
                let a = tick();
                let n = match p.wait(&mut ev, t, None) {
                    Ok(n) => n,
                    Err(e) => report::violation("wait-error", format!("wait returned {e:?}")),
                };
                let b = tick();
                waits += 1;
                if n != ev.len() {
                    report::violation("count", format!("wait returned {n}, the container holds {}", ev.len()));
                }
                let keys: Vec<usize> = ev.iter().map(|e| e.key).collect();
                for e in ev.iter() {
                    if !e.readable || e.writable {
                        report::violation("event-flags:readable", format!("{e:?} for a readable source registered for reading"));
                    }
                }
                let empty = keys.is_empty();
                if keys.contains(&8) {
                    seen_sentinel.store(true, SeqCst);
                }
                if !empty {
                    log.push((a, b, keys));
                }
                if !oneshot && r.chance(1, 3) {
                    sys::sleep(us(60));
                }
                if stopping && (empty || !oneshot) {
                    return (log, waits);
                }
            }
        })
    };
    // Mutators.
    let mut hs = vec![];
    for t in 0..nthreads {
        let (p, barrier, fds) = (p.clone(), barrier.clone(), fds.clone());
        let mut r = rng.fork();
        hs.push(std::thread::spawn(move || {
            let mut log: Vec<(usize, Rec)> = vec![];
            barrier.wait();
            for i in 0..nops {
                let si = r.below(fds.len());
                let fd = fds[si];
                let key = (t as u64 + 1) << 40 | (i as u64) << 8 | si as u64;
                let ev = Event::readable(key as usize);
                let c = r.below(10);
                let a = tick();
                let op = match c {
                    0..=3 => match p.add(fd, ev, mode) {
                        Ok(()) => Op::AddOk(key),
                        Err(e) if e.kind() == ErrorKind::AlreadyExists => Op::AddDup,
                        Err(e) => report::violation("op-result", format!("add returned {e:?}")),
                    },
                    4..=7 => match p.modify(fdb(fd), ev, mode) {
                        Ok(()) => Op::ModOk(key),
                        Err(e) if e.kind() == ErrorKind::NotFound => Op::ModMissing,
                        Err(e) => report::violation("op-result", format!("modify returned {e:?}")),
                    },
                    _ => match p.delete(fdb(fd)) {
                        Ok(()) => Op::DelOk,
                        Err(e) if e.kind() == ErrorKind::NotFound => Op::DelMissing,
                        Err(e) => report::violation("op-result", format!("delete returned {e:?}")),
                    },
                };
                let b = tick();
                log.push((si, Rec { op, start: a, end: b }));
                pause(&mut r);
            }
            log
        }));
    }
    // Other activity.
    let noise_h = (noise || churn).then(|| {
        let (p, stop) = (p.clone(), stop.clone());
        let mut r = rng.fork();
        std::thread::spawn(move || {
            let e = sys::eventfd(0);
            while !stop.load(SeqCst) {
                if noise && r.chance(1, 2) {
                    if let Err(e) = p.notify() {
                        report::violation("notify-error", format!("notify returned {e:?}"));
                    }
                }
                if churn {
                    p.add(e, Event::readable(7), PollMode::Oneshot).unwrap_or_else(|e| report::violation("op-result", format!("add returned {e:?}")));
                    p.delete(fdb(e)).unwrap_or_else(|e| report::violation("op-result", format!("delete returned {e:?}")));
                }
                sys::sleep(us(r.below(200) as u64));
            }
            sys::close(e);
        })
    });
    let mut threads: Vec<Vec<(usize, Rec)>> = hs.into_iter().map(|h| h.join().expect("harness: mutator")).collect();
    let nested: u64 = threads.iter().map(|t| t.len() as u64).sum();
    // Let the waiter settle in the wait it is in: everything due has to be delivered by it.
    let mut settled = false;
    if oneshot && wait_style == 0 && !(noise || churn) {
        settled = sys::wait_asleep(wtid.load(SeqCst), settle(), Duration::from_secs(20)) && vp::slot_in_call(wslot.load(SeqCst)).is_some();
    }
    let quiet_at = tick();
    // Whatever the registration calls did, the waiting thread is still waiting for the others.
    {
        let from = vp::slot_seq(wslot.load(SeqCst));
        sys::write(sentinel, &1u64.to_ne_bytes());
        let (slot, seen) = (wslot.load(SeqCst), seen_sentinel.clone());
        vp::owe(slot, "missed-ready-blocked", move || (!seen.load(SeqCst)).then(|| "a source registered from the start became ready".to_string()));
        let start = sys::now_ns();
        while !seen_sentinel.load(SeqCst) {
            sys::sleep(us(20));
            // Monitored by the stuck detector while a call is in progress; a waiter that keeps
            // returning without it is caught here.
            let waits = (vp::slot_seq(slot) - from) / 2;
            if sys::now_ns() - start > 20_000_000_000 && waits > 2000 {
                report::violation("missed-oneshot", format!("{waits} waits did not deliver a ready source registered from the start"));
            }
            if sys::now_ns() - start > 90_000_000_000 {
                report::inconclusive("harness: the sentinel is not delivered");
            }
        }
        vp::clear_owed();
    }
    stop.store(true, SeqCst);
    if let Some(h) = noise_h {
        h.join().expect("harness: noise");
    }
    shim::no_regime();
    p.notify().unwrap_or_else(|e| report::violation("notify-error", format!("notify returned {e:?}")));
    let (wlog, waits) = {
        let start = sys::now_ns();
        while !waiter.is_finished() {
            sys::sleep(us(20));
            // A waiter that went to sleep again just before the stop needs another push.
            if sys::now_ns() - start > 3_000_000 {
                let _ = p.notify();
            }
        }
        waiter.join().expect("harness: waiter")
    };
    // With the system quiet, nothing may be due.
    let mut fin: Vec<(u64, u64, Vec<usize>)> = vec![];
    let mut ev = events(64);
    loop {
        ev.clear();
        let a = tick();
        let n = p.wait(&mut ev, Some(Duration::ZERO), None).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
        let b = tick();
        fin.push((a, b, ev.iter().map(|e| e.key).collect()));
        if n == 0 || (!oneshot && fin.len() >= 4) {
            break;
        }
        if fin.len() > 50 {
            report::violation("dup-oneshot", "one-shot sources keep being delivered without being re-armed".to_string());
        }
    }
    if settled && wlog.iter().chain(&fin).any(|w| w.1 > quiet_at && w.2.iter().any(|k| *k != 8)) {
        // Confirm the classification: the waiter was asleep while this was due.
        report::violation("missed-ready-blocked", format!("with all registration calls finished, a wait slept although a source was ready and armed; delivered only later: {:?}", wlog.iter().chain(&fin).filter(|w| w.1 > quiet_at).collect::<Vec<_>>()));
    }
    let end = tick();
    for si in 0..nsrc {
        let mut hist: Vec<Vec<Rec>> = threads.iter_mut().map(|t| t.iter().filter(|x| x.0 == si).map(|x| x.1).collect()).collect();
        let mut dl: Vec<Rec> = vec![];
        for (a, b, keys) in wlog.iter().chain(fin.iter()) {
            let mine: Vec<usize> = keys.iter().copied().filter(|k| *k != 7 && *k != 8 && k & 0xff == si).collect();
            if mine.len() > 1 {
                report::violation("dup-in-wait", format!("source {si} was reported {} times by one wait", mine.len()));
            }
            if let Some(k) = mine.first() {
                dl.push(Rec { op: Op::Deliver(*k as u64), start: *a, end: *b });
            }
        }
        let last_key = fin.last().and_then(|f| f.2.iter().copied().find(|k| *k != 7 && *k != 8 && k & 0xff == si));
        if oneshot || last_key.is_none() {
            dl.push(Rec { op: Op::Quiet, start: end, end: end + 1 });
        }
        hist.push(dl);
        match lin::check(&hist, Rules { oneshot, ready: ready[si], loose: vp::PORT }, 400_000) {
            lin::Verdict::Ok(n) => {
                report::count("histories_linearized", 1);
                report::max("largest_search", n);
            }
            lin::Verdict::GaveUp => report::count("histories_too_large", 1),
            lin::Verdict::No(w) => {
                for (t, h) in hist.iter().enumerate() {
                    for r in h {
                        report::log(format!("source {si} thread {t}: {r:?}"));
                    }
                }
                let k = if w.contains("can follow: thread") && w.contains("Quiet") && !w.contains("Deliver") { "not-linearizable:missed" } else if w.contains("Deliver") { "not-linearizable:delivery" } else { "not-linearizable:result" };
                report::violation(k, format!("source {si} (fd {}, ready {}, {mode:?}): {w}", fds[si], ready[si]));
            }
        }
    }
    let mut h = report::Hash::new();
    let mut order: Vec<(u64, u64)> = vec![];
    for (t, th) in threads.iter().enumerate() {
        for (si, r) in th {
            let code = match r.op {
                Op::AddOk(_) => 1,
                Op::AddDup => 2,
                Op::ModOk(_) => 3,
                Op::ModMissing => 4,
                Op::DelOk => 5,
                _ => 6,
            };
            order.push((r.end, (t as u64) << 16 | (*si as u64) << 8 | code));
        }
    }
    for w in &wlog {
        order.push((w.1, 1 << 40 | w.2.len() as u64));
    }
    order.sort();
    for o in &order {
        h.add(o.1);
    }
    report::distinct(h.0);
    let _ = p.delete(fdb(sentinel));
    sys::close(sentinel);
    report::count("operations", nested);
    report::count("waits", waits);
    report::count("events", wlog.iter().map(|w| w.2.len() as u64).sum());
    report::sample(|| format!("{}; order of completion: {:?}", report::history().join(" "), order.iter().map(|o| o.1).take(40).collect::<Vec<_>>()));
    drop(p);
    drop(s);
}

/// Bytes flow through registered sources to a reactor and its workers; all must arrive.
pub fn reactor(cx: &mut Ctx) {
    let rng = &mut cx.rng;
    let regime = shim::random_regime(rng);
    let n = rng.range(1, 10);
    let cap = *rng.pick(&[1usize, 1, 2, 4, 64]);
    let mode = *rng.pick(if vp::supports_edge_backend() { &[PollMode::Oneshot, PollMode::Oneshot, PollMode::Oneshot, PollMode::EdgeOneshot, PollMode::Level, PollMode::Edge] } else { &[PollMode::Oneshot, PollMode::Oneshot, PollMode::Level, PollMode::Level, PollMode::Oneshot, PollMode::Level] });
    let mode = vp::fit(mode);
    let oneshot = matches!(mode, PollMode::Oneshot | PollMode::EdgeOneshot);
    let nworkers = if oneshot { rng.range(1, 3) } else { 0 };
    let nwriters = rng.range(1, 3);
    let per = rng.range(20, 120) as u64;
    let noise = rng.chance(1, 3);
    let churn = rng.chance(1, 3);
    let timeouts = rng.chance(1, 3);
    report::log(format!("{n} sources, {mode:?}, {nworkers} workers, {nwriters} writers, {per} bytes each, capacity {cap}, noise {noise}, churn {churn}, timeouts {timeouts}, delays: {regime}"));
    struct Src {
        fd: i32,
        peer: i32,
        /// Armings started minus deliveries.
        credit: AtomicU64,
        /// The library has accepted the arming.
        armed: AtomicBool,
        got: AtomicU64,
        busy: AtomicBool,
    }
    let srcs: Arc<Vec<Src>> = Arc::new(
        (0..n)
            .map(|_| {
                let (fd, peer) = if rng.chance(1, 2) { sys::socketpair(libc::SOCK_STREAM) } else { sys::pipe() };
                Src { fd, peer, credit: AtomicU64::new(0), armed: AtomicBool::new(false), got: AtomicU64::new(0), busy: AtomicBool::new(false) }
            })
            .collect(),
    );
    let p = Arc::new(P::new());
    let done = Arc::new(AtomicBool::new(false));
    let slot = vp::my_slot();
    let arm = move |s: &Src, i: usize, p: &P, first: bool| {
        s.credit.fetch_add(1, SeqCst);
        let ev = Event::readable(i);
        let r = if first { p.add(s.fd, ev, mode) } else { p.modify(fdb(s.fd), ev, mode) };
        if let Err(e) = r {
            report::violation("op-result", format!("{} returned {e:?}", if first { "add" } else { "modify" }));
        }
        s.armed.store(true, SeqCst);
    };
    // Read everything there is; the bytes must be the ones sent, in order.
    fn consume(s: &Src) {
        let mut b = [0u8; 256];
        loop {
            let r = sys::read(s.fd, &mut b);
            if r <= 0 {
                break;
            }
            for x in &b[..r as usize] {
                let i = s.got.fetch_add(1, SeqCst);
                if *x != (i % 251) as u8 {
                    report::violation("source-data", format!("byte {i} is {x}"));
                }
            }
        }
    }
    let (tx, rx) = std::sync::mpsc::channel::<usize>();
    let rx = Arc::new(Mutex::new(rx));
    let mut hs = vec![];
    for _ in 0..nworkers {
        let (rx, srcs, p) = (rx.clone(), srcs.clone(), p.clone());
        let mut r = rng.fork();
        hs.push(std::thread::spawn(move || loop {
            let m = rx.lock().unwrap().recv();
            let Ok(i) = m else { return };
            let s = &srcs[i];
            pause(&mut r);
            consume(s);
            s.busy.store(false, SeqCst);
            arm(s, i, &p, false);
        }));
    }
    for (i, s) in srcs.iter().enumerate() {
        arm(s, i, &p, true);
    }
    let ws: Vec<_> = (0..nwriters)
        .map(|k| {
            let srcs = srcs.clone();
            let mut r = rng.fork();
            std::thread::spawn(move || {
                let mine: Vec<usize> = (0..srcs.len()).filter(|i| i % nwriters == k).collect();
                let mut sent = vec![0u64; srcs.len()];
                while let Some(&i) = {
                    let open: Vec<&usize> = mine.iter().filter(|i| sent[**i] < per).collect();
                    (!open.is_empty()).then(|| *r.pick(&open))
                } {
                    let len = (1 + r.below(4) as u64).min(per - sent[i]);
                    let b: Vec<u8> = (0..len).map(|k| ((sent[i] + k) % 251) as u8).collect();
                    let w = sys::write(srcs[i].peer, &b);
                    if w > 0 {
                        sent[i] += w as u64;
                    }
                    pause(&mut r);
                }
            })
        })
        .collect();
    let noise_h = (noise || churn).then(|| {
        let (p, done) = (p.clone(), done.clone());
        let mut r = rng.fork();
        std::thread::spawn(move || {
            let e = sys::eventfd(0);
            while !done.load(SeqCst) {
                if noise {
                    p.notify().unwrap_or_else(|e| report::violation("notify-error", format!("notify returned {e:?}")));
                }
                if churn {
                    p.add(e, Event::readable(1 << 50), PollMode::Oneshot).unwrap_or_else(|e| report::violation("op-result", format!("add returned {e:?}")));
                    p.delete(fdb(e)).unwrap_or_else(|e| report::violation("op-result", format!("delete returned {e:?}")));
                }
                sys::sleep(us(r.below(150) as u64));
            }
            sys::close(e);
        })
    });
    {
        let srcs = srcs.clone();
        vp::owe(slot, "missed-ready-blocked", move || {
            for (i, s) in srcs.iter().enumerate() {
                if s.armed.load(SeqCst) && !s.busy.load(SeqCst) && sys::probe(s.fd) & IN != 0 {
                    return Some(format!("source {i} (fd {}) is ready and armed in mode {mode:?}; {} of {per} bytes received", s.fd, s.got.load(SeqCst)));
                }
            }
            None
        });
    }
    let mut r = rng.fork();
    let mut ev = events(cap);
    let (mut nev, mut nwaits) = (0u64, 0u64);
    let mut h = report::Hash::new();
    while srcs.iter().any(|s| s.got.load(SeqCst) < per) {
        ev.clear();
        // With workers the last bytes may be taken while nothing wakes this wait again.
        let t = if timeouts { *r.pick(&[None, Some(us(0)), Some(us(300)), Some(Duration::from_secs(50))]) } else { None };
        let t = if nworkers > 0 { Some(Duration::from_millis(20).min(t.unwrap_or(Duration::from_millis(20)))) } else { t };
        // Every few iterations the reactor really blocks.
        let t = if nworkers > 0 && cx.iter % 2 == 0 && srcs.iter().any(|s| s.got.load(SeqCst) < per && !s.busy.load(SeqCst)) { None } else { t };
        let t = if t.is_none() && nworkers > 0 && srcs.iter().all(|s| s.got.load(SeqCst) >= per || s.busy.load(SeqCst)) { Some(us(500)) } else { t };
        let a = sys::now_ns();
        let k = p.wait(&mut ev, t, None).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
        let el = sys::now_ns() - a;
        nwaits += 1;
        if k != ev.len() {
            report::violation("count", format!("wait returned {k}, the container holds {}", ev.len()));
        }
        if k == 0 && !noise && t.map_or(true, |t| (el as u128) < t.as_nanos()) {
            report::violation("early-timeout", format!("wait({t:?}) returned nothing after {el} ns"));
        }
        h.add(k as u64);
        for e in ev.iter() {
            nev += 1;
            let Some(s) = srcs.get(e.key) else {
                report::violation("unknown-key", format!("event {e:?}"));
            };
            if !e.readable || e.writable {
                report::violation("event-flags:readable", format!("event {e:?} for a readable source"));
            }
            h.add(e.key as u64);
            if oneshot {
                if s.busy.swap(true, SeqCst) {
                    report::violation("dup-oneshot", format!("source {} was delivered again although it has not been re-armed", e.key));
                }
                let c = s.credit.fetch_sub(1, SeqCst);
                if c != 1 {
                    report::violation("dup-oneshot", format!("source {}: {c} armings outstanding at a delivery", e.key));
                }
                s.armed.store(false, SeqCst);
                tx.send(e.key).unwrap();
            } else {
                consume(s);
            }
        }
    }
    vp::clear_owed();
    done.store(true, SeqCst);
    drop(tx);
    for h in ws.into_iter().chain(hs) {
        h.join().expect("harness: thread");
    }
    if let Some(h) = noise_h {
        h.join().expect("harness: noise");
    }
    shim::no_regime();
    // Afterwards it is quiet: what is still delivered are armings whose bytes were taken early.
    let mut total = 0;
    for _ in 0..n + 3 {
        ev.clear();
        total += p.wait(&mut ev, Some(Duration::ZERO), None).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
    }
    if total > 0 {
        report::violation("spurious-event", format!("{total} events after all bytes had been received"));
    }
    for s in srcs.iter() {
        p.delete(fdb(s.fd)).unwrap_or_else(|e| report::violation("op-result", format!("delete returned {e:?}")));
        sys::close(s.fd);
        sys::close(s.peer);
    }
    report::count("bytes", per * n as u64);
    report::count("events", nev);
    report::count("waits", nwaits);
    report::distinct(h.0);
    report::sample(|| format!("{} -> {nwaits} waits, {nev} events", report::history().join(" ")));
}

/// Notifications from several threads, each of which insists on being answered.
pub fn notify_storm(cx: &mut Ctx) {
    let rng = &mut cx.rng;
    let regime = shim::random_regime(rng);
    let nn = rng.range(1, 4);
    let rounds = rng.range(30, 300) as u64;
    let style = rng.below(4);
    let mutators = rng.below(3);
    let sources = rng.chance(1, 3);
    let cap = *rng.pick(&[1usize, 2, 32]);
    let barrage = rng.chance(1, 4);
    let signals = rng.chance(1, 4);
    report::log(format!("{nn} notifying threads x {rounds}, wait style {style}, {mutators} registering threads, events {sources}, capacity {cap}, barrage {barrage}, signals {signals}, delays: {regime}"));
    let p = Arc::new(P::new());
    let returns = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    // What each notifier waits for: (returns seen before its notify) + 1, or 0.
    let want: Arc<Vec<AtomicU64>> = Arc::new((0..nn).map(|_| AtomicU64::new(0)).collect());
    let efd = sys::eventfd(0);
    if sources {
        p.add(efd, Event::readable(5), PollMode::Oneshot).unwrap_or_else(|e| report::violation("op-result", format!("add returned {e:?}")));
    }
    let slot = vp::my_slot();
    {
        let (want, returns) = (want.clone(), returns.clone());
        vp::owe(slot, "notify-lost", move || {
            let r = returns.load(SeqCst);
            for (i, w) in want.iter().enumerate() {
                let w = w.load(SeqCst);
                if w != 0 && r < w {
                    return Some(format!("notifier {i}: notify has returned Ok and no wait has returned since"));
                }
            }
            None
        });
    }
    let live = Arc::new(AtomicUsize::new(nn));
    let mut hs = vec![];
    for i in 0..nn {
        let (p, returns, want, live) = (p.clone(), returns.clone(), want.clone(), live.clone());
        let mut r = rng.fork();
        hs.push(std::thread::spawn(move || {
            for _ in 0..rounds {
                if barrage && r.chance(1, 3) {
                    for _ in 0..r.below(20) {
                        p.notify().unwrap_or_else(|e| report::violation("notify-error", format!("notify returned {e:?}")));
                    }
                }
                let r0 = returns.load(SeqCst);
                p.notify().unwrap_or_else(|e| report::violation("notify-error", format!("notify returned {e:?}")));
                want[i].store(r0 + 1, SeqCst);
                let mut spins = 0u32;
                while returns.load(SeqCst) <= r0 {
                    spins += 1;
                    if spins % 64 == 0 {
                        sys::yield_now();
                    }
                    if spins > 20_000 {
                        sys::sleep(us(100));
                    }
                }
                want[i].store(0, SeqCst);
                pause(&mut r);
            }
            live.fetch_sub(1, SeqCst);
            // The last answer may have woken the others' wait; make sure the waiter looks.
            p.notify().unwrap_or_else(|e| report::violation("notify-error", format!("notify returned {e:?}")));
        }));
    }
    for k in 0..mutators {
        let (p, stop) = (p.clone(), stop.clone());
        let mut r = rng.fork();
        hs.push(std::thread::spawn(move || {
            let e = sys::eventfd(0);
            p.add(e, Event::readable(100 + k), PollMode::Oneshot).unwrap_or_else(|e| report::violation("op-result", format!("add returned {e:?}")));
            while !stop.load(SeqCst) {
                p.modify(fdb(e), Event::readable(100 + k), PollMode::Oneshot).unwrap_or_else(|e| report::violation("op-result", format!("modify returned {e:?}")));
                pause(&mut r);
            }
            p.delete(fdb(e)).unwrap_or_else(|e| report::violation("op-result", format!("delete returned {e:?}")));
            sys::close(e);
        }));
    }
    if sources {
        let stop = stop.clone();
        let mut r = rng.fork();
        hs.push(std::thread::spawn(move || {
            while !stop.load(SeqCst) {
                sys::write(efd, &1u64.to_ne_bytes());
                sys::sleep(us(20 + r.below(200) as u64));
            }
        }));
    }
    let storm = signals.then(|| sys::Storm::start(us(80)));
    let mut r = rng.fork();
    let mut ev = events(cap);
    let mut h = report::Hash::new();
    let mut pending_event = false;
    let mut waits = 0u64;
    while live.load(SeqCst) > 0 {
        ev.clear();
        let t = match style {
            0 => None,
            1 => *r.pick(&[None, Some(us(0)), Some(us(20)), Some(us(300))]),
            2 => *r.pick(&[None, None, None, Some(Duration::from_secs(1000)), Some(Duration::MAX)]),
            _ => Some(us(r.below(60) as u64)),
        };
        let n = p.wait(&mut ev, t, None).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
        returns.fetch_add(1, SeqCst);
        waits += 1;
        h.add(n as u64 + 10 * t.is_none() as u64);
        if n != ev.len() || n > sources as usize {
            report::violation("internal-event", format!("{n} events: {:?}", ev.iter().collect::<Vec<_>>()));
        }
        if n == 1 {
            let mut b = [0u8; 8];
            sys::read(efd, &mut b);
            pending_event = true;
        }
        if pending_event && r.chance(1, 2) {
            p.modify(fdb(efd), Event::readable(5), PollMode::Oneshot).unwrap_or_else(|e| report::violation("op-result", format!("modify returned {e:?}")));
            pending_event = false;
        }
        if r.chance(1, 8) {
            pause(&mut r);
        }
    }
    vp::clear_owed();
    stop.store(true, SeqCst);
    for x in hs {
        x.join().expect("harness: thread");
    }
    drop(storm);
    shim::no_regime();
    // No trace is left: after the notifications are consumed, waits block again.
    let mut b = [0u8; 8];
    sys::read(efd, &mut b);
    for _ in 0..if sources || r.chance(1, 4) { 3 } else { 1 } {
        ev.clear();
        p.wait(&mut ev, Some(Duration::ZERO), None).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
        sys::read(efd, &mut b);
    }
    after_quiet(&p, &mut ev);
    report::count("notifications", nn as u64 * rounds);
    report::count("waits", waits);
    report::distinct(h.0);
    report::sample(|| format!("{} -> {waits} waits", report::history().join(" ")));
    if sources {
        p.delete(fdb(efd)).unwrap_or_else(|e| report::violation("op-result", format!("delete returned {e:?}")));
    }
    sys::close(efd);
}
/// Bursts of notifications from several threads and registration calls against waits that do not
/// block; when all have finished, one more wait consumes whatever is pending.
pub fn bursts(cx: &mut Ctx) {
    let rng = &mut cx.rng;
    let regime = shim::random_regime(rng);
    let nn = rng.range(2, 4);
    let nm = rng.below(3);
    let rounds = rng.range(3, 25);
    let style = rng.below(3);
    report::log(format!("{nn} notifying and {nm} registering threads, {rounds} bursts, wait style {style}, delays: {regime}"));
    let p = Arc::new(P::new());
    // (With a full container a notification may wait for the next one on kqueue and event ports.)
    let mut ev = events(*rng.pick(if vp::KQUEUE || vp::PORT { &[32usize, 40, 64] } else { &[1usize, 2, 32] }));
    let mut h = report::Hash::new();
    let (mut waits, mut sent) = (0u64, 0u64);
    let go = Arc::new(AtomicU64::new(0));
    let live = Arc::new(AtomicUsize::new(0));
    let quit = Arc::new(AtomicBool::new(false));
    let hs: Vec<_> = (0..nn + nm)
        .map(|k| {
            let (p, go, live, quit) = (p.clone(), go.clone(), live.clone(), quit.clone());
            let mut r = rng.fork();
            std::thread::spawn(move || {
                let e = sys::eventfd(1);
                let mut seen = 0;
                let mut idle = 0u32;
                loop {
                    let g = go.load(SeqCst);
                    if quit.load(SeqCst) {
                        break;
                    }
                    if g == seen {
                        idle += 1;
                        if idle > 200 {
                            sys::sleep(us(20));
                        } else {
                            std::hint::spin_loop();
                        }
                        continue;
                    }
                    seen = g;
                    idle = 0;
                    for _ in 0..r.range(1, 6) {
                        if k < nn {
                            p.notify().unwrap_or_else(|e| report::violation("notify-error", format!("notify returned {e:?}")));
                        } else {
                            p.add(e, Event::none(100 + k), PollMode::Oneshot).unwrap_or_else(|e| report::violation("op-result", format!("add returned {e:?}")));
                            p.modify(fdb(e), Event::new(100 + k, false, false), PollMode::Oneshot).unwrap_or_else(|e| report::violation("op-result", format!("modify returned {e:?}")));
                            p.delete(fdb(e)).unwrap_or_else(|e| report::violation("op-result", format!("delete returned {e:?}")));
                        }
                        if r.chance(1, 3) {
                            pause(&mut r);
                        }
                    }
                    live.fetch_sub(1, SeqCst);
                }
                sys::close(e);
            })
        })
        .collect();
    let mut r = rng.fork();
    for _ in 0..rounds {
        live.store(nn + nm, SeqCst);
        go.fetch_add(1, SeqCst);
        let mut n_waits = 0u64;
        while live.load(SeqCst) > 0 {
            ev.clear();
            let t = match style {
                0 => us(0),
                1 => us(r.below(80) as u64),
                _ => *r.pick(&[us(0), us(0), us(0), us(30), Duration::from_nanos(1)]),
            };
            let n = p.wait(&mut ev, Some(t), None).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
            if n != 0 {
                report::violation("internal-event", format!("{n} events: {:?}", ev.iter().collect::<Vec<_>>()));
            }
            n_waits += 1;
            if r.chance(1, 6) {
                pause(&mut r);
            }
        }
        h.add(n_waits.min(30));
        waits += n_waits + 3;
        sent += nn as u64;
        // All calls have returned: this wait consumes them all.
        ev.clear();
        let n = p.wait(&mut ev, Some(Duration::ZERO), None).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
        if n != 0 {
            report::violation("internal-event", format!("{n} events: {:?}", ev.iter().collect::<Vec<_>>()));
        }
        if let Some(fd) = exported_fd(&p) {
            if !vp::PORT && sys::probe(fd) & IN != 0 {
                report::violation("poller-fd-stuck", "all notifications have been consumed but the poller's descriptor is readable".to_string());
            }
        }
        let t = us(40 + r.below(300) as u64);
        ev.clear();
        let a = sys::now_ns();
        p.wait(&mut ev, Some(t), None).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
        let el = sys::now_ns() - a;
        if (el as u128) < t.as_nanos() {
            report::violation("early-timeout", format!("after a wait had consumed all notifications, wait({t:?}) returned after {el} ns"));
        }
        if r.chance(1, 2) {
            p.notify().unwrap_or_else(|e| report::violation("notify-error", format!("notify returned {e:?}")));
            ev.clear();
            p.wait(&mut ev, None, Some("notify-lost")).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
        }
    }
    quit.store(true, SeqCst);
    for x in hs {
        x.join().expect("harness: thread");
    }
    shim::no_regime();
    after_quiet(&p, &mut ev);
    report::count("bursts", rounds as u64);
    report::count("notifications", sent);
    report::count("waits", waits);
    report::distinct(h.0 ^ (nn * 8 + nm) as u64);
    report::sample(|| format!("{} -> {waits} waits", report::history().join(" ")));
}

/// One thread blocks in wait again and again while others poll with waits that do not block, so
/// that waits constantly take over from each other; whatever is sent to a wait seen asleep in the
/// kernel ends it.
pub fn relay(cx: &mut Ctx) {
    let rng = &mut cx.rng;
    // No delays at system calls: a thread asleep inside wait is asleep in the kernel's wait.
    let regime = if rng.chance(7, 8) { shim::stalls_only(rng) } else { shim::no_regime(); "none".into() };
    let ns = rng.range(1, 3);
    let events_too = rng.chance(1, 2);
    let style = rng.below(3);
    report::log(format!("{ns} polling threads, style {style}, events {events_too}, delays: {regime}"));
    let p = Arc::new(P::new());
    let stop = Arc::new(AtomicBool::new(false));
    let slot = Arc::new(AtomicUsize::new(usize::MAX));
    let efd = sys::eventfd(0);
    p.add(efd, Event::readable(6), PollMode::Oneshot).unwrap_or_else(|e| report::violation("op-result", format!("add returned {e:?}")));
    let delivered = Arc::new(AtomicU64::new(0));
    let check = |n: usize, ev: &Events, delivered: &AtomicU64| {
        if n != ev.len() {
            report::violation("count", format!("wait returned {n}, the container holds {}", ev.len()));
        }
        for e in ev.iter() {
            if e.key != 6 {
                report::violation("internal-event", format!("{e:?}"));
            }
            delivered.fetch_add(1, SeqCst);
        }
    };
    let blocker = {
        let (p, stop, slot, delivered) = (p.clone(), stop.clone(), slot.clone(), delivered.clone());
        std::thread::spawn(move || {
            let mut ev = events(4);
            let s = vp::my_slot();
            vp::exempt_from_stalls(s, true);
            slot.store(s, SeqCst);
            let mut waits = 0u64;
            while !stop.load(SeqCst) {
                ev.clear();
                let n = p.wait(&mut ev, if style == 0 { None } else { Some(Duration::from_secs(3000)) }, None).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
                check(n, &ev, &delivered);
                waits += 1;
            }
            vp::exempt_from_stalls(s, false);
            waits
        })
    };
    let spinners: Vec<_> = (0..ns)
        .map(|_| {
            let (p, stop, delivered) = (p.clone(), stop.clone(), delivered.clone());
            let mut r = rng.fork();
            std::thread::spawn(move || {
                let mut ev = events(4);
                let mut waits = 0u64;
                while !stop.load(SeqCst) {
                    ev.clear();
                    let t = if style == 2 { us(r.below(20) as u64) } else { us(0) };
                    let n = p.wait(&mut ev, Some(t), None).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
                    check(n, &ev, &delivered);
                    waits += 1;
                    if r.chance(1, 16) {
                        pause(&mut r);
                    }
                }
                waits
            })
        })
        .collect();
    while slot.load(SeqCst) == usize::MAX {
        sys::yield_now();
    }
    let slot = slot.load(SeqCst);
    let tid = vp::slot_tid(slot);
    let end = sys::now_ns() + 250_000_000;
    let mut r = rng.fork();
    let (mut rounds, mut written) = (0u64, 0u64);
    let mut h = report::Hash::new();
    while sys::now_ns() < end {
        for _ in 0..*r.pick(&[0, 1, 1, 1, 2, 3]) {
            p.notify().unwrap_or_else(|e| report::violation("notify-error", format!("notify returned {e:?}")));
            if r.chance(1, 3) {
                pause(&mut r);
            }
        }
        // Find it asleep in a wait.
        let Some(call) = vp::slot_in_call(slot) else { continue };
        if sys::thread_facts(tid).map_or(true, |f| f.state != b'S') || vp::slot_seq(slot) != call {
            continue;
        }
        let by_event = events_too && r.chance(1, 3) && delivered.load(SeqCst) == written;
        let kind = if by_event {
            written += 1;
            sys::write(efd, &1u64.to_ne_bytes());
            "missed-ready-blocked"
        } else {
            p.notify().unwrap_or_else(|e| report::violation("notify-error", format!("notify returned {e:?}")));
            "notify-lost"
        };
        h.add(by_event as u64);
        if vp::slot_seq(slot) == call {
            vp::owe(slot, kind, move || (vp::slot_seq(slot) == call).then(|| if by_event { "a source became ready while it was asleep".into() } else { "notify was called while it was asleep".into() }));
            while vp::slot_seq(slot) == call {
                sys::yield_now();
                if sys::now_ns() > end + 100_000_000_000 {
                    report::inconclusive("harness: the wait does not end");
                }
            }
            vp::clear_owed();
        }
        rounds += 1;
        if by_event {
            // Delivered by the very wait that was in progress.
            let s0 = sys::now_ns();
            while delivered.load(SeqCst) < written {
                sys::yield_now();
                if sys::now_ns() - s0 > 30_000_000_000 {
                    report::violation("missed-oneshot", "a wait in progress ended without the event it was due, and no other has delivered it".to_string());
                }
            }
            let mut b = [0u8; 8];
            sys::read(efd, &mut b);
            p.modify(fdb(efd), Event::readable(6), PollMode::Oneshot).unwrap_or_else(|e| report::violation("op-result", format!("modify returned {e:?}")));
        }
    }
    shim::no_regime();
    stop.store(true, SeqCst);
    while !blocker.is_finished() {
        let _ = p.notify();
        sys::sleep(us(50));
    }
    let mut waits = blocker.join().expect("harness: blocker");
    for s in spinners {
        while !s.is_finished() {
            sys::sleep(us(20));
        }
        waits += s.join().expect("harness: spinner");
    }
    let d = delivered.load(SeqCst);
    if d != written {
        report::violation(if d > written { "dup-oneshot" } else { "missed-oneshot" }, format!("{written} arrivals, {d} deliveries"));
    }
    let mut ev = events(4);
    let n = p.wait(&mut ev, Some(Duration::ZERO), None).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
    if n != 0 {
        report::violation("spurious-event", format!("{:?}", ev.iter().collect::<Vec<_>>()));
    }
    after_quiet(&p, &mut ev);
    p.delete(fdb(efd)).unwrap_or_else(|e| report::violation("op-result", format!("delete returned {e:?}")));
    sys::close(efd);
    report::count("waits", waits);
    report::count("asleep_hits", rounds);
    report::count("events", written);
    h.add(rounds);
    report::distinct(h.0);
    report::sample(|| format!("{} -> {rounds} times seen asleep, {waits} waits", report::history().join(" ")));
}

/// Nothing is ready and nothing was notified: a wait must block for its whole timeout, and one
/// notification must end exactly one wait.
pub fn after_quiet(p: &P, ev: &mut Events) {
    if vp::PORT && ev.capacity().get() < 8 {
        // Two notifications may be queued there, and a full container leaves the second behind.
        let mut all = events(64);
        p.wait(&mut all, Some(Duration::ZERO), None).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
        if all.len() != 0 {
            report::violation("internal-event", format!("{} events although nothing is ready: {:?}", all.len(), all.iter().collect::<Vec<_>>()));
        }
    }
    for (i, t) in [us(1500), us(300)].into_iter().enumerate() {
        if let Some(fd) = exported_fd(p) {
            if i == 0 && !vp::PORT && sys::probe(fd) & IN != 0 {
                report::violation("poller-fd-stuck", "nothing is pending but the poller's descriptor is readable".to_string());
            }
        }
        ev.clear();
        let a = sys::now_ns();
        let n = p.wait(ev, Some(t), None).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
        let el = sys::now_ns() - a;
        if n != 0 || ev.len() != 0 {
            report::violation("internal-event", format!("{n} events although nothing is ready: {:?}", ev.iter().collect::<Vec<_>>()));
        }
        if (el as u128) < t.as_nanos() {
            report::violation("early-timeout", format!("a wait({t:?}) with nothing pending returned after {el} ns"));
        }
        if i == 0 {
            for _ in 0..3 {
                p.notify().unwrap_or_else(|e| report::violation("notify-error", format!("notify returned {e:?}")));
            }
            ev.clear();
            let n = p.wait(ev, None, Some("notify-lost")).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
            if n != 0 {
                report::violation("internal-event", format!("{n} events from a notification"));
            }
        }
    }
}
/// Very many notifications and registration calls without, or in step with, waits.
pub fn floods(cx: &mut Ctx) {
    let n = cx.num("n", 70_000);
    let variant = cx.iter % 9;
    let mut p = P::new();
    let mut ev = events(8);
    let e = sys::eventfd(1);
    let ok = |r: std::io::Result<()>, w: &str| {
        if let Err(e) = r {
            report::violation(if w == "notify" { "notify-error" } else { "op-result" }, format!("{w} returned {e:?}"));
        }
    };
    let zero = |p: &P, ev: &mut Events| {
        ev.clear();
        p.wait(ev, Some(Duration::ZERO), None).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")))
    };
    let what = match variant {
        0 => {
            for _ in 0..n {
                ok(p.notify(), "notify");
            }
            ev.clear();
            let k = p.wait(&mut ev, None, Some("notify-lost")).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
            if k != 0 {
                report::violation("internal-event", "a notification is visible".to_string());
            }
            "notify without waits"
        }
        1 => {
            for i in 0..n {
                ok(p.notify(), "notify");
                ev.clear();
                let k = p.wait(&mut ev, if i % 2 == 0 { None } else { Some(Duration::ZERO) }, Some("notify-lost")).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
                if k != 0 {
                    report::violation("internal-event", "a notification is visible".to_string());
                }
            }
            "notify and wait in turn"
        }
        2 => {
            ok(p.add(e, Event::none(1), vp::LEVEL), "add");
            for i in 0..n {
                ok(p.modify(fdb(e), Event::new(1, false, i % 2 == 3), vp::LEVEL), "modify");
            }
            "modify without waits"
        }
        3 => {
            ok(p.add(e, Event::readable(1), PollMode::Oneshot), "add");
            let mut got = 0;
            for _ in 0..n / 2 {
                ok(p.notify(), "notify");
                ok(p.modify(fdb(e), Event::readable(1), PollMode::Oneshot), "modify");
                ev.clear();
                let k = p.wait(&mut ev, None, Some("missed-ready-blocked")).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
                got += k as u64;
                if k > 1 {
                    report::violation("dup-in-wait", "one source, two events".to_string());
                }
            }
            if got == 0 {
                report::violation("missed-oneshot", format!("a ready source re-armed {} times was never delivered by waits that were also notified", n / 2));
            }
            "notify, modify and wait in turn"
        }
        4 => {
            for i in 0..n {
                ok(p.add(e, Event::readable(i as usize), PollMode::Oneshot), "add");
                ok(p.delete(fdb(e)), "delete");
            }
            if zero(&p, &mut ev) != 0 {
                report::violation("stale-event", "a deleted source is delivered".to_string());
            }
            ok(p.add(e, Event::none(1), vp::LEVEL), "add");
            "add and delete without waits"
        }
        5 => {
            // Calls that are refused, for each of the reasons there are.
            let other = sys::eventfd(1);
            ok(p.add(e, Event::none(1), vp::LEVEL), "add");
            // (Event ports do not know what is registered.)
            let why = if vp::PORT { 3 + cx.iter / 9 % 2 } else { cx.iter / 9 % 5 };
            for i in 0..n {
                let r = match why {
                    0 => p.add(e, Event::readable(2), PollMode::Oneshot),
                    1 => p.modify(fdb(other), Event::readable(2), vp::LEVEL),
                    2 => p.delete(fdb(other)),
                    3 => p.modify(fdb(e), Event::readable(usize::MAX), vp::LEVEL),
                    _ if !vp::supports_edge_backend() => p.modify(fdb(e), Event::readable(2), PollMode::Edge),
                    _ => p.add(e, Event::readable(i as usize), vp::LEVEL),
                };
                if r.is_ok() {
                    report::violation("op-result", format!("call {i} that must be refused (reason {why}) has succeeded"));
                }
            }
            sys::close(other);
            "refused calls without waits"
        }
        6 => {
            // Operations of several threads at once, with a wait now and then.
            let p = &p;
            ok(p.add(e, Event::none(1), vp::LEVEL), "add");
            std::thread::scope(|s| {
                for k in 0..4usize {
                    s.spawn(move || {
                        let x = sys::eventfd(0);
                        for i in 0..n as usize / 16 {
                            let r = p.add(x, Event::none(k + 2), vp::LEVEL).and(p.modify(fdb(x), Event::readable(i), PollMode::Oneshot)).and(p.notify()).and(p.delete(fdb(x)));
                            if let Err(e) = r {
                                report::violation("op-result", format!("a call of thread {k} returned {e:?}"));
                            }
                        }
                        sys::close(x);
                    });
                }
                let mut ev = events(4);
                for i in 0..50 {
                    if zero(p, &mut ev) != 0 {
                        report::violation("spurious-event", "a source that was never ready is delivered".to_string());
                    }
                    sys::sleep(us(i * 37 % 900));
                }
            });
            "operations of four threads"
        }
        7 => {
            // Waits that yield to another one, and failing to be delivered is all they do.
            let pa = Arc::new(p);
            let (q, live) = (pa.clone(), Arc::new(AtomicI32::new(0)));
            let l = live.clone();
            let th = std::thread::spawn(move || {
                let mut ev = events(1);
                l.store(sys::gettid(), SeqCst);
                q.wait(&mut ev, None, None).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")))
            });
            while live.load(SeqCst) == 0 {
                sys::yield_now();
            }
            if !sys::wait_asleep(live.load(SeqCst), settle(), Duration::from_secs(20)) {
                report::inconclusive("harness: a waiter does not settle");
            }
            for i in 0..n {
                let k = pa.wait(&mut ev, if i % 2 == 0 { None } else { Some(Duration::from_secs(3000)) }, Some("second-wait-blocked")).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
                if k != 0 {
                    report::violation("second-wait-events", format!("a wait that yields to another one returned {k}"));
                }
            }
            ok(pa.notify(), "notify");
            if th.join().expect("harness: waiter") != 0 {
                report::violation("internal-event", "a notification is visible".to_string());
            }
            p = Arc::try_unwrap(pa).ok().expect("harness: poller still shared");
            ok(p.add(e, Event::none(1), vp::LEVEL), "add");
            "waits that yield"
        }
        _ => {
            // Waits that time out, and notifications nobody waits for in between.
            for i in 0..n / 8 {
                ev.clear();
                let k = p.wait(&mut ev, Some(Duration::from_nanos(i % 3)), None).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
                if k != 0 {
                    report::violation("internal-event", "an expired timeout is visible".to_string());
                }
                if i % 5 == 0 {
                    ok(p.notify(), "notify");
                }
            }
            "timeouts"
        }
    };
    let _ = p.delete(fdb(e));
    zero(&p, &mut ev);
    zero(&p, &mut ev);
    after_quiet(&p, &mut ev);
    ok(p.add(e, Event::readable(77), PollMode::Oneshot), "add");
    ev.clear();
    let k = p.wait(&mut ev, None, Some("missed-ready-blocked")).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
    if k != 1 {
        report::violation("missed-oneshot", format!("after a flood ({what}) a ready source is not delivered"));
    }
    sys::close(e);
    report::count("flood_calls", n);
    report::count("waits", 5);
    report::distinct(variant * 1000 + 1);
    report::sample(|| format!("{n} x {what}"));
}

/// A thread is inside wait; the waits of other threads must not disturb it.
pub fn second_waiter(cx: &mut Ctx) {
    let rng = &mut cx.rng;
    let regime = shim::random_regime(rng);
    let p = Arc::new(P::new());
    let (efd, pre) = (sys::eventfd(0), sys::eventfd(1));
    let ending = rng.below(if shim::ACTIVE { 6 } else { 5 }); // how the first wait ends
    let t_first = match ending {
        0 => Some(us(4000 + rng.below(6000) as u64)),
        _ => *rng.pick(&[None, Some(Duration::from_secs(600))]),
    };
    let nb = rng.range(1, 3);
    let calls = rng.range(1, 8);
    let notify_before = rng.chance(1, 4) && ending == 0;
    report::log(format!("first wait({t_first:?}), ends by {}, {nb} other threads x {calls}, delays: {regime}", ["timeout", "event", "notification", "event and notification", "deadline re-armed event", "error"][ending]));
    // A container with something in it.
    let mut ev0 = events(4);
    p.add(pre, Event::readable(42), PollMode::Oneshot).unwrap_or_else(|e| report::violation("op-result", format!("add returned {e:?}")));
    let k = p.wait(&mut ev0, None, Some("missed-ready-blocked")).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
    if k != 1 {
        report::violation("missed-oneshot", format!("a ready source was not delivered ({k})"));
    }
    p.add(efd, Event::readable(9), PollMode::Oneshot).unwrap_or_else(|e| report::violation("op-result", format!("add returned {e:?}")));
    let _ = notify_before;
    let tid = Arc::new(AtomicI32::new(0));
    let slot = Arc::new(AtomicUsize::new(usize::MAX));
    let first = {
        let (p, tid, slot) = (p.clone(), tid.clone(), slot.clone());
        std::thread::spawn(move || {
            let mut ev = events(4);
            slot.store(vp::my_slot(), SeqCst);
            tid.store(sys::gettid(), SeqCst);
            let a = sys::now_ns();
            let n = match p.wait(&mut ev, t_first, None) {
                Ok(n) => n,
                Err(e) if ending == 5 && e.raw_os_error() == Some(libc::ENOMEM) => usize::MAX,
                Err(e) => report::violation("wait-error", format!("wait returned {e:?}")),
            };
            let el = sys::now_ns() - a;
            (n, ev.iter().map(|e| e.key).collect::<Vec<_>>(), el)
        })
    };
    while tid.load(SeqCst) == 0 {
        sys::yield_now();
    }
    // It is in the kernel, waiting: only then are the others sure to find a wait in progress.
    let asleep = sys::wait_asleep(tid.load(SeqCst), settle(), Duration::from_secs(5));
    let inside = vp::slot_in_call(slot.load(SeqCst));
    if !asleep || inside.is_none() {
        // It has timed out already (slow machine): nothing to observe here.
        if t_first.is_none() || t_first > Some(Duration::from_secs(60)) {
            report::inconclusive("harness: the first waiter did not settle");
        }
        first.join().expect("harness: waiter");
        report::count("unobserved", 1);
        return;
    }
    let p0 = ev0.iter().map(|e| e.key).collect::<Vec<_>>();
    let ev0 = Arc::new(Mutex::new(ev0));
    let others: Vec<_> = (0..nb)
        .map(|i| {
            let (p, slot, ev0, p0) = (p.clone(), slot.clone(), ev0.clone(), p0.clone());
            let mut r = rng.fork();
            std::thread::spawn(move || {
                let mut own = events(4);
                for _ in 0..calls {
                    if r.chance(1, 8) {
                        p.debug();
                    }
                    let t = *r.pick(&[None, Some(us(0)), Some(Duration::from_secs(900)), Some(us(500)), Some(Duration::MAX)]);
                    let mut g = (i == 0).then(|| ev0.lock().unwrap());
                    let c: &mut Events = match g.as_mut() {
                        Some(g) => &mut *g,
                        None => &mut own,
                    };
                    if vp::slot_in_call(slot.load(SeqCst)) != inside {
                        return;
                    }
                    // Returns at once while the first wait lasts (it may end at any time).
                    let s = slot.load(SeqCst);
                    let me = vp::my_slot();
                    vp::owe(me, "second-wait-blocked", move || (vp::slot_in_call(s) == inside).then(|| "another thread is inside wait".to_string()));
                    let a = sys::now_ns();
                    let n = p.wait(c, t, None).unwrap_or_else(|e| report::violation("wait-error", format!("a wait while another is in progress returned {e:?}")));
                    let _el = sys::now_ns() - a;
                    if vp::slot_in_call(slot.load(SeqCst)) != inside {
                        return;
                    }
                    report::count("second_waits", 1);
                    if n != 0 {
                        report::violation("second-wait-events", format!("a wait returned {n} events while another wait was in progress"));
                    }
                    if i == 0 {
                        let now: Vec<usize> = c.iter().map(|e| e.key).collect();
                        if now != p0 {
                            report::violation("second-wait-container", format!("the container of a second wait held {p0:?} and holds {now:?}"));
                        }
                    }
                }
            })
        })
        .collect();
    if t_first.map_or(true, |t| t > Duration::from_secs(60)) {
        // Until they are done the first wait is not ended.
        for o in others {
            o.join().expect("harness: other waiter");
        }
    } else {
        for o in others {
            // They may be blocked in waits of their own once the first one has timed out.
            while !o.is_finished() {
                sys::sleep(us(100));
                if first.is_finished() {
                    let _ = p.notify();
                }
            }
            o.join().expect("harness: other waiter");
        }
    }
    vp::clear_owed();
    let now = vp::slot_in_call(slot.load(SeqCst));
    let s = slot.load(SeqCst);
    match ending {
        1 | 4 => {
            if now != inside && t_first.map_or(true, |t| t > Duration::from_secs(60)) {
                report::violation("early-timeout", "a wait in progress ended when other threads called wait".to_string());
            }
            sys::write(efd, &1u64.to_ne_bytes());
            vp::owe(s, "missed-ready-blocked", || Some("its source is ready".into()));
        }
        2 | 3 => {
            if now != inside {
                report::violation("early-timeout", "a wait in progress ended when other threads called wait".to_string());
            }
            if ending == 3 {
                sys::write(efd, &1u64.to_ne_bytes());
            }
            p.notify().unwrap_or_else(|e| report::violation("notify-error", format!("notify returned {e:?}")));
            vp::owe(s, "notify-lost", || Some("it was notified".into()));
        }
        5 => {
            if now != inside {
                report::violation("early-timeout", "a wait in progress ended when other threads called wait".to_string());
            }
            // Interrupted, the wait goes back to the kernel, which fails.
            sys::install_handler();
            for c in [shim::Call::EpollWait, shim::Call::Poll] {
                shim::set_fault(c, 0, 1, libc::ENOMEM);
            }
            vp::owe(s, "wait-blocked", || Some("it was interrupted, and the kernel refuses to wait".into()));
            sys::signal_thread(tid.load(SeqCst));
        }
        _ => {}
    }
    let (n, keys, el) = first.join().expect("harness: waiter");
    vp::clear_owed();
    match ending {
        5 => {
            shim::clear_faults();
            if n != usize::MAX || !keys.is_empty() {
                report::violation("spurious-event", format!("{n} events {keys:?} from a wait that failed"));
            }
            report::count("failed_waits", 1);
        }
        0 => {
            if n != 0 {
                report::violation("spurious-event", format!("events {keys:?} although nothing is ready"));
            }
            if (el as u128) < t_first.unwrap().as_nanos() {
                // The push above can reach the first wait only after it has ended.
                report::violation("early-timeout", format!("wait({t_first:?}) ended after {el} ns while other threads called wait"));
            }
        }
        1 | 4 => {
            if keys != [9] || n != 1 {
                report::violation("missed-ready-blocked", format!("the waiting thread got {n} events {keys:?} instead of the one that was due"));
            }
        }
        2 => {
            if n != 0 {
                report::violation("spurious-event", format!("events {keys:?} although nothing is ready"));
            }
        }
        _ => {}
    }
    // The next wait, by this thread, works normally.
    shim::no_regime();
    let mut ev = events(4);
    let zero = |ev: &mut Events| {
        ev.clear();
        p.wait(ev, Some(Duration::ZERO), None).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")))
    };
    let mut got = keys.contains(&9) as usize;
    got += zero(&mut ev);
    got += zero(&mut ev);
    if ending == 1 || ending == 3 || ending == 4 {
        if got != 1 {
            report::violation("missed-oneshot", format!("the event was delivered {got} times"));
        }
    } else if got != 0 {
        report::violation("spurious-event", "event without a cause".to_string());
    }
    after_quiet(&p, &mut ev);
    p.modify(fdb(efd), Event::readable(10), PollMode::Oneshot).unwrap_or_else(|e| report::violation("op-result", format!("modify returned {e:?}")));
    sys::write(efd, &1u64.to_ne_bytes());
    ev.clear();
    let n = p.wait(&mut ev, None, Some("missed-ready-blocked")).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
    if n != 1 {
        report::violation("missed-oneshot", format!("{n} events instead of one"));
    }
    for f in [efd, pre] {
        p.delete(fdb(f)).unwrap_or_else(|e| report::violation("op-result", format!("delete returned {e:?}")));
        sys::close(f);
    }
    report::count("waits", 6);
    report::count("events", 2);
    let mut h = report::Hash::new();
    h.add(ending as u64 | (nb as u64) << 8 | (calls as u64) << 16 | (t_first.is_some() as u64) << 32);
    h.adds(&regime);
    report::distinct(h.0);
    report::sample(|| report::history().join(" "));
}

/// Many threads call wait on one poller all the time: every one-shot event reaches exactly one of
/// them, none is lost, and a wait returns nothing early only if it overlapped another one.
pub fn many_waiters(cx: &mut Ctx) {
    let rng = &mut cx.rng;
    let regime = shim::random_regime(rng);
    let nw = rng.range(2, 5);
    let n = rng.range(1, 5);
    let rounds = rng.range(10, 60) as u64;
    let cap = *rng.pick(&[1usize, 2, 16]);
    let signals = rng.chance(1, 4);
    report::log(format!("{nw} waiting threads, {n} sources x {rounds}, capacity {cap}, signals {signals}, delays: {regime}"));
    let p = Arc::new(P::new());
    let fds: Vec<i32> = (0..n).map(|_| sys::eventfd(0)).collect();
    let delivered: Arc<Vec<AtomicU64>> = Arc::new((0..n).map(|_| AtomicU64::new(0)).collect());
    let issued: Arc<Vec<AtomicU64>> = Arc::new((0..n).map(|_| AtomicU64::new(0)).collect());
    let stop = Arc::new(AtomicBool::new(false));
    for (i, &fd) in fds.iter().enumerate() {
        p.add(fd, Event::none(i), PollMode::Oneshot).unwrap_or_else(|e| report::violation("op-result", format!("add returned {e:?}")));
        sys::write(fd, &1u64.to_ne_bytes());
    }
    let slots: Arc<Mutex<Vec<usize>>> = Arc::default();
    let hs: Vec<_> = (0..nw)
        .map(|k| {
            let (p, delivered, issued, stop, slots) = (p.clone(), delivered.clone(), issued.clone(), stop.clone(), slots.clone());
            let mut r = rng.fork();
            std::thread::spawn(move || {
                slots.lock().unwrap().push(vp::my_slot());
                let storm = (signals && k == 0).then(|| sys::Storm::start(us(100)));
                let mut ev = events(cap);
                // Waits of this thread: (start, end, returned nothing early, timeout).
                let mut log: Vec<(u64, u64, bool)> = vec![];
                while !stop.load(SeqCst) {
                    ev.clear();
                    let t = *r.pick(&[Some(us(0)), Some(us(200)), Some(us(1000)), None]);
                    let a = tick();
                    let t0 = sys::now_ns();
                    let n = p.wait(&mut ev, t, None).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
                    let el = sys::now_ns() - t0;
                    let b = tick();
                    if n != ev.len() {
                        report::violation("count", format!("wait returned {n}, the container holds {}", ev.len()));
                    }
                    for e in ev.iter() {
                        let (d, i) = (delivered[e.key].fetch_add(1, SeqCst) + 1, issued[e.key].load(SeqCst));
                        if d > i {
                            report::violation("dup-oneshot", format!("source {}: delivery {d} after {i} armings", e.key));
                        }
                    }
                    log.push((a, b, n == 0 && t.map_or(true, |t| (el as u128) < t.as_nanos())));
                    if n == 0 {
                        pause(&mut r);
                    }
                }
                drop(storm);
                log
            })
        })
        .collect();
    while slots.lock().unwrap().len() < nw {
        sys::yield_now();
    }
    // If nobody who is in wait takes what is due, it is lost.
    let due = Arc::new(AtomicBool::new(false));
    for s in slots.lock().unwrap().iter() {
        let (due, slots, s) = (due.clone(), slots.clone(), *s);
        let _ = &slots;
        vp::owe(s, "missed-ready-blocked", move || due.load(SeqCst).then(|| "a ready source is armed and all threads sleep".to_string()));
    }
    let mut r = rng.fork();
    for round in 0..rounds {
        let which: Vec<usize> = (0..n).filter(|_| r.chance(2, 3)).collect();
        for &i in &which {
            issued[i].fetch_add(1, SeqCst);
            p.modify(fdb(fds[i]), Event::readable(i), PollMode::Oneshot).unwrap_or_else(|e| report::violation("op-result", format!("modify returned {e:?}")));
        }
        if which.is_empty() {
            continue;
        }
        due.store(true, SeqCst);
        let start = sys::now_ns();
        while which.iter().any(|&i| delivered[i].load(SeqCst) < issued[i].load(SeqCst)) {
            sys::yield_now();
            if sys::now_ns() - start > 40_000_000_000 {
                report::violation("missed-oneshot", format!("round {round}: armed ready sources were not delivered to any of {nw} waiting threads"));
            }
        }
        due.store(false, SeqCst);
        pause(&mut r);
    }
    vp::clear_owed();
    stop.store(true, SeqCst);
    shim::no_regime();
    while hs.iter().any(|h| !h.is_finished()) {
        let _ = p.notify();
        sys::sleep(us(50));
    }
    let stop_tick = tick();
    let _ = stop_tick;
    let logs: Vec<Vec<(u64, u64, bool)>> = hs.into_iter().map(|h| h.join().expect("harness: waiter")).collect();
    // Overlap analysis. (After `stop`, notifications end waits early; those are at the tail.)
    let mut early = 0u64;
    for (k, l) in logs.iter().enumerate() {
        for (i, w) in l.iter().enumerate() {
            if w.2 && i + 3 < l.len() {
                early += 1;
                let overlapped = logs.iter().enumerate().any(|(o, l)| o != k && {
                    let at = l.partition_point(|x| x.1 < w.0);
                    l.get(at).map_or(false, |x| x.0 < w.1)
                });
                if !overlapped {
                    report::violation("early-timeout", format!("a wait of thread {k} that overlapped no other wait returned nothing before its timeout"));
                }
            }
        }
    }
    for (i, &fd) in fds.iter().enumerate() {
        let (d, a) = (delivered[i].load(SeqCst), issued[i].load(SeqCst));
        if d != a {
            report::violation("missed-oneshot", format!("source {i}: {a} armings, {d} deliveries"));
        }
        p.delete(fdb(fd)).unwrap_or_else(|e| report::violation("op-result", format!("delete returned {e:?}")));
        sys::close(fd);
    }
    let mut h = report::Hash::new();
    for l in &logs {
        h.add(l.len() as u64);
        for w in l.iter().take(50) {
            h.add(w.0);
        }
    }
    report::distinct(h.0);
    report::count("yielded_waits", early);
    report::count("waits", logs.iter().map(|l| l.len() as u64).sum());
    report::count("events", delivered.iter().map(|d| d.load(SeqCst)).sum());
    report::sample(|| format!("{} -> waits per thread {:?}", report::history().join(" "), logs.iter().map(|l| l.len()).collect::<Vec<_>>()));
}

/// Sources are deleted, closed and their numbers reused while another thread is in wait: a wait
/// that starts after delete has returned never reports the old registration.
pub fn deletions(cx: &mut Ctx) {
    let rng = &mut cx.rng;
    let regime = shim::random_regime(rng);
    let p = Arc::new(P::new());
    let edge = vp::supports_edge_backend();
    let rounds = rng.range(20, 150);
    let cap = *rng.pick(&[1usize, 2, 16]);
    let style = rng.below(3);
    report::log(format!("{rounds} rounds, capacity {cap}, wait style {style}, delays: {regime}"));
    // key -> tick at which delete had returned
    let dead: Arc<Mutex<BTreeMap<usize, u64>>> = Arc::default();
    let alive: Arc<Mutex<BTreeSet<usize>>> = Arc::default();
    let stop = Arc::new(AtomicBool::new(false));
    let got: Arc<Mutex<BTreeMap<usize, (u64, bool)>>> = Arc::default();
    let h = {
        let (p, dead, alive, stop, got) = (p.clone(), dead.clone(), alive.clone(), stop.clone(), got.clone());
        let mut r = rng.fork();
        std::thread::spawn(move || {
            let mut ev = events(cap);
            let mut waits = 0u64;
            while !stop.load(SeqCst) {
                ev.clear();
                let t = match style {
                    0 => None,
                    1 => Some(us(r.below(100) as u64)),
                    _ => *r.pick(&[None, Some(us(0)), Some(us(50))]),
                };
                let a = tick();
                p.wait(&mut ev, t, None).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
                waits += 1;
                for e in ev.iter() {
                    if let Some(d) = dead.lock().unwrap().get(&e.key) {
                        if *d < a {
                            report::violation("stale-event", format!("a wait that started after the source had been deleted delivered {e:?}"));
                        }
                    }
                    if !alive.lock().unwrap().contains(&e.key) && !dead.lock().unwrap().contains_key(&e.key) {
                        report::violation("unknown-key", format!("event {e:?}"));
                    }
                    got.lock().unwrap().entry(e.key).or_insert((0, e.writable)).0 += 1;
                }
            }
            waits
        })
    };
    let slot = vp::my_slot();
    let _ = slot;
    let mut r = rng.fork();
    let mut reused = 0u64;
    let mut last_fd = -1;
    let mut key = 1000usize;
    for _ in 0..rounds {
        // A source with both directions known: readable and/or writable.
        let (a, b) = sys::socketpair(libc::SOCK_STREAM);
        if a == last_fd {
            reused += 1;
        }
        let rd = r.chance(1, 2);
        if rd {
            sys::write(b, b"x");
        }
        let mut regs = vec![];
        for _ in 0..r.range(1, 3) {
            key += 1;
            let m = *r.pick(if edge { &[PollMode::Oneshot, PollMode::Level, PollMode::Edge, PollMode::EdgeOneshot] } else { &[PollMode::Oneshot, PollMode::Level] });
            let m = vp::fit(m);
            let (wr, rr) = *r.pick(&[(false, true), (true, false), (true, true)]);
            alive.lock().unwrap().insert(key);
            p.add(a, Event::new(key, rr, wr), m).unwrap_or_else(|e| report::violation("op-result", format!("add of a new source returned {e:?}")));
            pause(&mut r);
            if r.chance(1, 3) {
                // Has to be delivered: it is ready and stays so.
                if wr || rd {
                    let start = sys::now_ns();
                    while got.lock().unwrap().get(&key).is_none() {
                        sys::yield_now();
                        if style == 0 || sys::now_ns() - start > 5_000_000 {
                            sys::sleep(us(50));
                        }
                        if sys::now_ns() - start > 30_000_000_000 {
                            report::violation("missed-ready-blocked", format!("key {key} ({m:?}) is ready but is not delivered to the waiting thread"));
                        }
                    }
                    if m == PollMode::Oneshot && r.chance(1, 2) {
                        alive.lock().unwrap().insert(key);
                        p.modify(fdb(a), Event::new(key, rr, wr), m).unwrap_or_else(|e| report::violation("op-result", format!("modify returned {e:?}")));
                    }
                }
            }
            pause(&mut r);
            p.delete(fdb(a)).unwrap_or_else(|e| report::violation("op-result", format!("delete returned {e:?}")));
            dead.lock().unwrap().insert(key, tick());
            regs.push(key);
        }
        if let Err(e) = p.delete(fdb(a)) {
            if e.kind() != ErrorKind::NotFound {
                report::violation("op-result", format!("a second delete returned {e:?}"));
            }
        } else if !vp::PORT {
            report::violation("op-result", "a second delete returned Ok".to_string());
        }
        last_fd = a;
        sys::close(a);
        sys::close(b);
    }
    stop.store(true, SeqCst);
    shim::no_regime();
    while !h.is_finished() {
        let _ = p.notify();
        sys::sleep(us(50));
    }
    let waits = h.join().expect("harness: waiter");
    let mut ev = events(8);
    for _ in 0..2 {
        ev.clear();
        let n = p.wait(&mut ev, Some(Duration::ZERO), None).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
        if n > 0 {
            report::violation("stale-event", format!("nothing is registered but {:?} is delivered", ev.iter().next()));
        }
    }
    after_quiet(&p, &mut ev);
    let g = got.lock().unwrap();
    let mut hh = report::Hash::new();
    for (k, v) in g.iter() {
        hh.add(*k as u64);
        hh.add(v.0);
    }
    report::distinct(hh.0);
    report::count("waits", waits);
    report::count("deletions", (key - 1000) as u64);
    report::count("number_reuses", reused);
    report::count("events", g.values().map(|v| v.0).sum());
    report::sample(|| format!("{} -> {waits} waits, {} keys delivered", report::history().join(" "), g.len()));
}

/// Several pollers with shared sources, each waited on by its own thread.
pub fn pollers(cx: &mut Ctx) {
    let rng = &mut cx.rng;
    let regime = shim::random_regime(rng);
    let np = rng.range(2, 4);
    let rounds = rng.range(5, 30);
    let hammers = if rng.chance(1, 2) { rng.range(1, 3) } else { 0 };
    report::log(format!("{np} pollers, {rounds} rounds, {hammers} threads with operations on other pollers, delays: {regime}"));
    let efd = sys::eventfd(1);
    // Pollers whose calls must not concern the others: on one, registration calls from several
    // threads, on the other, short waits all the time.
    let busy = Arc::new(P::new());
    let timed = Arc::new(P::new());
    let hammer_go = Arc::new(AtomicU64::new(0));
    let hammer_live = Arc::new(AtomicUsize::new(0));
    let quit = Arc::new(AtomicBool::new(false));
    let mut extra: Vec<_> = (0..hammers)
        .map(|k| {
            let (p, go, live, quit) = (busy.clone(), hammer_go.clone(), hammer_live.clone(), quit.clone());
            let mut r = rng.fork();
            std::thread::spawn(move || {
                let e = sys::eventfd(1);
                let mut seen = 0;
                loop {
                    let g = go.load(SeqCst);
                    if quit.load(SeqCst) {
                        break;
                    }
                    if g == seen {
                        sys::sleep(us(30));
                        continue;
                    }
                    seen = g;
                    p.add(e, Event::none(200 + k), vp::LEVEL).unwrap_or_else(|e| report::violation("op-result", format!("add returned {e:?}")));
                    for _ in 0..r.range(20, if shim::ACTIVE { 60 } else { 200 }) {
                        p.modify(fdb(e), Event::none(200 + k), vp::LEVEL).unwrap_or_else(|e| report::violation("op-result", format!("modify returned {e:?}")));
                    }
                    p.delete(fdb(e)).unwrap_or_else(|e| report::violation("op-result", format!("delete returned {e:?}")));
                    live.fetch_sub(1, SeqCst);
                }
                sys::close(e);
            })
        })
        .collect();
    if hammers > 0 {
        let (p, quit) = (timed.clone(), quit.clone());
        let mut r = rng.fork();
        extra.push(std::thread::spawn(move || {
            let mut ev = events(2);
            while !quit.load(SeqCst) {
                let t = us(1 + r.below(120) as u64);
                ev.clear();
                let a = sys::now_ns();
                let n = p.wait(&mut ev, Some(t), None).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
                let el = sys::now_ns() - a;
                if n != 0 || (el as u128) < t.as_nanos() {
                    report::violation("cross-talk", format!("{n} events after {el} ns from wait({t:?}) on a poller nobody else uses"));
                }
            }
        }));
    }
    let ps: Vec<Arc<P>> = (0..np).map(|_| Arc::new(P::new())).collect();
    struct T {
        rets: AtomicU64,
        evs: AtomicU64,
        slot: AtomicUsize,
        tid: AtomicI32,
        stop: AtomicBool,
    }
    let ts: Vec<Arc<T>> = (0..np).map(|_| Arc::new(T { rets: AtomicU64::new(0), evs: AtomicU64::new(0), slot: AtomicUsize::new(usize::MAX), tid: AtomicI32::new(0), stop: AtomicBool::new(false) })).collect();
    let hs: Vec<_> = (0..np)
        .map(|i| {
            let (p, t) = (ps[i].clone(), ts[i].clone());
            std::thread::spawn(move || {
                let mut ev = events(4);
                t.slot.store(vp::my_slot(), SeqCst);
                t.tid.store(sys::gettid(), SeqCst);
                while !t.stop.load(SeqCst) {
                    ev.clear();
                    p.wait(&mut ev, None, None).unwrap_or_else(|e| report::violation("wait-error", format!("wait returned {e:?}")));
                    for e in ev.iter() {
                        if e.key != 100 + i {
                            report::violation("unknown-key", format!("poller {i} delivered {e:?}"));
                        }
                        t.evs.fetch_add(1, SeqCst);
                    }
                    t.rets.fetch_add(1, SeqCst);
                }
            })
        })
        .collect();
    for (i, p) in ps.iter().enumerate() {
        p.add(efd, Event::none(100 + i), PollMode::Oneshot).unwrap_or_else(|e| report::violation("op-result", format!("add returned {e:?}")));
    }
    let settled = || -> Vec<(u64, u64)> {
        let tids: Vec<i32> = ts
            .iter()
            .map(|t| loop {
                match t.tid.load(SeqCst) {
                    0 => sys::yield_now(),
                    t => break t,
                }
            })
            .collect();
        if !sys::wait_all_asleep(&tids, settle(), Duration::from_secs(20)) {
            report::inconclusive("harness: a waiter does not settle");
        }
        ts.iter().map(|t| (t.rets.load(SeqCst), t.evs.load(SeqCst))).collect()
    };
    let mut h = report::Hash::new();
    let mut r = rng.fork();
    let mut after = settled();
    for _ in 0..rounds {
        let before = after;
        let target = r.below(np);
        let op = r.below(3);
        h.add((op * 10 + target) as u64);
        if hammers > 0 {
            hammer_live.store(hammers, SeqCst);
            hammer_go.fetch_add(1, SeqCst);
            pause(&mut r);
        }
        match op {
            0 => {
                ps[target].notify().unwrap_or_else(|e| report::violation("notify-error", format!("notify returned {e:?}")));
            }
            1 => {
                ps[target].modify(fdb(efd), Event::readable(100 + target), PollMode::Oneshot).unwrap_or_else(|e| report::violation("op-result", format!("modify returned {e:?}")));
            }
            _ => {
                ps[target].delete(fdb(efd)).unwrap_or_else(|e| report::violation("op-result", format!("delete returned {e:?}")));
                ps[target].add(efd, Event::readable(100 + target), PollMode::Oneshot).unwrap_or_else(|e| report::violation("op-result", format!("add returned {e:?}")));
            }
        }
        let t = ts[target].clone();
        let (r0, e0) = before[target];
        vp::owe(t.slot.load(SeqCst), if op == 0 { "notify-lost" } else { "missed-ready-blocked" }, move || (t.rets.load(SeqCst) == r0).then(|| "this poller was notified or given a ready source".to_string()));
        let start = sys::now_ns();
        while ts[target].rets.load(SeqCst) == r0 || (op != 0 && ts[target].evs.load(SeqCst) == e0) {
            sys::yield_now();
            if sys::now_ns() - start > 30_000_000_000 {
                report::violation("missed-oneshot", format!("poller {target} did not deliver a shared source"));
            }
        }
        vp::clear_owed();
        while hammer_live.load(SeqCst) > 0 {
            sys::sleep(us(10));
        }
        after = settled();
        for i in 0..np {
            let now = after[i];
            if i != target && now != before[i] {
                report::violation("cross-talk", format!("poller {i} returned from wait ({:?} -> {now:?}) because of an operation on poller {target}", before[i]));
            }
            if i == target && op != 0 && now.1 != e0 + 1 {
                report::violation("dup-oneshot", format!("poller {i} delivered the source {} times", now.1 - e0));
            }
        }
    }
    quit.store(true, SeqCst);
    shim::no_regime();
    for x in extra {
        x.join().expect("harness: thread");
    }
    for (i, t) in ts.iter().enumerate() {
        t.stop.store(true, SeqCst);
        ps[i].notify().unwrap_or_else(|e| report::violation("notify-error", format!("notify returned {e:?}")));
    }
    for x in hs {
        x.join().expect("harness: waiter");
    }
    sys::close(efd);
    report::count("waits", ts.iter().map(|t| t.rets.load(SeqCst)).sum());
    report::count("events", ts.iter().map(|t| t.evs.load(SeqCst)).sum());
    report::distinct(h.0);
    report::sample(|| report::history().join(" "));
}
