//! Small workloads for Miri: every run is one schedule of a few threads on one poller, chosen by
//! Miri's seed. Miri decides about undefined behaviour, data races, leaks and deadlocks; the
//! workloads decide about results.
#[path = "../../../harness/src/lin.rs"]
#[allow(dead_code)]
mod lin;

use lin::{Op, Rec, Rules};
use polling::{Event, Events, PollMode, Poller};
use sim::kernel;
use std::collections::BTreeMap;
use std::hash::{BuildHasher, Hasher};
use std::io::ErrorKind;
use std::num::NonZeroUsize;
use std::os::fd::{AsRawFd, BorrowedFd, OwnedFd};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::thread::{spawn, yield_now};
use std::time::{Duration, Instant};

const IN: i16 = libc::POLLIN;
const OUT: i16 = libc::POLLOUT;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ z >> 30).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ z >> 27).wrapping_mul(0x94d049bb133111eb);
        z ^ z >> 31
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() >> 16) as usize % n
    }
    fn chance(&mut self, n: usize, m: usize) -> bool {
        self.below(m) < n
    }
    fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }
    fn fork(&mut self) -> Rng {
        Rng(self.next())
    }
}
fn violation(kind: &str, detail: String) -> ! {
    eprintln!("VH-VIOLATION {kind} {}", detail.replace('\n', " "));
    std::process::exit(3)
}
static HASH: AtomicU64 = AtomicU64::new(0xcbf29ce484222325);
static EVENTS: AtomicU64 = AtomicU64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);
/// Part of what distinguishes this run from others. (Relaxed: must not order anything.)
fn saw(x: u64) {
    let _ = HASH.try_update(Relaxed, Relaxed, |h| Some((h ^ x.wrapping_add(0x9e3779b9)).wrapping_mul(0x100000001b3)));
}
fn fdb(fd: i32) -> BorrowedFd<'static> {
    unsafe { BorrowedFd::borrow_raw(fd) }
}
fn events(cap: usize) -> Events {
    Events::with_capacity(NonZeroUsize::new(cap).unwrap())
}
fn add(p: &Poller, fd: i32, e: Event, m: PollMode) -> std::io::Result<()> {
    CALLS.fetch_add(1, Relaxed);
    unsafe { p.add_with_mode(fd, e, m) }
}
fn modify(p: &Poller, fd: i32, e: Event, m: PollMode) -> std::io::Result<()> {
    CALLS.fetch_add(1, Relaxed);
    p.modify_with_mode(fdb(fd), e, m)
}
fn delete(p: &Poller, fd: i32) -> std::io::Result<()> {
    CALLS.fetch_add(1, Relaxed);
    p.delete(fdb(fd))
}
fn notify(p: &Poller) {
    CALLS.fetch_add(1, Relaxed);
    if let Err(e) = p.notify() {
        violation("notify-error", format!("notify returned {e:?}"));
    }
}
fn wait(p: &Poller, ev: &mut Events, t: Option<Duration>) -> usize {
    CALLS.fetch_add(1, Relaxed);
    ev.clear();
    let n = match p.wait(ev, t) {
        Ok(n) => n,
        Err(e) => violation("wait-error", format!("wait({t:?}) returned {e:?}")),
    };
    if n != ev.len() || n != ev.iter().count() || ev.is_empty() != (n == 0) {
        violation("count", format!("wait returned {n}, the container holds {} ({})", ev.len(), ev.iter().count()));
    }
    for e in ev.iter() {
        if e.key == usize::MAX {
            violation("internal-event", "the reserved key was delivered".into());
        }
        saw((e.key as u64).wrapping_add(1000));
    }
    saw(n as u64);
    EVENTS.fetch_add(n as u64, Relaxed);
    n
}
fn must(r: std::io::Result<()>, what: &str) {
    if let Err(e) = r {
        violation("op-result", format!("{what} returned {e:?}"));
    }
}
fn spin(r: &mut Rng) {
    for _ in 0..r.pick(&[0, 0, 0, 1, 3]) {
        yield_now();
    }
}

/// What is handed to the waiting thread before a notification has been handled after it.
fn notifications(r: &mut Rng) {
    let p = Arc::new(Poller::new().unwrap());
    let queue: Arc<(Mutex<(Vec<usize>, Vec<usize>)>, Condvar)> = Arc::default();
    let threads = 1 + r.below(3);
    let rounds = 1 + r.below(3);
    queue.0.lock().unwrap().1 = vec![0; threads];
    let total = threads * rounds;
    let src = (r.chance(1, 3)).then(|| kernel::source(IN));
    if let Some(s) = &src {
        must(add(&p, s.as_raw_fd(), Event::readable(5), PollMode::Oneshot), "add");
    }
    let churn = r.chance(1, 3);
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let (p, q, mut r) = (p.clone(), queue.clone(), r.fork());
            spawn(move || {
                let own = churn.then(|| kernel::source(0));
                for i in 0..rounds {
                    q.0.lock().unwrap().0.push(t);
                    if let (Some(o), true) = (&own, r.chance(1, 2)) {
                        must(add(&p, o.as_raw_fd(), Event::readable(9), PollMode::Oneshot), "add");
                        notify(&p);
                        must(delete(&p, o.as_raw_fd()), "delete");
                    } else {
                        notify(&p);
                    }
                    let mut g = q.0.lock().unwrap();
                    while g.1[t] <= i {
                        g = q.1.wait(g).unwrap();
                    }
                    drop(g);
                    spin(&mut r);
                }
            })
        })
        .collect();
    let mut ev = events(r.pick(&[1, 4]));
    let (mut done, mut wakes, mut seen) = (0, 0usize, 0);
    while done < total {
        let t = if r.chance(1, 5) { Some(Duration::ZERO) } else { None };
        seen += wait(&p, &mut ev, t);
        wakes += t.is_none() as usize;
        let mut g = queue.0.lock().unwrap();
        for t in std::mem::take(&mut g.0) {
            g.1[t] += 1;
            done += 1;
        }
        queue.1.notify_all();
        if seen > 1 {
            violation("dup-oneshot", format!("a one-shot source was delivered {seen} times"));
        }
    }
    for h in hs {
        h.join().unwrap();
    }
    // One wait consumes all there is; then there is nothing.
    if wakes > 2 * total + 4 {
        violation("notify-residue", format!("{wakes} blocking waits for {total} notifications"));
    }
    wait(&p, &mut ev, Some(Duration::ZERO));
    wait(&p, &mut ev, Some(Duration::ZERO));
    let a = Instant::now();
    let d = Duration::from_micros(r.pick(&[1, 900, 40_000]));
    if wait(&p, &mut ev, Some(d)) > 0 || a.elapsed() < d {
        violation("early-timeout", format!("after all notifications a wait for {d:?} ended after {:?} with {} events", a.elapsed(), ev.len()));
    }
}

/// Concurrent registration calls and deliveries have an order that explains them.
fn registrations(r: &mut Rng) {
    let p = Arc::new(Poller::new().unwrap());
    let nsrc = 1 + r.below(2);
    let threads = 1 + r.below(3);
    let nops = 2 + r.below(4);
    let oneshot = r.chance(3, 4);
    let mode = if oneshot { PollMode::Oneshot } else { PollMode::Level };
    let ready: Vec<bool> = (0..nsrc).map(|_| r.chance(4, 5)).collect();
    let srcs: Vec<OwnedFd> = ready.iter().map(|x| kernel::source(if *x { IN } else { 0 })).collect();
    let fds: Vec<i32> = srcs.iter().map(|s| s.as_raw_fd()).collect();
    let clock = Arc::new(AtomicU64::new(1));
    let last = kernel::source(0);
    must(add(&p, last.as_raw_fd(), Event::readable(8), PollMode::Oneshot), "add");
    let cap = r.pick(&[1, 2, 8]);
    let due = Arc::new(AtomicBool::new(false));
    let waiter = {
        let (p, clock, due) = (p.clone(), clock.clone(), due.clone());
        spawn(move || {
            let mut ev = events(cap);
            let mut log = vec![];
            let mut over = 0;
            loop {
                over += due.load(SeqCst) as usize;
                if over > 100 {
                    violation("missed-oneshot", "100 waits did not deliver a ready source registered from the start".into());
                }
                let a = clock.fetch_add(1, Relaxed);
                wait(&p, &mut ev, None);
                let b = clock.fetch_add(1, Relaxed);
                let keys: Vec<usize> = ev.iter().map(|e| e.key).collect();
                let stop = keys.contains(&8);
                log.push((a, b, keys));
                if stop {
                    return log;
                }
            }
        })
    };
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let (p, clock, fds, mut r) = (p.clone(), clock.clone(), fds.clone(), r.fork());
            spawn(move || {
                let mut log: Vec<(usize, Rec)> = vec![];
                for i in 0..nops {
                    let si = r.below(fds.len());
                    let key = (t as u64 + 1) << 40 | (i as u64) << 8 | si as u64;
                    let e = Event::readable(key as usize);
                    let c = r.below(10);
                    let start = clock.fetch_add(1, Relaxed);
                    let op = match c {
                        0..=3 => match add(&p, fds[si], e, mode) {
                            Ok(()) => Op::AddOk(key),
                            Err(e) if e.kind() == ErrorKind::AlreadyExists => Op::AddDup,
                            Err(e) => violation("op-result", format!("add returned {e:?}")),
                        },
                        4..=7 => match modify(&p, fds[si], e, mode) {
                            Ok(()) => Op::ModOk(key),
                            Err(e) if e.kind() == ErrorKind::NotFound => Op::ModMissing,
                            Err(e) => violation("op-result", format!("modify returned {e:?}")),
                        },
                        _ => match delete(&p, fds[si]) {
                            Ok(()) => Op::DelOk,
                            Err(e) if e.kind() == ErrorKind::NotFound => Op::DelMissing,
                            Err(e) => violation("op-result", format!("delete returned {e:?}")),
                        },
                    };
                    let end = clock.fetch_add(1, Relaxed);
                    saw(c as u64 + 77 * t as u64);
                    log.push((si, Rec { op, start, end }));
                    spin(&mut r);
                }
                log
            })
        })
        .collect();
    let logs: Vec<Vec<(usize, Rec)>> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    kernel::set(last.as_raw_fd(), IN);
    due.store(true, SeqCst);
    let mut waits = waiter.join().unwrap();
    let mut ev = events(8);
    for _ in 0..4 {
        let a = clock.fetch_add(1, Relaxed);
        let n = wait(&p, &mut ev, Some(Duration::ZERO));
        let b = clock.fetch_add(1, Relaxed);
        waits.push((a, b, ev.iter().map(|e| e.key).collect()));
        if n == 0 {
            break;
        }
    }
    let end = clock.fetch_add(2, Relaxed);
    for si in 0..nsrc {
        let mine = |k: &usize| *k != 8 && k & 0xff == si;
        let mut hist: Vec<Vec<Rec>> = logs.iter().map(|l| l.iter().filter(|x| x.0 == si).map(|x| x.1).collect()).collect();
        let mut dl: Vec<Rec> = vec![];
        for (a, b, keys) in &waits {
            let k: Vec<usize> = keys.iter().copied().filter(|k| mine(k)).collect();
            if k.len() > 1 {
                violation("dup-in-wait", format!("source {si} was reported {} times by one wait", k.len()));
            }
            if let Some(k) = k.first() {
                dl.push(Rec { op: Op::Deliver(*k as u64), start: *a, end: *b });
            }
        }
        if oneshot || !waits.last().unwrap().2.iter().any(mine) {
            dl.push(Rec { op: Op::Quiet, start: end, end: end + 1 });
        }
        hist.push(dl);
        if let lin::Verdict::No(w) = lin::check(&hist, Rules { oneshot, ready: ready[si], loose: false }, 20_000) {
            violation("not-linearizable", format!("source {si} (ready {}, {mode:?}): {w}; {hist:?}", ready[si]));
        }
    }
}

/// One thread waits, others handle what it delivers and arm it again.
fn reactor(r: &mut Rng) {
    let p = Arc::new(Poller::new().unwrap());
    let nsrc = 1 + r.below(3);
    let rounds = 1 + r.below(3);
    let srcs: Vec<OwnedFd> = (0..nsrc).map(|_| kernel::source(0)).collect();
    let fds: Vec<i32> = srcs.iter().map(|s| s.as_raw_fd()).collect();
    let edge = cfg!(not(polling_test_poll_backend)) && r.chance(1, 3);
    let mode = if edge { PollMode::EdgeOneshot } else { PollMode::Oneshot };
    for (i, f) in fds.iter().enumerate() {
        must(add(&p, *f, Event::readable(i), mode), "add");
    }
    let count: Arc<Vec<AtomicUsize>> = Arc::new((0..nsrc).map(|_| AtomicUsize::new(0)).collect());
    let stop = Arc::new(AtomicBool::new(false));
    let chans: Vec<_> = (0..nsrc).map(|_| std::sync::mpsc::channel::<()>()).collect();
    let (txs, rxs): (Vec<_>, Vec<_>) = chans.into_iter().unzip();
    let waiter = {
        let (p, count, stop) = (p.clone(), count.clone(), stop.clone());
        let mut ev = events(r.pick(&[1, 2, 8]));
        let timed = r.chance(1, 3);
        spawn(move || loop {
            wait(&p, &mut ev, timed.then_some(Duration::from_secs(1000)));
            for e in ev.iter() {
                if !e.readable || e.writable {
                    violation("event-flags", format!("{e:?} for a readable source"));
                }
                let n = count[e.key].fetch_add(1, SeqCst) + 1;
                if n > rounds {
                    violation("dup-oneshot", format!("source {} delivered {n} times, armed {rounds} times", e.key));
                }
                txs[e.key].send(()).unwrap();
            }
            if ev.is_empty() && stop.load(SeqCst) {
                return;
            }
        })
    };
    let hs: Vec<_> = rxs
        .into_iter()
        .enumerate()
        .map(|(i, rx)| {
            let (p, fd, mut r) = (p.clone(), fds[i], r.fork());
            spawn(move || {
                kernel::set(fd, IN);
                for k in 0..rounds {
                    rx.recv().unwrap();
                    if k + 1 == rounds {
                        return;
                    }
                    match r.below(3) {
                        0 => {
                            kernel::set(fd, 0);
                            must(modify(&p, fd, Event::readable(i), mode), "modify");
                            kernel::set(fd, IN);
                        }
                        1 => must(modify(&p, fd, Event::readable(i), mode), "modify"),
                        _ => {
                            must(delete(&p, fd), "delete");
                            must(add(&p, fd, Event::readable(i), mode), "add");
                        }
                    }
                    spin(&mut r);
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    stop.store(true, SeqCst);
    notify(&p);
    waiter.join().unwrap();
}

/// Several threads wait on one poller.
fn waiters(r: &mut Rng) {
    let p = Arc::new(Poller::new().unwrap());
    let n = 2 + r.below(2);
    let rounds = 1 + r.below(3);
    let src = kernel::source(IN);
    let fd = src.as_raw_fd();
    must(add(&p, fd, Event::readable(3), PollMode::Oneshot), "add");
    let delivered = Arc::new(AtomicUsize::new(0));
    let live = Arc::new(AtomicUsize::new(n));
    let hs: Vec<_> = (0..n)
        .map(|_| {
            let (p, delivered, live, mut r) = (p.clone(), delivered.clone(), live.clone(), r.fork());
            spawn(move || {
                let mut ev = events(2);
                for _ in 0..rounds {
                    let t = r.pick(&[None, None, Some(Duration::ZERO), Some(Duration::from_micros(800))]);
                    if wait(&p, &mut ev, t) > 0 {
                        delivered.fetch_add(1, SeqCst);
                        if r.chance(1, 2) {
                            delivered.fetch_sub(1, SeqCst);
                            must(modify(&p, fd, Event::readable(3), PollMode::Oneshot), "modify");
                        }
                    }
                }
                live.fetch_sub(1, SeqCst);
            })
        })
        .collect();
    while live.load(SeqCst) > 0 {
        notify(&p);
        for _ in 0..1 + r.below(6) {
            yield_now();
        }
    }
    for h in hs {
        h.join().unwrap();
    }
    if delivered.load(SeqCst) > 1 {
        violation("dup-oneshot", format!("delivered {} times, armed once", delivered.load(SeqCst)));
    }
    let mut ev = events(2);
    let a = wait(&p, &mut ev, Some(Duration::ZERO));
    if delivered.load(SeqCst) == 0 && a != 1 {
        violation("missed-oneshot", "an armed ready source is not delivered after waits of several threads".into());
    }
}

/// A wait in progress is not ended early by anything that is not an event.
fn timeouts(r: &mut Rng) {
    let p = Arc::new(Poller::new().unwrap());
    let src = kernel::source(0);
    let fd = src.as_raw_fd();
    let ops = r.chance(1, 2);
    let stop = Arc::new(AtomicBool::new(false));
    let other = ops.then(|| {
        let (p, stop) = (p.clone(), stop.clone());
        let mut r = r.fork();
        spawn(move || {
            for _ in 0..6 {
                if stop.load(SeqCst) {
                    break;
                }
                must(add(&p, fd, Event::readable(1), PollMode::Oneshot), "add");
                if add(&p, fd, Event::readable(1), PollMode::Oneshot).is_ok() {
                    violation("op-result", "a second add succeeded".into());
                }
                std::thread::sleep(Duration::from_micros(r.pick(&[1, 300, 3000])));
                must(delete(&p, fd), "delete");
                std::thread::sleep(Duration::from_micros(r.pick(&[1, 300, 3000])));
            }
        })
    });
    let mut ev = events(2);
    for _ in 0..3 {
        let d = Duration::from_nanos(r.pick(&[0, 1, 999, 1000, 250_000, 999_999, 1_000_001, 3_400_000, 25_000_000]));
        let a = Instant::now();
        let n = wait(&p, &mut ev, Some(d));
        let took = a.elapsed();
        if n > 0 {
            violation("spurious-event", format!("{:?}", ev.iter().collect::<Vec<_>>()));
        }
        if took < d {
            violation("early-timeout", format!("wait({d:?}) ended after {took:?}"));
        }
    }
    stop.store(true, SeqCst);
    if let Some(h) = other {
        h.join().unwrap();
    }
    // A wait that never times out by itself.
    let t = r.pick(&[None, Some(Duration::MAX), Some(Duration::from_secs(u64::MAX / 4)), Some(Duration::from_secs(40_000_000))]);
    let h = {
        let p = p.clone();
        let d = r.pick(&[0, 50, 5000]);
        spawn(move || {
            std::thread::sleep(Duration::from_micros(d));
            notify(&p);
        })
    };
    wait(&p, &mut ev, t);
    h.join().unwrap();
}

#[derive(Debug, Clone, Copy)]
struct Reg {
    key: usize,
    mask: i16,
    oneshot: bool,
    edge: bool,
    armed: bool,
}
/// One thread, any call.
fn single(r: &mut Rng) {
    let p = Poller::new().unwrap();
    let srcs: Vec<OwnedFd> = (0..4).map(|_| kernel::source(0)).collect();
    let mut regs: BTreeMap<usize, Reg> = BTreeMap::new();
    let mut notified = false;
    let mut ev = events(r.pick(&[1, 3, 16]));
    for step in 0..12 + r.below(14) {
        let i = r.below(4);
        let fd = srcs[i].as_raw_fd();
        let mode = r.pick(&[PollMode::Oneshot, PollMode::Oneshot, PollMode::Level, PollMode::Level, PollMode::Edge, PollMode::EdgeOneshot]);
        let edge = matches!(mode, PollMode::Edge | PollMode::EdgeOneshot);
        let key = if r.chance(1, 12) { usize::MAX } else { r.pick(&[i, 10 + i, usize::MAX - 1 - i, (1 << 40) + i, step << 32 | i << 8 | 0xff]) };
        let (rd, wr) = (r.chance(1, 2), r.chance(1, 2));
        let (pri, hup) = (r.chance(1, 4), r.chance(1, 6));
        let mut e = Event::new(key, rd, wr);
        if pri {
            e = e.with_priority();
        }
        e.set_interrupt(hup);
        let mask = (if rd { IN | libc::POLLPRI } else { 0 }) | (if wr { OUT } else { 0 }) | (if pri { libc::POLLPRI } else { 0 });
        let new = Reg { key, mask: mask | libc::POLLHUP | libc::POLLERR, oneshot: matches!(mode, PollMode::Oneshot | PollMode::EdgeOneshot), edge, armed: true };
        let supported = !edge || p.supports_edge();
        match r.below(9) {
            0 | 1 => {
                let res = add(&p, fd, e, mode).map_err(|e| e.kind());
                let there = regs.contains_key(&i);
                match (res, key == usize::MAX, supported, there) {
                    (Ok(()), false, true, false) => {
                        regs.insert(i, new);
                    }
                    (Err(ErrorKind::InvalidInput), true, ..) => {}
                    (Err(ErrorKind::Unsupported), _, false, _) => {}
                    (Err(ErrorKind::AlreadyExists), _, _, true) => {}
                    x => violation("op-result", format!("add {e:?} {mode:?}: {x:?}")),
                }
            }
            2 | 3 => {
                let res = modify(&p, fd, e, mode).map_err(|e| e.kind());
                let there = regs.contains_key(&i);
                match (res, key == usize::MAX, supported, there) {
                    (Ok(()), false, true, true) => {
                        regs.insert(i, new);
                    }
                    (Err(ErrorKind::InvalidInput), true, ..) => {}
                    (Err(ErrorKind::Unsupported), _, false, _) => {}
                    (Err(ErrorKind::NotFound), _, _, false) => {}
                    x => violation("op-result", format!("modify {e:?} {mode:?}: {x:?}")),
                }
            }
            4 => {
                let res = delete(&p, fd).map_err(|e| e.kind());
                match (res, regs.remove(&i)) {
                    (Ok(()), Some(_)) | (Err(ErrorKind::NotFound), None) => {}
                    x => violation("op-result", format!("delete: {x:?}")),
                }
            }
            5 | 6 => {
                let f = r.pick(&[0, IN, OUT, IN | OUT, libc::POLLPRI, IN | libc::POLLPRI, IN | OUT | libc::POLLHUP, OUT | libc::POLLERR]);
                kernel::set(fd, f);
                // Edges are not followed here.
            }
            7 => {
                notify(&p);
                notified = true;
            }
            _ => {
                let t = r.pick(&[Some(Duration::ZERO), Some(Duration::ZERO), Some(Duration::from_micros(700)), Some(Duration::from_millis(4))]);
                let a = Instant::now();
                let n = wait(&p, &mut ev, t);
                if n == 0 && !notified && a.elapsed() < t.unwrap() {
                    violation("early-timeout", format!("wait({t:?}) ended after {:?}", a.elapsed()));
                }
                notified = false;
                check(&ev, &srcs, &mut regs);
            }
        }
    }
    // With room for everything, all that is due is delivered.
    if notified {
        wait(&p, &mut ev, Some(Duration::ZERO));
        check(&ev, &srcs, &mut regs);
    }
    let mut big = events(32);
    wait(&p, &mut big, Some(Duration::ZERO));
    let due: Vec<Reg> = regs.iter().filter(|(i, g)| !g.edge && g.armed && kernel::get(srcs[**i].as_raw_fd()) & g.mask != 0).map(|x| *x.1).collect();
    for g in &due {
        if !big.iter().any(|e| e.key == g.key) {
            violation("missed", format!("{g:?} is ready and was not delivered: {:?}", big.iter().collect::<Vec<_>>()));
        }
    }
    check(&big, &srcs, &mut regs);
    if r.chance(1, 2) {
        for i in regs.keys() {
            must(delete(&p, srcs[*i].as_raw_fd()), "delete");
        }
    }
}
/// Every event belongs to an armed registration whose source is ready.
fn check(ev: &Events, srcs: &[OwnedFd], regs: &mut BTreeMap<usize, Reg>) {
    for e in ev.iter() {
        // Keys may be shared: some registration has to explain it.
        let hit = regs.iter_mut().find(|(i, g)| {
            let f = kernel::get(srcs[**i].as_raw_fd());
            let rd = f & (IN | libc::POLLPRI | libc::POLLHUP | libc::POLLERR) != 0;
            let wr = f & (OUT | libc::POLLHUP | libc::POLLERR) != 0;
            g.key == e.key && g.armed && f & g.mask != 0 && (!e.readable || rd) && (!e.writable || wr) && (e.readable || e.writable || e.is_priority() || e.is_interrupt() || e.is_err().unwrap_or(true))
        });
        match hit {
            Some((_, g)) => {
                if g.oneshot {
                    g.armed = false;
                }
            }
            None => violation("spurious-event", format!("{e:?} is explained by none of {regs:?} ({:?})", srcs.iter().map(|s| kernel::get(s.as_raw_fd())).collect::<Vec<_>>())),
        }
    }
}

fn main() {
    // Under isolation this depends on Miri's seed alone.
    let mut h = std::collections::hash_map::RandomState::new().build_hasher();
    h.write_u8(1);
    let seed = h.finish();
    let mut r = Rng(seed);
    kernel::setup(r.next(), r.pick(&[0, 0, 40, 120]), r.chance(1, 3), r.pick(&[0, 0, 12, 40]));
    let which = std::env::args().nth(1).unwrap_or_default();
    match which.as_str() {
        "none" => {}
        "notifications" => notifications(&mut r),
        "registrations" => registrations(&mut r),
        "reactor" => reactor(&mut r),
        "waiters" => waiters(&mut r),
        "timeouts" => timeouts(&mut r),
        "single" => single(&mut r),
        _ => violation("harness", "no such workload".into()),
    }
    let s = kernel::stats();
    println!("VH-RUN {:016x} calls={} events={} syscalls={} sleeps={} interruptions={}", HASH.load(Relaxed) ^ s.order, CALLS.load(Relaxed), EVENTS.load(Relaxed), s.calls, s.sleeps, s.interruptions);
}
