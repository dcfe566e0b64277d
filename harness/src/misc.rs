//! Descriptors and resource limits, failing creation, real failures of the system, pollers watched
//! by other pollers, connecting sockets.
use crate::conc::{after_quiet, events, fdb, us};
use crate::report;
use crate::seq::exported_fd;
use crate::shim::{self, Call};
use crate::src;
use crate::sys::{self, IN};
use crate::vp::{self, P};
use crate::Ctx;
use polling::{Event, PollMode};
use std::sync::Arc;
use std::time::Duration;

fn ok(r: std::io::Result<()>, what: &str) {
    if let Err(e) = r {
        report::violation(if what == "notify" { "notify-error" } else { "op-result" }, format!("{what} returned {e:?}"));
    }
}
fn table() -> std::collections::BTreeMap<i32, (String, i32)> {
    sys::fd_table()
}
fn same_table(before: &std::collections::BTreeMap<i32, (String, i32)>, when: &str) {
    let now = table();
    for (fd, (what, _)) in &now {
        if before.get(fd).map_or(true, |b| b.0 != *what) {
            report::violation("fd-leak", format!("{when}: descriptor {fd} ({what}) is left"));
        }
    }
    for (fd, (what, _)) in before {
        if !now.contains_key(fd) {
            report::violation("fd-closed", format!("{when}: descriptor {fd} ({what}) has been closed"));
        }
    }
}
/// A poller just created: its descriptors are close-on-exec and it does its job.
pub fn works(p: &P, before: &std::collections::BTreeMap<i32, (String, i32)>, when: &str, flood: bool) {
    for (fd, (what, fl)) in table() {
        if before.get(&fd).map_or(true, |b| b.0 != what) && fl & libc::FD_CLOEXEC == 0 {
            report::violation("cloexec", format!("{when}: descriptor {fd} ({what}) is not close-on-exec"));
        }
    }
    let mut ev = events(4);
    let e = sys::eventfd(0);
    ok(p.add(e, Event::readable(3), PollMode::Oneshot), "add");
    if flood {
        for _ in 0..70_000 {
            ok(p.notify(), "notify");
        }
    }
    after_quiet_n(p, &mut ev, flood);
    sys::write(e, &1u64.to_ne_bytes());
    ev.clear();
    match p.wait(&mut ev, None, Some("missed-ready-blocked")) {
        Ok(1) => {}
        r => report::violation("missed-oneshot", format!("{when}: wait returned {r:?} for a ready source")),
    }
    ok(p.delete(fdb(e)), "delete");
    sys::close(e);
    after_quiet(p, &mut ev);
}
fn after_quiet_n(p: &P, ev: &mut polling::Events, notified: bool) {
    if notified {
        ev.clear();
        match p.wait(ev, None, Some("notify-lost")) {
            Ok(0) => {}
            r => report::violation("wait-error", format!("wait after notifications returned {r:?}")),
        }
    }
    after_quiet(p, ev);
}

/// What a poller uses itself is none of its sources: operations on it are refused, and the poller
/// works as before. (The epoll backend does not guard the descriptors behind its notifier and
/// timer; there only its exported one is tried, which cannot contain itself.)
fn own_descriptors(p: &P, own: &[i32]) {
    let exported = exported_fd(p);
    let fds: Vec<i32> = if vp::POLL { own.to_vec() } else { exported.into_iter().collect() };
    for &fd in &fds {
        for mode in [PollMode::Oneshot, PollMode::Level] {
            let r = [
                ("add", p.add(fd, Event::all(900), mode)),
                ("modify", p.modify(fdb(fd), Event::all(900), mode)),
                ("modify to nothing", p.modify(fdb(fd), Event::none(900), mode)),
                ("delete", p.delete(fdb(fd))),
            ];
            for (what, r) in r {
                if r.is_ok() {
                    report::violation("op-result", format!("{what} of descriptor {fd}, which the poller itself uses, returned {r:?}"));
                }
            }
        }
    }
    let mut ev = events(4);
    for _ in 0..2 {
        ok(p.notify(), "notify");
        after_quiet_n(p, &mut ev, true);
    }
}

/// Pollers come and go, are used for long, run out of descriptors.
pub fn resources(cx: &mut Ctx) {
    let rng = &mut cx.rng;
    let mut what = cx.iter % 4;
    if cfg!(vh_sim) && what == 2 {
        what = 0; // the simulation needs descriptors of its own
    }
    let base = table();
    let mut h = report::Hash::new();
    h.add(what);
    match what {
        0 => {
            // Many at once, dropped in any order, some with sources left.
            let n = rng.range(1, 40);
            let shared = sys::eventfd(1);
            let before = table();
            let mut v = vec![];
            let mut owned: Vec<Vec<i32>> = vec![];
            for i in 0..n {
                let t0 = table();
                let p = P::new();
                let mut own = vec![];
                for (fd, (w, fl)) in table() {
                    if t0.get(&fd).map_or(true, |x| x.0 != w) {
                        own.push(fd);
                        if fl & libc::FD_CLOEXEC == 0 {
                            report::violation("cloexec", format!("descriptor {fd} ({w}) of poller {i} is not close-on-exec"));
                        }
                    }
                }
                if i == 0 && (vp::POLL || vp::EPOLL) {
                    own_descriptors(&p, &own);
                }
                if rng.chance(1, 2) {
                    ok(p.add(shared, Event::readable(i), vp::LEVEL), "add");
                }
                owned.push(own);
                v.push(Some(p));
            }
            let mut order: Vec<usize> = (0..n).collect();
            rng.shuffle(&mut order);
            let mut ev = events(4);
            for i in order {
                let t0 = table();
                let p = v[i].take().unwrap();
                vp::call("op-blocked", 0, || "drop".into(), || drop(p));
                let t1 = table();
                for fd in t0.keys() {
                    if !t1.contains_key(fd) && !owned[i].contains(fd) {
                        report::violation("fd-closed", format!("dropping poller {i} closed descriptor {fd}, which is not its own"));
                    }
                }
                for fd in &owned[i] {
                    if t1.contains_key(fd) {
                        report::violation("fd-leak", format!("descriptor {fd} of poller {i} survives it"));
                    }
                }
                if let Some(Some(p)) = v.iter().find(|p| p.is_some()) {
                    ev.clear();
                    if let Err(e) = p.wait(&mut ev, Some(Duration::ZERO), None) {
                        report::violation("wait-error", format!("{e:?}"));
                    }
                }
                h.add(i as u64);
            }
            same_table(&before, "after dropping all pollers");
            if sys::probe(shared) & IN == 0 {
                report::violation("source-data", "a source shared by the pollers has changed".to_string());
            }
            sys::close(shared);
            report::count("pollers", n as u64);
        }
        1 => {
            // Use for long creates nothing.
            let p = P::new();
            let e = sys::eventfd(1);
            let mut ev = events(2);
            let t0 = table();
            for i in 0..rng.range(200, 1500) {
                match rng.below(6) {
                    0 => ok(p.notify(), "notify"),
                    1 => {
                        ok(p.add(e, Event::readable(i), PollMode::Oneshot), "add");
                        ok(p.delete(fdb(e)), "delete");
                    }
                    2 => {
                        ok(p.add(e, Event::all(i), vp::LEVEL), "add");
                        ev.clear();
                        let _ = p.wait(&mut ev, None, Some("missed-ready-blocked"));
                        ok(p.delete(fdb(e)), "delete");
                    }
                    3 => {
                        ev.clear();
                        let _ = p.wait(&mut ev, Some(us(rng.below(30) as u64)), None);
                    }
                    4 => {
                        let _ = p.modify(fdb(e), Event::all(1), PollMode::Oneshot);
                    }
                    _ => {
                        ok(p.add(e, Event::all(i), PollMode::Oneshot), "add");
                        let _ = p.add(e, Event::all(i), vp::LEVEL);
                        let _ = p.modify(fdb(e), Event::all(usize::MAX), vp::LEVEL);
                        ok(p.delete(fdb(e)), "delete");
                    }
                }
                if i % 100 == 0 {
                    let _ = sys::probe(e);
                }
            }
            same_table(&t0, "during use");
            h.add(rng.next());
            drop(p);
            sys::close(e);
        }
        2 => {
            // No descriptors left but k.
            let k = (cx.iter / 4) % 6;
            let lim = libc::rlimit { rlim_cur: 90, rlim_max: 0 };
            let mut old = lim;
            unsafe { libc::getrlimit(libc::RLIMIT_NOFILE, &mut old) };
            let (before, r) = {
                let _g = sys::FD_LOCK.lock().unwrap();
                unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &libc::rlimit { rlim_cur: 90, rlim_max: old.rlim_max }) };
                let mut fill = vec![];
                loop {
                    let f = sys::raw3(libc::SYS_dup, 0, 0, 0);
                    if f < 0 {
                        break;
                    }
                    fill.push(f as i32);
                }
                for _ in 0..k {
                    if let Some(f) = fill.pop() {
                        sys::close(f);
                    }
                }
                let r = P::try_new();
                for f in fill {
                    sys::close(f);
                }
                unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &old) };
                (base.clone(), r)
            };
            report::log(format!("{k} descriptors free: {:?}", r.as_ref().map(|_| ()).map_err(|e| e.to_string())));
            h.add(k * 100 + r.is_ok() as u64);
            match r {
                Err(e) => {
                    if e.raw_os_error() != Some(libc::EMFILE) {
                        report::violation("fault-error", format!("with {k} free descriptors creation failed with {e:?}"));
                    }
                    if k >= 5 {
                        report::violation("create-error", format!("with {k} free descriptors creation failed with {e:?}"));
                    }
                    same_table(&before, "after a failed creation");
                }
                Ok(p) => {
                    works(&p, &before, &format!("created with {k} free descriptors"), true);
                    drop(p);
                    same_table(&before, "after dropping the poller");
                }
            }
        }
        _ => {
            // In several threads.
            let hs: Vec<_> = (0..4)
                .map(|_| {
                    std::thread::spawn(|| {
                        for _ in 0..30 {
                            let p = P::new();
                            ok(p.notify(), "notify");
                            let mut ev = events(1);
                            if let Err(e) = p.wait(&mut ev, None, Some("notify-lost")) {
                                report::violation("wait-error", format!("{e:?}"));
                            }
                        }
                    })
                })
                .collect();
            for x in hs {
                x.join().expect("harness: creator");
            }
            same_table(&base, "after creating and dropping pollers in four threads");
            report::count("pollers", 120);
            h.add(rng.next());
        }
    }
    same_table(&base, "in the end");
    report::count("waits", 1);
    report::distinct(h.0);
    report::sample(|| report::history().join(" "));
}

/// Every system call made by `Poller::new` is made to fail in turn.
pub fn create_faults(cx: &mut Ctx) {
    if !shim::ACTIVE {
        report::inconclusive("faults need the interposed build");
    }
    const CS: [Call; 9] = [Call::EpollCreate, Call::Eventfd, Call::TimerCreate, Call::Pipe2, Call::Pipe, Call::EpollAdd, Call::Fcntl, Call::EpollMod, Call::TimerSet];
    const ES: [i32; 6] = [libc::EMFILE, libc::ENFILE, libc::ENOMEM, libc::ENOSYS, libc::EPERM, libc::EINVAL];
    // All combinations, in an order of the seed's.
    const N: u64 = 9 * 6 * 8 * 6;
    let start = cx.seed % N;
    let i = (start + cx.iter * 1009) % N;
    let c = CS[(i % 9) as usize];
    let skip = (i / 9) % 6;
    let extra = (i / 54) % 8;
    let e = ES[((i / 432) % 6) as usize];
    let before = table();
    // Facilities missing at the same time.
    let mut missing = vec![];
    for (b, m) in [(1, Call::Eventfd), (2, Call::TimerCreate), (4, Call::Pipe2)] {
        if extra & b != 0 && m != c {
            shim::set_fault(m, 0, 100, libc::ENOSYS);
            missing.push(m);
        }
    }
    let many = cx.rng.chance(1, 2);
    shim::set_fault(c, skip as i64, if many { 100 } else { 1 }, e);
    report::log(format!("call {skip} of {c:?} fails with errno {e} ({}); missing {missing:?}", if many { "and all later ones" } else { "once" }));
    let r = P::try_new();
    let hit = shim::fault_hits(c) > 0;
    let missed: Vec<Call> = missing.iter().copied().filter(|m| shim::fault_hits(*m) > 0).collect();
    shim::clear_faults();
    report::count("waits", 1);
    report::count("creations", 1);
    if hit {
        report::count("faults_injected", 1);
        report::distinct(i + 1);
    } else if !missed.is_empty() {
        report::count("facilities_missing", 1);
        report::distinct(100_000 + extra);
    }
    // Whatever the reason these are refused for, there is something to fall back to.
    let facility = matches!(c, Call::Eventfd | Call::TimerCreate | Call::Pipe2);
    match r {
        Err(er) => {
            same_table(&before, "after a failed creation");
            if !hit || facility {
                report::violation("create-error", format!("Poller::new failed with {er:?} although only facilities it can do without are missing ({missed:?} {c:?})"));
            }
            if er.raw_os_error() != Some(e) {
                report::violation("fault-error", format!("Poller::new failed with {er:?} when {c:?} failed with errno {e}"));
            }
        }
        Ok(p) => {
            if hit && c == Call::EpollCreate && many {
                report::violation("fault-hidden", "Poller::new succeeded without an epoll instance".to_string());
            }
            works(&p, &before, &format!("{c:?} failed with errno {e} ({hit}), missing {missed:?}"), hit && cx.rng.chance(1, 3));
            drop(p);
            same_table(&before, "after dropping the poller");
        }
    }
    report::sample(|| report::history().join(" "));
}

/// Failures the kernel itself produces.
pub fn real_faults(cx: &mut Ctx) {
    let rng = &mut cx.rng;
    let p = P::new();
    let n = rng.range(30, 60);
    let fds: Vec<i32> = (0..n).map(|_| sys::eventfd(0)).collect();
    for (i, fd) in fds.iter().enumerate() {
        ok(p.add(*fd, Event::readable(i), PollMode::Oneshot), "add");
    }
    let mut ready = vec![];
    for i in 0..n {
        if rng.chance(1, 4) {
            sys::write(fds[i], &1u64.to_ne_bytes());
            ready.push(i);
        }
    }
    let notified = rng.below(3); // 0 no, 1 before, 2 between failures
    if notified == 1 {
        ok(p.notify(), "notify");
    }
    report::log(format!("{n} sources, {} ready, notified {notified}", ready.len()));
    let edge = vp::supports_edge_backend();
    let mut failures = 0;
    for k in 0..rng.range(1, 4) {
        let t = *rng.pick(&[None, Some(Duration::ZERO), Some(us(200))]);
        let must = Some("wait-blocked");
        let r = if edge {
            // A container larger than the kernel allows.
            let mut ev = events(200_000_000);
            let r = p.wait(&mut ev, t, must);
            if r.is_err() && ev.iter().next().is_some() {
                report::violation("fault-events", "a failed wait delivered events".to_string());
            }
            r
        } else {
            // More sources than the limit on descriptors.
            let mut ev = events(8);
            let mut old = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            unsafe { libc::getrlimit(libc::RLIMIT_NOFILE, &mut old) };
            unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &libc::rlimit { rlim_cur: 10, rlim_max: old.rlim_max }) };
            let r = p.wait(&mut ev, t, must);
            unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &old) };
            if r.is_err() && ev.iter().next().is_some() {
                report::violation("fault-events", "a failed wait delivered events".to_string());
            }
            r
        };
        match r {
            Err(e) if e.raw_os_error() == Some(libc::EINVAL) => failures += 1,
            Err(e) => report::violation("fault-error", format!("the kernel says EINVAL, wait says {e:?}")),
            Ok(n) => {
                // The library did not ask for as much: nothing failed.
                if n > 0 {
                    report::count("no_failure", 1);
                    for fd in fds {
                        sys::close(fd);
                    }
                    return;
                }
                report::violation("fault-hidden", format!("wait returned Ok({n}) although the system call cannot have succeeded"));
            }
        }
        if notified == 2 && k == 0 {
            ok(p.notify(), "notify");
        }
    }
    // As if the failed calls had not been made.
    let mut ev = events(64);
    if notified > 0 {
        ev.clear();
        match p.wait(&mut ev, None, Some("notify-lost")) {
            Ok(k) if k == ev.len() => {}
            r => report::violation("notify-lost", format!("{r:?}")),
        }
    }
    let mut got: Vec<usize> = ev.iter().map(|e| e.key).collect();
    for _ in 0..3 {
        ev.clear();
        match p.wait(&mut ev, Some(Duration::ZERO), None) {
            Ok(_) => got.extend(ev.iter().map(|e| e.key)),
            Err(e) => report::violation("wait-error", format!("after failures have stopped: {e:?}")),
        }
    }
    got.sort();
    if got != ready {
        report::violation("missed-oneshot", format!("ready: {ready:?}, delivered after the failures: {got:?}"));
    }
    after_quiet(&p, &mut ev);
    for fd in &fds {
        ok(p.delete(fdb(*fd)), "delete");
        sys::close(*fd);
    }
    report::count("waits", failures);
    report::count("faults_injected", failures);
    report::distinct(rng.next());
    report::sample(|| report::history().join(" "));
}

/// A poller's descriptor registered in another poller (and, blocking, in another thread).
#[allow(unused_variables)]
pub fn nested(cx: &mut Ctx) {
    let rng = &mut cx.rng;
    let a = Arc::new(P::new());
    let Some(afd) = exported_fd(&a).filter(|_| !vp::PORT) else {
        report::inconclusive("this backend exposes no descriptor");
    };
    let b = Arc::new(P::new());
    let mode = *rng.pick(&[PollMode::Level, PollMode::Level, PollMode::Oneshot, PollMode::Edge]);
    let efd = sys::eventfd(0);
    let ctr = efd;
    ok(b.add(afd, Event::readable(77), mode), "add");
    let src_mode = *rng.pick(&[PollMode::Oneshot, PollMode::Level, PollMode::EdgeOneshot]);
    ok(a.add(efd, Event::readable(1), src_mode), "add");
    let (mut armed, mut ready, mut notified) = (true, false, false);
    let (mut eva, mut evb) = (events(8), events(8));
    let mut h = report::Hash::new();
    report::log(format!("outer {mode:?}, source {src_mode:?}"));
    let steps = rng.range(5, 40);
    let mut seen_since = true; // for edge: nothing has become due since the outer poller looked
    let mut was_due = false;
    for _ in 0..steps {
        let op = rng.below(8);
        h.add(op as u64);
        match op {
            0 => {
                report::log("notify");
                ok(a.notify(), "notify");
                notified = true;
            }
            1 => {
                report::log("ready");
                sys::write(efd, &1u64.to_ne_bytes());
                ready = true;
            }
            2 => {
                report::log("drain");
                let mut x = [0u8; 8];
                sys::read(ctr, &mut x);
                ready = false;
            }
            3 => {
                report::log("re-arm");
                ok(a.modify(fdb(efd), Event::readable(1), src_mode), "modify");
                armed = true;
            }
            4 => {
                report::log("disarm");
                ok(a.modify(fdb(efd), Event::none(1), src_mode), "modify");
                armed = false;
            }
            5 | 6 => {
                let due = notified || (armed && ready);
                let t = if due { *rng.pick(&[None, Some(Duration::ZERO), Some(Duration::from_secs(50))]) } else { Some(Duration::ZERO) };
                report::log(format!("inner wait {t:?}"));
                eva.clear();
                let n = a.wait(&mut eva, t, due.then_some("missed-ready-blocked")).unwrap_or_else(|e| report::violation("wait-error", format!("{e:?}")));
                if n > (armed && ready) as usize {
                    report::violation("spurious-event", format!("{:?}", eva.iter().collect::<Vec<_>>()));
                }
                if n < (armed && ready) as usize && !notified {
                    report::violation("missed-oneshot", "a ready source is not delivered".to_string());
                }
                notified = false;
                if n == 1 && src_mode != PollMode::Level {
                    armed = false;
                }
                // An expired or running timer of this wait may make the descriptor readable; take that away.
                if t.map_or(false, |t| !t.is_zero()) {
                    eva.clear();
                    let k = a.wait(&mut eva, Some(Duration::ZERO), None).unwrap_or_else(|e| report::violation("wait-error", format!("{e:?}")));
                    if k == 1 && src_mode != PollMode::Level {
                        armed = false;
                    }
                }
            }
            _ => {}
        }
        // The outer view.
        let due = notified || (armed && ready);
        if due && !was_due {
            seen_since = false;
        }
        was_due = due;
        let f = sys::probe(afd) & IN != 0;
        if due && !f {
            report::violation("poller-fd-silent", format!("notified {notified}, source armed {armed} ready {ready}: the descriptor is not readable"));
        }
        if !due && f && !(armed && ready) {
            report::violation("poller-fd-stuck", format!("notified {notified}, source armed {armed} ready {ready}: the descriptor is readable"));
        }
        if rng.chance(1, 2) {
            if mode == PollMode::Oneshot {
                ok(b.modify(fdb(afd), Event::readable(77), mode), "modify");
            }
            evb.clear();
            let n = b.wait(&mut evb, Some(Duration::ZERO), None).unwrap_or_else(|e| report::violation("wait-error", format!("{e:?}")));
            let want = match mode {
                PollMode::Edge => due && !seen_since,
                _ => due,
            };
            if want && n == 0 {
                report::violation("poller-fd-silent", format!("the outer poller ({mode:?}) does not deliver the inner one; notified {notified}, armed {armed}, ready {ready}"));
            }
            if !due && n > 0 {
                report::violation("poller-fd-stuck", format!("the outer poller delivers {:?} although nothing is due in the inner one", evb.iter().collect::<Vec<_>>()));
            }
            if n > 0 {
                seen_since = true;
            }
            report::count("outer_waits", 1);
        }
        if exported_fd(&a) != Some(afd) {
            report::violation("poller-fd", "the exported descriptor has changed".to_string());
        }
    }
    // A thread blocked in the outer poller is woken by the inner one.
    if rng.chance(1, 3) {
        let mut x = [0u8; 8];
        sys::read(ctr, &mut x);
        for _ in 0..2 {
            eva.clear();
            let _ = a.wait(&mut eva, Some(Duration::ZERO), None);
        }
        ok(b.modify(fdb(afd), Event::readable(78), PollMode::Oneshot), "modify");
        ok(a.modify(fdb(efd), Event::readable(1), src_mode), "modify");
        let how = rng.below(3);
        let tid = Arc::new(std::sync::atomic::AtomicI32::new(0));
        let hnd = {
            let (b, tid) = (b.clone(), tid.clone());
            std::thread::spawn(move || {
                let mut ev = events(4);
                tid.store(sys::gettid(), std::sync::atomic::Ordering::SeqCst);
                let n = b.wait(&mut ev, None, None).unwrap_or_else(|e| report::violation("wait-error", format!("{e:?}")));
                (n, ev.iter().map(|e| e.key).collect::<Vec<_>>(), vp::my_slot())
            })
        };
        while tid.load(std::sync::atomic::Ordering::SeqCst) == 0 {
            sys::yield_now();
        }
        if !sys::wait_asleep(tid.load(std::sync::atomic::Ordering::SeqCst), Duration::from_millis(2), Duration::from_secs(20)) {
            report::inconclusive("harness: the outer waiter does not settle");
        }
        if hnd.is_finished() {
            report::violation("poller-fd-stuck", "a wait on the outer poller returned although nothing is due in the inner one".to_string());
        }
        match how {
            0 => ok(a.notify(), "notify"),
            _ => {
                sys::write(efd, &1u64.to_ne_bytes());
            }
        }
        let s0 = sys::now_ns();
        while !hnd.is_finished() {
            sys::sleep(us(100));
            let t = sys::thread_facts(tid.load(std::sync::atomic::Ordering::SeqCst));
            if sys::now_ns() - s0 > 5_000_000_000 && t.map_or(false, |t| t.state == b'S') {
                report::violation("poller-fd-silent", "a thread asleep in a wait on the outer poller is not woken by the inner one".to_string());
            }
        }
        let (n, keys, _) = hnd.join().expect("harness: outer waiter");
        if n != 1 || keys != [78] {
            report::violation("unknown-key", format!("the outer poller delivered {keys:?}"));
        }
        report::count("outer_waits", 1);
    }
    ok(b.delete(fdb(afd)), "delete");
    ok(a.delete(fdb(efd)), "delete");
    sys::close(efd);
    report::count("waits", steps as u64);
    report::distinct(h.0);
    report::sample(|| report::history().join("; "));
}

/// TCP connections that are established or refused.
pub fn connects(cx: &mut Ctx) {
    let rng = &mut cx.rng;
    let p = P::new();
    let modes: &[PollMode] = if vp::supports_edge_backend() { &[PollMode::Oneshot, PollMode::Level, PollMode::Edge, PollMode::EdgeOneshot] } else { &[PollMode::Oneshot, PollMode::Level] };
    let mode = vp::fit(*rng.pick(modes));
    let (l, port) = src::tcp_listen();
    let k = rng.range(1, 6);
    let mut v = vec![];
    let order = rng.chance(1, 2);
    for i in 0..k {
        let s = src::tcp_socket();
        let refused = rng.chance(1, 2);
        let (r, w) = *rng.pick(&[(false, true), (true, true)]);
        let mut ev = Event::new(10 + i, r, w);
        if rng.chance(1, 3) {
            ev.set_interrupt(true);
        }
        if rng.chance(1, 3) {
            ev.set_priority(true);
        }
        let connect = |s: i32| {
            let port = if refused { src::closed_addr() } else { port };
            src::tcp_connect(s, port)
        };
        if order {
            let r = connect(s);
            report::log(format!("connect {i}: {r} (refused {refused})"));
            ok(p.add(s, ev, mode), "add");
        } else {
            // Registered with no interest first, then connected.
            ok(p.add(s, Event::none(10 + i), mode), "add");
            let r = connect(s);
            report::log(format!("connect {i}: {r} (refused {refused})"));
            ok(p.modify(fdb(s), ev, mode), "modify");
        }
        v.push((s, refused, false));
    }
    let mut ev = events(*rng.pick(&[1usize, 16]));
    let mut rounds = 0;
    while v.iter().any(|x| !x.2) {
        rounds += 1;
        if rounds > 200 {
            report::violation("missed-ready-blocked", format!("connections {:?} (socket, refused, seen) are not reported", v));
        }
        ev.clear();
        let n = p.wait(&mut ev, Some(Duration::from_secs(20)), None).unwrap_or_else(|e| report::violation("wait-error", format!("{e:?}")));
        if n == 0 {
            report::violation("missed-ready-blocked", "a finished connection is not reported".to_string());
        }
        let mut done = vec![];
        for e in ev.iter() {
            let (s, refused, seen) = &mut v[e.key - 10];
            let f = sys::probe(*s);
            // The outcome as the application sees it.
            if f & libc::POLLOUT == 0 {
                continue;
            }
            if vp::KQUEUE {
                // (Nothing is said about errors there.)
            } else if *refused {
                if !*seen && (e.is_err() != Some(true) || !connect_failed(&e)) {
                    report::violation("event-flags:error", format!("a refused connection is reported as {e:?}: is_err {:?}, is_connect_failed {}", e.is_err(), connect_failed(&e)));
                }
            } else if e.is_err() != Some(false) || connect_failed(&e) {
                report::violation("event-flags:error", format!("an established connection is reported as {e:?}: is_err {:?}, is_connect_failed {}", e.is_err(), connect_failed(&e)));
            }
            if !e.writable {
                report::violation("event-flags:writable", format!("a finished connection is not reported writable: {e:?}"));
            }
            *seen = true;
            if !done.contains(&(*s, e.key)) {
                done.push((*s, e.key));
            }
        }
        for (s, k) in done {
            ok(p.modify(fdb(s), Event::none(k), PollMode::Oneshot), "modify");
            ok(p.delete(fdb(s)), "delete");
        }
        report::count("waits", 1);
        report::count("events", n as u64);
    }
    let mut h = report::Hash::new();
    for x in &v {
        h.add(x.1 as u64);
        sys::close(x.0);
    }
    h.add(order as u64);
    h.adds(&format!("{mode:?}"));
    sys::close(l);
    report::distinct(h.0);
    report::sample(|| report::history().join("; "));
}
#[allow(deprecated)]
fn connect_failed(e: &Event) -> bool {
    let a = e.is_connect_failed();
    if e.is_err() == Some(false) && a == Some(true) {
        report::violation("event-flags:error", format!("{e:?}: no error, yet the connection failed"));
    }
    a == Some(true)
}
