//! Single-threaded histories on the simulated kqueue and event ports, checked step by step.
//! There a registration consists of parts that are delivered and disarmed separately (kqueue: one
//! filter per direction) or of one association that ends with its delivery (event ports).
use crate::report::{self, Hash};
use crate::rng::Rng;
use crate::seq::{event_of, exported_fd, Pend, Reg};
use crate::src::{self, Kind, Sources};
use crate::sys::{self, ERR, HUP, IN, OUT, PRI};
use crate::vp::{self, P};
use crate::Ctx;
use polling::{Event, Events, PollMode};
use simos::sim::{self, Site};
use std::collections::{BTreeMap, BTreeSet};
use std::io::ErrorKind as K;
use std::num::NonZeroUsize;
use std::os::fd::BorrowedFd;
use std::time::Duration;

const PIPE: bool = cfg!(vh_kqpipe);

/// One part of a registration.
#[derive(Clone, Debug)]
struct Part {
    /// Conditions that must be delivered.
    must: i16,
    /// Conditions that may be.
    may: i16,
    armed: bool,
    pend: Pend,
    miss: usize,
}
#[derive(Clone, Debug)]
struct R {
    g: Reg,
    parts: [Option<Part>; 2],
}
fn parts(g: &Reg) -> [Option<Part>; 2] {
    let p = |must: i16, may: i16| Some(Part { must, may, armed: true, pend: Pend::No, miss: 0 });
    if vp::PORT {
        let m = (if g.r { IN | PRI } else { 0 }) | (if g.w { OUT } else { 0 }) | if g.r || g.w { HUP | ERR } else { 0 };
        let m = m | if g.pri { PRI } else { 0 };
        [p(m, m | HUP | ERR), None]
    } else {
        let e = HUP | ERR;
        [if g.r { p(IN | e, IN | e) } else { None }, if g.w { p(OUT | e, OUT | e) } else { None }]
    }
}
fn edge(m: PollMode) -> bool {
    matches!(m, PollMode::Edge | PollMode::EdgeOneshot)
}
fn oneshot(m: PollMode) -> bool {
    matches!(m, PollMode::Oneshot | PollMode::EdgeOneshot)
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Note {
    No,
    /// At most so many wake-ups may still come.
    May(usize),
    Must(usize),
}
struct Pm {
    p: Option<P>,
    regs: BTreeMap<usize, R>,
    note: Note,
    /// What raw epoll instances with the same registrations say about edges.
    refs: [i32; 2],
    fd: i32,
    own: BTreeSet<i32>,
    old: BTreeSet<usize>,
}
struct Cont {
    ev: Events,
    cap: usize,
    cleared: bool,
    snap: Vec<Event>,
}
struct World<'a> {
    cx: &'a mut Ctx,
    s: Sources,
    pm: Vec<Pm>,
    conts: Vec<Cont>,
    base: BTreeSet<i32>,
    h: Hash,
    faults: bool,
    eintr: bool,
    delivered: u64,
    waits: u64,
    next_key: usize,
    /// Histories in which the same few registrations are asked for again and again.
    habits: bool,
    /// A second thread that makes some of the calls.
    other: Option<vp::Elsewhere>,
    habit: BTreeMap<(usize, i32), Vec<Reg>>,
}
fn fdb(fd: i32) -> BorrowedFd<'static> {
    unsafe { BorrowedFd::borrow_raw(fd) }
}
fn ctl(ep: i32, op: i32, fd: i32, mask: u32, data: u64) -> isize {
    let mut e = libc::epoll_event { events: mask, u64: data };
    sys::raw4(libc::SYS_epoll_ctl, ep as usize, op as usize, fd as usize, &mut e as *mut _ as usize)
}
fn bad(k: &str, d: String) -> ! {
    report::violation(k, d)
}
macro_rules! hist {
    ($($a:tt)*) => { report::log(format!($($a)*)) };
}

impl<'a> World<'a> {
    fn new(cx: &'a mut Ctx) -> World<'a> {
        let base = sys::fd_table().keys().copied().collect();
        World { cx, s: Sources::default(), pm: vec![], conts: vec![], base, h: Hash::new(), faults: false, eintr: false, delivered: 0, waits: 0, next_key: 0, habits: false, other: None, habit: BTreeMap::new() }
    }
    fn check_fds(&self, when: &str) {
        let mut known = self.base.clone();
        known.extend(self.s.eps.iter().filter(|e| e.open).map(|e| e.fd));
        for m in &self.pm {
            known.extend(m.own.iter());
            known.extend(m.refs.iter().filter(|f| **f >= 0));
        }
        let t = sys::fd_table();
        for (fd, (what, _)) in &t {
            if !known.contains(fd) {
                bad("fd-leak", format!("{when}: descriptor {fd} ({what}) belongs to nobody"));
            }
        }
        for fd in known {
            if !t.contains_key(&fd) {
                bad("fd-closed", format!("{when}: descriptor {fd} has been closed"));
            }
        }
    }
    fn add_poller(&mut self) {
        if self.faults && self.cx.rng.chance(1, 3) {
            // A poller that cannot be created leaves nothing behind.
            let before = sys::fd_table();
            let (site, skip) = *self.cx.rng.pick(if vp::PORT { &[(Site::Create, 0)][..] } else { &[(Site::Create, 0), (Site::Change, 0), (Site::Receipt, 0), (Site::Receipt, PIPE as i64)][..] });
            let e = *self.cx.rng.pick(&[libc::ENOMEM, libc::EMFILE, libc::EACCES, libc::EIO]);
            sim::plan(site, skip, 1, e);
            let r = P::try_new();
            let hit = sim::hits(site) > 0;
            sim::unplan();
            if hit {
                report::count("faults_injected", 1);
                match r {
                    Ok(_) => bad("fault-hidden", format!("Poller::new succeeded although the system failed {site:?} with errno {e}")),
                    Err(x) if x.raw_os_error() != Some(e) => bad("fault-error", format!("Poller::new returned {x:?} when {site:?} failed with errno {e}")),
                    _ => {}
                }
                if sys::fd_table() != before {
                    bad("fd-leak", "a poller that could not be created left descriptors behind".into());
                }
            }
        }
        let before = sys::fd_table();
        let p = P::new();
        let mut own = BTreeSet::new();
        for (fd, (what, fl)) in &sys::fd_table() {
            if !before.contains_key(fd) {
                own.insert(*fd);
                if fl & libc::FD_CLOEXEC == 0 {
                    bad("cloexec", format!("descriptor {fd} ({what}) of a poller is not close-on-exec"));
                }
            }
        }
        let fd = exported_fd(&p).unwrap();
        let (l, e) = (p.p.supports_level(), p.p.supports_edge());
        if l != vp::supports_level_backend() || e != vp::supports_edge_backend() {
            bad("mode-support", format!("supports_level {l}, supports_edge {e}"));
        }
        let mk = || sys::raw3(libc::SYS_epoll_create1, libc::EPOLL_CLOEXEC as usize, 0, 0) as i32;
        let refs = if vp::KQUEUE { [mk(), mk()] } else { [-1, -1] };
        report::count("pollers", 1);
        self.pm.push(Pm { p: Some(p), regs: BTreeMap::new(), note: Note::No, refs, fd, own, old: BTreeSet::new() });
    }
    fn fresh_key(&mut self) -> usize {
        loop {
            let rng = &mut self.cx.rng;
            let k = match rng.below(8) {
                0 => rng.below(4),
                1 => usize::MAX - 1 - rng.below(3),
                2 => u32::MAX as usize - 1 + rng.below(4),
                3 => 1 << 63,
                4 => rng.below(64),
                5 => rng.next() as usize,
                _ => {
                    self.next_key += 1;
                    1000 + self.next_key
                }
            };
            if k != usize::MAX && !self.pm.iter().any(|m| m.regs.values().any(|g| g.g.key == k)) && !self.habit.values().any(|v| v[0].key == k) {
                return k;
            }
        }
    }
    fn random_mode(&mut self) -> PollMode {
        let l: &[PollMode] = if vp::PORT {
            &[PollMode::Oneshot]
        } else {
            match self.cx.profile.as_str() {
                "edge" => &[PollMode::Edge, PollMode::EdgeOneshot, PollMode::Edge, PollMode::Oneshot],
                "level" => &[PollMode::Level, PollMode::Level, PollMode::Oneshot],
                _ => &[PollMode::Oneshot, PollMode::Oneshot, PollMode::Level, PollMode::Level, PollMode::Edge, PollMode::EdgeOneshot],
            }
        };
        *self.cx.rng.pick(l)
    }
    fn random_reg(&mut self) -> Reg {
        let key = self.fresh_key();
        let mode = self.random_mode();
        let rng = &mut self.cx.rng;
        let (r, w) = *rng.pick(&[(true, false), (true, false), (false, true), (true, true), (true, true), (false, false)]);
        // (kqueue has no place for more in an interest.)
        let (pri, hup) = if vp::PORT { (rng.chance(1, 8), rng.chance(1, 8)) } else { (false, false) };
        Reg { key, r, w, pri, hup, mode, armed: true, pend: Pend::No, miss: 0, gen: 0 }
    }
    /// What to ask for a source: something new, or one of the two or three things that are always
    /// asked for it.
    fn reg_for(&mut self, pi: usize, si: usize) -> Reg {
        if !self.habits || self.cx.rng.chance(1, 8) {
            return self.random_reg();
        }
        let at = (pi, self.s.eps[si].fd);
        if !self.habit.contains_key(&at) {
            let g = self.random_reg();
            let mut v = vec![g.clone()];
            for _ in 0..self.cx.rng.range(1, 2) {
                let mut o = self.random_reg();
                o.key = g.key;
                if self.cx.rng.chance(2, 3) {
                    o.mode = g.mode;
                }
                v.push(o);
            }
            self.habit.insert(at, v);
        }
        let v = &self.habit[&at];
        self.cx.rng.pick(v).clone()
    }
    /// Makes a call, sometimes on the other thread.
    fn on<R: Send>(&mut self, pi: usize, f: impl FnOnce(&P) -> R + Send) -> R {
        let p = self.pm[pi].p.as_ref().unwrap();
        match &self.other {
            Some(o) if self.cx.rng.chance(1, 2) => o.run(|| f(p)),
            _ => f(p),
        }
    }
    fn arm(&mut self, pi: usize, si: usize, g: Reg) {
        let fd = self.s.eps[si].fd;
        let m = &mut self.pm[pi];
        let new = parts(&g);
        for d in 0..2 {
            if m.refs[d] < 0 {
                continue;
            }
            let is = edge(g.mode) && new[d].is_some();
            ctl(m.refs[d], libc::EPOLL_CTL_DEL, fd, 0, 0);
            if is {
                let mask = (if d == 0 { libc::EPOLLIN | libc::EPOLLRDHUP } else { libc::EPOLLOUT } | libc::EPOLLET) as u32;
                let r = ctl(m.refs[d], libc::EPOLL_CTL_ADD, fd, mask, si as u64);
                assert!(r == 0, "harness: reference epoll_ctl failed {r}");
            }
        }
        m.old.insert(g.key);
        m.regs.insert(si, R { g, parts: new });
    }
    fn disarm(&mut self, pi: usize, si: usize) {
        let fd = self.s.eps[si].fd;
        let m = &mut self.pm[pi];
        m.regs.remove(&si);
        for r in m.refs {
            if r >= 0 {
                ctl(r, libc::EPOLL_CTL_DEL, fd, 0, 0);
            }
        }
    }
    /// Nothing of an unregistered source may remain in the queue.
    fn check_contents(&self, pi: usize, si: usize, when: &str) {
        if vp::KQUEUE {
            let fd = self.s.eps[si].fd as usize;
            let c = simos::kqueue::contents(self.pm[pi].fd);
            for f in [-1i16, -2] {
                if c.contains(&(f, fd)) {
                    bad("left-registered", format!("{when}: the queue still holds filter {f} for s{si} (fd {fd})"));
                }
            }
        }
    }
    fn plan(&mut self, opts: &[(Site, i64)], num: usize, den: usize) -> Option<(Site, i32)> {
        if !self.faults || !self.cx.rng.chance(num, den) {
            return None;
        }
        let (s, skip) = *self.cx.rng.pick(opts);
        let e = *self.cx.rng.pick(&[libc::ENOMEM, libc::EACCES, libc::EIO, libc::EINVAL]);
        hist!("  the system fails {s:?} number {skip} with errno {e}");
        sim::plan(s, skip, 1, e);
        Some((s, e))
    }
    fn failed(&mut self, inj: Option<(Site, i32)>, op: &str, err: Option<&std::io::Error>) -> bool {
        let Some((s, e)) = inj else { return false };
        let hit = sim::hits(s) > 0;
        sim::unplan();
        if !hit {
            return false;
        }
        report::count("faults_injected", 1);
        self.h.add(s as u64 * 1000 + e as u64);
        match err {
            None => bad("fault-hidden", format!("{op} returned Ok although the system failed {s:?} with errno {e}")),
            Some(er) if er.raw_os_error() != Some(e) => bad("fault-error", format!("{op} returned {er:?} when the system failed {s:?} with errno {e}")),
            _ => true,
        }
    }
    fn change_sites() -> &'static [(Site, i64)] {
        if vp::PORT {
            &[(Site::Change, 0)]
        } else {
            &[(Site::Change, 0), (Site::Receipt, 0), (Site::Receipt, 1)]
        }
    }
    fn op_add(&mut self, pi: usize, si: usize, g: Reg) {
        let fd = self.s.eps[si].fd;
        let ev = event_of(&mut self.cx.rng, &g);
        hist!("p{pi} add s{si} fd {fd} {:?} {g:?}", self.s.eps[si].kind);
        let inj = self.plan(Self::change_sites(), 1, 4);
        let mode = g.mode;
        let r = self.on(pi, |p| p.add(fd, ev, mode));
        if self.failed(inj, "add", r.as_ref().err()) {
            self.pm[pi].old.insert(g.key);
            self.check_contents(pi, si, "after an add that failed");
            if vp::KQUEUE && self.cx.rng.chance(1, 2) {
                // It is not registered.
                match self.pm[pi].p.as_ref().unwrap().delete(fdb(fd)) {
                    Err(e) if e.kind() == K::NotFound => {}
                    r => bad("fault-registered", format!("delete after an add that failed returned {r:?}")),
                }
            }
            return;
        }
        if let Err(e) = r {
            bad("op-result", format!("add of an unregistered source (fd {fd}, {:?}) failed: {e:?}", self.s.eps[si].kind));
        }
        self.arm(pi, si, g);
        report::count("registrations", 1);
    }
    fn op_modify(&mut self, pi: usize, si: usize, g: Reg) {
        let fd = self.s.eps[si].fd;
        let ev = event_of(&mut self.cx.rng, &g);
        hist!("p{pi} modify s{si} fd {fd} {g:?}");
        let inj = self.plan(Self::change_sites(), 1, 4);
        let mode = g.mode;
        let r = self.on(pi, |p| p.modify(fdb(fd), ev, mode));
        if self.failed(inj, "modify", r.as_ref().err()) {
            if matches!(inj, Some((Site::Receipt, _))) {
                // Part of it may have been done: once more.
                hist!("  again");
                if let Err(e) = self.pm[pi].p.as_ref().unwrap().modify(fdb(fd), ev, g.mode) {
                    bad("fault-registered", format!("modify fails after one that failed: {e:?}"));
                }
                self.arm(pi, si, g);
            }
            return;
        }
        if let Err(e) = r {
            bad("op-result", format!("modify of a registered source (fd {fd}) failed: {e:?}"));
        }
        self.arm(pi, si, g);
        report::count("registrations", 1);
    }
    fn op_delete(&mut self, pi: usize, si: usize) {
        let fd = self.s.eps[si].fd;
        hist!("p{pi} delete s{si} fd {fd}");
        let inj = self.plan(Self::change_sites(), 1, 4);
        let mut r = self.on(pi, |p| p.delete(fdb(fd)));
        if self.failed(inj, "delete", r.as_ref().err()) {
            // It is still there to be deleted.
            hist!("  again");
            r = self.pm[pi].p.as_ref().unwrap().delete(fdb(fd));
        }
        if let Err(e) = r {
            bad("op-result", format!("delete of a registered source (fd {fd}) failed: {e:?}"));
        }
        self.disarm(pi, si);
        self.check_contents(pi, si, "after delete");
    }
    fn delete_everywhere(&mut self, si: usize) {
        for pi in 0..self.pm.len() {
            if self.pm[pi].regs.contains_key(&si) {
                self.op_delete(pi, si);
            }
        }
    }
    fn op_bad(&mut self, pi: usize) {
        let regd: Vec<usize> = self.pm[pi].regs.keys().copied().collect();
        let free: Vec<usize> = (0..self.s.eps.len()).filter(|i| self.s.eps[*i].open && !self.pm[pi].regs.contains_key(i)).collect();
        let g = self.random_reg();
        let c = self.cx.rng.below(7);
        let from = if matches!(c, 0 | 3 | 5) { &regd } else { &free };
        if from.is_empty() {
            return;
        }
        let si = *self.cx.rng.pick(from);
        let fd = self.s.eps[si].fd;
        let ev = event_of(&mut self.cx.rng, &g);
        let odd = *self.cx.rng.pick(&[PollMode::Level, PollMode::Edge, PollMode::EdgeOneshot]);
        let p = self.pm[pi].p.as_ref().unwrap();
        let (what, r, ok): (&str, std::io::Result<()>, &[K]) = match c {
            0 => {
                let r = p.add(fd, ev, g.mode);
                if vp::PORT && r.is_ok() {
                    // There it means the same as modify.
                    hist!("p{pi} add s{si} once more {g:?}");
                    return self.arm(pi, si, g);
                }
                ("add of a registered source", r, &[K::AlreadyExists])
            }
            1 => {
                let r = p.modify(fdb(fd), ev, g.mode);
                if vp::PORT && r.is_ok() {
                    hist!("p{pi} modify of unregistered s{si} {g:?}");
                    return self.arm(pi, si, g);
                }
                ("modify of an unregistered source", r, &[K::NotFound])
            }
            2 => {
                let r = p.delete(fdb(fd));
                if vp::PORT && r.is_ok() {
                    return;
                }
                ("delete of an unregistered source", r, &[K::NotFound])
            }
            3 | 4 => {
                let ev = Event::new(usize::MAX, g.r, g.w);
                let r = if self.cx.rng.chance(1, 2) { p.add(fd, ev, g.mode) } else { p.modify(fdb(fd), ev, g.mode) };
                ("registration under the reserved key", r, &[K::InvalidInput, K::AlreadyExists, K::NotFound])
            }
            5 if vp::PORT => ("modify to an unsupported mode", p.modify(fdb(fd), ev, odd), &[K::Unsupported]),
            6 if vp::PORT => ("add in an unsupported mode", p.add(fd, ev, odd), &[K::Unsupported]),
            6 => {
                // Something that cannot be in a queue (here).
                if !g.r && !g.w {
                    return;
                }
                let f = std::fs::File::open("/proc/self/exe").unwrap();
                let fd = std::os::fd::AsRawFd::as_raw_fd(&f);
                for _ in 0..2 {
                    match p.add(fd, ev, g.mode) {
                        Err(e) if e.raw_os_error() == Some(libc::EPERM) => {}
                        r => bad("op-result", format!("add of a file that the system refuses returned {r:?}")),
                    }
                }
                ("delete of what was refused", p.delete(fdb(fd)), &[K::NotFound, K::PermissionDenied])
            }
            _ => return,
        };
        hist!("p{pi} {what}: s{si} {ev:?} -> {r:?}");
        report::count("refused_calls", 1);
        match r {
            Ok(()) => bad(if c >= 5 { "mode-support" } else { "op-result" }, format!("{what} (s{si}, fd {fd}) returned Ok")),
            Err(e) if ok.contains(&e.kind()) => {}
            Err(e) => bad("op-result", format!("{what} (s{si}, fd {fd}) returned {e:?}, expected {ok:?}")),
        }
    }
    fn op_notify(&mut self, pi: usize) {
        let n = *self.cx.rng.pick(&[1, 1, 2, 17]);
        hist!("p{pi} notify x{n}");
        let mut sent = 0;
        for _ in 0..n {
            let inj = if vp::PORT { self.plan(&[(Site::Send, 0)], 1, 4) } else { None };
            let r = self.on(pi, |p| p.notify());
            if self.failed(inj, "notify", r.as_ref().err()) {
                continue;
            }
            if let Err(e) = r {
                bad("notify-error", format!("notify returned {e:?}"));
            }
            sent += 1;
        }
        if sent > 0 {
            self.pm[pi].note = Note::Must(sent + match self.pm[pi].note {
                Note::No => 0,
                Note::May(k) | Note::Must(k) => k,
            });
        }
        report::count("notifications", sent as u64);
    }
    fn op_io(&mut self) {
        let open: Vec<usize> = (0..self.s.eps.len()).filter(|i| self.s.eps[*i].open).collect();
        if open.is_empty() {
            return;
        }
        let si = *self.cx.rng.pick(&open);
        let e = self.s.eps[si].clone();
        let rng = &mut self.cx.rng;
        let c = rng.below(14);
        match c {
            0..=4 => {
                if e.kind == Kind::Listener {
                    let c = src::tcp_socket();
                    src::tcp_connect(c, src::addr_of(e.fd));
                    hist!("somebody connects to s{si}");
                    sys::close(c);
                } else if e.kind == Kind::TcpIdle {
                    if e.healthy {
                        let r = self.s.connect(si, src::closed_addr());
                        hist!("s{si} connects in vain: {r}");
                    }
                } else {
                    let n = *rng.pick(&[1usize, 1, 7, 60]);
                    let k = self.s.send(si, n);
                    hist!("s{si} sends {k}");
                }
            }
            5 => {
                let n = self.s.fill(si);
                hist!("s{si} filled ({n})");
            }
            6 | 7 => {
                let n = self.s.drain(si, 1);
                hist!("s{si} received {n}");
            }
            8 | 9 => {
                let n = self.s.drain(si, 5000);
                hist!("s{si} drained ({n})");
            }
            10 => {
                if rng.chance(1, 2) && matches!(e.kind, Kind::Unix | Kind::Tcp) {
                    let how = *rng.pick(&[libc::SHUT_WR, libc::SHUT_WR, libc::SHUT_RD, libc::SHUT_RDWR]);
                    self.s.shutdown(si, how);
                    hist!("s{si} shutdown {how}");
                }
            }
            12 | 13 => {
                if e.kind == Kind::Tcp {
                    let p = sys::probe(e.fd);
                    let peer_pri = e.peer.map_or(false, |p| self.s.eps[p].open && sys::probe(self.s.eps[p].fd) & PRI != 0);
                    if p & PRI != 0 && rng.chance(1, 2) {
                        let r = self.s.recv_oob(si);
                        hist!("s{si} received the urgent byte: {r}");
                    } else if !peer_pri {
                        let r = self.s.send_oob(si);
                        hist!("s{si} sends an urgent byte: {r}");
                    }
                }
            }
            _ => {
                if rng.chance(1, 3) {
                    let reset = rng.chance(1, 2);
                    self.delete_everywhere(si);
                    self.s.close(si, reset);
                    hist!("s{si} fd {} closed (reset {reset})", e.fd);
                    if self.cx.rng.chance(1, 2) {
                        let v = self.s.random(&mut self.cx.rng);
                        hist!("new sources {v:?} on {:?}", v.iter().map(|i| self.s.eps[*i].fd).collect::<Vec<_>>());
                    }
                }
            }
        }
        self.h.add(c as u64 * 31 + e.kind as u64);
    }
    fn poll_ref(&self, pi: usize) -> BTreeSet<(usize, usize)> {
        let mut out = BTreeSet::new();
        for d in 0..2 {
            let ep = self.pm[pi].refs[d];
            if ep < 0 {
                continue;
            }
            let n = self.pm[pi].regs.len() + 4;
            let mut v: Vec<libc::epoll_event> = vec![libc::epoll_event { events: 0, u64: 0 }; n];
            let r = loop {
                let r = unsafe { sys::raw6(libc::SYS_epoll_wait, ep as usize, v.as_mut_ptr() as usize, n, 0, 0, 0) };
                if r != -(libc::EINTR as isize) {
                    break r;
                }
            };
            assert!(r >= 0, "harness: reference epoll_wait failed {r}");
            out.extend(v[..r as usize].iter().map(|e| (e.u64 as usize, d)));
        }
        out
    }
    fn probes(&self, ids: &[usize]) -> BTreeMap<usize, i16> {
        let fds: Vec<i32> = ids.iter().map(|&i| self.s.eps[i].fd).collect();
        ids.iter().copied().zip(sys::probe_many(&fds)).collect()
    }
    fn pre_wait(&mut self, pi: usize) {
        for (si, d) in self.poll_ref(pi) {
            if let Some(p) = self.pm[pi].regs.get_mut(&si).and_then(|g| g.parts[d].as_mut()) {
                p.pend = Pend::Must;
            }
        }
    }
    fn required(&self, pi: usize, pr: &BTreeMap<usize, i16>) -> Vec<(usize, usize)> {
        let mut v = vec![];
        for (si, r) in &self.pm[pi].regs {
            for (d, p) in r.parts.iter().enumerate() {
                let Some(p) = p else { continue };
                if pr[si] & p.must != 0 && p.armed && (!edge(r.g.mode) || p.pend == Pend::Must) {
                    v.push((*si, d));
                }
            }
        }
        v
    }
    fn op_fd(&mut self, pi: usize) {
        let fd = exported_fd(self.pm[pi].p.as_ref().unwrap()).unwrap();
        if fd != self.pm[pi].fd {
            bad("poller-fd", format!("the exported descriptor was {}, is {fd}", self.pm[pi].fd));
        }
        if vp::PORT {
            return;
        }
        let ids: Vec<usize> = self.pm[pi].regs.keys().copied().collect();
        self.pre_wait(pi);
        let pr = self.probes(&ids);
        let f = sys::probe(fd);
        let pr2 = self.probes(&ids);
        self.pre_wait(pi);
        let m = &self.pm[pi];
        let req: Vec<_> = self.required(pi, &pr).into_iter().filter(|(s, d)| !edge(m.regs[s].g.mode) && pr2[s] & m.regs[s].parts[*d].as_ref().unwrap().must != 0).collect();
        if (matches!(m.note, Note::Must(_)) || !req.is_empty()) && f & IN == 0 {
            bad("poller-fd-silent", format!("p{pi}: {:?}, due {req:?}, but the poller's descriptor is not readable", m.note));
        }
        let may = m.regs.iter().any(|(s, r)| r.parts.iter().flatten().any(|p| p.armed && (pr[s] | pr2[s]) & p.may != 0));
        if m.note == Note::No && !may && f & IN != 0 {
            bad("poller-fd-stuck", format!("p{pi}: nothing is pending but the poller's descriptor is readable"));
        }
        report::count("descriptor_checks", 1);
    }
    fn add_container(&mut self, cap: usize) {
        let ev = Events::with_capacity(NonZeroUsize::new(cap).unwrap());
        if ev.capacity().get() < cap || ev.len() != 0 || !ev.is_empty() {
            bad("container", format!("a new container of capacity {cap}: capacity {}, len {}", ev.capacity(), ev.len()));
        }
        self.conts.push(Cont { ev, cap, cleared: true, snap: vec![] });
    }
    fn op_wait(&mut self, pi: usize, zero: bool) -> usize {
        let ci = self.cx.rng.below(self.conts.len());
        if !self.cx.rng.chance(1, 3) {
            let c = &mut self.conts[ci];
            c.ev.clear();
            c.cleared = true;
            c.snap.clear();
            if c.ev.len() != 0 || !c.ev.is_empty() || c.ev.iter().next().is_some() {
                bad("container", "clear left events in the container".into());
            }
        }
        self.pre_wait(pi);
        let ids: Vec<usize> = self.pm[pi].regs.keys().copied().collect();
        let before = self.probes(&ids);
        let req = self.required(pi, &before);
        let note = self.pm[pi].note;
        let must = matches!(note, Note::Must(_)) || !req.is_empty();
        let us = Duration::from_micros;
        let timeout = if zero {
            Some(Duration::ZERO)
        } else if must {
            *self.cx.rng.pick(&[None, None, Some(Duration::ZERO), Some(Duration::from_secs(30)), Some(Duration::MAX), Some(Duration::from_secs(1 << 60)), Some(us(1000)), Some(us(3))])
        } else {
            Some(*self.cx.rng.pick(&[us(0), us(0), us(0), Duration::from_nanos(1), us(1), us(300), us(1000), us(1500), us(2700)]))
        };
        let kind = if !must {
            None
        } else if !req.is_empty() {
            Some("missed-ready-blocked")
        } else {
            Some("notify-lost")
        };
        let ccap = self.conts[ci].cap;
        hist!("p{pi} wait c{ci}(cap {ccap}) {timeout:?}; due {req:?} {note:?}");
        let inj = self.plan(&[(Site::Wait, 0)], 1, 5);
        if self.eintr && inj.is_none() && self.cx.rng.chance(1, 2) {
            sim::plan(Site::Wait, 0, self.cx.rng.range(1, 4) as i64, libc::EINTR);
            hist!("  interrupted by signals");
        }
        let old = self.conts[ci].snap.clone();
        let was_cleared = self.conts[ci].cleared;
        let p = self.pm[pi].p.take().unwrap();
        let c = &mut self.conts[ci];
        let mut wait = || {
            let t0 = sys::now_ns();
            let r = p.wait(&mut c.ev, timeout, kind);
            (t0, r, sys::now_ns())
        };
        let (t0, r, t1) = match &self.other {
            Some(o) if self.cx.rng.chance(1, 2) => o.run(wait),
            _ => wait(),
        };
        self.pm[pi].p = Some(p);
        self.waits += 1;
        if self.eintr && inj.is_none() {
            report::count("interruptions_injected", sim::hits(Site::Wait));
            sim::unplan();
        }
        let failed = self.failed(inj, "wait", r.as_ref().err());
        let c = &mut self.conts[ci];
        c.cleared = false;
        let now: Vec<Event> = c.ev.iter().collect();
        c.snap = now.clone();
        let after = self.probes(&ids);
        if failed {
            if was_cleared && !now.is_empty() {
                bad("fault-events", format!("a failed wait left {} events in the container", now.len()));
            }
            return 0;
        }
        let n = match r {
            Ok(n) => n,
            Err(e) => bad("wait-error", format!("wait({timeout:?}) returned {e:?}")),
        };
        hist!("  -> Ok({n}) after {} ns: {:?}", t1 - t0, now.iter().map(|e| (e.key, e.readable, e.writable)).collect::<Vec<_>>());
        let c = &self.conts[ci];
        if c.ev.len() != now.len() || c.ev.is_empty() != now.is_empty() || now.len() > c.ev.capacity().get() || c.ev.capacity().get() < c.cap {
            bad("container", format!("len {}, is_empty {}, capacity {} (asked for {ccap}) but {} events", c.ev.len(), c.ev.is_empty(), c.ev.capacity(), now.len()));
        }
        if now.iter().any(|e| e.key == usize::MAX) {
            bad("internal-event", "an internal wake-up is visible as an event".into());
        }
        let fresh: Vec<Event> = if now.len() == n {
            now
        } else if !was_cleared && now.len() == old.len() + n && now[..old.len()] == old[..] {
            now[old.len()..].to_vec()
        } else {
            bad("count", format!("wait returned {n}; the container held {} events before (cleared: {was_cleared}) and holds {} now", old.len(), now.len()));
        };
        // Time.
        let el = t1 - t0;
        let may_any = self.pm[pi].regs.iter().any(|(s, r)| r.parts.iter().flatten().any(|p| p.armed && (before[s] | after[s]) & p.may != 0));
        if n == 0 && note == Note::No {
            let early = timeout.map_or(true, |t| (el as u128) < t.as_nanos());
            if early && (!may_any || !req.is_empty()) {
                bad(if req.is_empty() { "early-timeout" } else { "missed-returned-empty" }, format!("wait({timeout:?}) returned without events after {el} ns; due were {req:?}"));
            }
            if req.iter().any(|(s, d)| after[s] & self.pm[pi].regs[s].parts[*d].as_ref().unwrap().must != 0) {
                bad("missed-now", format!("wait({timeout:?}) reported nothing although {req:?} were ready"));
            }
        }
        // Events.
        let aref = self.poll_ref(pi);
        let mut hit: BTreeSet<(usize, usize)> = BTreeSet::new();
        for e in &fresh {
            let Some((&si, r)) = self.pm[pi].regs.iter().find(|(_, r)| r.g.key == e.key) else {
                let k = if self.pm[pi].old.contains(&e.key) { "stale-event" } else { "unknown-key" };
                bad(k, format!("an event with key {} was delivered; no source is registered under it", e.key));
            };
            let id = format!("s{si} ({:?}, fd {}, {:?}, ready {:#x}/{:#x}): event {e:?}", self.s.eps[si].kind, self.s.eps[si].fd, r.g, before[&si], after[&si]);
            if !e.readable && !e.writable && (vp::KQUEUE || r.g.r || r.g.w) {
                bad("event-flags:none", format!("an event that says nothing: {id}"));
            }
            let d = if vp::KQUEUE && !e.readable { 1 } else { 0 };
            let Some(p) = &r.parts[d] else { bad("spurious-event", format!("there is no interest in this: {id}")) };
            if !hit.insert((si, d)) {
                bad("dup-in-wait", format!("delivered twice in one wait: {id}"));
            }
            if !p.armed {
                bad(if edge(r.g.mode) { "dup-edge-oneshot" } else { "dup-oneshot" }, format!("delivered again without being re-armed: {id}"));
            }
            if edge(r.g.mode) && p.pend == Pend::No && !aref.contains(&(si, d)) {
                bad("edge-dup", format!("delivered without a new arrival: {id}"));
            }
            let (lo, hi) = (before[&si] & after[&si], before[&si] | after[&si]);
            if hi & p.may == 0 {
                bad("spurious-event", format!("none of the registered conditions holds: {id}"));
            }
            let chk = |name: &str, got: bool, can: i16, should: i16| {
                if got && hi & can == 0 {
                    bad(&format!("event-flags:{name}"), format!("claims {name} wrongly: {id}"));
                }
                if !got && lo & should != 0 {
                    bad(&format!("event-flags:{name}"), format!("does not claim {name}: {id}"));
                }
            };
            if vp::KQUEUE {
                // A reader's end of file is reported as writable, too.
                chk("writable", e.writable, if d == 1 { OUT | HUP | ERR } else { IN | HUP | ERR }, 0);
                let x = &self.s.eps[si];
                let peer_ok = x.peer.map_or(true, |p| self.s.eps[p].open && self.s.eps[p].healthy);
                if d == 0 && e.writable && hi & (HUP | ERR) == 0 && x.healthy && !x.dup && peer_ok && x.kind != Kind::TcpIdle {
                    bad("event-flags:writable", format!("claims writable wrongly: {id}"));
                }
                if e.is_interrupt() || e.is_priority() || e.is_err() == Some(true) {
                    bad("event-flags:extra", format!("claims what the system does not tell: {id}"));
                }
            } else {
                chk("readable", e.readable, (if r.g.r || r.g.pri { IN | PRI } else { 0 }) | HUP | ERR, if r.g.r { IN | PRI | HUP | ERR } else { 0 });
                chk("writable", e.writable, (if r.g.w { OUT } else { 0 }) | HUP | ERR, if r.g.w { OUT | HUP | ERR } else { 0 });
                chk("interrupt", e.is_interrupt(), HUP, HUP);
                chk("priority", e.is_priority(), PRI, if r.g.r || r.g.pri { PRI } else { 0 });
                chk("error", e.is_err() == Some(true), ERR, ERR);
            }
        }
        self.delivered += n as u64;
        let np: usize = self.pm[pi].regs.values().map(|r| r.parts.iter().flatten().count()).sum::<usize>() + 2;
        let cap = ccap.min(np);
        for (&si, r) in self.pm[pi].regs.iter_mut() {
            for d in 0..2 {
                let mode = r.g.mode;
                let Some(p) = &mut r.parts[d] else { continue };
                let was_hit = hit.contains(&(si, d));
                self.h.add((mode as u64) << 8 | (was_hit as u64) << 4 | (before[&si] as u64) << 16 | (p.armed as u64) << 1 | d as u64);
                if was_hit {
                    p.miss = 0;
                    if oneshot(mode) {
                        p.armed = false;
                    }
                    p.pend = if aref.contains(&(si, d)) && p.armed { Pend::May } else { Pend::No };
                    continue;
                }
                if req.contains(&(si, d)) && after[&si] & p.must != 0 {
                    p.miss += cap;
                    let strict = mode == PollMode::Level && ccap >= np && matches!(note, Note::No);
                    if strict || p.miss > 3 * np + 8 * cap {
                        let name = match mode {
                            PollMode::Oneshot => "missed-oneshot",
                            PollMode::Level => "missed-level",
                            PollMode::Edge => "missed-edge",
                            _ => "missed-edge-oneshot",
                        };
                        bad(name, format!("p{pi} s{si} part {d} ({:?}, fd {}) is registered as {:?} and ready ({:#x}) but was not delivered", self.s.eps[si].kind, self.s.eps[si].fd, r.g, after[&si]));
                    }
                } else {
                    p.miss = 0;
                }
                if edge(mode) {
                    if aref.contains(&(si, d)) {
                        p.pend = Pend::Must;
                    } else if p.pend == Pend::Must && before[&si] & after[&si] & p.must == 0 {
                        p.pend = Pend::May;
                    }
                }
            }
        }
        // Without room for it a notification may stay for the next wait.
        let m = &mut self.pm[pi];
        let ccap = self.conts[ci].ev.capacity().get();
        m.note = match note {
            Note::No => Note::No,
            Note::May(k) | Note::Must(k) => {
                let left = if vp::PORT { k.saturating_sub(ccap - n.min(ccap)) } else if n >= ccap { 1 } else { 0 };
                if left == 0 { Note::No } else { Note::May(left) }
            }
        };
        for si in &ids {
            let k = self.s.eps[*si].kind;
            let (b, a) = (before[si], after[si]);
            let stable = !matches!(k, Kind::Tcp | Kind::TcpIdle | Kind::Listener);
            if (stable && a != b) || b & !a & (IN | ERR | HUP | PRI) != 0 {
                bad("source-altered", format!("s{si} ({k:?}) changed from {b:#x} to {a:#x} during a wait"));
            }
        }
        report::count("events", n as u64);
        n
    }
    fn flush(&mut self, pi: usize) {
        for round in 0..400 {
            self.pre_wait(pi);
            let ids: Vec<usize> = self.pm[pi].regs.keys().copied().collect();
            let pr = self.probes(&ids);
            let req = self.required(pi, &pr);
            let level = req.iter().all(|(s, _)| self.pm[pi].regs[s].g.mode == PollMode::Level);
            if req.is_empty() || (level && round > 3) {
                break;
            }
            self.op_wait(pi, true);
        }
    }
    fn end_poller(&mut self, pi: usize) {
        let regd: Vec<usize> = self.pm[pi].regs.keys().copied().collect();
        for si in regd {
            if self.cx.rng.chance(1, 2) {
                self.op_delete(pi, si);
            }
        }
        hist!("p{pi} dropped");
        let p = self.pm[pi].p.take();
        vp::call("op-blocked", 0, || "drop".into(), move || drop(p));
        let m = &mut self.pm[pi];
        m.own.clear();
        m.regs.clear();
        for r in &mut m.refs {
            if *r >= 0 {
                sys::close(*r);
                *r = -1;
            }
        }
    }
}
impl Drop for World<'_> {
    fn drop(&mut self) {
        sim::unplan();
        sim::delays(0, 0);
        for m in &self.pm {
            for r in m.refs {
                if r >= 0 {
                    sys::close(r);
                }
            }
        }
    }
}

pub fn delays(rng: &mut Rng) {
    if rng.chance(1, 3) {
        let (n, us) = *rng.pick(&[(2, 30), (3, 200), (8, 1000), (1, 3)]);
        sim::delays(n, us);
    } else {
        sim::delays(0, 0);
    }
}

/// One random history.
pub fn run(cx: &mut Ctx) {
    let prof = cx.profile.clone();
    let mut w = World::new(cx);
    delays(&mut w.cx.rng);
    w.faults = prof == "faults";
    w.habits = w.cx.rng.chance(1, 3);
    if w.cx.rng.chance(1, 6) {
        w.other = Some(vp::Elsewhere::new());
    }
    w.eintr = prof == "eintr";
    for _ in 0..if prof == "multi" { w.cx.rng.range(2, 4) } else { 1 + w.cx.rng.chance(1, 6) as usize } {
        w.add_poller();
    }
    for _ in 0..w.cx.rng.range(1, 3) {
        let c = *w.cx.rng.pick(&[1usize, 1, 2, 3, 5, 8, 16, 1024]);
        w.add_container(c);
    }
    for _ in 0..if w.cx.rng.chance(1, 10) { w.cx.rng.range(12, 30) } else { w.cx.rng.range(1, 6) } {
        let v = w.s.random(&mut w.cx.rng);
        if w.cx.rng.chance(1, 10) && w.s.eps[v[0]].kind != Kind::Listener {
            let d = w.s.dup(v[0]);
            hist!("s{d} is a duplicate of s{}", v[0]);
        }
    }
    // (add, modify, delete, bad, io, wait, notify, readd, fd)
    let wt: [usize; 9] = match prof.as_str() {
        "regerr" => [12, 14, 8, 30, 14, 18, 2, 4, 1],
        "notify" => [6, 10, 3, 1, 10, 34, 24, 2, 3],
        "fd" => [8, 10, 4, 2, 20, 20, 10, 3, 24],
        _ => [10, 14, 5, 4, 26, 26, 5, 3, 2],
    };
    let total: usize = wt.iter().sum();
    for _ in 0..w.cx.rng.range(10, 120) {
        let mut x = w.cx.rng.below(total);
        let mut op = 0;
        while x >= wt[op] {
            x -= wt[op];
            op += 1;
        }
        let pi = w.cx.rng.below(w.pm.len());
        let regd: Vec<usize> = w.pm[pi].regs.keys().copied().collect();
        w.h.add(op as u64);
        match op {
            0 => {
                let free: Vec<usize> = (0..w.s.eps.len()).filter(|i| w.s.eps[*i].open && !w.pm[pi].regs.contains_key(i)).collect();
                if !free.is_empty() {
                    let si = *w.cx.rng.pick(&free);
                    let g = w.reg_for(pi, si);
                    w.op_add(pi, si, g);
                }
            }
            1 if !regd.is_empty() => {
                let si = *w.cx.rng.pick(&regd);
                let g = if w.cx.rng.chance(1, 3) { w.pm[pi].regs[&si].g.clone() } else { w.reg_for(pi, si) };
                w.op_modify(pi, si, g);
            }
            2 if !regd.is_empty() => {
                let si = *w.cx.rng.pick(&regd);
                w.op_delete(pi, si);
            }
            3 => w.op_bad(pi),
            4 => w.op_io(),
            5 => {
                let z = w.cx.rng.chance(1, 4);
                w.op_wait(pi, z);
            }
            6 => w.op_notify(pi),
            7 if !regd.is_empty() => {
                let si = *w.cx.rng.pick(&regd);
                for _ in 0..w.cx.rng.range(1, 2) {
                    if !w.pm[pi].regs.contains_key(&si) {
                        break;
                    }
                    w.op_delete(pi, si);
                    if w.pm[pi].regs.contains_key(&si) {
                        break;
                    }
                    let g = w.reg_for(pi, si);
                    w.op_add(pi, si, g);
                    if w.pm[pi].regs.contains_key(&si) && w.cx.rng.chance(1, 2) {
                        let g = w.reg_for(pi, si);
                        w.op_modify(pi, si, g);
                    }
                }
            }
            8 => w.op_fd(pi),
            _ => {}
        }
        if w.cx.rng.chance(1, 25) {
            w.flush(pi);
            w.op_wait(pi, true);
        }
        if w.cx.rng.chance(1, 60) {
            w.check_fds("in use");
        }
        if w.pm.len() > 1 && w.cx.rng.chance(1, 60) {
            let d = w.cx.rng.below(w.pm.len());
            w.end_poller(d);
            w.pm.remove(d);
            w.check_fds("after one poller was dropped");
            w.add_poller();
        }
    }
    for pi in 0..w.pm.len() {
        w.flush(pi);
    }
    w.check_fds("after use");
    for pi in 0..w.pm.len() {
        w.end_poller(pi);
    }
    w.check_fds("after dropping the pollers");
    for i in 0..w.s.eps.len() {
        if w.s.eps[i].open {
            w.s.check_untouched(i);
            if !w.s.eps[i].dup {
                w.s.check_all_received(i);
            }
        }
    }
    w.s.close_all();
    w.pm.clear();
    report::count("waits", w.waits);
    if w.delivered > 0 {
        report::distinct(w.h.0);
    }
    let (d, n) = (w.delivered, w.waits);
    report::sample(|| {
        let hist = report::history();
        let k = hist.len().min(20);
        format!("history of {} steps, {n} waits, {d} events: {}", hist.len(), hist[..k].join("; "))
    });
}
