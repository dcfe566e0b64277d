//! Single-threaded histories checked step by step against a reference model of the contract.
//! What a source is ready for is always taken from the kernel itself (raw poll just before and
//! just after a wait), and what an edge registration owes from a second, raw epoll instance that
//! holds the same registrations.
use crate::report::{self, Hash};
use crate::rng::Rng;
use crate::shim::{self, Call};
use crate::src::{self, Kind, Sources};
use crate::sys::{self, ERR, HUP, IN, OUT, PRI};
use crate::vp::{self, P};
use crate::Ctx;
use polling::{Event, Events, PollMode};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::num::NonZeroUsize;
use std::os::fd::BorrowedFd;
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pend {
    No,
    May,
    Must,
}
#[derive(Clone, Debug)]
pub struct Reg {
    pub key: usize,
    pub r: bool,
    pub w: bool,
    pub pri: bool,
    pub hup: bool,
    pub mode: PollMode,
    pub armed: bool,
    pub pend: Pend,
    pub miss: usize,
    pub gen: u64,
}
impl Reg {
    fn edge(&self) -> bool {
        matches!(self.mode, PollMode::Edge | PollMode::EdgeOneshot)
    }
    fn oneshot(&self) -> bool {
        matches!(self.mode, PollMode::Oneshot | PollMode::EdgeOneshot)
    }
    /// Conditions that must be delivered.
    fn required(&self) -> i16 {
        (if self.r { IN | PRI | HUP | ERR } else { 0 })
            | (if self.w { OUT | HUP | ERR } else { 0 })
            | (if self.pri { PRI } else { 0 })
            | (if self.hup { HUP } else { 0 })
    }
    /// Conditions that may be delivered.
    fn allowed(&self) -> i16 {
        (if self.r { IN | PRI } else { 0 }) | (if self.w { OUT } else { 0 }) | (if self.pri { PRI } else { 0 }) | HUP | ERR
    }
}
pub fn event_of(rng: &mut Rng, g: &Reg) -> Event {
    let mut e = match (g.r, g.w, rng.chance(1, 2)) {
        (true, true, true) => Event::all(g.key),
        (true, false, true) => Event::readable(g.key),
        (false, true, true) => Event::writable(g.key),
        (false, false, true) => Event::none(g.key),
        (r, w, false) => Event::new(g.key, r, w),
    };
    if rng.chance(1, 8) {
        // Set and cleared again.
        e.set_priority(true);
        e.set_interrupt(true);
        e.clear_extra();
        if e.is_priority() || e.is_interrupt() || e != Event::new(g.key, g.r, g.w) {
            report::violation("event-api", "clear_extra left information behind");
        }
    }
    if g.hup {
        e = if rng.chance(1, 2) { e.with_interrupt() } else {
            e.set_interrupt(true);
            e
        };
    }
    if g.pri {
        e = if rng.chance(1, 2) { e.with_priority() } else {
            e.set_priority(true);
            e
        };
    }
    if e.is_interrupt() != g.hup || e.is_priority() != g.pri || e.readable != g.r || e.writable != g.w || e.key != g.key {
        report::violation("event-api", format!("an event built as {g:?} reads back as {e:?}"));
    }
    e
}

pub struct Pm {
    pub p: Option<P>,
    pub regs: BTreeMap<usize, Reg>,
    pub notify: bool,
    pub refep: i32,
    pub fd: Option<i32>,
    pub own_fds: BTreeSet<i32>,
    /// The timeout of the last wait may still make the exported descriptor readable.
    pub timer_may: bool,
    pub old_keys: BTreeSet<usize>,
}
pub struct Cont {
    pub ev: Events,
    pub cap: usize,
    pub cleared: bool,
    pub snap: Vec<Event>,
}
pub struct World<'a> {
    pub cx: &'a mut Ctx,
    pub s: Sources,
    pub pm: Vec<Pm>,
    pub conts: Vec<Cont>,
    pub shared_keys: bool,
    pub gen: u64,
    pub h: Hash,
    pub base: BTreeSet<i32>,
    pub faults: bool,
    pub eintr: bool,
    pub quiet: bool,
    pub delivered: u64,
    pub waits: u64,
    pub next_key: usize,
    /// Histories in which the same few registrations are asked for again and again.
    pub habits: bool,
    /// A second thread that makes some of the calls.
    pub other: Option<vp::Elsewhere>,
    pub habit: BTreeMap<(usize, i32), Vec<Reg>>,
}
fn fdb(fd: i32) -> BorrowedFd<'static> {
    unsafe { BorrowedFd::borrow_raw(fd) }
}
macro_rules! hist {
    ($w:expr, $($a:tt)*) => { if !$w.quiet { report::log(format!($($a)*)) } };
}
#[cfg(not(any(polling_test_poll_backend, vh_poll)))]
pub fn exported_fd(p: &P) -> Option<i32> {
    use std::os::fd::{AsFd, AsRawFd};
    let a = p.p.as_raw_fd();
    let b = p.p.as_fd().as_raw_fd();
    if a != b {
        report::violation("poller-fd", format!("as_raw_fd is {a}, as_fd is {b}"));
    }
    Some(a)
}
#[cfg(any(polling_test_poll_backend, vh_poll))]
pub fn exported_fd(_: &P) -> Option<i32> {
    None
}
fn ref_mask(g: &Reg) -> u32 {
    let mut m = 0u32;
    if g.r {
        m |= (libc::EPOLLIN | libc::EPOLLPRI) as u32;
    }
    if g.w {
        m |= libc::EPOLLOUT as u32;
    }
    if g.pri {
        m |= libc::EPOLLPRI as u32;
    }
    m |= libc::EPOLLET as u32;
    if g.oneshot() {
        m |= libc::EPOLLONESHOT as u32;
    }
    m
}
fn epoll_ctl(ep: i32, op: i32, fd: i32, mask: u32, data: u64) -> isize {
    let mut e = libc::epoll_event { events: mask, u64: data };
    sys::raw4(libc::SYS_epoll_ctl, ep as usize, op as usize, fd as usize, &mut e as *mut _ as usize)
}

impl<'a> World<'a> {
    pub fn new(cx: &'a mut Ctx) -> World<'a> {
        let base = sys::fd_table().keys().copied().collect();
        World {
            cx,
            s: Sources::default(),
            pm: vec![],
            conts: vec![],
            shared_keys: false,
            gen: 0,
            h: Hash::new(),
            base,
            faults: false,
            eintr: false,
            quiet: false,
            delivered: 0,
            waits: 0,
            next_key: 0,
            habits: false,
            other: None,
            habit: BTreeMap::new(),
        }
    }
    pub fn check_no_new_fds(&mut self, when: &str) {
        let mut known = self.base.clone();
        known.extend(self.s.eps.iter().filter(|e| e.open).map(|e| e.fd));
        for m in &self.pm {
            known.extend(m.own_fds.iter());
            if m.refep >= 0 {
                known.insert(m.refep);
            }
        }
        let t = sys::fd_table();
        for (fd, (what, _)) in &t {
            if !known.contains(fd) {
                report::violation("fd-leak", format!("{when}: descriptor {fd} ({what}) belongs to nobody"));
            }
        }
        for fd in known {
            if !t.contains_key(&fd) {
                report::violation("fd-closed", format!("{when}: descriptor {fd} has been closed"));
            }
        }
    }
    pub fn add_poller(&mut self) {
        let before = sys::fd_table();
        let p = P::new();
        let after = sys::fd_table();
        let mut own = BTreeSet::new();
        for (fd, (what, fl)) in &after {
            if before.get(fd).map_or(true, |b| b.0 != *what) {
                own.insert(*fd);
                if fl & libc::FD_CLOEXEC == 0 {
                    report::violation("cloexec", format!("descriptor {fd} ({what}) of a poller is not close-on-exec"));
                }
            }
        }
        if before.keys().any(|k| !after.contains_key(k)) {
            report::violation("fd-closed", "creating a poller closed a descriptor");
        }
        let fd = exported_fd(&p);
        let (l, e) = (p.p.supports_level(), p.p.supports_edge());
        if l != vp::supports_level_backend() || e != vp::supports_edge_backend() {
            report::violation("mode-support", format!("supports_level {l}, supports_edge {e}"));
        }
        let refep = if vp::supports_edge_backend() { sys::raw3(libc::SYS_epoll_create1, libc::EPOLL_CLOEXEC as usize, 0, 0) as i32 } else { -1 };
        report::count("pollers", 1);
        self.pm.push(Pm { p: Some(p), regs: BTreeMap::new(), notify: false, refep, fd, own_fds: own, timer_may: false, old_keys: BTreeSet::new() });
    }
    pub fn fresh_key(&mut self) -> usize {
        let rng = &mut self.cx.rng;
        if self.shared_keys && rng.chance(2, 3) {
            return rng.below(3);
        }
        loop {
            let k = match rng.below(9) {
                0 => rng.below(4),
                1 => usize::MAX - 1 - rng.below(3),
                2 => u32::MAX as usize - 1 + rng.below(4),
                3 => 1 << 63,
                4 => (1usize << 32) * rng.range(1, 5) + rng.below(4),
                5 => {
                    // Something that could be mistaken for a descriptor.
                    rng.below(64)
                }
                6 => rng.next() as usize,
                _ => {
                    self.next_key += 1;
                    1000 + self.next_key
                }
            };
            if k == usize::MAX {
                continue;
            }
            let used = self.pm.iter().any(|m| m.regs.values().any(|g| g.key == k)) || self.habit.values().any(|v| v[0].key == k);
            if !used || self.shared_keys {
                return k;
            }
        }
    }
    pub fn random_mode(&mut self) -> PollMode {
        let l: &[PollMode] = match self.cx.profile.as_str() {
            "oneshot" => &[PollMode::Oneshot],
            "level" => &[PollMode::Level, PollMode::Level, PollMode::Level, PollMode::Oneshot],
            "edge" if vp::supports_edge_backend() => &[PollMode::Edge, PollMode::EdgeOneshot, PollMode::Edge, PollMode::EdgeOneshot, PollMode::Oneshot],
            _ if vp::supports_edge_backend() => &[PollMode::Oneshot, PollMode::Oneshot, PollMode::Level, PollMode::Level, PollMode::Edge, PollMode::EdgeOneshot],
            _ => &[PollMode::Oneshot, PollMode::Level],
        };
        *self.cx.rng.pick(l)
    }
    pub fn random_reg(&mut self) -> Reg {
        let key = self.fresh_key();
        let mode = self.random_mode();
        let rng = &mut self.cx.rng;
        let (r, w) = *rng.pick(&[(true, false), (true, false), (false, true), (true, true), (false, false)]);
        let ex = if self.cx.profile == "flags" { 3 } else { 10 };
        let pri = rng.chance(1, ex);
        let hup = rng.chance(1, ex);
        Reg { key, r, w, pri, hup, mode, armed: true, pend: Pend::No, miss: 0, gen: 0 }
    }
    /// What to ask for a source: something new, or one of the two or three things that are always
    /// asked for it.
    pub fn reg_for(&mut self, pi: usize, si: usize) -> Reg {
        if !self.habits || self.cx.rng.chance(1, 8) {
            return self.random_reg();
        }
        let at = (pi, self.s.eps[si].fd);
        if !self.habit.contains_key(&at) {
            let g = self.random_reg();
            let mut v = vec![g.clone()];
            for _ in 0..self.cx.rng.range(1, 2) {
                let mut o = self.random_reg();
                o.key = g.key;
                if self.cx.rng.chance(2, 3) {
                    o.mode = g.mode;
                }
                v.push(o);
            }
            self.habit.insert(at, v);
        }
        let v = &self.habit[&at];
        self.cx.rng.pick(v).clone()
    }
    fn arm(&mut self, pi: usize, si: usize, mut g: Reg, fresh: bool) {
        self.gen += 1;
        g.gen = self.gen;
        g.armed = true;
        g.miss = 0;
        g.pend = Pend::No;
        let m = &mut self.pm[pi];
        let fd = self.s.eps[si].fd;
        if m.refep >= 0 {
            let was = m.regs.get(&si).map_or(false, |o| o.edge());
            let op = match (was && !fresh, g.edge()) {
                (false, true) => libc::EPOLL_CTL_ADD,
                (true, true) => libc::EPOLL_CTL_MOD,
                (true, false) => libc::EPOLL_CTL_DEL,
                (false, false) => 0,
            };
            if op != 0 {
                let r = epoll_ctl(m.refep, op, fd, ref_mask(&g), si as u64);
                assert!(r == 0, "harness: reference epoll_ctl {op} failed {r}");
            }
        }
        m.old_keys.insert(g.key);
        m.regs.insert(si, g);
    }
    fn disarm_ref(&mut self, pi: usize, si: usize) {
        let m = &mut self.pm[pi];
        if let Some(g) = m.regs.remove(&si) {
            if g.edge() && m.refep >= 0 {
                epoll_ctl(m.refep, libc::EPOLL_CTL_DEL, self.s.eps[si].fd, 0, 0);
            }
        }
    }
    /// Makes a call, sometimes on the other thread.
    fn on<R: Send>(&mut self, pi: usize, f: impl FnOnce(&P) -> R + Send) -> R {
        let p = self.pm[pi].p.as_ref().unwrap();
        match &self.other {
            Some(o) if self.cx.rng.chance(1, 2) => {
                if !self.quiet {
                    report::log("  on the other thread:".to_string());
                }
                o.run(|| f(p))
            }
            _ => f(p),
        }
    }
    fn bad(&self, kind: &str, what: String) -> ! {
        report::violation(kind, what)
    }
    pub fn op_add(&mut self, pi: usize, si: usize, g: Reg) {
        let ev = event_of(&mut self.cx.rng, &g);
        self.add_event(pi, si, g, ev)
    }
    fn add_event(&mut self, pi: usize, si: usize, g: Reg, ev: Event) {
        let fd = self.s.eps[si].fd;
        hist!(self, "p{pi} add s{si} fd {fd} {:?} {g:?}", self.s.eps[si].kind);
        let inj = self.maybe_fault(&[(Call::EpollAdd, &[libc::ENOMEM, libc::ENOSPC, libc::EPERM, libc::EBADF, libc::EIO])]);
        let mode = g.mode;
        let r = self.on(pi, |p| p.add(fd, ev, mode));
        if self.fault_result(inj, "add", r.as_ref().err()) {
            return;
        }
        if let Err(e) = r {
            self.bad("op-result", format!("add of an unregistered source (fd {fd}, {:?}) failed: {e:?}", self.s.eps[si].kind));
        }
        self.arm(pi, si, g, true);
        report::count("registrations", 1);
    }
    pub fn op_modify(&mut self, pi: usize, si: usize, g: Reg) {
        let ev = event_of(&mut self.cx.rng, &g);
        self.modify_event(pi, si, g, ev)
    }
    fn modify_event(&mut self, pi: usize, si: usize, g: Reg, ev: Event) {
        let fd = self.s.eps[si].fd;
        hist!(self, "p{pi} modify s{si} fd {fd} {g:?}");
        let inj = self.maybe_fault(&[(Call::EpollMod, &[libc::ENOMEM, libc::ENOSPC, libc::EPERM, libc::EIO])]);
        let mode = g.mode;
        let r = self.on(pi, |p| p.modify(fdb(fd), ev, mode));
        if self.fault_result(inj, "modify", r.as_ref().err()) {
            return;
        }
        if let Err(e) = r {
            self.bad("op-result", format!("modify of a registered source (fd {fd}) failed: {e:?}"));
        }
        self.arm(pi, si, g, false);
        report::count("registrations", 1);
    }
    pub fn op_delete(&mut self, pi: usize, si: usize) -> bool {
        let fd = self.s.eps[si].fd;
        hist!(self, "p{pi} delete s{si} fd {fd}");
        let inj = self.maybe_fault(&[(Call::EpollDel, &[libc::ENOMEM, libc::EPERM, libc::EIO])]);
        let r = self.on(pi, |p| p.delete(fdb(fd)));
        if self.fault_result(inj, "delete", r.as_ref().err()) {
            return false;
        }
        if let Err(e) = r {
            self.bad("op-result", format!("delete of a registered source (fd {fd}) failed: {e:?}"));
        }
        self.disarm_ref(pi, si);
        true
    }
    pub fn delete_everywhere(&mut self, si: usize) {
        for pi in 0..self.pm.len() {
            while self.pm[pi].regs.contains_key(&si) && !self.op_delete(pi, si) {}
        }
    }
    /// Arrange for the next matching system call of the library to fail.
    fn maybe_fault(&mut self, opts: &[(Call, &[i32])]) -> Option<(Call, i32)> {
        if !self.faults || !self.cx.rng.chance(1, 4) {
            return None;
        }
        let (c, es) = self.cx.rng.pick(opts);
        let e = *self.cx.rng.pick(es);
        hist!(self, "  the system fails {c:?} with errno {e}");
        shim::set_fault(*c, 0, 1, e);
        Some((*c, e))
    }
    /// True if the call was made to fail (and reported it).
    fn fault_result(&mut self, inj: Option<(Call, i32)>, op: &str, err: Option<&std::io::Error>) -> bool {
        let Some((c, e)) = inj else { return false };
        let hit = shim::fault_hits(c) > 0;
        shim::clear_faults();
        if !hit {
            return false;
        }
        report::count("faults_injected", 1);
        self.h.add(c as u64 * 1000 + e as u64);
        match err {
            None => self.bad("fault-hidden", format!("{op} returned Ok although the system failed {c:?} with errno {e}")),
            Some(er) if er.raw_os_error() != Some(e) => self.bad("fault-error", format!("{op} returned {er:?} when the system failed {c:?} with errno {e}")),
            _ => true,
        }
    }
    pub fn op_bad(&mut self, pi: usize) {
        let regd: Vec<usize> = self.pm[pi].regs.keys().copied().collect();
        let free: Vec<usize> = (0..self.s.eps.len()).filter(|i| self.s.eps[*i].open && !self.pm[pi].regs.contains_key(i)).collect();
        let choice = self.cx.rng.below(8);
        let mut g = self.random_reg();
        let all = [PollMode::Oneshot, PollMode::Level, PollMode::Edge, PollMode::EdgeOneshot];
        let any = *self.cx.rng.pick(&all);
        use std::io::ErrorKind as K;
        let edge_bad = !vp::supports_edge_backend();
        let unsup = |m: PollMode| edge_bad && matches!(m, PollMode::Edge | PollMode::EdgeOneshot);
        let p = self.pm[pi].p.take().unwrap();
        let pick = |rng: &mut Rng, v: &Vec<usize>| if v.is_empty() { None } else { Some(*rng.pick(v)) };
        let (what, r, ok): (String, std::io::Result<()>, Vec<K>) = match choice {
            0 | 1 => match pick(&mut self.cx.rng, &regd) {
                None => {
                    self.pm[pi].p = Some(p);
                    return;
                }
                Some(si) => {
                    let mode = if self.cx.rng.chance(3, 4) { g.mode } else { any };
                    let ev = event_of(&mut self.cx.rng, &g);
                    let mut ok = vec![K::AlreadyExists];
                    if unsup(mode) {
                        ok.push(K::Unsupported);
                    }
                    (format!("add of registered s{si} with {ev:?} {mode:?}"), p.add(self.s.eps[si].fd, ev, mode), ok)
                }
            },
            2 => match pick(&mut self.cx.rng, &free) {
                None => {
                    self.pm[pi].p = Some(p);
                    return;
                }
                Some(si) => {
                    let mode = if self.cx.rng.chance(3, 4) { g.mode } else { any };
                    let ev = event_of(&mut self.cx.rng, &g);
                    let mut ok = vec![K::NotFound];
                    if unsup(mode) {
                        ok.push(K::Unsupported);
                    }
                    (format!("modify of unregistered s{si} {mode:?}"), p.modify(fdb(self.s.eps[si].fd), ev, mode), ok)
                }
            },
            3 => match pick(&mut self.cx.rng, &free) {
                None => {
                    self.pm[pi].p = Some(p);
                    return;
                }
                Some(si) => (format!("delete of unregistered s{si}"), p.delete(fdb(self.s.eps[si].fd)), vec![K::NotFound]),
            },
            4 | 5 => {
                g.key = usize::MAX;
                let mut ev = Event::new(g.key, g.r, g.w);
                if g.pri {
                    ev.set_priority(true);
                }
                let mut ok = vec![K::InvalidInput];
                if unsup(any) {
                    ok.push(K::Unsupported);
                }
                let on_reg = self.cx.rng.chance(1, 2);
                let Some(si) = pick(&mut self.cx.rng, if on_reg { &regd } else { &free }) else {
                    self.pm[pi].p = Some(p);
                    return;
                };
                let fd = self.s.eps[si].fd;
                if choice == 4 {
                    if on_reg {
                        ok.push(K::AlreadyExists);
                    }
                    (format!("add of s{si} with the reserved key, {any:?}"), p.add(fd, ev, any), ok)
                } else {
                    if !on_reg {
                        ok.push(K::NotFound);
                    }
                    (format!("modify of s{si} with the reserved key, {any:?}"), p.modify(fdb(fd), ev, any), ok)
                }
            }
            6 => {
                let mode = *self.cx.rng.pick(&[PollMode::Edge, PollMode::EdgeOneshot]);
                let on_reg = self.cx.rng.chance(2, 3);
                let si = pick(&mut self.cx.rng, if on_reg { &regd } else { &free });
                let (true, Some(si)) = (unsup(mode), si) else {
                    self.pm[pi].p = Some(p);
                    return;
                };
                let ev = event_of(&mut self.cx.rng, &g);
                let fd = self.s.eps[si].fd;
                if on_reg {
                    (format!("modify of s{si} to {ev:?} in unsupported {mode:?}"), p.modify(fdb(fd), ev, mode), vec![K::Unsupported])
                } else {
                    (format!("add of s{si} in unsupported {mode:?}"), p.add(fd, ev, mode), vec![K::Unsupported])
                }
            }
            _ => {
                if edge_bad {
                    self.pm[pi].p = Some(p);
                    return;
                }
                // Not pollable by epoll.
                let f = std::fs::File::open("/proc/self/exe").unwrap();
                let ev = event_of(&mut self.cx.rng, &g);
                let fd = std::os::fd::AsRawFd::as_raw_fd(&f);
                let r = p.add(fd, ev, g.mode);
                match r {
                    Err(e) if e.raw_os_error() == Some(libc::EPERM) => {}
                    r => self.bad("op-result", format!("add of a regular file returned {r:?}")),
                }
                ("delete of a regular file that was refused".into(), p.delete(fdb(fd)), vec![K::NotFound, K::PermissionDenied])
            }
        };
        self.pm[pi].p = Some(p);
        hist!(self, "p{pi} {what} -> {r:?}");
        report::count("refused_calls", 1);
        self.h.add(choice as u64 + 9000);
        match r {
            Ok(()) => self.bad(if choice == 6 { "mode-support" } else { "op-result" }, format!("{what} returned Ok")),
            Err(e) if ok.contains(&e.kind()) => {}
            Err(e) => self.bad(if choice == 6 { "mode-support" } else { "op-result" }, format!("{what} returned {e:?}, expected {ok:?}")),
        }
    }
    pub fn op_notify(&mut self, pi: usize) {
        let n = *self.cx.rng.pick(&[1, 1, 1, 2, 3, 17]);
        hist!(self, "p{pi} notify x{n}");
        let mut sent = 0;
        for _ in 0..n {
            // (The write of the epoll back ends cannot fail for real.)
            let inj = if vp::POLL { self.maybe_fault(&[(Call::Write, &[libc::EIO, libc::ENOMEM, libc::ENOBUFS])]) } else { None };
            let r = self.on(pi, |p| p.notify());
            if r.is_err() && self.fault_result(inj, "notify", r.as_ref().err()) {
                continue;
            }
            shim::clear_faults();
            if let Err(e) = r {
                self.bad("notify-error", format!("notify returned {e:?}"));
            }
            sent += 1;
        }
        self.pm[pi].notify |= sent > 0;
        report::count("notifications", n as u64);
    }
    pub fn op_io(&mut self) {
        let open: Vec<usize> = (0..self.s.eps.len()).filter(|i| self.s.eps[*i].open).collect();
        if open.is_empty() {
            return;
        }
        let si = *self.cx.rng.pick(&open);
        let e = self.s.eps[si].clone();
        let rng = &mut self.cx.rng;
        let c = rng.below(if self.cx.profile == "flags" { 14 } else { 12 });
        match c {
            0..=4 => {
                if e.kind == Kind::Listener {
                    // Somebody connects.
                    let c = src::tcp_socket();
                    let r = src::tcp_connect(c, src::addr_of(e.fd));
                    hist!(self, "connect to listener s{si}: {r}");
                    sys::close(c);
                } else if e.kind == Kind::TcpIdle {
                    if e.healthy {
                        if rng.chance(1, 2) {
                            let p = src::closed_addr();
                            let r = self.s.connect(si, p);
                            hist!(self, "s{si} connects in vain: {r}");
                        } else {
                            let l = self.s.eps.iter().position(|e| e.open && e.kind == Kind::Listener);
                            if let Some(l) = l {
                                let p = src::addr_of(self.s.eps[l].fd);
                                let r = self.s.connect(si, p);
                                hist!(self, "s{si} connects to s{l}: {r}");
                            }
                        }
                    }
                } else {
                    let n = *rng.pick(&[1usize, 1, 7, 60]);
                    let k = self.s.send(si, n);
                    hist!(self, "s{si} sends {k}");
                }
            }
            5 => {
                let n = self.s.fill(si);
                hist!(self, "s{si} filled ({n})");
            }
            6 | 7 => {
                let n = self.s.drain(si, 1);
                hist!(self, "s{si} received {n}");
            }
            8 | 9 => {
                let n = self.s.drain(si, 5000);
                hist!(self, "s{si} drained ({n})");
            }
            10 => {
                if rng.chance(1, 2) && matches!(e.kind, Kind::Unix | Kind::Tcp) {
                    let how = *rng.pick(&[libc::SHUT_WR, libc::SHUT_WR, libc::SHUT_RD, libc::SHUT_RDWR]);
                    self.s.shutdown(si, how);
                    hist!(self, "s{si} shutdown {how}");
                }
            }
            11 => {
                if rng.chance(1, 3) {
                    let reset = rng.chance(1, 2);
                    self.delete_everywhere(si);
                    self.s.close(si, reset);
                    hist!(self, "s{si} fd {} closed (reset {reset})", e.fd);
                }
            }
            _ => {
                if e.kind == Kind::Tcp {
                    let p = sys::probe(e.fd);
                    let peer_pri = e.peer.map_or(false, |p| self.s.eps[p].open && sys::probe(self.s.eps[p].fd) & PRI != 0);
                    if p & PRI != 0 && rng.chance(1, 2) {
                        let r = self.s.recv_oob(si);
                        hist!(self, "s{si} received the urgent byte: {r}");
                    } else if !peer_pri {
                        let r = self.s.send_oob(si);
                        hist!(self, "s{si} sends an urgent byte: {r}");
                    }
                }
            }
        }
        self.h.add(c as u64 * 31 + e.kind as u64);
    }
    fn poll_ref(&mut self, pi: usize) -> Vec<usize> {
        let refep = self.pm[pi].refep;
        if refep < 0 {
            return vec![];
        }
        let n = self.pm[pi].regs.len() + 4;
        let mut v: Vec<libc::epoll_event> = vec![libc::epoll_event { events: 0, u64: 0 }; n];
        let r = loop {
            let r = unsafe { sys::raw6(libc::SYS_epoll_wait, refep as usize, v.as_mut_ptr() as usize, n, 0, 0, 0) };
            if r != -(libc::EINTR as isize) {
                break r;
            }
        };
        assert!(r >= 0, "harness: reference epoll_wait failed {r}");
        v[..r as usize].iter().map(|e| e.u64 as usize).collect()
    }
    fn probes(&self, pi: usize) -> BTreeMap<usize, i16> {
        let ids: Vec<usize> = self.pm[pi].regs.keys().copied().collect();
        let fds: Vec<i32> = ids.iter().map(|&i| self.s.eps[i].fd).collect();
        ids.into_iter().zip(sys::probe_many(&fds)).collect()
    }
    /// Is anything there that a wait must report?
    fn required(&self, pi: usize, pr: &BTreeMap<usize, i16>) -> Vec<usize> {
        self.pm[pi]
            .regs
            .iter()
            .filter(|(si, g)| {
                let f = pr.get(si).copied().unwrap_or(0);
                let now = f & g.required() != 0;
                match g.mode {
                    PollMode::Oneshot => g.armed && now,
                    PollMode::Level => now,
                    PollMode::Edge => g.pend == Pend::Must && now,
                    PollMode::EdgeOneshot => g.armed && g.pend == Pend::Must && now,
                    _ => false,
                }
            })
            .map(|x| *x.0)
            .collect()
    }
    fn pre_wait(&mut self, pi: usize) {
        for si in self.poll_ref(pi) {
            if let Some(g) = self.pm[pi].regs.get_mut(&si) {
                g.pend = Pend::Must;
            }
        }
    }
    pub fn op_fd(&mut self, pi: usize) {
        let Some(fd) = self.pm[pi].fd else { return };
        let now = exported_fd(self.pm[pi].p.as_ref().unwrap()).unwrap();
        if now != fd {
            self.bad("poller-fd", format!("the exported descriptor was {fd}, is {now}"));
        }
        self.pre_wait(pi);
        let pr = self.probes(pi);
        // What was there before: an edge may be raised at any time after the descriptor is looked at.
        let before = self.required(pi, &pr);
        let f = sys::probe(fd);
        let pr2 = self.probes(pi);
        self.pre_wait(pi);
        let req: Vec<usize> = before.into_iter().filter(|s| pr2.get(s).copied().unwrap_or(0) & self.pm[pi].regs[s].required() != 0).collect();
        let m = &self.pm[pi];
        let must = m.notify || !req.is_empty();
        if must && f & IN == 0 {
            let why = if m.notify { "a notification is pending".to_string() } else { format!("sources {req:?} are ready") };
            self.bad("poller-fd-silent", format!("p{pi}: {why} but the poller's descriptor is not readable"));
        }
        let may = m.timer_may
            || m.regs.iter().any(|(si, g)| (!g.oneshot() || g.armed) && ((pr[si] | pr2[si]) & g.allowed() != 0 || g.pend != Pend::No));
        if !must && !may && f & IN != 0 {
            self.bad("poller-fd-stuck", format!("p{pi}: nothing is pending but the poller's descriptor is readable"));
        }
        report::count("descriptor_checks", 1);
        if must {
            report::count("descriptor_readable", 1);
        }
        hist!(self, "p{pi} descriptor: {f:#x}");
    }
    pub fn pick_container(&mut self) -> usize {
        let ci = self.cx.rng.below(self.conts.len());
        let p = if self.cx.profile == "container" { 2 } else { 5 };
        if !self.cx.rng.chance(1, p) {
            self.clear(ci);
        }
        ci
    }
    pub fn clear(&mut self, ci: usize) {
        let c = &mut self.conts[ci];
        c.ev.clear();
        c.cleared = true;
        c.snap.clear();
        if c.ev.len() != 0 || !c.ev.is_empty() || c.ev.iter().next().is_some() {
            report::violation("container", "clear left events in the container");
        }
    }
    pub fn add_container(&mut self, cap: usize) {
        let ev = if cap == 1024 && cfg!(not(polling_sim_os = "espidf")) && self.cx.rng.chance(1, 2) { Events::new() } else { Events::with_capacity(NonZeroUsize::new(cap).unwrap()) };
        if ev.capacity().get() < cap || ev.len() != 0 || !ev.is_empty() {
            report::violation("container", format!("a new container of capacity {cap}: capacity {}, len {}", ev.capacity(), ev.len()));
        }
        self.conts.push(Cont { ev, cap, cleared: true, snap: vec![] });
    }
    /// One wait. `want` None: choose the timeout. Returns the number of events.
    pub fn op_wait(&mut self, pi: usize, zero: bool) -> usize {
        let ci = self.pick_container();
        self.wait_in(pi, ci, zero)
    }
    pub fn wait_in(&mut self, pi: usize, ci: usize, zero: bool) -> usize {
        self.pre_wait(pi);
        let before = self.probes(pi);
        let req0 = self.required(pi, &before);
        let notify = self.pm[pi].notify;
        let must = notify || !req0.is_empty();
        let us = |n: u64| Duration::from_micros(n);
        let timeout = if zero {
            Some(Duration::ZERO)
        } else if must && self.cx.rng.chance(1, 4) {
            // About as long as the wait takes anyway: the timer fires together with the rest.
            Some(Duration::from_nanos({ let top = *self.cx.rng.pick(&[900usize, 4000, 30_000]); self.cx.rng.range(1, top) as u64 }))
        } else if must {
            *self.cx.rng.pick(&[None, None, Some(Duration::ZERO), Some(Duration::from_secs(30)), Some(Duration::MAX), Some(Duration::from_millis(1))])
        } else {
            let t = *self.cx.rng.pick(&[us(0), us(0), us(0), us(0), Duration::from_nanos(1), Duration::from_nanos(999), us(1), us(300), us(1000), us(1500), us(2700)]);
            Some(t)
        };
        let kind = if !must {
            None
        } else if !req0.is_empty() {
            Some("missed-ready-blocked")
        } else {
            Some("notify-lost")
        };
        hist!(self, "p{pi} wait c{ci}(cap {}) {timeout:?}; due {req0:?}{}", self.conts[ci].cap, if notify { " notified" } else { "" });
        let inj = {
            let c = if vp::supports_edge_backend() { Call::EpollWait } else { Call::Poll };
            let mut opts: Vec<(Call, &[i32])> = vec![(c, &[libc::EIO, libc::ENOMEM, libc::EINVAL, libc::EBADF])];
            if vp::supports_edge_backend() && self.cx.rng.chance(1, 4) {
                opts = vec![(Call::TimerSet, &[libc::ENOMEM, libc::EINVAL]), (Call::TimerArm, &[libc::ENOMEM, libc::EIO])];
            }
            self.maybe_fault(&opts)
        };
        if self.eintr && inj.is_none() && self.cx.rng.chance(1, 2) {
            let c = if vp::supports_edge_backend() { Call::EpollWait } else { Call::Poll };
            shim::set_fault(c, 0, self.cx.rng.range(1, 4) as i64, libc::EINTR);
            hist!(self, "  interrupted by signals");
        }
        let old = self.conts[ci].snap.clone();
        let was_cleared = self.conts[ci].cleared;
        let (p, c) = (self.pm[pi].p.take().unwrap(), &mut self.conts[ci]);
        let mut wait = || {
            let t0 = sys::now_ns();
            let r = p.wait(&mut c.ev, timeout, kind);
            (t0, r, sys::now_ns())
        };
        let (t0, r, t1) = match &self.other {
            Some(o) if self.cx.rng.chance(1, 2) => {
                if !self.quiet {
                    report::log("  on the other thread".to_string());
                }
                o.run(wait)
            }
            _ => wait(),
        };
        self.pm[pi].p = Some(p);
        self.waits += 1;
        let hits = if self.eintr { shim::FAULTS.iter().map(|f| f.hits.load(std::sync::atomic::Ordering::SeqCst)).sum() } else { 0 };
        if self.eintr {
            report::count("interruptions_injected", hits);
        }
        if inj.is_none() {
            shim::clear_faults();
        }
        let timer_fault = matches!(inj, Some((Call::TimerSet | Call::TimerArm, _)));
        let was_fault = if timer_fault {
            let hit = shim::fault_hits(inj.unwrap().0) > 0;
            shim::clear_faults();
            if hit {
                report::count("faults_injected", 1);
            }
            hit && r.is_err()
        } else {
            self.fault_result(inj, "wait", r.as_ref().err())
        };
        let c = &mut self.conts[ci];
        c.cleared = false;
        let now: Vec<Event> = c.ev.iter().collect();
        c.snap = now.clone();
        let after = {
            let ids: Vec<usize> = before.keys().copied().collect();
            let fds: Vec<i32> = ids.iter().map(|&i| self.s.eps[i].fd).collect();
            ids.into_iter().zip(sys::probe_many(&fds)).collect::<BTreeMap<usize, i16>>()
        };
        if was_fault {
            hist!(self, "  -> {r:?}");
            if was_cleared && !now.is_empty() {
                self.bad("fault-events", format!("a failed wait left {} events in the container", now.len()));
            }
            self.pm[pi].timer_may = true;
            return 0;
        }
        let n = match r {
            Ok(n) => n,
            Err(e) => self.bad("wait-error", format!("wait returned {e:?}")),
        };
        hist!(self, "  -> Ok({n}) after {} ns: {:?}", t1 - t0, now.iter().map(|e| (e.key, e.readable, e.writable, e.is_interrupt(), e.is_priority(), e.is_err())).collect::<Vec<_>>());
        // The container.
        let c = &self.conts[ci];
        if c.ev.len() != now.len() || c.ev.is_empty() != now.is_empty() {
            self.bad("container", format!("len {} is_empty {} but {} events", c.ev.len(), c.ev.is_empty(), now.len()));
        }
        if now.len() > c.ev.capacity().get() || c.ev.capacity().get() < c.cap {
            self.bad("container", format!("{} events, capacity {} (requested {})", now.len(), c.ev.capacity(), c.cap));
        }
        if now.iter().any(|e| e.key == usize::MAX) {
            self.bad("internal-event", "an internal wake-up is visible as an event".into());
        }
        let fresh: Vec<Event> = if now.len() == n {
            now.clone()
        } else if !was_cleared && now.len() == old.len() + n && now[..old.len()] == old[..] {
            now[old.len()..].to_vec()
        } else {
            self.bad("count", format!("wait returned {n}; the container held {} events before (cleared: {was_cleared}) and holds {} now", old.len(), now.len()));
        };
        // Time.
        let el = t1 - t0;
        let m = &self.pm[pi];
        let may_any = m.regs.iter().any(|(si, g)| (before[si] | after[si]) & g.allowed() != 0 && (!g.oneshot() || g.armed));
        if n == 0 && !notify {
            let early = timeout.map_or(true, |t| (el as u128) < t.as_nanos());
            if early && (!may_any || !req0.is_empty()) {
                self.bad(if self.pm[pi].regs.is_empty() || req0.is_empty() { "early-timeout" } else { "missed-returned-empty" }, format!("wait({timeout:?}) returned without events after {el} ns; due were {req0:?}"));
            }
            if timeout == Some(Duration::ZERO) && req0.iter().any(|s| after[s] & self.pm[pi].regs[s].required() != 0) {
                self.bad("missed-now", format!("wait(0) reported nothing although {req0:?} were ready"));
            }
        }
        // Attribute events to registrations.
        let after_ref: BTreeSet<usize> = self.poll_ref(pi).into_iter().collect();
        let mut by_key: BTreeMap<usize, Vec<Event>> = BTreeMap::new();
        for e in &fresh {
            by_key.entry(e.key).or_default().push(*e);
        }
        let mut hit: BTreeSet<usize> = BTreeSet::new();
        let mut rearm: Vec<usize> = vec![];
        let mut by_reg: HashMap<usize, Vec<usize>> = HashMap::new();
        for (&si, g) in &self.pm[pi].regs {
            by_reg.entry(g.key).or_default().push(si);
        }
        for (key, evs) in by_key {
            let cand: Vec<usize> = by_reg.remove(&key).unwrap_or_default();
            if cand.is_empty() {
                let k = if self.pm[pi].old_keys.contains(&key) { "stale-event" } else { "unknown-key" };
                self.bad(k, format!("an event with key {key} was delivered; no source is registered under it"));
            }
            let mut why: Vec<(String, String)> = vec![];
            let mut ok: Vec<Vec<usize>> = vec![];
            for e in &evs {
                let mut o = vec![];
                for &si in &cand {
                    match self.explain(pi, si, e, before[&si], after[&si], after_ref.contains(&si)) {
                        None => o.push(si),
                        Some(w) => why.push(w),
                    }
                }
                ok.push(o);
            }
            let mut used = vec![];
            if !assign(&ok, 0, &mut used) {
                if evs.len() > cand.len() {
                    self.bad("dup-in-wait", format!("{} events with key {key} in one wait, {} sources have it", evs.len(), cand.len()));
                }
                if let Some((k, d)) = why.first().cloned() {
                    self.bad(&k, format!("p{pi}: {d}"));
                }
                self.bad("dup-in-wait", format!("the events with key {key} cannot be explained: {evs:?}"));
            }
            if cand.len() > 1 && evs.len() < cand.len() {
                // Which of the sources that share the key was meant is not known: renew them all.
                rearm.extend(cand.iter().copied());
            }
            hit.extend(used);
        }
        self.delivered += n as u64;
        let nregs = self.pm[pi].regs.len();
        let cap = self.conts[ci].cap;
        let ambiguous: BTreeSet<usize> = rearm.iter().copied().collect();
        for (&si, g) in self.pm[pi].regs.iter_mut() {
            self.h.add((g.mode as u64) << 8 | (hit.contains(&si) as u64) << 4 | (before[&si] as u64) << 16 | g.armed as u64);
            if hit.contains(&si) {
                g.miss = 0;
                if g.oneshot() {
                    g.armed = false;
                }
                if g.edge() {
                    // An arrival seen only after the delivery may or may not be part of it.
                    g.pend = if after_ref.contains(&si) && g.armed { Pend::May } else { Pend::No };
                }
                continue;
            }
            if ambiguous.contains(&si) {
                continue;
            }
            let due = req0.contains(&si) && after[&si] & g.required() != 0;
            if due {
                g.miss += cap.min(nregs + 2);
                let name = match g.mode {
                    PollMode::Oneshot => "missed-oneshot",
                    PollMode::Level => "missed-level",
                    PollMode::Edge => "missed-edge",
                    _ => "missed-edge-oneshot",
                };
                let strict = g.mode == PollMode::Level && cap >= nregs + 2;
                if strict || g.miss > 3 * (nregs + 2) + 8 * cap.min(nregs + 2) {
                    let d = format!("p{pi} s{si} ({:?}, fd {}) is registered as {g:?} and ready ({:#x}) but was not delivered", self.s.eps[si].kind, self.s.eps[si].fd, after[&si]);
                    report::violation(name, d);
                }
            } else {
                g.miss = 0;
            }
            if g.edge() {
                if after_ref.contains(&si) {
                    g.pend = Pend::Must;
                } else if g.pend == Pend::Must && (before[&si] & after[&si] & g.required()) == 0 {
                    // The condition was gone when the wait looked: nothing is owed any more.
                    g.pend = Pend::May;
                }
            }
        }
        let m = &mut self.pm[pi];
        m.notify = false;
        m.timer_may = match timeout {
            None => false,
            Some(t) if t.is_zero() => false,
            Some(_) => true,
        } && !(n == 0 && !notify);
        for si in rearm {
            let g = self.pm[pi].regs[&si].clone();
            self.op_modify(pi, si, g);
        }
        // Sources must look as before (reading, or fetching an error, would change that).
        for (si, f) in &before {
            let k = self.s.eps[*si].kind;
            let (b, a) = (*f, after[si]);
            let stable = !matches!(k, Kind::Tcp | Kind::TcpIdle | Kind::Listener);
            if (stable && a != b) || b & !a & (IN | ERR | HUP | PRI) != 0 {
                self.bad("source-altered", format!("s{si} ({k:?}) changed from {b:#x} to {a:#x} during a wait"));
            }
        }
        if !fresh.is_empty() {
            report::count("events", n as u64);
        }
        n
    }
    /// None if the event can be a delivery of this registration.
    fn explain(&self, pi: usize, si: usize, e: &Event, before: i16, after: i16, after_ref: bool) -> Option<(String, String)> {
        let g = &self.pm[pi].regs[&si];
        let id = format!("s{si} ({:?}, fd {}, {g:?}, ready {before:#x}/{after:#x}): event {e:?}", self.s.eps[si].kind, self.s.eps[si].fd);
        if g.oneshot() && !g.armed {
            return Some((if g.edge() { "dup-edge-oneshot" } else { "dup-oneshot" }.into(), format!("delivered again without being re-armed: {id}")));
        }
        if g.edge() && g.pend == Pend::No && !after_ref {
            return Some(("edge-dup".into(), format!("delivered without a new arrival: {id}")));
        }
        let al = g.allowed();
        let (lo, hi) = (before & after & al, (before | after) & al);
        if hi == 0 {
            return Some(("spurious-event".into(), format!("none of the registered conditions holds: {id}")));
        }
        let rd = (if g.r || g.pri { IN | PRI } else { 0 }) | HUP | ERR;
        let wr = (if g.w { OUT } else { 0 }) | HUP | ERR;
        let chk = |name: &str, got: bool, mask: i16, lo_mask: i16| -> Option<(String, String)> {
            if got && hi & mask == 0 {
                return Some((format!("event-flags:{name}"), format!("claims {name} wrongly: {id}")));
            }
            if !got && lo & lo_mask != 0 {
                return Some((format!("event-flags:{name}"), format!("does not claim {name}: {id}")));
            }
            None
        };
        // An interest in priority alone is reported as readable by some systems and not by others.
        let rd_must = if g.r { IN | PRI | HUP | ERR } else { 0 };
        let wr_must = if g.w { OUT | HUP | ERR } else { 0 };
        chk("readable", e.readable, rd, rd_must)
            .or_else(|| chk("writable", e.writable, wr, wr_must))
            .or_else(|| chk("interrupt", e.is_interrupt(), HUP, HUP))
            .or_else(|| chk("priority", e.is_priority(), PRI, PRI))
            .or_else(|| chk("error", e.is_err() == Some(true), ERR, ERR))
    }
    /// Wait until nothing is due any more (levels stay due: they are waited for a few rounds).
    pub fn flush(&mut self, pi: usize) {
        let least = self.conts.iter().map(|c| c.cap).min().unwrap_or(1);
        for round in 0.. {
            self.pre_wait(pi);
            let pr = self.probes(pi);
            let req = self.required(pi, &pr);
            let only_level = req.iter().all(|s| self.pm[pi].regs[s].mode == PollMode::Level);
            if req.is_empty() || (only_level && round > 2 && req.iter().all(|s| self.pm[pi].regs[s].miss == 0)) {
                break;
            }
            if only_level && round > 8 * (req.len() / least + 5) {
                break;
            }
            if round > 12 * (self.pm[pi].regs.len() + 8) {
                if self.shared_keys {
                    // Sources with the same key are renewed when it is unclear which was meant.
                    break;
                }
                report::inconclusive("harness: a flush does not end");
            }
            self.op_wait(pi, true);
        }
    }
    /// A delivered event, changed by the user, is passed back.
    pub fn op_recycle(&mut self, pi: usize) {
        let cands: Vec<Event> = self.conts.iter().flat_map(|c| c.snap.iter().copied()).collect();
        let regd: Vec<usize> = self.pm[pi].regs.keys().copied().collect();
        if cands.is_empty() || regd.is_empty() {
            return;
        }
        let mut ev = *self.cx.rng.pick(&cands);
        let si = *self.cx.rng.pick(&regd);
        let key = self.fresh_key();
        let mode = self.random_mode();
        let rng = &mut self.cx.rng;
        ev.key = key;
        if rng.chance(2, 3) {
            ev.readable = rng.chance(1, 3);
        }
        if rng.chance(2, 3) {
            ev.writable = rng.chance(1, 3);
        }
        let (mut pri, mut hup) = (ev.is_priority(), ev.is_interrupt());
        if rng.chance(1, 2) {
            pri = rng.chance(1, 2);
            ev.set_priority(pri);
        }
        if rng.chance(1, 2) {
            hup = rng.chance(1, 2);
            ev.set_interrupt(hup);
        }
        if rng.chance(1, 4) {
            ev = if rng.chance(1, 2) { ev.with_no_extra() } else {
                ev.clear_extra();
                ev
            };
            pri = false;
            hup = false;
            if ev.is_err() == Some(true) || ev != Event::new(ev.key, ev.readable, ev.writable) {
                report::violation("event-api", "clear_extra left information behind");
            }
        }
        if ev.is_priority() != pri || ev.is_interrupt() != hup {
            report::violation("event-api", format!("after setting priority {pri} and interrupt {hup}: {ev:?}"));
        }
        let g = Reg { key, r: ev.readable, w: ev.writable, pri, hup, mode, armed: true, pend: Pend::No, miss: 0, gen: 0 };
        hist!(self, "p{pi} recycles a delivered event");
        report::count("recycled", 1);
        self.modify_event(pi, si, g, ev);
    }
    /// Replace a source by another one with the same descriptor number.
    pub fn op_reuse(&mut self) {
        let open: Vec<usize> = (0..self.s.eps.len()).filter(|i| self.s.eps[*i].open).collect();
        if open.is_empty() {
            return;
        }
        let si = *self.cx.rng.pick(&open);
        let was: Vec<usize> = (0..self.pm.len()).filter(|&p| self.pm[p].regs.contains_key(&si)).collect();
        self.delete_everywhere(si);
        let fd = self.s.eps[si].fd;
        self.s.close(si, false);
        // The lowest free number is given out: this one, or one freed earlier.
        let v = self.s.random(&mut self.cx.rng);
        hist!(self, "s{si} fd {fd} closed; new sources {v:?} on {:?}", v.iter().map(|i| self.s.eps[*i].fd).collect::<Vec<_>>());
        report::count("reuses", 1);
        let pick = v.iter().copied().find(|i| self.s.eps[*i].fd == fd).unwrap_or(v[0]);
        for pi in was {
            if self.cx.rng.chance(3, 4) {
                let g = self.reg_for(pi, pick);
                self.op_add(pi, pick, g);
            }
        }
    }
    /// Delete and add again at once.
    pub fn op_readd(&mut self, pi: usize) {
        let regd: Vec<usize> = self.pm[pi].regs.keys().copied().collect();
        if regd.is_empty() {
            return;
        }
        let si = *self.cx.rng.pick(&regd);
        for _ in 0..self.cx.rng.range(1, 2) {
            if !self.pm[pi].regs.contains_key(&si) || !self.op_delete(pi, si) {
                break;
            }
            let g = self.reg_for(pi, si);
            self.op_add(pi, si, g);
            if self.pm[pi].regs.contains_key(&si) && self.cx.rng.chance(1, 2) {
                let g = self.reg_for(pi, si);
                self.op_modify(pi, si, g);
            }
        }
    }
    /// Every poller ends, and the sources must be as the application left them.
    pub fn finish(&mut self) {
        for pi in 0..self.pm.len() {
            if self.pm[pi].p.is_none() {
                continue;
            }
            self.flush(pi);
            if self.pm[pi].notify && self.cx.rng.chance(1, 2) {
                self.op_wait(pi, false);
            }
        }
        self.check_no_new_fds("after use");
        for pi in 0..self.pm.len() {
            self.end_poller(pi);
        }
        self.check_no_new_fds("after dropping the pollers");
        for i in 0..self.s.eps.len() {
            if !self.s.eps[i].open {
                continue;
            }
            self.s.check_untouched(i);
            let e = self.s.eps[i].clone();
            if e.dup {
                self.s.drain(i, 5000);
                continue;
            }
            self.s.check_all_received(i);
            if let (Some(p), true) = (e.peer, e.healthy && e.tx.is_some()) {
                if self.s.eps[p].open && !self.s.eps[p].dup {
                    // Still works in both directions.
                    self.s.drain(p, 5000);
                    if self.s.send(i, 1) == 1 {
                        self.s.check_all_received(p);
                        report::count("sources_verified", 1);
                    } else if e.kind != Kind::Tcp {
                        report::violation("source-data", format!("s{i} ({:?}) cannot be written to after use", e.kind));
                    }
                }
            }
        }
        self.s.close_all();
        for pi in 0..self.pm.len() {
            if self.pm[pi].refep >= 0 {
                sys::close(self.pm[pi].refep);
                self.pm[pi].refep = -1;
            }
        }
        self.pm.clear();
        let t = sys::fd_table();
        let now: BTreeSet<i32> = t.keys().copied().collect();
        if now != self.base {
            let d: Vec<_> = now.symmetric_difference(&self.base).map(|fd| (*fd, t.get(fd).map(|x| x.0.clone()))).collect();
            report::violation("fd-leak", format!("after everything was dropped these descriptors differ: {d:?}"));
        }
    }
    pub fn end_poller(&mut self, pi: usize) {
        if self.pm[pi].p.is_none() {
            return;
        }
        let regd: Vec<usize> = self.pm[pi].regs.keys().copied().collect();
        for si in regd {
            if self.cx.rng.chance(1, 2) {
                self.op_delete(pi, si);
            } else {
                let m = &mut self.pm[pi];
                if m.regs[&si].edge() && m.refep >= 0 {
                    epoll_ctl(m.refep, libc::EPOLL_CTL_DEL, self.s.eps[si].fd, 0, 0);
                }
                m.regs.remove(&si);
            }
        }
        self.pm[pi].notify = false;
        hist!(self, "p{pi} dropped");
        let p = self.pm[pi].p.take();
        vp::call("op-blocked", 0, || "drop".into(), move || drop(p));
        self.pm[pi].own_fds.clear();
    }
}
impl Drop for World<'_> {
    fn drop(&mut self) {
        shim::clear_faults();
        for m in &self.pm {
            if m.refep >= 0 {
                sys::close(m.refep);
            }
        }
    }
}
fn assign(ok: &[Vec<usize>], i: usize, used: &mut Vec<usize>) -> bool {
    if i == ok.len() {
        return true;
    }
    for &s in &ok[i] {
        if !used.contains(&s) {
            used.push(s);
            if assign(ok, i + 1, used) {
                return true;
            }
            used.pop();
        }
    }
    false
}

/// Frees descriptor number 0 for a while.
struct Zero(i32);
impl Zero {
    fn free() -> Zero {
        let kept = sys::raw3(libc::SYS_fcntl, 0, libc::F_DUPFD_CLOEXEC as usize, 3) as i32;
        sys::close(0);
        report::log("descriptor 0 is free".to_string());
        Zero(kept)
    }
}
impl Drop for Zero {
    fn drop(&mut self) {
        if self.0 >= 0 {
            sys::raw3(libc::SYS_dup3, self.0 as usize, 0, 0);
            sys::close(self.0);
        }
    }
}

/// One random history.
pub fn run(cx: &mut Ctx) {
    // Sometimes number 0 is a descriptor like any other.
    let stdin = if cx.rng.chance(1, 6) { Some(Zero::free()) } else { None };
    let prof = cx.profile.clone();
    let mut w = World::new(cx);
    let many = prof == "many";
    w.quiet = many;
    w.faults = prof == "faults" && shim::ACTIVE;
    w.eintr = prof == "eintr" && shim::ACTIVE;
    if shim::ACTIVE && !many && w.cx.rng.chance(1, 4) {
        let d = shim::delay_regime(&mut w.cx.rng);
        report::log(format!("delays: {d}"));
    }
    // (Renewing registrations when it is unclear which was meant must not fail.)
    w.shared_keys = w.cx.rng.chance(1, 8) && !many && !w.faults;
    w.habits = !many && w.cx.rng.chance(1, 3);
    if !many && w.cx.rng.chance(1, 6) {
        w.other = Some(vp::Elsewhere::new());
    }
    let np = match prof.as_str() {
        "multi" => w.cx.rng.range(2, 4),
        "many" => 1,
        _ => {
            if w.cx.rng.chance(1, 6) {
                2
            } else {
                1
            }
        }
    };
    for _ in 0..np {
        w.add_poller();
    }
    let caps: &[usize] = if many { &[1024, 1024, 2000, 64, 4096] } else { &[1, 1, 2, 3, 5, 8, 16, 1024] };
    let huge = many && cfg!(not(vh_slow)) && w.cx.rng.chance(1, 6);
    for _ in 0..w.cx.rng.range(1, 3) {
        let c = if huge { *w.cx.rng.pick(&[1024, 2000, 4096, 9000]) } else { *w.cx.rng.pick(caps) };
        w.add_container(c);
    }
    if prof == "container" && w.cx.rng.chance(1, 4) {
        // A large one.
        let bits = w.cx.rng.range(6, 18);
        let c = (1usize << bits) + w.cx.rng.below(1 << bits);
        w.add_container(c);
    }
    let nsrc = if many {
        if huge { w.cx.rng.range(2000, 4500) } else { w.cx.rng.range(400, 1600) }
    } else if w.cx.rng.chance(1, 10) { w.cx.rng.range(15, 50) } else { w.cx.rng.range(1, 7) };
    for _ in 0..nsrc {
        if many {
            let k = *w.cx.rng.pick(&[Kind::Unix, Kind::PipeR, Kind::Event]);
            w.s.create(k);
        } else {
            let v = w.s.random(&mut w.cx.rng);
            if w.cx.rng.chance(1, 10) && w.s.eps[v[0]].kind != Kind::Listener {
                let d = w.s.dup(v[0]);
                report::log(format!("s{d} is a duplicate of s{}", v[0]));
            }
        }
    }
    if many {
        // Register everything and make much of it ready.
        for si in 0..w.s.eps.len() {
            let g = w.random_reg();
            w.op_add(0, si, g);
            if w.cx.rng.chance(1, 2) {
                w.s.send(si, 1);
            }
        }
        report::log(format!("{} sources registered", w.s.eps.len()));
        for _ in 0..w.cx.rng.range(2, 5) {
            w.flush(0);
            for _ in 0..300 {
                let si = w.cx.rng.below(w.s.eps.len());
                if w.pm[0].regs.contains_key(&si) && w.cx.rng.chance(2, 3) {
                    if w.cx.rng.chance(1, 4) {
                        w.op_delete(0, si);
                    } else {
                        let g = w.random_reg();
                        w.op_modify(0, si, g);
                    }
                } else if !w.pm[0].regs.contains_key(&si) {
                    let g = w.random_reg();
                    w.op_add(0, si, g);
                }
                let d = w.cx.rng.below(w.s.eps.len());
                if w.cx.rng.chance(1, 2) {
                    w.s.send(d, 1);
                } else {
                    w.s.drain(d, 100);
                }
            }
            for _ in 0..3 {
                w.op_wait(0, false);
            }
        }
    }
    let nops = if many { 10 } else { w.cx.rng.range(10, 120) };
    // (add, modify, delete, bad, io, wait, notify, recycle, reuse, readd, fd)
    let wt: [usize; 11] = match prof.as_str() {
        "regerr" => [12, 14, 8, 30, 14, 18, 2, 2, 2, 4, 1],
        "container" => [8, 10, 3, 1, 20, 34, 6, 1, 1, 2, 0],
        "flags" => [8, 10, 3, 1, 34, 22, 1, 12, 1, 2, 1],
        "notify" => [6, 10, 3, 1, 10, 34, 24, 1, 1, 2, 3],
        "reuse" => [10, 8, 8, 2, 16, 22, 2, 2, 14, 14, 2],
        "fd" => [8, 10, 4, 2, 20, 20, 10, 1, 1, 3, 24],
        _ => [10, 14, 5, 4, 26, 26, 5, 3, 2, 3, 2],
    };
    let total: usize = wt.iter().sum();
    for _ in 0..nops {
        let mut x = w.cx.rng.below(total);
        let mut op = 0;
        while x >= wt[op] {
            x -= wt[op];
            op += 1;
        }
        let pi = w.cx.rng.below(w.pm.len());
        let regd: Vec<usize> = w.pm[pi].regs.keys().copied().collect();
        w.h.add(op as u64);
        match op {
            0 => {
                let free: Vec<usize> = (0..w.s.eps.len()).filter(|i| w.s.eps[*i].open && !w.pm[pi].regs.contains_key(i)).collect();
                if !free.is_empty() {
                    let si = *w.cx.rng.pick(&free);
                    let g = w.reg_for(pi, si);
                    w.op_add(pi, si, g);
                }
            }
            1 => {
                if !regd.is_empty() {
                    let si = *w.cx.rng.pick(&regd);
                    let mut g = w.reg_for(pi, si);
                    if w.cx.rng.chance(1, 3) {
                        // Re-arm as it was.
                        let o = &w.pm[pi].regs[&si];
                        g = o.clone();
                    }
                    w.op_modify(pi, si, g);
                }
            }
            2 => {
                if !regd.is_empty() {
                    let si = *w.cx.rng.pick(&regd);
                    w.op_delete(pi, si);
                }
            }
            3 => w.op_bad(pi),
            4 => w.op_io(),
            5 => {
                let z = w.cx.rng.chance(1, 4);
                w.op_wait(pi, z);
            }
            6 => w.op_notify(pi),
            7 => w.op_recycle(pi),
            8 => w.op_reuse(),
            9 => w.op_readd(pi),
            _ => w.op_fd(pi),
        }
        if w.cx.rng.chance(1, 25) {
            w.flush(pi);
            // After a flush everything that fires once is silent.
            w.op_wait(pi, true);
        }
        if w.cx.rng.chance(1, 40) {
            w.pm[pi].p.as_ref().unwrap().debug();
        }
        if w.cx.rng.chance(1, 60) {
            w.check_no_new_fds("in use");
        }
        if w.pm.len() > 1 && w.cx.rng.chance(1, 60) {
            // One poller ends while the others go on, and a new one takes its place.
            let d = w.cx.rng.below(w.pm.len());
            w.end_poller(d);
            w.check_no_new_fds("after one poller was dropped");
            if w.pm[d].refep >= 0 {
                sys::close(w.pm[d].refep);
            }
            w.pm.remove(d);
            w.add_poller();
        }
    }
    let (d, n) = (w.delivered, w.waits);
    w.finish();
    drop(stdin);
    let h = w.h.0;
    report::count("waits", n);
    if d > 0 {
        report::distinct(h);
    }
    report::sample(|| {
        let hist = report::history();
        let k = hist.len().min(24);
        format!("history of {} steps, {n} waits, {d} events: {}", hist.len(), hist[..k].join("; "))
    });
}
