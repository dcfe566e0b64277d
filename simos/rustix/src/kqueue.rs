//! The kqueue interface of rustix 0.38, and a kqueue.
//!
//! Every knote is an epoll instance of its own holding the descriptor, and all of them sit in the
//! epoll instance that stands for the kqueue: blocking, wake-ups, level and edge behaviour and
//! the disappearance of closed descriptors are those of the real kernel underneath.
use crate::sim::{self, Site};
use real::fd::{AsFd, AsRawFd, OwnedFd, RawFd};
use real::io::{self, Errno};
use real::process::{Pid, Signal};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};
use std::time::Duration;

const F_READ: i16 = -1;
const F_WRITE: i16 = -2;
const F_VNODE: i16 = -4;
const F_PROC: i16 = -5;
const F_SIGNAL: i16 = -6;
const F_TIMER: i16 = -7;
const F_USER: i16 = -11;

#[derive(Copy, Clone, Debug)]
pub struct Event {
    ident: usize,
    filter: i16,
    flags: u16,
    fflags: u32,
    data: i64,
    udata: isize,
}
impl Event {
    pub fn new(filter: EventFilter, flags: EventFlags, udata: isize) -> Event {
        let (ident, data, filter, fflags) = match filter {
            EventFilter::Read(fd) => (fd as usize, 0, F_READ, 0),
            EventFilter::Write(fd) => (fd as usize, 0, F_WRITE, 0),
            EventFilter::Vnode { vnode, flags } => (vnode as usize, 0, F_VNODE, flags.bits()),
            EventFilter::Proc { pid, flags } => (Pid::as_raw(Some(pid)) as usize, 0, F_PROC, flags.bits()),
            EventFilter::Signal { signal, times: _ } => (signal as i32 as usize, 0, F_SIGNAL, 0),
            EventFilter::Timer { ident, timer } => (ident as usize, timer.map_or(i64::MAX, |t| t.as_nanos().min(i64::MAX as u128) as i64), F_TIMER, 0),
            EventFilter::User { ident, flags, user_flags } => (ident as usize, 0, F_USER, flags.bits() | user_flags.0),
            EventFilter::Unknown => panic!("unknown filter"),
        };
        Event { ident, filter, flags: flags.bits(), fflags, data, udata }
    }
    pub fn flags(&self) -> EventFlags {
        EventFlags::from_bits_retain(self.flags)
    }
    pub fn udata(&self) -> isize {
        self.udata
    }
    pub fn data(&self) -> i64 {
        self.data
    }
    pub fn filter(&self) -> EventFilter {
        match self.filter {
            F_READ => EventFilter::Read(self.ident as _),
            F_WRITE => EventFilter::Write(self.ident as _),
            F_VNODE => EventFilter::Vnode { vnode: self.ident as _, flags: VnodeEvents::from_bits_retain(self.fflags) },
            F_PROC => EventFilter::Proc { pid: Pid::from_raw(self.ident as _).unwrap(), flags: ProcessEvents::from_bits_retain(self.fflags) },
            F_SIGNAL => EventFilter::Signal { signal: Signal::from_raw(self.ident as _).unwrap(), times: self.data as _ },
            F_TIMER => EventFilter::Timer { ident: self.ident as _, timer: Some(Duration::from_nanos(self.data as _)) },
            F_USER => EventFilter::User { ident: self.ident as _, flags: UserFlags::from_bits_retain(self.fflags), user_flags: UserDefinedFlags(self.fflags & 0x00ff_ffff) },
            _ => EventFilter::Unknown,
        }
    }
}
#[non_exhaustive]
#[derive(Debug, Clone, Copy)]
pub enum EventFilter {
    Read(RawFd),
    Write(RawFd),
    Vnode { vnode: RawFd, flags: VnodeEvents },
    Proc { pid: Pid, flags: ProcessEvents },
    Signal { signal: Signal, times: usize },
    Timer { ident: isize, timer: Option<Duration> },
    User { ident: isize, flags: UserFlags, user_flags: UserDefinedFlags },
    Unknown,
}
bitflags::bitflags! {
    #[repr(transparent)]
    #[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
    pub struct EventFlags: u16 {
        const ADD = 0x1;
        const DELETE = 0x2;
        const ENABLE = 0x4;
        const DISABLE = 0x8;
        const ONESHOT = 0x10;
        const CLEAR = 0x20;
        const RECEIPT = 0x40;
        const EOF = 0x8000;
        const ERROR = 0x4000;
        const _ = !0;
    }
}
bitflags::bitflags! {
    #[repr(transparent)]
    #[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
    pub struct VnodeEvents: u32 {
        const DELETE = 1;
        const WRITE = 2;
        const EXTEND = 4;
        const ATTRIBUTES = 8;
        const LINK = 16;
        const RENAME = 32;
        const REVOKE = 64;
        const _ = !0;
    }
}
bitflags::bitflags! {
    #[repr(transparent)]
    #[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
    pub struct ProcessEvents: u32 {
        const EXIT = 0x8000_0000;
        const FORK = 0x4000_0000;
        const EXEC = 0x2000_0000;
        const TRACK = 1;
        const TRACKERR = 2;
        const _ = !0;
    }
}
bitflags::bitflags! {
    #[repr(transparent)]
    #[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
    pub struct UserFlags: u32 {
        const NOINPUT = 0;
        const AND = 0x4000_0000;
        const OR = 0x8000_0000;
        const COPY = 0xc000_0000;
        const CTRLMASK = 0xc000_0000;
        const UDFMASK = 0x00ff_ffff;
        const TRIGGER = 0x0100_0000;
        const _ = !0;
    }
}
#[repr(transparent)]
#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub struct UserDefinedFlags(u32);
impl UserDefinedFlags {
    pub fn new(flags: u32) -> Self {
        Self(flags & 0x00ff_ffff)
    }
    pub fn get(self) -> u32 {
        self.0
    }
}

struct Knote {
    id: u64,
    ev: Event,
    /// What is in the kqueue's epoll instance: an epoll instance, an eventfd, timerfd or pidfd.
    child: OwnedFd,
}
struct Kq {
    fd: RawFd,
    mark: u64,
    _anchor: OwnedFd,
    next: u64,
    notes: BTreeMap<(i16, usize), Knote>,
    by_id: HashMap<u64, (i16, usize)>,
}
static ALL: Mutex<BTreeMap<RawFd, Arc<Mutex<Kq>>>> = Mutex::new(BTreeMap::new());
static MARK: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1 << 63);

fn errno(e: i32) -> Errno {
    Errno::from_raw_os_error(e)
}

pub fn kqueue() -> io::Result<OwnedFd> {
    use real::fd::FromRawFd;
    if let Some(e) = sim::fails(Site::Create) {
        return Err(errno(e));
    }
    let fd = unsafe { libc::epoll_create1(0) };
    if fd < 0 {
        return Err(errno(std::io::Error::last_os_error().raw_os_error().unwrap_or(libc::EMFILE)));
    }
    let mark = MARK.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let anchor = sim::eventfd();
    assert_eq!(sim::ctl(fd, libc::EPOLL_CTL_ADD, anchor.as_raw_fd(), 0, mark), 0);
    let mut all = sim::lock(&ALL);
    // Queues whose descriptor has been closed are gone.
    all.retain(|f, k| {
        let k = sim::lock(k);
        *f != fd && sim::holds(*f, k.mark)
    });
    all.insert(fd, Arc::new(Mutex::new(Kq { fd, mark, _anchor: anchor, next: 0, notes: BTreeMap::new(), by_id: HashMap::new() })));
    Ok(unsafe { OwnedFd::from_raw_fd(fd) })
}

impl Kq {
    fn change(&mut self, c: &Event) -> i32 {
        let f = c.flags();
        let k = (c.filter, c.ident);
        if f.contains(EventFlags::DELETE) {
            let Some(n) = self.notes.remove(&k) else { return libc::ENOENT };
            self.by_id.remove(&n.id);
            if matches!(c.filter, F_READ | F_WRITE) && !live(&n) {
                return libc::ENOENT;
            }
            return 0;
        }
        if let Some(n) = self.notes.get_mut(&k) {
            if matches!(c.filter, F_READ | F_WRITE) && !live(n) {
                // The descriptor was closed since: a leftover of another object.
                let n = self.notes.remove(&k).unwrap();
                self.by_id.remove(&n.id);
            }
        }
        if let Some(n) = self.notes.get_mut(&k) {
            n.ev.udata = c.udata;
            match c.filter {
                F_READ | F_WRITE => {
                    n.ev.flags = c.flags;
                    let e = sim::ctl(n.child.as_raw_fd(), libc::EPOLL_CTL_MOD, c.ident as i32, mask(c), 0);
                    if e != 0 {
                        return e;
                    }
                }
                F_USER => {
                    // (What was said when it was added about clearing stays.)
                    n.ev.fflags |= c.fflags & 0x00ff_ffff;
                    if c.fflags & UserFlags::TRIGGER.bits() != 0 {
                        sim::post(n.child.as_raw_fd());
                    }
                }
                F_TIMER => {
                    n.ev = *c;
                    arm_timer(&n.child, c);
                }
                _ => n.ev = *c,
            }
            return 0;
        }
        if !f.contains(EventFlags::ADD) {
            return libc::ENOENT;
        }
        let child = match c.filter {
            F_READ | F_WRITE => {
                let ep = sim::epoll();
                let e = sim::ctl(ep.as_raw_fd(), libc::EPOLL_CTL_ADD, c.ident as i32, mask(c), 0);
                if e != 0 {
                    return e;
                }
                ep
            }
            F_USER => {
                let e = sim::eventfd();
                if c.fflags & UserFlags::TRIGGER.bits() != 0 {
                    sim::post(e.as_raw_fd());
                }
                e
            }
            F_TIMER => {
                let t = sim::hide(unsafe { libc::timerfd_create(libc::CLOCK_MONOTONIC, libc::TFD_CLOEXEC | libc::TFD_NONBLOCK) });
                arm_timer(&t, c);
                t
            }
            F_SIGNAL => sim::eventfd(),
            F_PROC => {
                let r = unsafe { libc::syscall(libc::SYS_pidfd_open, c.ident as i32, 0) };
                if r < 0 {
                    return libc::ESRCH;
                }
                sim::hide(r as i32)
            }
            _ => return libc::EINVAL,
        };
        self.next += 1;
        let id = self.next;
        let e = sim::ctl(self.fd, libc::EPOLL_CTL_ADD, child.as_raw_fd(), libc::EPOLLIN as u32, id);
        if e != 0 {
            return e;
        }
        self.notes.insert(k, Knote { id, ev: *c, child });
        self.by_id.insert(id, k);
        0
    }
    /// Take what this knote has to report.
    fn fire(&mut self, id: u64) -> Option<Event> {
        let k = *self.by_id.get(&id)?;
        let n = self.notes.get(&k)?;
        let mut out = n.ev;
        out.flags &= !(EventFlags::ADD | EventFlags::RECEIPT).bits();
        let fd = n.child.as_raw_fd();
        let mut gone = n.ev.flags().contains(EventFlags::ONESHOT);
        match k.0 {
            F_READ | F_WRITE => {
                let mut e = [libc::epoll_event { events: 0, u64: 0 }];
                if sim::ep_wait(fd, &mut e, Some(0)) != Ok(1) {
                    return None;
                }
                let hup = (libc::EPOLLHUP | libc::EPOLLERR) as u32 | if k.0 == F_READ { libc::EPOLLRDHUP as u32 } else { 0 };
                if e[0].events & hup != 0 {
                    out.flags |= EventFlags::EOF.bits();
                }
            }
            F_USER => {
                if n.ev.flags().contains(EventFlags::CLEAR) && sim::drain(fd) == 0 {
                    return None;
                }
            }
            F_TIMER | F_SIGNAL => {
                let c = sim::drain(fd);
                if c == 0 {
                    return None;
                }
                out.data = c as i64;
            }
            F_PROC => {
                if n.ev.fflags & ProcessEvents::EXIT.bits() == 0 {
                    return None;
                }
                gone = true;
            }
            _ => return None,
        }
        if gone {
            let n = self.notes.remove(&k)?;
            self.by_id.remove(&n.id);
        }
        Some(out)
    }
}
fn mask(c: &Event) -> u32 {
    let m = if c.filter == F_READ { libc::EPOLLIN | libc::EPOLLRDHUP } else { libc::EPOLLOUT } as u32;
    m | if c.flags().contains(EventFlags::CLEAR) { libc::EPOLLET as u32 } else { 0 }
}
fn live(n: &Knote) -> bool {
    // EPOLL_CTL_ADD of what is there already says so.
    sim::ctl(n.child.as_raw_fd(), libc::EPOLL_CTL_ADD, n.ev.ident as i32, 0, 1) == libc::EEXIST
}
fn arm_timer(t: &OwnedFd, c: &Event) {
    let d = Duration::from_nanos(c.data.max(1) as u64);
    let ts = libc::timespec { tv_sec: d.as_secs() as _, tv_nsec: d.subsec_nanos() as _ };
    let zero = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    let it = libc::itimerspec { it_interval: if c.flags().contains(EventFlags::ONESHOT) { zero } else { ts }, it_value: ts };
    unsafe { libc::timerfd_settime(t.as_raw_fd(), 0, &it, std::ptr::null_mut()) };
}
/// The process gets this signal (as far as kqueues are concerned).
pub fn raise(signal: i32) {
    for k in sim::lock(&ALL).values() {
        if let Some(n) = sim::lock(k).notes.get(&(F_SIGNAL, signal as usize)) {
            sim::post(n.child.as_raw_fd());
        }
    }
}
/// The filters a kqueue holds, as (filter, identifier).
pub fn contents(kq: RawFd) -> Vec<(i16, usize)> {
    let q = sim::lock(&ALL).get(&kq).cloned();
    q.map_or(vec![], |q| sim::lock(&q).notes.iter().filter(|(k, n)| !matches!(k.0, F_READ | F_WRITE) || live(n)).map(|x| *x.0).collect())
}

/// # Safety
/// As for rustix.
pub unsafe fn kevent(kqueue: impl AsFd, changelist: &[Event], eventlist: &mut Vec<Event>, timeout: Option<Duration>) -> io::Result<usize> {
    let fd = kqueue.as_fd().as_raw_fd();
    eventlist.clear();
    let cap = eventlist.capacity();
    let q = sim::lock(&ALL).get(&fd).cloned().ok_or(Errno::BADF)?;
    sim::delay();
    if !changelist.is_empty() {
        if let Some(e) = sim::fails(Site::Change) {
            return Err(errno(e));
        }
        // (Each change by itself is atomic; all of them together are not.)
        for c in changelist {
            let e = match sim::fails(Site::Receipt) {
                Some(e) => e,
                None => sim::lock(&q).change(c),
            };
            if e != 0 || c.flags().contains(EventFlags::RECEIPT) {
                if eventlist.len() < cap {
                    let mut r = *c;
                    r.flags = EventFlags::ERROR.bits();
                    r.data = e as i64;
                    eventlist.push(r);
                } else if e != 0 {
                    return Err(errno(e));
                }
            }
            sim::delay();
        }
        if !eventlist.is_empty() {
            return Ok(eventlist.len());
        }
    }
    if cap == 0 {
        return Ok(0);
    }
    if let Some(e) = sim::fails(Site::Wait) {
        return Err(errno(e));
    }
    let r = sim::wait_loop(fd, cap, timeout, |ids| {
        let mut k = sim::lock(&q);
        for id in ids {
            if eventlist.len() == cap {
                break;
            }
            if let Some(e) = k.fire(*id) {
                eventlist.push(e);
            }
        }
        eventlist.len()
    });
    sim::delay();
    r.map_err(errno)
}
