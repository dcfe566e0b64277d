//! A kernel for one process: descriptors, readiness, epoll, poll and waiting, as Linux has them.
use real::fd::{FromRawFd, OwnedFd, RawFd};
use real::io::{Errno, Result};
use std::collections::{BTreeMap, VecDeque};
use std::sync::{Condvar, Mutex, MutexGuard};
use std::time::{Duration, Instant};

const IN: i16 = libc::POLLIN;
const OUT: i16 = libc::POLLOUT;
/// Also what does not have to be asked for.
const ALWAYS: i16 = libc::POLLERR | libc::POLLHUP;
const PIPE: usize = 65536;

#[derive(Debug)]
pub enum Kind {
    Count(u64),
    PipeR(u64),
    PipeW(u64),
    Timer { at: Option<Instant>, expired: bool },
    /// A source: ready for exactly this.
    Source(i16),
    Epoll(Epoll),
}
#[derive(Debug, Default)]
pub struct Epoll {
    items: BTreeMap<RawFd, Item>,
    ready: VecDeque<RawFd>,
}
#[derive(Debug)]
struct Item {
    id: u64,
    data: u64,
    mask: u32,
    /// Disarmed by EPOLLONESHOT.
    off: bool,
}
#[derive(Debug)]
pub struct Obj {
    pub id: u64,
    pub nonblock: bool,
    pub kind: Kind,
}
pub struct Kernel {
    objs: BTreeMap<RawFd, Obj>,
    pipes: BTreeMap<u64, usize>,
    next: u64,
    rng: u64,
    /// Chance (of 256) that a call which may block is interrupted.
    eintr: u64,
    no_timer: bool,
    /// Chance (of 256) that a thread is held up before or after a call.
    stall: u64,
    pub stats: Stats,
}
#[derive(Default, Clone, Copy, Debug)]
pub struct Stats {
    pub calls: u64,
    pub sleeps: u64,
    pub interruptions: u64,
    /// Which thread made which call after which: the interleaving.
    pub order: u64,
}
pub static K: Mutex<Kernel> = Mutex::new(Kernel {
    objs: BTreeMap::new(),
    pipes: BTreeMap::new(),
    next: 1,
    rng: 1,
    eintr: 0,
    no_timer: false,
    stall: 0,
    stats: Stats { calls: 0, sleeps: 0, interruptions: 0, order: 0 },
});
static CHANGED: Condvar = Condvar::new();

pub fn setup(seed: u64, eintr: u64, no_timer: bool, stall: u64) {
    let mut k = K.lock().unwrap();
    k.rng = seed | 1;
    k.eintr = eintr;
    k.no_timer = no_timer;
    k.stall = stall;
}
pub fn no_timer() -> bool {
    K.lock().unwrap().no_timer
}
pub fn stats() -> Stats {
    K.lock().unwrap().stats
}

impl Kernel {
    pub fn at(&self, fd: RawFd) -> Result<&Obj> {
        self.objs.get(&fd).ok_or(Errno::BADF)
    }
    pub fn at_mut(&mut self, fd: RawFd) -> Result<&mut Obj> {
        self.objs.get_mut(&fd).ok_or(Errno::BADF)
    }
    fn random(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng >> 11
    }
    fn new(&mut self, kind: Kind, nonblock: bool) -> OwnedFd {
        // The number (and that it is closed) is Miri's business.
        let fd = unsafe { libc::eventfd(0, 0) };
        assert!(fd >= 0, "kernel: no descriptors");
        let id = self.next;
        self.next += 1;
        self.objs.insert(fd, Obj { id, nonblock, kind });
        unsafe { OwnedFd::from_raw_fd(fd) }
    }
    fn ready(&self, fd: RawFd) -> i16 {
        match self.objs.get(&fd).map(|o| &o.kind) {
            None => libc::POLLNVAL,
            Some(Kind::Count(n)) => (if *n > 0 { IN } else { 0 }) | (if *n < u64::MAX - 1 { OUT } else { 0 }),
            Some(Kind::PipeR(p)) => if self.pipes[p] > 0 { IN | libc::POLLRDNORM } else { 0 },
            Some(Kind::PipeW(p)) => if self.pipes[p] < PIPE { OUT | libc::POLLWRNORM } else { 0 },
            Some(Kind::Timer { expired, .. }) => if *expired { IN } else { 0 },
            Some(Kind::Source(f)) => *f | if f & IN != 0 { libc::POLLRDNORM } else { 0 },
            Some(Kind::Epoll(_)) => 0,
        }
    }
    /// Something happened on `fd` that may have made it ready.
    fn wake(&mut self, fd: RawFd) {
        let Some(id) = self.objs.get(&fd).map(|o| o.id) else { return };
        let r = self.ready(fd);
        for o in self.objs.values_mut() {
            if let Kind::Epoll(e) = &mut o.kind {
                if let Some(i) = e.items.get(&fd) {
                    if i.id == id && !i.off && (i.mask as i16 | ALWAYS) & r != 0 && !e.ready.contains(&fd) {
                        e.ready.push_back(fd);
                    }
                }
            }
        }
        CHANGED.notify_all();
    }
    fn timers(&mut self) -> Option<Instant> {
        let now = Instant::now();
        let mut next = None;
        let mut due = vec![];
        for (fd, o) in self.objs.iter_mut() {
            if let Kind::Timer { at: Some(t), expired } = &mut o.kind {
                if *t <= now {
                    *expired = true;
                    if let Kind::Timer { at, .. } = &mut o.kind {
                        *at = None;
                    }
                    due.push(*fd);
                } else if next.is_none_or(|n| *t < n) {
                    next = Some(*t);
                }
            }
        }
        for fd in due {
            self.wake(fd);
        }
        next
    }
    /// Drop what the library has closed: such a number now belongs to nobody or somebody else.
    fn live(&self, fd: RawFd, id: u64) -> bool {
        self.objs.get(&fd).is_some_and(|o| o.id == id)
    }
}
/// Holds the thread up for a time in which others get far.
struct Hold;
impl Hold {
    fn up(&self) {
        let d = {
            let mut k = K.lock().unwrap();
            if k.stall == 0 || k.random() % 256 >= k.stall {
                return;
            }
            [3, 60, 700, 6000][k.random() as usize % 4]
        };
        std::thread::sleep(Duration::from_micros(d));
    }
}
impl Drop for Hold {
    fn drop(&mut self) {
        self.up();
    }
}
fn enter() -> MutexGuard<'static, Kernel> {
    thread_local!(static ME: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });
    let mut k = K.lock().unwrap();
    k.stats.calls += 1;
    // Threads are numbered in the order of their first calls.
    if ME.get() == 0 {
        ME.set(k.next);
        k.next += 1;
    }
    k.stats.order = (k.stats.order ^ ME.get()).wrapping_mul(0x100000001b3).rotate_left(5);
    k
}
/// Sleep until something changes; an error if it is interrupted.
fn sleep(mut k: MutexGuard<'static, Kernel>, until: Option<Instant>) -> Result<MutexGuard<'static, Kernel>> {
    k.stats.sleeps += 1;
    if k.eintr > 0 && k.random() % 256 < k.eintr {
        k.stats.interruptions += 1;
        return Err(Errno::INTR);
    }
    match until {
        None => Ok(CHANGED.wait(k).unwrap()),
        Some(t) => {
            let d = t.saturating_duration_since(Instant::now()).max(Duration::from_nanos(1));
            Ok(CHANGED.wait_timeout(k, d).unwrap().0)
        }
    }
}
fn earlier(a: Option<Instant>, b: Option<Instant>) -> Option<Instant> {
    match (a, b) {
        (Some(x), Some(y)) => Some(x.min(y)),
        (x, y) => x.or(y),
    }
}

pub fn eventfd(n: u64, nonblock: bool) -> Result<OwnedFd> {
    Ok(enter().new(Kind::Count(n), nonblock))
}
pub fn timerfd() -> Result<OwnedFd> {
    Ok(enter().new(Kind::Timer { at: None, expired: false }, true))
}
pub fn pipe(nonblock: bool) -> Result<(OwnedFd, OwnedFd)> {
    let mut k = enter();
    let p = k.next;
    k.pipes.insert(p, 0);
    Ok((k.new(Kind::PipeR(p), nonblock), k.new(Kind::PipeW(p), nonblock)))
}
pub fn epoll_create() -> Result<OwnedFd> {
    Ok(enter().new(Kind::Epoll(Epoll::default()), false))
}
pub fn timer_set(fd: RawFd, sec: i64, nsec: i64) -> Result<()> {
    let h = Hold;
    h.up();
    let mut k = enter();
    if sec < 0 || !(0..1_000_000_000).contains(&nsec) {
        return Err(Errno::INVAL);
    }
    let d = Duration::new(sec as u64, nsec as u32);
    let at = if d.is_zero() { None } else { Instant::now().checked_add(d) };
    match &mut k.at_mut(fd)?.kind {
        Kind::Timer { at: a, expired } => {
            *a = at;
            *expired = false;
        }
        _ => return Err(Errno::INVAL),
    }
    CHANGED.notify_all();
    Ok(())
}
pub fn read(fd: RawFd, buf: &mut [u8]) -> Result<usize> {
    let h = Hold;
    h.up();
    let mut k = enter();
    loop {
        let o = k.at_mut(fd)?;
        let nonblock = o.nonblock;
        match &mut o.kind {
            Kind::Count(n) => {
                if buf.len() < 8 {
                    return Err(Errno::INVAL);
                }
                if *n > 0 {
                    buf[..8].copy_from_slice(&n.to_ne_bytes());
                    *n = 0;
                    k.wake(fd);
                    return Ok(8);
                }
            }
            Kind::Timer { expired, .. } => {
                if *expired {
                    *expired = false;
                    buf[..8].copy_from_slice(&1u64.to_ne_bytes());
                    return Ok(8);
                }
            }
            Kind::PipeR(p) => {
                let p = *p;
                let n = k.pipes.get_mut(&p).unwrap();
                if *n > 0 {
                    let got = buf.len().min(*n);
                    *n -= got;
                    buf[..got].fill(0);
                    CHANGED.notify_all();
                    return Ok(got);
                }
            }
            _ => return Err(Errno::INVAL),
        }
        if nonblock {
            return Err(Errno::AGAIN);
        }
        k = sleep(k, None)?;
    }
}
pub fn write(fd: RawFd, buf: &[u8]) -> Result<usize> {
    let h = Hold;
    h.up();
    let mut k = enter();
    loop {
        let o = k.at_mut(fd)?;
        let nonblock = o.nonblock;
        match &mut o.kind {
            Kind::Count(n) => {
                let Ok(b) = <[u8; 8]>::try_from(buf) else { return Err(Errno::INVAL) };
                let add = u64::from_ne_bytes(b);
                if add == u64::MAX {
                    return Err(Errno::INVAL);
                }
                if *n <= u64::MAX - 1 - add {
                    *n += add;
                    k.wake(fd);
                    return Ok(8);
                }
            }
            Kind::PipeW(p) => {
                let p = *p;
                let n = k.pipes.get_mut(&p).unwrap();
                if *n < PIPE {
                    let put = buf.len().min(PIPE - *n);
                    *n += put;
                    let readers: Vec<RawFd> = k.objs.iter().filter(|(_, o)| matches!(o.kind, Kind::PipeR(q) if q == p)).map(|(f, _)| *f).collect();
                    for r in readers {
                        k.wake(r);
                    }
                    return Ok(put);
                }
            }
            _ => return Err(Errno::INVAL),
        }
        if nonblock {
            return Err(Errno::AGAIN);
        }
        k = sleep(k, None)?;
    }
}
pub fn poll(fds: &mut [libc::pollfd], timeout: i32) -> Result<usize> {
    let h = Hold;
    h.up();
    let until = (timeout >= 0).then(|| Instant::now() + Duration::from_millis(timeout as u64));
    let mut k = enter();
    loop {
        let next = k.timers();
        let mut n = 0;
        for p in fds.iter_mut() {
            p.revents = k.ready(p.fd) & (p.events | ALWAYS | libc::POLLNVAL);
            n += (p.revents != 0) as usize;
        }
        if n > 0 || timeout == 0 || until.is_some_and(|t| t <= Instant::now()) {
            return Ok(n);
        }
        k = sleep(k, earlier(until, next))?;
    }
}
pub fn epoll_ctl(op: i32, ep: RawFd, fd: RawFd, data: u64, mask: u32) -> Result<()> {
    let h = Hold;
    h.up();
    let mut k = enter();
    let id = k.at(fd)?.id;
    let stale = match &k.at(ep)?.kind {
        Kind::Epoll(e) => e.items.get(&fd).is_some_and(|i| !k.live(fd, i.id)),
        _ => return Err(Errno::INVAL),
    };
    let Kind::Epoll(e) = &mut k.at_mut(ep)?.kind else { return Err(Errno::INVAL) };
    if stale {
        e.items.remove(&fd);
        e.ready.retain(|f| *f != fd);
    }
    match op {
        libc::EPOLL_CTL_DEL => {
            e.ready.retain(|f| *f != fd);
            return e.items.remove(&fd).map(|_| ()).ok_or(Errno::NOENT);
        }
        libc::EPOLL_CTL_ADD if e.items.contains_key(&fd) => return Err(Errno::EXIST),
        libc::EPOLL_CTL_MOD if !e.items.contains_key(&fd) => return Err(Errno::NOENT),
        _ => {}
    }
    e.items.insert(fd, Item { id, data, mask, off: false });
    k.timers();
    let r = k.ready(fd);
    if (mask as i16 | ALWAYS) & r != 0 {
        let Kind::Epoll(e) = &mut k.at_mut(ep)?.kind else { unreachable!() };
        if !e.ready.contains(&fd) {
            e.ready.push_back(fd);
        }
        CHANGED.notify_all();
    }
    Ok(())
}
pub fn epoll_wait(ep: RawFd, max: usize, timeout: i32) -> Result<Vec<(u32, u64)>> {
    let h = Hold;
    h.up();
    if max == 0 {
        return Err(Errno::INVAL);
    }
    let until = (timeout >= 0).then(|| Instant::now() + Duration::from_millis(timeout as u64));
    let mut k = enter();
    loop {
        let next = k.timers();
        let mut got = vec![];
        let Kind::Epoll(e) = &mut k.at_mut(ep)?.kind else { return Err(Errno::INVAL) };
        let mut queue = std::mem::take(&mut e.ready);
        let mut back = vec![];
        while got.len() < max {
            let Some(fd) = queue.pop_front() else { break };
            let r = k.ready(fd);
            let ids: Option<u64> = k.objs.get(&fd).map(|o| o.id);
            let Kind::Epoll(e) = &mut k.at_mut(ep)?.kind else { unreachable!() };
            let Some(i) = e.items.get_mut(&fd) else { continue };
            if ids != Some(i.id) {
                e.items.remove(&fd);
                continue;
            }
            let hit = (i.mask as i16 | ALWAYS) & r;
            if i.off || hit == 0 {
                continue;
            }
            got.push((hit as u16 as u32, i.data));
            if i.mask & libc::EPOLLONESHOT as u32 != 0 {
                i.off = true;
            } else if i.mask & libc::EPOLLET as u32 == 0 {
                back.push(fd);
            }
        }
        queue.extend(back);
        let Kind::Epoll(e) = &mut k.at_mut(ep)?.kind else { unreachable!() };
        e.ready = queue;
        if !got.is_empty() || timeout == 0 || until.is_some_and(|t| t <= Instant::now()) {
            return Ok(got);
        }
        k = sleep(k, earlier(until, next))?;
    }
}

// For the workloads.
pub fn source(flags: i16) -> OwnedFd {
    K.lock().unwrap().new(Kind::Source(flags), true)
}
pub fn set(fd: RawFd, flags: i16) {
    let mut k = K.lock().unwrap();
    if let Ok(o) = k.at_mut(fd) {
        o.kind = Kind::Source(flags);
    }
    k.wake(fd);
}
pub fn get(fd: RawFd) -> i16 {
    K.lock().unwrap().ready(fd) & !(libc::POLLRDNORM | libc::POLLWRNORM)
}
