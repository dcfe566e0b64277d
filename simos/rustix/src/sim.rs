//! What the simulated systems have in common: hidden descriptors, planned failures, delays.
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd, RawFd};
use std::sync::atomic::{AtomicI32, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Mutex, MutexGuard};

/// Descriptors of the simulation itself have numbers from here on.
pub fn hidden_base() -> RawFd {
    static BASE: AtomicI32 = AtomicI32::new(0);
    let b = BASE.load(SeqCst);
    if b != 0 {
        return b;
    }
    let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe { libc::getrlimit(libc::RLIMIT_NOFILE, &mut l) };
    let b = (l.rlim_cur / 2).clamp(256, 1 << 20) as i32;
    BASE.store(b, SeqCst);
    b
}
pub fn hide(fd: RawFd) -> OwnedFd {
    assert!(fd >= 0, "simulation: out of descriptors: {}", std::io::Error::last_os_error());
    let h = unsafe { libc::fcntl(fd, libc::F_DUPFD_CLOEXEC, hidden_base()) };
    assert!(h >= 0, "simulation: out of descriptors: {}", std::io::Error::last_os_error());
    unsafe {
        libc::close(fd);
        OwnedFd::from_raw_fd(h)
    }
}
pub fn epoll() -> OwnedFd {
    hide(unsafe { libc::epoll_create1(libc::EPOLL_CLOEXEC) })
}
pub fn eventfd() -> OwnedFd {
    hide(unsafe { libc::eventfd(0, libc::EFD_CLOEXEC | libc::EFD_NONBLOCK) })
}
pub fn ctl(ep: RawFd, op: i32, fd: RawFd, events: u32, data: u64) -> i32 {
    let mut e = libc::epoll_event { events, u64: data };
    if unsafe { libc::epoll_ctl(ep, op, fd, &mut e) } == 0 {
        0
    } else {
        std::io::Error::last_os_error().raw_os_error().unwrap_or(0)
    }
}
pub fn ep_wait(ep: RawFd, out: &mut [libc::epoll_event], timeout_ns: Option<u64>) -> Result<usize, i32> {
    // (epoll_pwait2: 441)
    let ts = timeout_ns.map(|n| libc::timespec { tv_sec: (n / 1_000_000_000) as _, tv_nsec: (n % 1_000_000_000) as _ });
    let r = unsafe { libc::syscall(441, ep, out.as_mut_ptr(), out.len() as i32, ts.as_ref().map_or(std::ptr::null(), |t| t as *const _), std::ptr::null::<u8>(), 8usize) };
    if r >= 0 {
        Ok(r as usize)
    } else {
        Err(std::io::Error::last_os_error().raw_os_error().unwrap_or(0))
    }
}
pub fn drain(fd: RawFd) -> u64 {
    let mut b = [0u8; 8];
    let r = unsafe { libc::read(fd, b.as_mut_ptr().cast(), 8) };
    if r == 8 {
        u64::from_ne_bytes(b)
    } else {
        0
    }
}
pub fn post(fd: RawFd) {
    let v = 1u64.to_ne_bytes();
    unsafe { libc::write(fd, v.as_ptr().cast(), 8) };
}
/// Does the epoll descriptor `ep` (if it is one) hold an entry with this data?
pub fn holds(ep: RawFd, data: u64) -> bool {
    let s = std::fs::read_to_string(format!("/proc/self/fdinfo/{ep}")).unwrap_or_default();
    let want = format!("{data:x}");
    s.lines().any(|l| l.split("data:").nth(1).and_then(|x| x.split_whitespace().next()) == Some(&want))
}
pub fn lock<T>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}
pub fn now_ns() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut ts) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

/// Where a failure can be planned.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(usize)]
pub enum Site {
    /// Creation of the queue.
    Create,
    /// A registering call as a whole.
    Change,
    /// One of the changes of a call (in its receipt).
    Receipt,
    /// A wait.
    Wait,
    /// Posting to the queue (event ports).
    Send,
}
struct Plan {
    skip: AtomicI64,
    count: AtomicI64,
    errno: AtomicI32,
    hits: AtomicU64,
}
#[allow(clippy::declare_interior_mutable_const)]
const NONE: Plan = Plan { skip: AtomicI64::new(0), count: AtomicI64::new(0), errno: AtomicI32::new(0), hits: AtomicU64::new(0) };
static PLANS: [Plan; 5] = [NONE; 5];
/// After `skip` uses the next `count` fail.
pub fn plan(s: Site, skip: i64, count: i64, errno: i32) {
    let p = &PLANS[s as usize];
    p.errno.store(errno, SeqCst);
    p.hits.store(0, SeqCst);
    p.skip.store(skip, SeqCst);
    p.count.store(count, SeqCst);
}
pub fn unplan() {
    for p in &PLANS {
        p.count.store(0, SeqCst);
    }
}
pub fn hits(s: Site) -> u64 {
    PLANS[s as usize].hits.load(SeqCst)
}
pub fn fails(s: Site) -> Option<i32> {
    let p = &PLANS[s as usize];
    if p.count.load(SeqCst) <= 0 {
        return None;
    }
    if p.skip.fetch_sub(1, SeqCst) > 0 {
        return None;
    }
    if p.count.fetch_sub(1, SeqCst) <= 0 {
        return None;
    }
    p.hits.fetch_add(1, SeqCst);
    Some(p.errno.load(SeqCst))
}

/// One call in `n` is delayed, for up to `us` microseconds (0: never).
static DELAY: AtomicU64 = AtomicU64::new(0);
static DELAY_US: AtomicU64 = AtomicU64::new(0);
static RND: AtomicU64 = AtomicU64::new(1);
pub fn delays(one_in: u64, us: u64) {
    DELAY_US.store(us, SeqCst);
    DELAY.store(one_in, SeqCst);
}
pub fn delay() {
    let n = DELAY.load(SeqCst);
    if n == 0 {
        return;
    }
    let mut x = RND.fetch_add(0x9e37_79b9_7f4a_7c15, SeqCst);
    x ^= x >> 30;
    x = x.wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x ^= x >> 27;
    if x % n == 0 {
        let us = DELAY_US.load(SeqCst);
        let d = (x >> 20) % (us + 1);
        if d < 3 {
            std::thread::yield_now();
        } else {
            std::thread::sleep(std::time::Duration::from_micros(d));
        }
    }
}

/// A wait on a simulated queue. (No more is asked for than there is room for: then the kernel goes
/// round all that is ready.) `collect` takes what is there (and reports how many).
pub fn wait_loop(ep: RawFd, cap: usize, timeout: Option<std::time::Duration>, mut collect: impl FnMut(&[u64]) -> usize) -> Result<usize, i32> {
    let end = timeout.map(|t| now_ns().saturating_add(t.as_nanos().min(u64::MAX as u128) as u64));
    let mut buf: Vec<libc::epoll_event> = vec![libc::epoll_event { events: 0, u64: 0 }; cap.clamp(1, 256)];
    loop {
        // Longer than this the kernel refuses.
        let left = end.map(|e| e.saturating_sub(now_ns()).min(1 << 60));
        let n = ep_wait(ep, &mut buf, left)?;
        let ids: Vec<u64> = buf[..n].iter().map(|e| e.u64).collect();
        let got = collect(&ids);
        if got > 0 {
            return Ok(got);
        }
        if end.is_some_and(|e| now_ns() >= e) {
            return Ok(0);
        }
    }
}
pub fn raw(fd: &OwnedFd) -> RawFd {
    fd.as_raw_fd()
}
