//! Ground truth: raw system calls made by the harness itself, bypassing the library, libc and the
//! interposition layer, plus observation of threads through /proc.
use std::arch::asm;
use std::time::Duration;

#[inline]
pub unsafe fn raw6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub fn raw3(n: i64, a: usize, b: usize, c: usize) -> isize {
    unsafe { raw6(n, a, b, c, 0, 0, 0) }
}
pub fn raw4(n: i64, a: usize, b: usize, c: usize, d: usize) -> isize {
    unsafe { raw6(n, a, b, c, d, 0, 0) }
}

pub const IN: i16 = libc::POLLIN;
pub const OUT: i16 = libc::POLLOUT;
pub const PRI: i16 = libc::POLLPRI;
pub const ERR: i16 = libc::POLLERR;
pub const HUP: i16 = libc::POLLHUP;

/// Ask the kernel directly what each descriptor is ready for.
pub fn probe_many(fds: &[i32]) -> Vec<i16> {
    let mut v: Vec<libc::pollfd> = fds
        .iter()
        .map(|&fd| libc::pollfd { fd, events: IN | OUT | PRI, revents: 0 })
        .collect();
    loop {
        let r = raw3(libc::SYS_poll, v.as_mut_ptr() as usize, v.len(), 0);
        if r == -(libc::EINTR as isize) {
            continue;
        }
        assert!(r >= 0, "harness: raw poll failed {r}");
        break;
    }
    v.iter().map(|p| p.revents).collect()
}
pub fn probe(fd: i32) -> i16 {
    probe_many(&[fd])[0]
}

pub fn close(fd: i32) {
    raw3(libc::SYS_close, fd as usize, 0, 0);
}
pub fn read(fd: i32, buf: &mut [u8]) -> isize {
    raw3(libc::SYS_read, fd as usize, buf.as_mut_ptr() as usize, buf.len())
}
pub fn write(fd: i32, buf: &[u8]) -> isize {
    raw3(libc::SYS_write, fd as usize, buf.as_ptr() as usize, buf.len())
}
pub fn fcntl(fd: i32, cmd: i32, arg: i32) -> isize {
    raw3(libc::SYS_fcntl, fd as usize, cmd as usize, arg as usize)
}
pub fn set_nonblock(fd: i32, on: bool) {
    let fl = fcntl(fd, libc::F_GETFL, 0) as i32;
    let fl = if on { fl | libc::O_NONBLOCK } else { fl & !libc::O_NONBLOCK };
    fcntl(fd, libc::F_SETFL, fl);
}
pub fn dup2(a: i32, b: i32) -> isize {
    raw3(libc::SYS_dup2, a as usize, b as usize, 0)
}
pub fn eventfd(init: u32) -> i32 {
    // The old system call without flags: usable when eventfd2 is made to fail.
    let fd = raw3(libc::SYS_eventfd, init as usize, 0, 0) as i32;
    assert!(fd >= 0, "harness: eventfd failed {fd}");
    fcntl(fd, libc::F_SETFD, libc::FD_CLOEXEC);
    set_nonblock(fd, true);
    fd
}
pub fn pipe() -> (i32, i32) {
    let mut p = [0i32; 2];
    let r = raw3(libc::SYS_pipe, p.as_mut_ptr() as usize, 0, 0);
    assert!(r == 0, "harness: pipe failed {r}");
    for f in p {
        fcntl(f, libc::F_SETFD, libc::FD_CLOEXEC);
        set_nonblock(f, true);
    }
    (p[0], p[1])
}
pub fn socketpair(ty: i32) -> (i32, i32) {
    let mut p = [0i32; 2];
    let r = raw4(
        libc::SYS_socketpair,
        libc::AF_UNIX as usize,
        (ty | libc::SOCK_CLOEXEC | libc::SOCK_NONBLOCK) as usize,
        0,
        p.as_mut_ptr() as usize,
    );
    assert!(r == 0, "harness: socketpair failed {r}");
    (p[0], p[1])
}

pub fn now_ns() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    raw3(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as usize, &mut ts as *mut _ as usize, 0);
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}
pub fn sleep(d: Duration) {
    let mut ts = libc::timespec { tv_sec: d.as_secs() as _, tv_nsec: d.subsec_nanos() as _ };
    loop {
        let r = raw3(libc::SYS_nanosleep, &mut ts as *mut _ as usize, &mut ts as *mut _ as usize, 0);
        if r != -(libc::EINTR as isize) {
            break;
        }
    }
}
pub fn yield_now() {
    raw3(libc::SYS_sched_yield, 0, 0, 0);
}
pub fn gettid() -> i32 {
    raw3(libc::SYS_gettid, 0, 0, 0) as i32
}

/// Does this descriptor belong to a simulated system?
#[cfg(vh_sim)]
pub fn hidden(fd: i32) -> bool {
    fd >= simos::sim::hidden_base()
}
#[cfg(not(vh_sim))]
pub fn hidden(_: i32) -> bool {
    false
}

/// Scheduling facts about a thread: state letter, number of context switches, CPU ticks used.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct ThreadFacts {
    pub state: u8,
    pub switches: u64,
    pub cpu_ticks: u64,
}
/// Held while the harness opens descriptors of its own for a moment.
pub static FD_LOCK: std::sync::Mutex<()> = std::sync::Mutex::new(());
pub fn slurp(path: &str) -> Option<String> {
    let _g = FD_LOCK.lock().unwrap_or_else(|e| e.into_inner());
    let c = std::ffi::CString::new(path).ok()?;
    let fd = raw4(libc::SYS_openat, libc::AT_FDCWD as usize, c.as_ptr() as usize, (libc::O_RDONLY | libc::O_CLOEXEC) as usize, 0);
    if fd < 0 {
        return None;
    }
    let mut out = Vec::new();
    let mut buf = [0u8; 4096];
    loop {
        let n = read(fd as i32, &mut buf);
        if n == -(libc::EINTR as isize) {
            continue;
        }
        if n <= 0 {
            break;
        }
        out.extend_from_slice(&buf[..n as usize]);
    }
    close(fd as i32);
    Some(String::from_utf8_lossy(&out).into_owned())
}
pub fn thread_facts(tid: i32) -> Option<ThreadFacts> {
    let stat = slurp(&format!("/proc/self/task/{tid}/stat"))?;
    let rest = &stat[stat.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split_whitespace().collect();
    let state = f[0].as_bytes()[0];
    let cpu_ticks = f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?;
    let status = slurp(&format!("/proc/self/task/{tid}/status"))?;
    let mut switches = 0;
    for l in status.lines() {
        if l.contains("voluntary_ctxt_switches") {
            switches += l.split_whitespace().last()?.parse::<u64>().ok()?;
        }
    }
    Some(ThreadFacts { state, switches, cpu_ticks })
}
/// Block until the thread is asleep in the kernel and has not run for `quiet`; false on give-up.
pub fn wait_asleep(tid: i32, quiet: Duration, give_up: Duration) -> bool {
    wait_all_asleep(&[tid], quiet, give_up)
}
pub fn wait_all_asleep(tids: &[i32], quiet: Duration, give_up: Duration) -> bool {
    use std::sync::atomic::Ordering::SeqCst;
    crate::shim::STALL_HOLD.fetch_add(1, SeqCst);
    let r = wait_all_asleep_(tids, quiet, give_up);
    crate::shim::STALL_HOLD.fetch_sub(1, SeqCst);
    r
}
fn wait_all_asleep_(tids: &[i32], quiet: Duration, give_up: Duration) -> bool {
    let start = now_ns();
    let mut since = now_ns();
    let mut last: Option<Vec<ThreadFacts>> = None;
    loop {
        let f: Option<Vec<ThreadFacts>> = tids.iter().map(|t| thread_facts(*t)).collect();
        let Some(f) = f else { return false };
        match &last {
            Some(l) if f == *l && f.iter().all(|f| f.state == b'S') => {
                if now_ns() - since >= quiet.as_nanos() as u64 {
                    return true;
                }
            }
            _ => since = now_ns(),
        }
        last = Some(f);
        if now_ns() - start > give_up.as_nanos() as u64 {
            return false;
        }
        sleep(Duration::from_micros(200));
    }
}

/// The descriptor table: number -> (what it is, descriptor flags).
pub fn fd_table() -> std::collections::BTreeMap<i32, (String, i32)> {
    let _g = FD_LOCK.lock().unwrap_or_else(|e| e.into_inner());
    let mut m = std::collections::BTreeMap::new();
    let c = b"/proc/self/fd\0";
    let dir = raw4(libc::SYS_openat, libc::AT_FDCWD as usize, c.as_ptr() as usize, (libc::O_RDONLY | libc::O_DIRECTORY | libc::O_CLOEXEC) as usize, 0) as i32;
    assert!(dir >= 0, "harness: cannot open /proc/self/fd");
    let mut buf = [0u8; 8192];
    let mut nums = vec![];
    loop {
        let n = raw3(libc::SYS_getdents64, dir as usize, buf.as_mut_ptr() as usize, buf.len());
        if n <= 0 {
            break;
        }
        let mut o = 0usize;
        while o < n as usize {
            let reclen = u16::from_ne_bytes([buf[o + 16], buf[o + 17]]) as usize;
            let name = &buf[o + 19..o + reclen];
            let end = name.iter().position(|&b| b == 0).unwrap();
            if let Ok(fd) = std::str::from_utf8(&name[..end]).unwrap().parse::<i32>() {
                if fd != dir && !hidden(fd) {
                    nums.push(fd);
                }
            }
            o += reclen;
        }
    }
    close(dir);
    for fd in nums {
        let p = format!("/proc/self/fd/{fd}\0");
        let mut b = [0u8; 256];
        let n = raw3(libc::SYS_readlink, p.as_ptr() as usize, b.as_mut_ptr() as usize, b.len());
        if n < 0 {
            continue;
        }
        let fl = fcntl(fd, libc::F_GETFD, 0);
        if fl < 0 {
            continue;
        }
        m.insert(fd, (String::from_utf8_lossy(&b[..n as usize]).into_owned(), fl as i32));
    }
    m
}

/// Make the kernel refuse the given system calls from now on (whole process when called
/// before threads are created). Returns false if the sandbox does not allow it.
pub fn seccomp_refuse(calls: &[i64], errno: i32) -> bool {
    #[repr(C)]
    struct Prog {
        len: u16,
        filter: *const libc::sock_filter,
    }
    let stmt = |code: u32, k: u32| libc::sock_filter { code: code as u16, jt: 0, jf: 0, k };
    let mut p = vec![stmt(libc::BPF_LD | libc::BPF_W | libc::BPF_ABS, 0)];
    for &c in calls {
        p.push(libc::sock_filter { code: (libc::BPF_JMP | libc::BPF_JEQ | libc::BPF_K) as u16, jt: 0, jf: 1, k: c as u32 });
        p.push(stmt(libc::BPF_RET | libc::BPF_K, 0x0005_0000 | errno as u32));
    }
    p.push(stmt(libc::BPF_RET | libc::BPF_K, 0x7fff_0000));
    let prog = Prog { len: p.len() as u16, filter: p.as_ptr() };
    unsafe {
        if libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0 {
            return false;
        }
        libc::prctl(libc::PR_SET_SECCOMP, 2, &prog as *const _ as usize, 0, 0) == 0
    }
}

/// Signals handled so far (by the handler of `Storm`).
pub static HANDLED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
extern "C" fn on_signal(_: i32) {
    HANDLED.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
}
/// Install a handler for SIGUSR1 that makes blocking calls fail with EINTR.
pub fn install_handler() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_signal as *const () as usize;
        libc::sigaction(libc::SIGUSR1, &sa, std::ptr::null_mut());
    }
}
pub fn signal_thread(tid: i32) {
    raw3(libc::SYS_tgkill, unsafe { libc::getpid() } as usize, tid as usize, libc::SIGUSR1 as usize);
}
/// A thread that keeps sending signals to the thread that started it.
pub struct Storm {
    stop: std::sync::Arc<std::sync::atomic::AtomicBool>,
    h: Option<std::thread::JoinHandle<()>>,
}
impl Storm {
    pub fn start(every: Duration) -> Storm {
        install_handler();
        let tid = gettid();
        let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
        let s = stop.clone();
        let h = std::thread::spawn(move || {
            let mut r = crate::rng::Rng::new(every.as_nanos() as u64);
            while !s.load(std::sync::atomic::Ordering::SeqCst) {
                signal_thread(tid);
                sleep(Duration::from_nanos(1000 + r.next() % (2 * every.as_nanos() as u64)));
            }
        });
        Storm { stop, h: Some(h) }
    }
}
impl Drop for Storm {
    fn drop(&mut self) {
        self.stop.store(true, std::sync::atomic::Ordering::SeqCst);
        self.h.take().unwrap().join().unwrap();
    }
}
