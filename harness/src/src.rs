//! Sources the workloads register: real kernel objects with known content, so that readiness can
//! be produced and consumed at will and every byte is accounted for.
use crate::report;
use crate::rng::{mix, Rng};
use crate::sys;
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Unix,
    Dgram,
    Tcp,
    PipeR,
    PipeW,
    Event,
    Listener,
    TcpIdle,
}
/// A direction of flow with accounted content.
#[derive(Clone, Debug, Default)]
pub struct Link {
    pub sent: u64,
    pub recvd: u64,
    /// Content is unreliable from here on (reset connections lose data).
    pub broken: bool,
    pub oobs: u32,
}
#[derive(Clone, Debug)]
pub struct Ep {
    pub fd: i32,
    pub kind: Kind,
    pub tx: Option<usize>,
    pub rx: Option<usize>,
    pub peer: Option<usize>,
    pub open: bool,
    pub dup: bool,
    pub fl: i32,
    pub fdfl: i32,
    pub opts: [i32; OPTS.len() + 2],
    pub ino: u64,
    pub eof_seen: bool,
    /// Nothing has been shut down or reset in either direction.
    pub healthy: bool,
    /// Can this end be made (not) readable or writable at will?
    pub tag: u64,
}
#[derive(Default)]
pub struct Sources {
    pub eps: Vec<Ep>,
    pub links: Vec<Link>,
}
fn pattern(link: usize, i: u64) -> u8 {
    (mix(link as u64 + 77, i / 8) >> (8 * (i % 8))) as u8
}
pub fn fstat_ino(fd: i32) -> u64 {
    let mut st: libc::stat = unsafe { std::mem::zeroed() };
    let r = sys::raw3(libc::SYS_fstat, fd as usize, &mut st as *mut _ as usize, 0);
    assert!(r == 0, "harness: fstat({fd}) failed {r}");
    st.st_ino
}
fn setsockopt(fd: i32, level: i32, opt: i32, v: &[u8]) {
    unsafe {
        sys::raw6(libc::SYS_setsockopt, fd as usize, level as usize, opt as usize, v.as_ptr() as usize, v.len(), 0);
    }
}
/// Socket options nobody but the application has a reason to set.
const OPTS: [(i32, i32); 9] = [
    (libc::SOL_SOCKET, libc::SO_KEEPALIVE),
    (libc::SOL_SOCKET, libc::SO_OOBINLINE),
    (libc::SOL_SOCKET, libc::SO_RCVLOWAT),
    (libc::SOL_SOCKET, libc::SO_REUSEADDR),
    (libc::SOL_SOCKET, libc::SO_BROADCAST),
    (libc::SOL_SOCKET, libc::SO_PASSCRED),
    (libc::SOL_SOCKET, libc::SO_PRIORITY),
    (libc::IPPROTO_TCP, libc::TCP_NODELAY),
    (libc::IPPROTO_TCP, libc::TCP_CORK),
];
/// The options of a socket (or that it has none), and who is sent signals for a descriptor.
fn options(fd: i32) -> [i32; OPTS.len() + 2] {
    let mut v = [-1; OPTS.len() + 2];
    for (i, (l, o)) in OPTS.iter().enumerate() {
        let (mut x, mut n) = (0i32, 4u32);
        let r = unsafe { sys::raw6(libc::SYS_getsockopt, fd as usize, *l as usize, *o as usize, &mut x as *mut _ as usize, &mut n as *mut _ as usize, 0) };
        if r == -(libc::ENOTSOCK as isize) {
            break;
        }
        if r == 0 {
            v[i] = x;
        }
    }
    v[OPTS.len()] = sys::fcntl(fd, libc::F_GETOWN, 0) as i32;
    v[OPTS.len() + 1] = sys::fcntl(fd, 11, 0) as i32;
    v
}
/// Every listener gets a loopback address of its own: ports run out or are confused otherwise
/// when many processes open connections at once.
pub type Addr = libc::sockaddr_in;
fn loopback() -> Addr {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let r = mix(sys::now_ns(), (std::process::id() as u64) << 32 | n);
    libc::sockaddr_in {
        sin_family: libc::AF_INET as u16,
        sin_port: 0,
        sin_addr: libc::in_addr { s_addr: u32::from_ne_bytes([127, (r >> 8) as u8, (r >> 16) as u8, 2 + (r >> 24) as u8 % 250]) },
        sin_zero: [0; 8],
    }
}
pub fn tcp_socket() -> i32 {
    let fd = sys::raw3(libc::SYS_socket, libc::AF_INET as usize, (libc::SOCK_STREAM | libc::SOCK_CLOEXEC | libc::SOCK_NONBLOCK) as usize, 0) as i32;
    assert!(fd >= 0, "harness: socket failed {fd}");
    fd
}
pub fn tcp_listen() -> (i32, Addr) {
    let fd = tcp_socket();
    let a = loopback();
    let r = sys::raw3(libc::SYS_bind, fd as usize, &a as *const _ as usize, 16);
    assert!(r == 0, "harness: bind failed {r}");
    let r = sys::raw3(libc::SYS_listen, fd as usize, 64, 0);
    assert!(r == 0, "harness: listen failed {r}");
    (fd, addr_of(fd))
}
pub fn addr_of(fd: i32) -> Addr {
    let mut a = loopback();
    let mut l = 16u32;
    sys::raw3(libc::SYS_getsockname, fd as usize, &mut a as *mut _ as usize, &mut l as *mut _ as usize);
    a
}
/// Nonblocking connect; 0, or a negative errno (in progress included).
pub fn tcp_connect(fd: i32, a: Addr) -> isize {
    sys::raw3(libc::SYS_connect, fd as usize, &a as *const _ as usize, 16)
}
pub fn accept(fd: i32) -> isize {
    sys::raw4(libc::SYS_accept4, fd as usize, 0, 0, (libc::SOCK_CLOEXEC | libc::SOCK_NONBLOCK) as usize)
}
pub fn tcp_pair() -> (i32, i32) {
    let (l, addr) = tcp_listen();
    let c = tcp_socket();
    let r = tcp_connect(c, addr);
    assert!(r == 0 || r == -(libc::EINPROGRESS as isize) || r == -(libc::EINTR as isize), "harness: connect failed {r}");
    let start = sys::now_ns();
    let s = loop {
        let s = accept(l);
        if s >= 0 {
            break s as i32;
        }
        assert!(sys::now_ns() - start < 5_000_000_000, "harness: accept failed {s}");
        sys::yield_now();
    };
    sys::close(l);
    // Small buffers make filling them quick; no delays.
    for fd in [c, s] {
        setsockopt(fd, libc::IPPROTO_TCP, libc::TCP_NODELAY, &1i32.to_ne_bytes());
        setsockopt(fd, libc::SOL_SOCKET, libc::SO_SNDBUF, &8192i32.to_ne_bytes());
    }
    while sys::probe(c) & sys::OUT == 0 {
        sys::yield_now();
    }
    (c, s)
}
/// An address on which nothing listens.
pub fn closed_addr() -> Addr {
    let (l, p) = tcp_listen();
    sys::close(l);
    p
}

impl Sources {
    fn link(&mut self) -> usize {
        self.links.push(Link::default());
        self.links.len() - 1
    }
    fn ep(&mut self, fd: i32, kind: Kind, tx: Option<usize>, rx: Option<usize>) -> usize {
        self.eps.push(Ep {
            fd,
            kind,
            tx,
            rx,
            peer: None,
            open: true,
            dup: false,
            fl: sys::fcntl(fd, libc::F_GETFL, 0) as i32,
            fdfl: sys::fcntl(fd, libc::F_GETFD, 0) as i32,
            opts: options(fd),
            ino: fstat_ino(fd),
            eof_seen: false,
            healthy: true,
            tag: 0,
        });
        self.eps.len() - 1
    }
    fn pair(&mut self, a: i32, b: i32, kind: Kind) -> Vec<usize> {
        let (x, y) = (self.link(), self.link());
        let i = self.ep(a, kind, Some(x), Some(y));
        let j = self.ep(b, kind, Some(y), Some(x));
        self.eps[i].peer = Some(j);
        self.eps[j].peer = Some(i);
        vec![i, j]
    }
    /// Create a source (or two ends); returns the ends.
    pub fn create(&mut self, kind: Kind) -> Vec<usize> {
        match kind {
            Kind::Unix => {
                let (a, b) = sys::socketpair(libc::SOCK_STREAM);
                self.pair(a, b, kind)
            }
            Kind::Dgram => {
                let (a, b) = sys::socketpair(libc::SOCK_DGRAM);
                self.pair(a, b, kind)
            }
            Kind::Tcp => {
                let (a, b) = tcp_pair();
                self.pair(a, b, kind)
            }
            Kind::PipeR | Kind::PipeW => {
                let (r, w) = sys::pipe();
                let x = self.link();
                let i = self.ep(r, Kind::PipeR, None, Some(x));
                let j = self.ep(w, Kind::PipeW, Some(x), None);
                self.eps[i].peer = Some(j);
                self.eps[j].peer = Some(i);
                vec![i, j]
            }
            Kind::Event => {
                let fd = sys::eventfd(0);
                let x = self.link();
                let i = self.ep(fd, kind, Some(x), Some(x));
                vec![i]
            }
            Kind::Listener => {
                let (fd, _) = tcp_listen();
                vec![self.ep(fd, kind, None, None)]
            }
            Kind::TcpIdle => {
                let fd = tcp_socket();
                vec![self.ep(fd, kind, None, None)]
            }
        }
    }
    pub fn random(&mut self, rng: &mut Rng) -> Vec<usize> {
        let k = *rng.pick(&[Kind::Unix, Kind::Unix, Kind::Unix, Kind::Dgram, Kind::Tcp, Kind::Tcp, Kind::PipeR, Kind::PipeR, Kind::Event, Kind::Event, Kind::Listener, Kind::TcpIdle]);
        let v = self.create(k);
        if rng.chance(1, 5) {
            // A source in blocking mode.
            for &i in &v {
                if matches!(k, Kind::Unix | Kind::Dgram | Kind::Tcp) && self.eps[i].fl & libc::O_NONBLOCK != 0 {
                    sys::set_nonblock(self.eps[i].fd, false);
                    self.eps[i].fl = sys::fcntl(self.eps[i].fd, libc::F_GETFL, 0) as i32;
                }
            }
        }
        if rng.chance(1, 4) {
            // A source child processes are meant to inherit.
            for &i in &v {
                sys::fcntl(self.eps[i].fd, libc::F_SETFD, 0);
                self.eps[i].fdfl = 0;
            }
        }
        v
    }
    /// Another descriptor for the same object.
    pub fn dup(&mut self, i: usize) -> usize {
        let fd = sys::fcntl(self.eps[i].fd, libc::F_DUPFD_CLOEXEC, 0) as i32;
        assert!(fd >= 0, "harness: dup failed");
        let mut e = self.eps[i].clone();
        e.fd = fd;
        e.fdfl = libc::FD_CLOEXEC;
        e.dup = true;
        self.eps[i].dup = true;
        self.eps.push(e);
        self.eps.len() - 1
    }
    /// Send accounted bytes from this end; returns how many went out.
    pub fn send(&mut self, i: usize, n: usize) -> usize {
        let e = &self.eps[i];
        let Some(tx) = e.tx else { return 0 };
        if e.kind == Kind::Event {
            let v = (n as u64).max(1);
            let r = sys::write(e.fd, &v.to_ne_bytes());
            if r == 8 {
                self.links[tx].sent = self.links[tx].sent.wrapping_add(v);
                return n;
            }
            return 0;
        }
        let base = self.links[tx].sent;
        let buf: Vec<u8> = (0..n as u64).map(|k| pattern(tx, base + k)).collect();
        let r = if e.kind == Kind::PipeW {
            sys::write(e.fd, &buf)
        } else {
            unsafe { sys::raw6(libc::SYS_sendto, e.fd as usize, buf.as_ptr() as usize, n, (libc::MSG_DONTWAIT | libc::MSG_NOSIGNAL) as usize, 0, 0) }
        };
        if r > 0 {
            self.links[tx].sent += r as u64;
            r as usize
        } else {
            0
        }
    }
    /// Write until the end is not writable any more.
    pub fn fill(&mut self, i: usize) -> usize {
        if self.eps[i].kind == Kind::Event {
            let tx = self.eps[i].tx.unwrap();
            let cur = self.links[tx].sent.wrapping_sub(self.links[tx].recvd);
            let v = (u64::MAX - 1).wrapping_sub(cur);
            if v > 0 {
                let r = sys::write(self.eps[i].fd, &v.to_ne_bytes());
                if r == 8 {
                    self.links[tx].sent = self.links[tx].sent.wrapping_add(v);
                }
            }
            return 1;
        }
        let mut total = 0;
        let chunk = if self.eps[i].kind == Kind::Dgram { 64 } else { 4096 };
        loop {
            let n = self.send(i, chunk);
            if n == 0 {
                break;
            }
            total += n;
            if total > 1 << 22 {
                break;
            }
        }
        total
    }
    /// Receive and check content; `limit` reads at most.
    pub fn drain(&mut self, i: usize, limit: usize) -> usize {
        let (fd, kind, rx) = (self.eps[i].fd, self.eps[i].kind, self.eps[i].rx);
        if kind == Kind::Listener {
            let mut n = 0;
            while n < limit {
                let r = accept(fd);
                if r < 0 {
                    break;
                }
                sys::close(r as i32);
                n += 1;
            }
            return n;
        }
        let Some(rx) = rx else { return 0 };
        if kind == Kind::Event {
            let mut b = [0u8; 8];
            let r = sys::read(fd, &mut b);
            if r == 8 {
                let v = u64::from_ne_bytes(b);
                let want = self.links[rx].sent.wrapping_sub(self.links[rx].recvd);
                if v != want {
                    report::violation("source-data", format!("eventfd {fd} held {v}, expected {want}"));
                }
                self.links[rx].recvd = self.links[rx].sent;
                return 1;
            }
            if self.links[rx].sent != self.links[rx].recvd {
                report::violation("source-data", format!("eventfd {fd} is empty ({r}), expected {}", self.links[rx].sent.wrapping_sub(self.links[rx].recvd)));
            }
            return 0;
        }
        let mut total = 0;
        let mut buf = [0u8; 4096];
        for _ in 0..limit {
            let r = if kind == Kind::PipeR {
                sys::read(fd, &mut buf)
            } else {
                unsafe { sys::raw6(libc::SYS_recvfrom, fd as usize, buf.as_mut_ptr() as usize, buf.len(), libc::MSG_DONTWAIT as usize, 0, 0) }
            };
            if r == 0 {
                self.eps[i].eof_seen = true;
            }
            if r <= 0 {
                break;
            }
            let l = &mut self.links[rx];
            for b in &buf[..r as usize] {
                let want = pattern(rx, l.recvd);
                if *b != want && !l.broken {
                    report::violation("source-data", format!("descriptor {fd} ({kind:?}): byte {} is {b:#x}, expected {want:#x}", l.recvd));
                }
                l.recvd += 1;
            }
            total += r as usize;
        }
        total
    }
    /// Everything sent so far is there, in order. (Drains it.)
    pub fn check_all_received(&mut self, i: usize) {
        let start = sys::now_ns();
        let Some(rx) = self.eps[i].rx else { return };
        loop {
            self.drain(i, 4096);
            let l = &self.links[rx];
            if l.broken || l.sent == l.recvd {
                return;
            }
            if self.eps[i].eof_seen || sys::now_ns() - start > 20_000_000_000 {
                let l = l.clone();
                report::violation("source-data", format!("descriptor {} ({:?}): only {} of the {} bytes sent are there", self.eps[i].fd, self.eps[i].kind, l.recvd, l.sent));
            }
            sys::sleep(Duration::from_micros(200));
        }
    }
    pub fn send_oob(&mut self, i: usize) -> bool {
        if self.eps[i].kind != Kind::Tcp {
            return false;
        }
        if let Some(tx) = self.eps[i].tx {
            // An urgent byte that was not passed yet turns into ordinary data when another comes.
            self.links[tx].oobs += 1;
            if self.links[tx].oobs > 1 {
                self.links[tx].broken = true;
            }
        }
        let b = [0xEEu8];
        unsafe { sys::raw6(libc::SYS_sendto, self.eps[i].fd as usize, b.as_ptr() as usize, 1, (libc::MSG_OOB | libc::MSG_DONTWAIT | libc::MSG_NOSIGNAL) as usize, 0, 0) == 1 }
    }
    pub fn recv_oob(&mut self, i: usize) -> bool {
        let mut b = [0u8];
        let r = unsafe { sys::raw6(libc::SYS_recvfrom, self.eps[i].fd as usize, b.as_mut_ptr() as usize, 1, (libc::MSG_OOB | libc::MSG_DONTWAIT) as usize, 0, 0) };
        if r == 1 && b[0] != 0xEE {
            report::violation("source-data", format!("urgent byte on {} is {:#x}", self.eps[i].fd, b[0]));
        }
        r == 1
    }
    pub fn shutdown(&mut self, i: usize, how: i32) {
        let e = &self.eps[i];
        if matches!(e.kind, Kind::Unix | Kind::Tcp) {
            sys::raw3(libc::SYS_shutdown, e.fd as usize, how as usize, 0);
            if how != libc::SHUT_WR {
                // What is still on its way may be dropped.
                if let Some(rx) = e.rx {
                    self.links[rx].broken = true;
                }
            }
            let p = e.peer;
            self.eps[i].healthy = false;
            if let Some(p) = p {
                self.eps[p].healthy = false;
            }
        }
    }
    /// Close an end (it must not be registered anywhere). `reset`: abort a TCP connection.
    pub fn close(&mut self, i: usize, reset: bool) {
        let e = self.eps[i].clone();
        if !e.open {
            return;
        }
        if reset && e.kind == Kind::Tcp {
            let l = libc::linger { l_onoff: 1, l_linger: 0 };
            let b: [u8; 8] = unsafe { std::mem::transmute(l) };
            setsockopt(e.fd, libc::SOL_SOCKET, libc::SO_LINGER, &b);
        }
        sys::close(e.fd);
        self.eps[i].open = false;
        if let Some(p) = e.peer {
            self.eps[p].healthy = false;
        }
        let last = !self.eps.iter().any(|x| x.open && x.ino == e.ino && x.kind == e.kind);
        if last {
            if let Some(rx) = e.rx {
                // Data not read by a closed end is gone; the other direction may be reset by it.
                self.links[rx].broken = true;
            }
            // (A datagram socket drops what it holds when it finds its peer gone.)
            if e.kind == Kind::Tcp || e.kind == Kind::Dgram || reset {
                for l in [e.rx, e.tx].into_iter().flatten() {
                    self.links[l].broken = true;
                }
            }
            if e.kind == Kind::Unix {
                // Unread data makes the peer see a reset.
                if let Some(tx) = e.tx {
                    self.links[tx].broken = true;
                }
            }
        }
    }
    pub fn connect(&mut self, i: usize, addr: Addr) -> isize {
        self.eps[i].healthy = false;
        tcp_connect(self.eps[i].fd, addr)
    }
    /// The library must not have changed the object or the descriptor.
    pub fn check_untouched(&self, i: usize) {
        let e = &self.eps[i];
        if !e.open {
            return;
        }
        let fl = sys::fcntl(e.fd, libc::F_GETFL, 0);
        let fdfl = sys::fcntl(e.fd, libc::F_GETFD, 0);
        if fl < 0 || fdfl < 0 {
            report::violation("source-closed", format!("descriptor {} of a registered source has been closed", e.fd));
        }
        if fl as i32 != e.fl || fdfl as i32 != e.fdfl {
            report::violation("source-altered", format!("flags of descriptor {}: {:#x}/{:#x}, were {:#x}/{:#x}", e.fd, fl, fdfl, e.fl, e.fdfl));
        }
        if options(e.fd) != e.opts {
            report::violation("source-altered", format!("options of descriptor {}: {:?}, were {:?}", e.fd, options(e.fd), e.opts));
        }
        if fstat_ino(e.fd) != e.ino {
            report::violation("source-altered", format!("descriptor {} now refers to another object", e.fd));
        }
    }
    pub fn close_all(&mut self) {
        for i in 0..self.eps.len() {
            if self.eps[i].open {
                sys::close(self.eps[i].fd);
                self.eps[i].open = false;
            }
        }
    }
}
impl Drop for Sources {
    fn drop(&mut self) {
        self.close_all();
    }
}
