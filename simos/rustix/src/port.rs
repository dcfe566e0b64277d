//! The event port interface of rustix 0.38, and an event port: every association is an epoll
//! instance of its own within the one that stands for the port.
use crate::sim::{self, Site};
use real::event::PollFlags;
use real::fd::{AsFd, AsRawFd, FromRawFd, OwnedFd, RawFd};
use real::io::{self, Errno};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::ffi::c_void;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Copy, Debug)]
pub struct Event {
    events: i32,
    object: usize,
    user: *mut c_void,
}
impl Event {
    pub fn events(&self) -> i32 {
        self.events
    }
    pub fn object(&self) -> usize {
        self.object
    }
    pub fn userdata(&self) -> *mut c_void {
        self.user
    }
}
struct Assoc {
    id: u64,
    user: usize,
    child: OwnedFd,
}
struct Port {
    fd: RawFd,
    mark: u64,
    bell: OwnedFd,
    next: u64,
    assoc: BTreeMap<RawFd, Assoc>,
    by_id: HashMap<u64, RawFd>,
    sent: VecDeque<(i32, usize)>,
}
static ALL: Mutex<BTreeMap<RawFd, Arc<Mutex<Port>>>> = Mutex::new(BTreeMap::new());
static MARK: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1 << 63);
fn errno(e: i32) -> Errno {
    Errno::from_raw_os_error(e)
}
fn find(fd: RawFd) -> io::Result<Arc<Mutex<Port>>> {
    sim::lock(&ALL).get(&fd).cloned().ok_or(Errno::BADF)
}
pub fn port_create() -> io::Result<OwnedFd> {
    if let Some(e) = sim::fails(Site::Create) {
        return Err(errno(e));
    }
    let fd = unsafe { libc::epoll_create1(0) };
    if fd < 0 {
        return Err(errno(std::io::Error::last_os_error().raw_os_error().unwrap_or(libc::EMFILE)));
    }
    let mark = MARK.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let bell = sim::eventfd();
    assert_eq!(sim::ctl(fd, libc::EPOLL_CTL_ADD, bell.as_raw_fd(), libc::EPOLLIN as u32, mark), 0);
    let mut all = sim::lock(&ALL);
    all.retain(|f, p| {
        let p = sim::lock(p);
        *f != fd && sim::holds(*f, p.mark)
    });
    all.insert(fd, Arc::new(Mutex::new(Port { fd, mark, bell, next: 0, assoc: BTreeMap::new(), by_id: HashMap::new(), sent: VecDeque::new() })));
    Ok(unsafe { OwnedFd::from_raw_fd(fd) })
}
/// # Safety
/// As for rustix.
pub unsafe fn port_associate_fd(port: impl AsFd, object: impl AsRawFd, events: PollFlags, userdata: *mut c_void) -> io::Result<()> {
    let q = find(port.as_fd().as_raw_fd())?;
    sim::delay();
    if let Some(e) = sim::fails(Site::Change) {
        return Err(errno(e));
    }
    let fd = object.as_raw_fd();
    {
        let mut q = sim::lock(&q);
        let child = sim::epoll();
        let bits = events.bits() as u32 & (libc::EPOLLIN | libc::EPOLLOUT | libc::EPOLLPRI) as u32;
        let e = sim::ctl(child.as_raw_fd(), libc::EPOLL_CTL_ADD, fd, bits, 0);
        if e != 0 {
            return Err(errno(e));
        }
        q.next += 1;
        let id = q.next;
        let e = sim::ctl(q.fd, libc::EPOLL_CTL_ADD, child.as_raw_fd(), libc::EPOLLIN as u32, id);
        if e != 0 {
            return Err(errno(e));
        }
        if let Some(old) = q.assoc.insert(fd, Assoc { id, user: userdata as usize, child }) {
            q.by_id.remove(&old.id);
        }
        q.by_id.insert(id, fd);
    }
    sim::delay();
    Ok(())
}
/// # Safety
/// As for rustix.
pub unsafe fn port_dissociate_fd(port: impl AsFd, object: impl AsRawFd) -> io::Result<()> {
    let q = find(port.as_fd().as_raw_fd())?;
    sim::delay();
    if let Some(e) = sim::fails(Site::Change) {
        return Err(errno(e));
    }
    let fd = object.as_raw_fd();
    let mut q = sim::lock(&q);
    let Some(a) = q.assoc.remove(&fd) else { return Err(Errno::NOENT) };
    q.by_id.remove(&a.id);
    if sim::ctl(a.child.as_raw_fd(), libc::EPOLL_CTL_ADD, fd, 0, 1) != libc::EEXIST {
        return Err(Errno::NOENT);
    }
    Ok(())
}
impl Port {
    fn take(&mut self, ids: &[u64], out: &mut Vec<Event>, cap: usize) -> usize {
        for id in ids {
            if out.len() == cap {
                break;
            }
            if *id == self.mark {
                // What was sent, all of it as far as there is room.
                while out.len() < cap {
                    let Some((ev, user)) = self.sent.pop_front() else { break };
                    out.push(Event { events: ev, object: 0, user: user as *mut c_void });
                }
                if self.sent.is_empty() {
                    sim::drain(self.bell.as_raw_fd());
                }
                continue;
            }
            let Some(&fd) = self.by_id.get(id) else { continue };
            let a = &self.assoc[&fd];
            let mut e = [libc::epoll_event { events: 0, u64: 0 }];
            if sim::ep_wait(a.child.as_raw_fd(), &mut e, Some(0)) != Ok(1) {
                continue;
            }
            // Delivery ends the association.
            let a = self.assoc.remove(&fd).unwrap();
            self.by_id.remove(&a.id);
            out.push(Event { events: e[0].events as i32, object: fd as usize, user: a.user as *mut c_void });
        }
        out.len()
    }
}
pub fn port_getn(port: impl AsFd, events: &mut Vec<Event>, min_events: usize, timeout: Option<Duration>) -> io::Result<()> {
    let fd = port.as_fd().as_raw_fd();
    events.clear();
    let cap = events.capacity();
    // (rustix does this.)
    let _: Option<i64> = timeout.map(|t| t.as_secs().try_into().unwrap());
    let q = find(fd)?;
    sim::delay();
    if cap == 0 {
        return Ok(());
    }
    if let Some(e) = sim::fails(Site::Wait) {
        return Err(errno(e));
    }
    // With nothing desired it never blocks.
    let timeout = if min_events == 0 { Some(Duration::ZERO) } else { timeout };
    let r = sim::wait_loop(fd, cap, timeout, |ids| sim::lock(&q).take(ids, events, cap));
    sim::delay();
    match r {
        Ok(n) if n < min_events => {
            events.clear();
            Err(Errno::TIME)
        }
        Ok(_) => Ok(()),
        Err(e) => Err(errno(e)),
    }
}
pub fn port_get(port: impl AsFd, timeout: Option<Duration>) -> io::Result<Event> {
    let mut v = Vec::with_capacity(1);
    port_getn(port, &mut v, 1, timeout)?;
    v.pop().ok_or(Errno::TIME)
}
pub fn port_getn_query(port: impl AsFd) -> io::Result<u32> {
    let q = find(port.as_fd().as_raw_fd())?;
    let q = sim::lock(&q);
    Ok(q.sent.len() as u32)
}
pub fn port_send(port: impl AsFd, events: i32, userdata: *mut c_void) -> io::Result<()> {
    let q = find(port.as_fd().as_raw_fd())?;
    sim::delay();
    if let Some(e) = sim::fails(Site::Send) {
        return Err(errno(e));
    }
    {
        let mut q = sim::lock(&q);
        q.sent.push_back((events, userdata as usize));
        sim::post(q.bell.as_raw_fd());
    }
    sim::delay();
    Ok(())
}
