//! rustix as the library sees it under Miri: the types are those of the real one, the calls are
//! carried out by a kernel that is part of the program (epoll, eventfd, timerfd, pipes, poll).
pub use real::*;
pub mod kernel;
use kernel::K;
use real::fd::{AsFd, AsRawFd, OwnedFd};
use real::io::{Errno, Result};

pub mod event {
    use super::*;
    pub use real::event::*;
    pub fn eventfd(initval: u32, flags: EventfdFlags) -> Result<OwnedFd> {
        kernel::eventfd(initval as u64, flags.contains(EventfdFlags::NONBLOCK))
    }
    pub fn poll(fds: &mut [PollFd<'_>], timeout: i32) -> Result<usize> {
        // `PollFd` is a transparent wrapper.
        let raw = unsafe { std::slice::from_raw_parts_mut(fds.as_mut_ptr().cast::<libc::pollfd>(), fds.len()) };
        kernel::poll(raw, timeout)
    }
    pub mod epoll {
        use super::*;
        pub use real::event::epoll::{CreateFlags, Event, EventData, EventFlags};
        pub fn create(_: CreateFlags) -> Result<OwnedFd> {
            kernel::epoll_create()
        }
        pub fn add(epoll: impl AsFd, source: impl AsFd, data: EventData, flags: EventFlags) -> Result<()> {
            kernel::epoll_ctl(libc::EPOLL_CTL_ADD, epoll.as_fd().as_raw_fd(), source.as_fd().as_raw_fd(), data.u64(), flags.bits())
        }
        pub fn modify(epoll: impl AsFd, source: impl AsFd, data: EventData, flags: EventFlags) -> Result<()> {
            kernel::epoll_ctl(libc::EPOLL_CTL_MOD, epoll.as_fd().as_raw_fd(), source.as_fd().as_raw_fd(), data.u64(), flags.bits())
        }
        pub fn delete(epoll: impl AsFd, source: impl AsFd) -> Result<()> {
            kernel::epoll_ctl(libc::EPOLL_CTL_DEL, epoll.as_fd().as_raw_fd(), source.as_fd().as_raw_fd(), 0, 0)
        }
        pub fn wait(epoll: impl AsFd, list: &mut EventVec, timeout: i32) -> Result<()> {
            let mut got = kernel::epoll_wait(epoll.as_fd().as_raw_fd(), list.events.capacity(), timeout)?;
            list.events.clear();
            list.events.extend(got.drain(..).map(|(flags, data)| Event { flags: EventFlags::from_bits_retain(flags), data: EventData::new_u64(data) }));
            Ok(())
        }
        #[derive(Default)]
        pub struct EventVec {
            events: Vec<Event>,
        }
        impl EventVec {
            pub fn new() -> Self {
                Self::default()
            }
            pub fn with_capacity(n: usize) -> Self {
                Self { events: Vec::with_capacity(n) }
            }
            pub fn capacity(&self) -> usize {
                self.events.capacity()
            }
            pub fn reserve(&mut self, n: usize) {
                self.events.reserve(n)
            }
            pub fn clear(&mut self) {
                self.events.clear()
            }
            pub fn shrink_to_fit(&mut self) {
                self.events.shrink_to_fit()
            }
            pub fn len(&self) -> usize {
                self.events.len()
            }
            pub fn is_empty(&self) -> bool {
                self.events.is_empty()
            }
            pub fn iter(&self) -> std::iter::Copied<std::slice::Iter<'_, Event>> {
                self.events.iter().copied()
            }
        }
        impl<'a> IntoIterator for &'a EventVec {
            type Item = Event;
            type IntoIter = std::iter::Copied<std::slice::Iter<'a, Event>>;
            fn into_iter(self) -> Self::IntoIter {
                self.iter()
            }
        }
    }
}
pub mod io {
    use super::*;
    pub use real::io::*;
    pub fn read(fd: impl AsFd, buf: &mut [u8]) -> Result<usize> {
        kernel::read(fd.as_fd().as_raw_fd(), buf)
    }
    pub fn write(fd: impl AsFd, buf: &[u8]) -> Result<usize> {
        kernel::write(fd.as_fd().as_raw_fd(), buf)
    }
    pub fn fcntl_getfd(_: impl AsFd) -> Result<FdFlags> {
        Ok(FdFlags::CLOEXEC)
    }
    pub fn fcntl_setfd(_: impl AsFd, _: FdFlags) -> Result<()> {
        Ok(())
    }
}
pub mod fs {
    use super::*;
    pub use real::fs::*;
    pub fn fcntl_getfl(fd: impl AsFd) -> Result<OFlags> {
        let k = K.lock().unwrap();
        let o = k.at(fd.as_fd().as_raw_fd())?;
        Ok(if o.nonblock { OFlags::RDWR | OFlags::NONBLOCK } else { OFlags::RDWR })
    }
    pub fn fcntl_setfl(fd: impl AsFd, f: OFlags) -> Result<()> {
        let mut k = K.lock().unwrap();
        k.at_mut(fd.as_fd().as_raw_fd())?.nonblock = f.contains(OFlags::NONBLOCK);
        Ok(())
    }
}
pub mod pipe {
    use super::*;
    pub use real::pipe::*;
    pub fn pipe() -> Result<(OwnedFd, OwnedFd)> {
        kernel::pipe(false)
    }
    pub fn pipe_with(f: PipeFlags) -> Result<(OwnedFd, OwnedFd)> {
        kernel::pipe(f.contains(PipeFlags::NONBLOCK))
    }
}
pub mod time {
    use super::*;
    pub use real::time::*;
    pub fn timerfd_create(_: TimerfdClockId, _: TimerfdFlags) -> Result<OwnedFd> {
        if kernel::no_timer() {
            return Err(Errno::NOSYS);
        }
        kernel::timerfd()
    }
    pub fn timerfd_settime(fd: impl AsFd, _: TimerfdTimerFlags, new: &Itimerspec) -> Result<Itimerspec> {
        kernel::timer_set(fd.as_fd().as_raw_fd(), new.it_value.tv_sec, new.it_value.tv_nsec as i64)?;
        Ok(*new)
    }
}
