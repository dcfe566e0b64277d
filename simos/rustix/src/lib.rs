//! rustix as the library sees it on a simulated system: everything of the real one, plus the
//! interfaces that only other systems have, carried out by a simulation on top of this kernel.
pub use real::*;
pub mod sim;
#[doc(hidden)]
pub mod kqueue;
#[doc(hidden)]
pub mod port;
pub mod event {
    pub use crate::{kqueue, port};
    pub use real::event::*;

    #[cfg(polling_sim_os = "espidf")]
    pub fn eventfd(initval: u32, flags: EventfdFlags) -> real::io::Result<real::fd::OwnedFd> {
        use real::fd::AsRawFd;
        if let Some(e) = crate::sim::fails(crate::sim::Site::Create) {
            return Err(real::io::Errno::from_raw_os_error(e));
        }
        // Never blocks, whatever the flags say. (Descriptors are not inherited by anybody there.)
        let fd = real::event::eventfd(initval, flags | EventfdFlags::NONBLOCK | EventfdFlags::CLOEXEC)?;
        crate::io::EVENTFDS.lock().unwrap().insert(fd.as_raw_fd());
        Ok(fd)
    }
}
#[cfg(polling_sim_os = "espidf")]
pub mod io {
    pub use real::io::*;
    use real::fd::{AsFd, AsRawFd, RawFd};
    use std::collections::BTreeSet;
    use std::sync::Mutex;
    pub(crate) static EVENTFDS: Mutex<BTreeSet<RawFd>> = Mutex::new(BTreeSet::new());
    /// Reading an eventfd that holds zero yields zero.
    pub fn read(fd: impl AsFd, buf: &mut [u8]) -> Result<usize> {
        let fd = fd.as_fd();
        match real::io::read(fd, &mut *buf) {
            Err(Errno::AGAIN) if buf.len() == 8 && EVENTFDS.lock().unwrap().contains(&fd.as_raw_fd()) => {
                buf.fill(0);
                Ok(8)
            }
            r => r,
        }
    }
}
