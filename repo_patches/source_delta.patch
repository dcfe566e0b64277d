From d2375180d80489e2c6b11781f2a29b0a5860d6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 01/12] fix: poll backend: no errors and no starvation by
 pending notifications

A wait that found the notified flag set returned right away with the result of
reading one byte from the pipe. notify() sets the flag before it writes, and an
operation on the descriptors can take the byte, so the read could fail with
WouldBlock. The wait then failed, and Poller::wait left its own flag set, so
that every later notify() was ignored.

It also returned without polling, so that I/O was never reported to a caller
for whom a notification was pending at every wait. Poll without blocking
instead; the flag is consumed after the poll as for any other wait.
---
 src/poll.rs | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/poll.rs b/src/poll.rs
index 45407c7..5bf44e5 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -217,32 +217,32 @@ impl Poller {
         let mut fds = self.fds.lock().unwrap();
 
         loop {
-            // Complete all current operations.
-            loop {
-                if self.notified.swap(false, Ordering::SeqCst) {
-                    // `notify` will have sent a notification in case we were polling. We weren't,
-                    // so remove it.
-                    return self.notify.pop_notification();
-                } else if self.waiting_operations.load(Ordering::SeqCst) == 0 {
-                    break;
-                }
-
+            // Complete all current operations, unless there is a notification.
+            while !self.notified.load(Ordering::SeqCst)
+                && self.waiting_operations.load(Ordering::SeqCst) != 0
+            {
                 fds = self.operations_complete.wait(fds).unwrap();
             }
 
             // Convert the timeout to milliseconds.
-            let timeout_ms = deadline
-                .map(|deadline| {
-                    let timeout = deadline.saturating_duration_since(Instant::now());
-
-                    // Round up to a whole millisecond.
-                    let mut ms = timeout.as_millis().try_into().unwrap_or(std::u64::MAX);
-                    if Duration::from_millis(ms) < timeout {
-                        ms = ms.saturating_add(1);
-                    }
-                    ms.try_into().unwrap_or(std::i32::MAX)
-                })
-                .unwrap_or(-1);
+            let timeout_ms = if self.notified.load(Ordering::SeqCst) {
+                // Only collect what is ready. What `notify` has written to wake us up, if it has
+                // done so already, is removed after the poll.
+                0
+            } else {
+                deadline
+                    .map(|deadline| {
+                        let timeout = deadline.saturating_duration_since(Instant::now());
+
+                        // Round up to a whole millisecond.
+                        let mut ms = timeout.as_millis().try_into().unwrap_or(std::u64::MAX);
+                        if Duration::from_millis(ms) < timeout {
+                            ms = ms.saturating_add(1);
+                        }
+                        ms.try_into().unwrap_or(std::i32::MAX)
+                    })
+                    .unwrap_or(-1)
+            };
 
             // Perform the poll.
             let num_events = poll(&mut fds.poll_fds, timeout_ms)?;
-- 
2.43.0


From c08dc986d4429999427367f51dcceb128066156f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 02/12] fix: poll backend: a modify refused for its mode must
 not change anything

modify() with an unsupported mode returned an error after it had already
changed the key and the interest.
---
 src/poll.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/poll.rs b/src/poll.rs
index 5bf44e5..db6ff96 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -156,6 +156,8 @@ impl Poller {
                 .fd_data
                 .get_mut(&fd.as_raw_fd())
                 .ok_or(io::ErrorKind::NotFound)?;
+            // Refuse unsupported modes before changing anything.
+            let remove = cvt_mode_as_remove(mode)?;
             data.key = ev.key;
             let poll_fds_index = data.poll_fds_index;
 
@@ -165,7 +167,7 @@ impl Poller {
                 unsafe { BorrowedFd::borrow_raw(fd.as_raw_fd()) },
                 poll_events(ev),
             );
-            data.remove = cvt_mode_as_remove(mode)?;
+            data.remove = remove;
 
             Ok(())
         })
-- 
2.43.0


From 10de64a0c9399465331dc23a580d7b52ad9d2062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 03/12] fix: poll backend: respect the priority interest

Event::with_priority() had no effect on the events requested from poll().
---
 src/poll.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/poll.rs b/src/poll.rs
index db6ff96..3e07ad3 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -351,6 +351,10 @@ fn poll_events(ev: Event) -> PollFlags {
         PollFlags::OUT | PollFlags::WRBAND
     } else {
         PollFlags::empty()
+    }) | (if ev.extra.is_pri() {
+        PollFlags::PRI
+    } else {
+        PollFlags::empty()
     })
 }
 
-- 
2.43.0


From 3ece4a235a25f31e9db03940b5ca7b74d05c3823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 04/12] fix: epoll: do not register interest in whatever an
 event was delivered with

An Event that came from a wait keeps the raw flags of its delivery. When it is
passed back to add() or modify(), e.g. with readable set to false, those flags
were registered as interest as well.
---
 src/epoll.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/epoll.rs b/src/epoll.rs
index 331874b..055a390 100644
--- a/src/epoll.rs
+++ b/src/epoll.rs
@@ -114,7 +114,7 @@ impl Poller {
             &self.epoll_fd,
             unsafe { rustix::fd::BorrowedFd::borrow_raw(fd) },
             epoll::EventData::new_u64(ev.key as u64),
-            epoll_flags(&ev, mode) | ev.extra.flags,
+            epoll_flags(&ev, mode),
         )?;
 
         Ok(())
@@ -134,7 +134,7 @@ impl Poller {
             &self.epoll_fd,
             fd,
             epoll::EventData::new_u64(ev.key as u64),
-            epoll_flags(&ev, mode) | ev.extra.flags,
+            epoll_flags(&ev, mode),
         )?;
 
         Ok(())
@@ -289,6 +289,9 @@ fn epoll_flags(interest: &Event, mode: PollMode) -> epoll::EventFlags {
     if interest.writable {
         flags |= write_flags();
     }
+    // Take over only what can be asked for: a delivered event also carries the flags it was
+    // delivered with.
+    flags |= interest.extra.flags & (epoll::EventFlags::HUP | epoll::EventFlags::PRI);
     flags
 }
 
-- 
2.43.0


From 6c84d271bcd5b702e6cb9050b8c9b19140e600c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 05/12] fix: poll backend: deliver one-shot hangups and errors
 only once

After the delivery of a one-shot event its descriptor stayed in the list given
to poll() with no events requested. poll() reports hangups and errors anyway,
so a source that had hung up was delivered again by every wait until it was
modified or deleted.
---
 src/poll.rs | 61 +++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 18 deletions(-)

diff --git a/src/poll.rs b/src/poll.rs
index 3e07ad3..2ed9510 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -58,13 +58,29 @@ struct Fds {
 #[derive(Debug)]
 struct FdData {
     /// The index into `poll_fds` this file descriptor is.
-    poll_fds_index: usize,
+    ///
+    /// This is `None` after a one-shot event until the interest is renewed: `poll()` reports
+    /// hangups and errors of every descriptor it is given, even if no events are requested.
+    poll_fds_index: Option<usize>,
     /// The key of the `Event` associated with this file descriptor.
     key: usize,
     /// Whether to remove this file descriptor from the poller on the next call to `wait`.
     remove: bool,
 }
 
+impl Fds {
+    /// Removes an entry from `poll_fds`.
+    fn remove_poll_fd(&mut self, index: usize) {
+        self.poll_fds.swap_remove(index);
+        if let Some(swapped_pollfd) = self.poll_fds.get(index) {
+            self.fd_data
+                .get_mut(&swapped_pollfd.as_fd().as_raw_fd())
+                .unwrap()
+                .poll_fds_index = Some(index);
+        }
+    }
+}
+
 impl Poller {
     /// Creates a new poller.
     pub fn new() -> io::Result<Poller> {
@@ -121,7 +137,7 @@ impl Poller {
             fds.fd_data.insert(
                 fd,
                 FdData {
-                    poll_fds_index,
+                    poll_fds_index: Some(poll_fds_index),
                     key: ev.key,
                     remove: cvt_mode_as_remove(mode)?,
                 },
@@ -159,14 +175,20 @@ impl Poller {
             // Refuse unsupported modes before changing anything.
             let remove = cvt_mode_as_remove(mode)?;
             data.key = ev.key;
-            let poll_fds_index = data.poll_fds_index;
 
             // SAFETY: This is essentially transmuting a `PollFd<'a>` to a `PollFd<'static>`, which
             // only works if it's removed in time with `delete()`.
-            fds.poll_fds[poll_fds_index] = PollFd::from_borrowed_fd(
+            let poll_fd = PollFd::from_borrowed_fd(
                 unsafe { BorrowedFd::borrow_raw(fd.as_raw_fd()) },
                 poll_events(ev),
             );
+            match data.poll_fds_index {
+                Some(index) => fds.poll_fds[index] = poll_fd,
+                None => {
+                    data.poll_fds_index = Some(fds.poll_fds.len());
+                    fds.poll_fds.push(poll_fd);
+                }
+            }
             data.remove = remove;
 
             Ok(())
@@ -191,12 +213,8 @@ impl Poller {
                 .fd_data
                 .remove(&fd.as_raw_fd())
                 .ok_or(io::ErrorKind::NotFound)?;
-            fds.poll_fds.swap_remove(data.poll_fds_index);
-            if let Some(swapped_pollfd) = fds.poll_fds.get(data.poll_fds_index) {
-                fds.fd_data
-                    .get_mut(&swapped_pollfd.as_fd().as_raw_fd())
-                    .unwrap()
-                    .poll_fds_index = data.poll_fds_index;
+            if let Some(index) = data.poll_fds_index {
+                fds.remove_poll_fd(index);
             }
 
             Ok(())
@@ -267,13 +285,16 @@ impl Poller {
             // Store the events if there were any.
             if num_fd_events > 0 {
                 let fds = &mut *fds;
+                let mut removed = Vec::new();
 
                 events.inner.reserve(num_fd_events);
-                for fd_data in fds.fd_data.values_mut() {
-                    let poll_fd = &mut fds.poll_fds[fd_data.poll_fds_index];
-                    if !poll_fd.revents().is_empty() {
+                for (&fd, fd_data) in fds.fd_data.iter() {
+                    let revents = match fd_data.poll_fds_index {
+                        Some(index) => fds.poll_fds[index].revents(),
+                        None => continue,
+                    };
+                    if !revents.is_empty() {
                         // Store event
-                        let revents = poll_fd.revents();
                         events.inner.push(Event {
                             key: fd_data.key,
                             readable: revents.intersects(read_events()),
@@ -282,10 +303,7 @@ impl Poller {
                         });
                         // Remove interest if necessary
                         if fd_data.remove {
-                            *poll_fd = PollFd::from_borrowed_fd(
-                                unsafe { BorrowedFd::borrow_raw(poll_fd.as_fd().as_raw_fd()) },
-                                PollFlags::empty(),
-                            );
+                            removed.push(fd);
                         }
 
                         if events.inner.len() == num_fd_events {
@@ -293,6 +311,13 @@ impl Poller {
                         }
                     }
                 }
+
+                for fd in removed {
+                    let fd_data = fds.fd_data.get_mut(&fd);
+                    if let Some(index) = fd_data.and_then(|data| data.poll_fds_index.take()) {
+                        fds.remove_poll_fd(index);
+                    }
+                }
             }
 
             break;
-- 
2.43.0


From 61fd442a2ce3d45c0e5c3a2aed450ab8fe60de57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:30 +0000
Subject: [PATCH 06/12] fix: do not keep a source whose registration failed
 (kqueue)

A source that the kernel refused stayed in the set of sources (and one of its
two filters possibly in the queue), so that it could not be added again.
---
 src/kqueue.rs    | 9 ++++++++-
 src/os/kqueue.rs | 9 +++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/kqueue.rs b/src/kqueue.rs
index 860bc5a..63a0a9c 100644
--- a/src/kqueue.rs
+++ b/src/kqueue.rs
@@ -88,7 +88,14 @@ impl Poller {
         self.add_source(SourceId::Fd(fd))?;
 
         // File descriptors don't need to be added explicitly, so just modify the interest.
-        self.modify(BorrowedFd::borrow_raw(fd), ev, mode)
+        let fd = BorrowedFd::borrow_raw(fd);
+        let res = self.modify(fd, ev, mode);
+        if res.is_err() {
+            // Only one of the filters may have been refused, so delete the other one.
+            let _ = self.modify(fd, Event::none(0), PollMode::Oneshot);
+            let _ = self.remove_source(SourceId::Fd(fd.as_raw_fd()));
+        }
+        res
     }
 
     /// Modifies an existing file descriptor.
diff --git a/src/os/kqueue.rs b/src/os/kqueue.rs
index 5045cb4..35cfc4b 100644
--- a/src/os/kqueue.rs
+++ b/src/os/kqueue.rs
@@ -99,8 +99,13 @@ impl<F: Filter> PollerKqueueExt<F> for Poller {
     #[inline(always)]
     fn add_filter(&self, filter: F, key: usize, mode: PollMode) -> io::Result<()> {
         // No difference between adding and modifying in kqueue.
-        self.poller.add_source(filter.source_id())?;
-        self.modify_filter(filter, key, mode)
+        let source = filter.source_id();
+        self.poller.add_source(source)?;
+        let res = self.modify_filter(filter, key, mode);
+        if res.is_err() {
+            let _ = self.poller.remove_source(source);
+        }
+        res
     }
 
     fn modify_filter(&self, filter: F, key: usize, mode: PollMode) -> io::Result<()> {
-- 
2.43.0


From bcda77b241aa1e765107a3bf622e7bc789744564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:30 +0000
Subject: [PATCH 07/12] fix: send the next notification if one has failed

`notified` stayed set, so every later call returned Ok without sending anything
until something else ended the wait.
---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index f5cd993..7fb212c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -794,7 +794,11 @@ impl Poller {
             .compare_exchange(false, true, Ordering::SeqCst, Ordering::SeqCst)
             .is_ok()
         {
-            self.poller.notify()?;
+            if let Err(e) = self.poller.notify() {
+                // Nothing was sent, so the next notification has to be.
+                self.notified.store(false, Ordering::SeqCst);
+                return Err(e);
+            }
         }
         Ok(())
     }
-- 
2.43.0


From 315e78ba9a6728685e5b8540cae08bf4104e0c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:46 +0000
Subject: [PATCH 08/12] fix: send the next notification if one has failed
 (poll)

---
 src/poll.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/poll.rs b/src/poll.rs
index 2ed9510..16a6bb2 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -335,7 +335,11 @@ impl Poller {
         let _enter = span.enter();
 
         if !self.notified.swap(true, Ordering::SeqCst) {
-            self.notify.notify()?;
+            if let Err(e) = self.notify.notify() {
+                // Nothing was sent, so the next notification has to be.
+                self.notified.store(false, Ordering::SeqCst);
+                return Err(e);
+            }
             self.operations_complete.notify_one();
         }
 
-- 
2.43.0


From f067fae75bacb6de689b45db6995444d2d1fd123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:30 +0000
Subject: [PATCH 09/12] fix: do not block on the notification pipe while
 holding the lock (Vita)

The thread in `wait` may already have taken the byte out of the pipe; then the
blocking read deadlocked with it. A byte that arrives late is ignored by `wait`.
---
 src/poll.rs | 20 +-------------------
 1 file changed, 1 insertion(+), 19 deletions(-)

diff --git a/src/poll.rs b/src/poll.rs
index 16a6bb2..9ea513a 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -734,25 +734,7 @@ mod notify {
 
         /// Pops a notification (if any) from the pipe.
         pub(super) fn pop_notification(&self) -> Result<(), io::Error> {
-            // Pipes on Vita do not guarantee that after `write` call succeeds, the
-            // data becomes immediately available for reading on the other side of the pipe.
-            // To ensure that the notification is not lost, the read side of the pipe is temporarily
-            // switched to blocking for a single `read` call.
-            #[cfg(target_os = "vita")]
-            rustix::fs::fcntl_setfl(
-                &self.read_pipe,
-                rustix::fs::fcntl_getfl(&self.read_pipe)? & !rustix::fs::OFlags::NONBLOCK,
-            )?;
-
-            let result = read(&self.read_pipe, &mut [0; 1]);
-
-            #[cfg(target_os = "vita")]
-            rustix::fs::fcntl_setfl(
-                &self.read_pipe,
-                rustix::fs::fcntl_getfl(&self.read_pipe)? | rustix::fs::OFlags::NONBLOCK,
-            )?;
-
-            result?;
+            read(&self.read_pipe, &mut [0; 1])?;
 
             Ok(())
         }
-- 
2.43.0


From 265bc03320d1dc0a5998220a6d4a78736b13e9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:30 +0000
Subject: [PATCH 10/12] fix: change a registration and the set of sources
 together (kqueue)

A modify between the steps of a concurrent delete (or add) left the source in the
kernel queue without it being in the set of sources, or the other way round.
---
 src/kqueue.rs    | 32 +++++++++++++++++++++++++-------
 src/os/kqueue.rs |  7 ++++++-
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/kqueue.rs b/src/kqueue.rs
index 63a0a9c..fedfe61 100644
--- a/src/kqueue.rs
+++ b/src/kqueue.rs
@@ -3,7 +3,7 @@
 use std::collections::HashSet;
 use std::io;
 use std::os::unix::io::{AsFd, AsRawFd, BorrowedFd, OwnedFd, RawFd};
-use std::sync::RwLock;
+use std::sync::{Mutex, MutexGuard, RwLock};
 use std::time::Duration;
 
 use rustix::event::kqueue;
@@ -22,6 +22,9 @@ pub struct Poller {
     /// This is used to make sure the same source is not registered twice.
     sources: RwLock<HashSet<SourceId>>,
 
+    /// Held while a registration changes, so that `sources` and the kernel queue stay in step.
+    changes: Mutex<()>,
+
     /// Notification pipe for waking up the poller.
     ///
     /// On platforms that support `EVFILT_USER`, this uses that to wake up the poller. Otherwise, it
@@ -56,6 +59,7 @@ impl Poller {
         let poller = Poller {
             kqueue_fd,
             sources: RwLock::new(HashSet::new()),
+            changes: Mutex::new(()),
             notify: notify::Notify::new()?,
         };
 
@@ -85,14 +89,15 @@ impl Poller {
     ///
     /// The file descriptor must be valid and it must last until it is deleted.
     pub unsafe fn add(&self, fd: RawFd, ev: Event, mode: PollMode) -> io::Result<()> {
+        let _changes = self.lock_changes();
         self.add_source(SourceId::Fd(fd))?;
 
-        // File descriptors don't need to be added explicitly, so just modify the interest.
+        // File descriptors don't need to be added explicitly, so just set the interest.
         let fd = BorrowedFd::borrow_raw(fd);
-        let res = self.modify(fd, ev, mode);
+        let res = self.set_interest(fd, ev, mode);
         if res.is_err() {
             // Only one of the filters may have been refused, so delete the other one.
-            let _ = self.modify(fd, Event::none(0), PollMode::Oneshot);
+            let _ = self.set_interest(fd, Event::none(0), PollMode::Oneshot);
             let _ = self.remove_source(SourceId::Fd(fd.as_raw_fd()));
         }
         res
@@ -100,6 +105,13 @@ impl Poller {
 
     /// Modifies an existing file descriptor.
     pub fn modify(&self, fd: BorrowedFd<'_>, ev: Event, mode: PollMode) -> io::Result<()> {
+        let _changes = self.lock_changes();
+        self.has_source(SourceId::Fd(fd.as_raw_fd()))?;
+        self.set_interest(fd, ev, mode)
+    }
+
+    /// Sets the interest in a file descriptor that is in the sources set.
+    fn set_interest(&self, fd: BorrowedFd<'_>, ev: Event, mode: PollMode) -> io::Result<()> {
         let span = if !self.notify.has_fd(fd) {
             let span = tracing::trace_span!(
                 "add",
@@ -113,8 +125,6 @@ impl Poller {
         };
         let _enter = span.as_ref().map(|s| s.enter());
 
-        self.has_source(SourceId::Fd(fd.as_raw_fd()))?;
-
         let mode_flags = mode_to_flags(mode);
 
         let read_flags = if ev.readable {
@@ -179,6 +189,11 @@ impl Poller {
         Ok(())
     }
 
+    /// Lock out the other operations that change a registration.
+    pub(crate) fn lock_changes(&self) -> MutexGuard<'_, ()> {
+        self.changes.lock().unwrap_or_else(|e| e.into_inner())
+    }
+
     /// Add a source to the sources set.
     #[inline]
     pub(crate) fn add_source(&self, source: SourceId) -> io::Result<()> {
@@ -226,8 +241,11 @@ impl Poller {
 
     /// Deletes a file descriptor.
     pub fn delete(&self, fd: BorrowedFd<'_>) -> io::Result<()> {
+        let _changes = self.lock_changes();
+        self.has_source(SourceId::Fd(fd.as_raw_fd()))?;
+
         // Simply delete interest in the file descriptor.
-        self.modify(fd, Event::none(0), PollMode::Oneshot)?;
+        self.set_interest(fd, Event::none(0), PollMode::Oneshot)?;
 
         self.remove_source(SourceId::Fd(fd.as_raw_fd()))
     }
diff --git a/src/os/kqueue.rs b/src/os/kqueue.rs
index 35cfc4b..d08f95c 100644
--- a/src/os/kqueue.rs
+++ b/src/os/kqueue.rs
@@ -99,9 +99,11 @@ impl<F: Filter> PollerKqueueExt<F> for Poller {
     #[inline(always)]
     fn add_filter(&self, filter: F, key: usize, mode: PollMode) -> io::Result<()> {
         // No difference between adding and modifying in kqueue.
+        let _changes = self.poller.lock_changes();
         let source = filter.source_id();
         self.poller.add_source(source)?;
-        let res = self.modify_filter(filter, key, mode);
+        let event = filter.filter(kqueue::EventFlags::ADD | mode_to_flags(mode), key);
+        let res = self.poller.submit_changes([event]);
         if res.is_err() {
             let _ = self.poller.remove_source(source);
         }
@@ -109,6 +111,7 @@ impl<F: Filter> PollerKqueueExt<F> for Poller {
     }
 
     fn modify_filter(&self, filter: F, key: usize, mode: PollMode) -> io::Result<()> {
+        let _changes = self.poller.lock_changes();
         self.poller.has_source(filter.source_id())?;
 
         // Convert the filter into a kevent.
@@ -119,6 +122,8 @@ impl<F: Filter> PollerKqueueExt<F> for Poller {
     }
 
     fn delete_filter(&self, filter: F) -> io::Result<()> {
+        let _changes = self.poller.lock_changes();
+
         // Convert the filter into a kevent.
         let event = filter.filter(kqueue::EventFlags::DELETE, 0);
 
-- 
2.43.0


From 80faedc655f49b5f957afaccb5c360db822d44c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:01 +0000
Subject: [PATCH 11/12] fix: ask for the priority events of an interest (event
 ports)

---
 src/port.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/port.rs b/src/port.rs
index 57e0ed2..76b4a12 100644
--- a/src/port.rs
+++ b/src/port.rs
@@ -69,6 +69,7 @@ impl Poller {
         if ev.writable {
             flags |= write_flags();
         }
+        flags |= ev.extra.flags & (PollFlags::HUP | PollFlags::PRI);
 
         if mode != PollMode::Oneshot {
             return Err(crate::unsupported_error(
-- 
2.43.0


From 7a7e3c568c8fc1e9d0062a032b572e648a42f1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:37 +0000
Subject: [PATCH 12/12] fix: do not end waits of more than 24.8 days early

poll and epoll_wait take their timeout as a number of milliseconds in an
i32. A longer one was cut, and the wait returned when the part was over.
---
 src/epoll.rs | 5 +++++
 src/poll.rs  | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/epoll.rs b/src/epoll.rs
index 055a390..78b812b 100644
--- a/src/epoll.rs
+++ b/src/epoll.rs
@@ -212,6 +212,11 @@ impl Poller {
 
         // Wait for I/O events.
         epoll::wait(&self.epoll_fd, &mut events.list, timeout_ms)?;
+        if events.list.is_empty() && timeout_ms == i32::MAX {
+            // The timeout was too long for a single call.
+            let passed = Duration::from_millis(timeout_ms as u64);
+            return self.wait(events, timeout.map(|t| t.saturating_sub(passed)));
+        }
         tracing::trace!(
             epoll_fd = ?self.epoll_fd.as_raw_fd(),
             res = ?events.list.len(),
diff --git a/src/poll.rs b/src/poll.rs
index 9ea513a..70f6b98 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -266,6 +266,10 @@ impl Poller {
 
             // Perform the poll.
             let num_events = poll(&mut fds.poll_fds, timeout_ms)?;
+            if num_events == 0 && timeout_ms == std::i32::MAX {
+                // The timeout was too long for a single poll.
+                continue;
+            }
             let notified = !fds.poll_fds[0].revents().is_empty();
             let num_fd_events = if notified { num_events - 1 } else { num_events };
             tracing::trace!(?num_events, ?notified, ?num_fd_events, "new events",);
-- 
2.43.0

