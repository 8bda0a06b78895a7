From 8a15c467ef602beb2b53a59c6daa04a6a78d9fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 01/13] fix: epoll: do not leak the flags of a delivered event
 into an interest made from it

---
 src/epoll.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/epoll.rs b/src/epoll.rs
index 331874b..508be1e 100644
--- a/src/epoll.rs
+++ b/src/epoll.rs
@@ -114,7 +114,7 @@ impl Poller {
             &self.epoll_fd,
             unsafe { rustix::fd::BorrowedFd::borrow_raw(fd) },
             epoll::EventData::new_u64(ev.key as u64),
-            epoll_flags(&ev, mode) | ev.extra.flags,
+            epoll_flags(&ev, mode),
         )?;
 
         Ok(())
@@ -134,7 +134,7 @@ impl Poller {
             &self.epoll_fd,
             fd,
             epoll::EventData::new_u64(ev.key as u64),
-            epoll_flags(&ev, mode) | ev.extra.flags,
+            epoll_flags(&ev, mode),
         )?;
 
         Ok(())
@@ -289,7 +289,9 @@ fn epoll_flags(interest: &Event, mode: PollMode) -> epoll::EventFlags {
     if interest.writable {
         flags |= write_flags();
     }
-    flags
+    // Only the flags that can be requested: the interest may come from a delivered event, which
+    // carries everything that was reported.
+    flags | (interest.extra.flags & (epoll::EventFlags::HUP | epoll::EventFlags::PRI))
 }
 
 /// Epoll flags for all possible readability events.
-- 
2.43.0


From cdb473acc6715c1b40d698a4f06c5d4c612fed2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 02/13] fix: poll: leave the registration alone when modify()
 fails with an unsupported mode

---
 src/poll.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/poll.rs b/src/poll.rs
index 45407c7..82837f1 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -156,6 +156,7 @@ impl Poller {
                 .fd_data
                 .get_mut(&fd.as_raw_fd())
                 .ok_or(io::ErrorKind::NotFound)?;
+            let remove = cvt_mode_as_remove(mode)?;
             data.key = ev.key;
             let poll_fds_index = data.poll_fds_index;
 
@@ -165,7 +166,7 @@ impl Poller {
                 unsafe { BorrowedFd::borrow_raw(fd.as_raw_fd()) },
                 poll_events(ev),
             );
-            data.remove = cvt_mode_as_remove(mode)?;
+            data.remove = remove;
 
             Ok(())
         })
-- 
2.43.0


From c91e42ff4123f880a0c30fc08fe7f2151a1822b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 03/13] fix: poll: honor a priority interest without a readable
 one

---
 src/poll.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/poll.rs b/src/poll.rs
index 82837f1..d2aafe0 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -350,6 +350,10 @@ fn poll_events(ev: Event) -> PollFlags {
         PollFlags::OUT | PollFlags::WRBAND
     } else {
         PollFlags::empty()
+    }) | (if ev.extra.is_pri() {
+        PollFlags::PRI
+    } else {
+        PollFlags::empty()
     })
 }
 
-- 
2.43.0


From 22fce3fd51e63ab3d10b1b181c2ed370a0be2b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 04/13] fix: poll: do not fail wait() when a notification has
 no byte in the pipe

---
 src/poll.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/poll.rs b/src/poll.rs
index d2aafe0..d066cc2 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -222,8 +222,9 @@ impl Poller {
             loop {
                 if self.notified.swap(false, Ordering::SeqCst) {
                     // `notify` will have sent a notification in case we were polling. We weren't,
-                    // so remove it.
-                    return self.notify.pop_notification();
+                    // so remove it. It may not have arrived yet, or may have been removed by an
+                    // operation.
+                    return self.notify.pop_all_notifications();
                 } else if self.waiting_operations.load(Ordering::SeqCst) == 0 {
                     break;
                 }
-- 
2.43.0


From fb0232e83eeb1edd7be884c0dba4759d966a135f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 05/13] fix: poll: do not report errors and hangups of a
 delivered oneshot source again

poll() reports POLLERR, POLLHUP and POLLNVAL even for entries without any
requested events, so clearing the events of a delivered oneshot source did
not silence it: it kept being reported on every wait, or made waits return
early. Take the entry out of the poll list until the source is modified.
---
 src/poll.rs | 62 +++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 44 insertions(+), 18 deletions(-)

diff --git a/src/poll.rs b/src/poll.rs
index d066cc2..bf75e7e 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -58,13 +58,29 @@ struct Fds {
 #[derive(Debug)]
 struct FdData {
     /// The index into `poll_fds` this file descriptor is.
-    poll_fds_index: usize,
+    ///
+    /// `None` if a oneshot event was delivered and the interest was not renewed since: `poll` would
+    /// report errors and hangups even for an entry without any events.
+    poll_fds_index: Option<usize>,
     /// The key of the `Event` associated with this file descriptor.
     key: usize,
     /// Whether to remove this file descriptor from the poller on the next call to `wait`.
     remove: bool,
 }
 
+impl Fds {
+    /// Removes an entry of `poll_fds`, keeping the index of the entry that takes its place.
+    fn remove_poll_fd(&mut self, index: usize) {
+        self.poll_fds.swap_remove(index);
+        if let Some(swapped_pollfd) = self.poll_fds.get(index) {
+            self.fd_data
+                .get_mut(&swapped_pollfd.as_fd().as_raw_fd())
+                .unwrap()
+                .poll_fds_index = Some(index);
+        }
+    }
+}
+
 impl Poller {
     /// Creates a new poller.
     pub fn new() -> io::Result<Poller> {
@@ -121,7 +137,7 @@ impl Poller {
             fds.fd_data.insert(
                 fd,
                 FdData {
-                    poll_fds_index,
+                    poll_fds_index: Some(poll_fds_index),
                     key: ev.key,
                     remove: cvt_mode_as_remove(mode)?,
                 },
@@ -158,14 +174,20 @@ impl Poller {
                 .ok_or(io::ErrorKind::NotFound)?;
             let remove = cvt_mode_as_remove(mode)?;
             data.key = ev.key;
-            let poll_fds_index = data.poll_fds_index;
 
             // SAFETY: This is essentially transmuting a `PollFd<'a>` to a `PollFd<'static>`, which
             // only works if it's removed in time with `delete()`.
-            fds.poll_fds[poll_fds_index] = PollFd::from_borrowed_fd(
+            let poll_fd = PollFd::from_borrowed_fd(
                 unsafe { BorrowedFd::borrow_raw(fd.as_raw_fd()) },
                 poll_events(ev),
             );
+            match data.poll_fds_index {
+                Some(index) => fds.poll_fds[index] = poll_fd,
+                None => {
+                    data.poll_fds_index = Some(fds.poll_fds.len());
+                    fds.poll_fds.push(poll_fd);
+                }
+            }
             data.remove = remove;
 
             Ok(())
@@ -190,12 +212,8 @@ impl Poller {
                 .fd_data
                 .remove(&fd.as_raw_fd())
                 .ok_or(io::ErrorKind::NotFound)?;
-            fds.poll_fds.swap_remove(data.poll_fds_index);
-            if let Some(swapped_pollfd) = fds.poll_fds.get(data.poll_fds_index) {
-                fds.fd_data
-                    .get_mut(&swapped_pollfd.as_fd().as_raw_fd())
-                    .unwrap()
-                    .poll_fds_index = data.poll_fds_index;
+            if let Some(index) = data.poll_fds_index {
+                fds.remove_poll_fd(index);
             }
 
             Ok(())
@@ -267,13 +285,17 @@ impl Poller {
             // Store the events if there were any.
             if num_fd_events > 0 {
                 let fds = &mut *fds;
+                let mut delivered_oneshots = Vec::new();
 
                 events.inner.reserve(num_fd_events);
-                for fd_data in fds.fd_data.values_mut() {
-                    let poll_fd = &mut fds.poll_fds[fd_data.poll_fds_index];
-                    if !poll_fd.revents().is_empty() {
+                for (&fd, fd_data) in &fds.fd_data {
+                    let index = match fd_data.poll_fds_index {
+                        Some(index) => index,
+                        None => continue,
+                    };
+                    let revents = fds.poll_fds[index].revents();
+                    if !revents.is_empty() {
                         // Store event
-                        let revents = poll_fd.revents();
                         events.inner.push(Event {
                             key: fd_data.key,
                             readable: revents.intersects(read_events()),
@@ -282,10 +304,7 @@ impl Poller {
                         });
                         // Remove interest if necessary
                         if fd_data.remove {
-                            *poll_fd = PollFd::from_borrowed_fd(
-                                unsafe { BorrowedFd::borrow_raw(poll_fd.as_fd().as_raw_fd()) },
-                                PollFlags::empty(),
-                            );
+                            delivered_oneshots.push(fd);
                         }
 
                         if events.inner.len() == num_fd_events {
@@ -293,6 +312,13 @@ impl Poller {
                         }
                     }
                 }
+
+                for fd in delivered_oneshots {
+                    let data = fds.fd_data.get_mut(&fd).unwrap();
+                    if let Some(index) = data.poll_fds_index.take() {
+                        fds.remove_poll_fd(index);
+                    }
+                }
             }
 
             break;
-- 
2.43.0


From 64238c77df638fc7a2b9df80ae4b4215bcdef905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:38 +0000
Subject: [PATCH 06/13] fix: kqueue: forget a source whose registration the
 system refused

add() and add_filter() put the source in the set of registered sources
before asking the system. When kevent() refused it (a process that is
gone, no memory), the source stayed in the set, and possibly one of its
two directions in the kernel: adding it again failed with AlreadyExists.
---
 src/kqueue.rs    | 11 ++++++++++-
 src/os/kqueue.rs | 12 ++++++++++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/kqueue.rs b/src/kqueue.rs
index 860bc5a..3ddb41f 100644
--- a/src/kqueue.rs
+++ b/src/kqueue.rs
@@ -88,7 +88,16 @@ impl Poller {
         self.add_source(SourceId::Fd(fd))?;
 
         // File descriptors don't need to be added explicitly, so just modify the interest.
-        self.modify(BorrowedFd::borrow_raw(fd), ev, mode)
+        let borrowed = BorrowedFd::borrow_raw(fd);
+        let res = self.modify(borrowed, ev, mode);
+
+        // If the system refused it, don't leave half of a registration behind.
+        if res.is_err() {
+            let _ = self.modify(borrowed, Event::none(0), PollMode::Oneshot);
+            let _ = self.remove_source(SourceId::Fd(fd));
+        }
+
+        res
     }
 
     /// Modifies an existing file descriptor.
diff --git a/src/os/kqueue.rs b/src/os/kqueue.rs
index 5045cb4..cab4ab4 100644
--- a/src/os/kqueue.rs
+++ b/src/os/kqueue.rs
@@ -99,8 +99,16 @@ impl<F: Filter> PollerKqueueExt<F> for Poller {
     #[inline(always)]
     fn add_filter(&self, filter: F, key: usize, mode: PollMode) -> io::Result<()> {
         // No difference between adding and modifying in kqueue.
-        self.poller.add_source(filter.source_id())?;
-        self.modify_filter(filter, key, mode)
+        let source = filter.source_id();
+        self.poller.add_source(source)?;
+        let res = self.modify_filter(filter, key, mode);
+
+        // If the system refused it, the filter is not registered.
+        if res.is_err() {
+            let _ = self.poller.remove_source(source);
+        }
+
+        res
     }
 
     fn modify_filter(&self, filter: F, key: usize, mode: PollMode) -> io::Result<()> {
-- 
2.43.0


From 407efe2ae20c1a715a163fcf6cc35a032098b6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:00 +0000
Subject: [PATCH 07/13] fix: iocp: do not lose an update queued while a wait
 falls asleep

update_packet() looked at `polling` and then queued the packet. A wait
that set `polling` and drained the queue in between went to sleep without
it: a source added or modified from another thread at that moment was not
watched before some other event ended the wait.
---
 src/iocp/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/iocp/mod.rs b/src/iocp/mod.rs
index 3a66186..021418e 100644
--- a/src/iocp/mod.rs
+++ b/src/iocp/mod.rs
@@ -513,7 +513,14 @@ impl Poller {
 
             // Try to queue the update.
             match self.pending_updates.push(packet) {
-                Ok(()) => return Ok(()),
+                Ok(()) => {
+                    // A wait may have drained the queue and gone to sleep since we looked.
+                    if self.polling.load(Ordering::SeqCst) {
+                        self.drain_update_queue(true)?;
+                    }
+
+                    return Ok(());
+                }
                 Err(p) => packet = p.into_inner(),
             }
 
-- 
2.43.0


From ce5dad1c3ed693abd9bdcab8efe188fc210b70a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:26 +0000
Subject: [PATCH 08/13] fix: iocp: report a waitable no more once it is removed
 or disabled

A handle that was signaled before remove_waitable() or before it was
disabled was reported by the next wait nevertheless, in the latter case by
an event without any direction. One modified between its signal and the
next wait was waited for a second time, and then reported twice.
---
 src/iocp/mod.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/iocp/mod.rs b/src/iocp/mod.rs
index 021418e..e8b5cc5 100644
--- a/src/iocp/mod.rs
+++ b/src/iocp/mod.rs
@@ -863,8 +863,13 @@ impl PacketUnwrapped {
                             None => return,
                         };
 
-                        // Set us back into the idle state.
-                        handle.status = WaitableStatus::Idle;
+                        // If we were deleted in the meantime, there is nobody to tell.
+                        if matches!(handle.status, WaitableStatus::Cancelled) {
+                            return;
+                        }
+
+                        // The wait is over. A new one is started once the packet is delivered.
+                        handle.status = WaitableStatus::Posted;
 
                         // Push this packet.
                         drop(handle);
@@ -961,6 +966,19 @@ impl PacketUnwrapped {
                 let mut handle = lock!(handle.lock());
                 let event = handle.interest;
 
+                // If we were deleted in the meantime, there is nothing to report.
+                if matches!(handle.status, WaitableStatus::Cancelled) {
+                    return Ok(FeedEventResult::NoEvent);
+                }
+
+                // Put ourselves into the idle state.
+                handle.status = WaitableStatus::Idle;
+
+                // If we were disabled in the meantime, neither.
+                if !event.readable && !event.writable {
+                    return Ok(FeedEventResult::NoEvent);
+                }
+
                 // Clear the events if we are in one-shot mode.
                 if matches!(handle.mode, PollMode::Oneshot) {
                     handle.interest = Event::none(handle.interest.key);
@@ -1175,6 +1193,9 @@ enum WaitableStatus {
     /// We are waiting on this handle to become signaled.
     Waiting(#[allow(dead_code)] WaitHandle),
 
+    /// The handle became signaled, and our packet is on its way to the poller.
+    Posted,
+
     /// This handle has been cancelled.
     Cancelled,
 }
-- 
2.43.0


From 3962c086977049b05e0ea80c6991845c96f6aa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:26 +0000
Subject: [PATCH 09/13] fix: iocp: end the waits for waitables with the poller

The wait registered for a handle owns its packet, and the packet the wait.
Dropping the poller left both behind, and the wait took the signal of an
auto-reset handle from whoever waited for it next.
---
 src/iocp/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/iocp/mod.rs b/src/iocp/mod.rs
index e8b5cc5..ae05418 100644
--- a/src/iocp/mod.rs
+++ b/src/iocp/mod.rs
@@ -601,6 +601,16 @@ impl Poller {
     }
 }
 
+impl Drop for Poller {
+    fn drop(&mut self) {
+        // Waits that are still registered keep their packet, and thereby themselves, alive. They would
+        // also keep taking the signals of handles that wake a single waiter.
+        for (_, packet) in lock!(self.waitables.get_mut()).drain() {
+            packet.begin_delete().ok();
+        }
+    }
+}
+
 impl AsRawHandle for Poller {
     fn as_raw_handle(&self) -> RawHandle {
         self.port.as_raw_handle()
-- 
2.43.0


From f9fcfcbbab9333c75d703e89aa1cab557d5892dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:58 +0000
Subject: [PATCH 10/13] fix: iocp: forget a source or waitable whose
 registration the system refused

When the update of a new socket or waitable failed, add returned the error
but the source stayed in the map, so that adding it again failed with
AlreadyExists.
---
 src/iocp/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/iocp/mod.rs b/src/iocp/mod.rs
index ae05418..4f88ef0 100644
--- a/src/iocp/mod.rs
+++ b/src/iocp/mod.rs
@@ -228,7 +228,13 @@ impl Poller {
         }
 
         // Update the packet.
-        self.update_packet(socket_state)
+        self.update_packet(socket_state).map_err(|e| {
+            // The source could not be registered: forget about it.
+            if let Some(source) = lock!(self.sources.write()).remove(&socket) {
+                source.begin_delete().ok();
+            }
+            e
+        })
     }
 
     /// Update a source in the poller.
@@ -353,7 +359,13 @@ impl Poller {
         }
 
         // Update the packet.
-        self.update_packet(handle_state)
+        self.update_packet(handle_state).map_err(|e| {
+            // The waitable could not be registered: forget about it.
+            if let Some(source) = lock!(self.waitables.write()).remove(&handle) {
+                source.begin_delete().ok();
+            }
+            e
+        })
     }
 
     /// Update a waitable in the poller.
-- 
2.43.0


From 8868d2ec3cbcfa6940de7a4c63b31678ffbaa823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:58 +0000
Subject: [PATCH 11/13] fix: iocp: release the packet of a poll the system
 refused to start

The packet stayed locked (and leaked), so that every later poll of the
socket was taken for one in flight and the socket was never reported again.
---
 src/iocp/afd.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iocp/afd.rs b/src/iocp/afd.rs
index 5445874..33a3b2d 100644
--- a/src/iocp/afd.rs
+++ b/src/iocp/afd.rs
@@ -493,6 +493,12 @@ where
             STATUS_SUCCESS => Ok(()),
             STATUS_PENDING => Err(io::ErrorKind::WouldBlock.into()),
             status => {
+                // The operation was not started: take the packet back, so that it can be polled again.
+                // SAFETY: The pointer was obtained from `into_ptr` above, and nothing else will use it.
+                unsafe {
+                    T::from_ptr(iosb.cast()).get().unlock();
+                }
+
                 let real_code = unsafe { ntdll.RtlNtStatusToDosError(status) };
 
                 Err(io::Error::from_raw_os_error(real_code as i32))
-- 
2.43.0


From ed2431101d8ab2bcd2f7a7373130bc65e5d7b423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:00 +0000
Subject: [PATCH 12/13] fix: poll: do not block in pop_notification on Vita

add, modify and delete take their own wake-up out of the pipe again, with a
read that was made blocking on Vita. A wait that was blocked meanwhile has
usually consumed it already, so that the call never returned and kept the
lock. The error of an empty pipe is ignored there, and a byte that arrives
later is skipped by the next wait.
---
 src/poll.rs | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/src/poll.rs b/src/poll.rs
index bf75e7e..6afbce4 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -731,25 +731,11 @@ mod notify {
 
         /// Pops a notification (if any) from the pipe.
         pub(super) fn pop_notification(&self) -> Result<(), io::Error> {
-            // Pipes on Vita do not guarantee that after `write` call succeeds, the
-            // data becomes immediately available for reading on the other side of the pipe.
-            // To ensure that the notification is not lost, the read side of the pipe is temporarily
-            // switched to blocking for a single `read` call.
-            #[cfg(target_os = "vita")]
-            rustix::fs::fcntl_setfl(
-                &self.read_pipe,
-                rustix::fs::fcntl_getfl(&self.read_pipe)? & !rustix::fs::OFlags::NONBLOCK,
-            )?;
-
-            let result = read(&self.read_pipe, &mut [0; 1]);
-
-            #[cfg(target_os = "vita")]
-            rustix::fs::fcntl_setfl(
-                &self.read_pipe,
-                rustix::fs::fcntl_getfl(&self.read_pipe)? | rustix::fs::OFlags::NONBLOCK,
-            )?;
-
-            result?;
+            // The notification may have been removed by the caller of `wait` already. On Vita, it may
+            // also not have arrived yet, as pipes there do not guarantee that after a `write` call
+            // succeeds, the data becomes immediately available for reading. So this must not block;
+            // a notification that is left is skipped by the next call to `wait`.
+            read(&self.read_pipe, &mut [0; 1])?;
 
             Ok(())
         }
-- 
2.43.0


From 7563f20a0d33b1fab674faa3fb0972cc93539b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:00 +0000
Subject: [PATCH 13/13] fix: poll: make the event descriptor non-blocking on
 Hermit

As on ESP-IDF, where it always is: when a wait has consumed the wake-up of
add, modify or delete first, or an operation that of notify, reading it blocked
for ever.
---
 src/poll.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/poll.rs b/src/poll.rs
index 6afbce4..ea9d523 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -509,7 +509,8 @@ mod syscall {
 
     /// Create an eventfd.
     pub(super) fn eventfd(count: u64, _flags: EventfdFlags) -> io::Result<OwnedFd> {
-        let fd = unsafe { hermit_abi::eventfd(count, 0) };
+        // Reading it must not block: the notification may have been removed by another thread.
+        let fd = unsafe { hermit_abi::eventfd(count, hermit_abi::EFD_NONBLOCK) };
 
         if fd < 0 {
             Err(io::Error::from_raw_os_error(unsafe {
-- 
2.43.0

