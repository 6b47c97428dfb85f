From 52b869d0f51e07834561fe95c64d62ce857f8507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:25 +0000
Subject: [PATCH 01/42] fix: check locks again once the device has been
 obtained

A handle waiting for a busy device could be handed the device although another
handle was granted a lock while it waited.
---
 device/src/lock.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/device/src/lock.rs b/device/src/lock.rs
index 6595319..0b286cd 100644
--- a/device/src/lock.rs
+++ b/device/src/lock.rs
@@ -346,7 +346,10 @@ impl<DEV> LockHandle<DEV> {
         // Check any active locks
         self.can_lock()?;
         // Lock device and return a guard
-        self.device.try_lock().ok_or(SharedLockError::Busy)
+        let guard = self.device.try_lock().ok_or(SharedLockError::Busy)?;
+        // A lock may have been granted to someone else in the meantime
+        self.can_lock()?;
+        Ok(guard)
     }
 
     /// Lock device if allowed
@@ -366,8 +369,11 @@ impl<DEV> LockHandle<DEV> {
                     futures::select! {
                         // Device acquired
                         guard = self.device.lock() => {
-                            log::trace!(id=self.id; "Locked!");
-                            return Ok(guard)
+                            // A lock may have been granted to someone else while waiting
+                            if self.can_lock().is_ok() {
+                                log::trace!(id=self.id; "Locked!");
+                                return Ok(guard)
+                            }
                         },
                         // Interrupted by a new lock being granted/released
                         _event = l => {
@@ -447,7 +453,10 @@ impl<DEV> RemoteLockHandle<DEV> {
         // Check any active locks
         self.can_lock()?;
         // Lock device and return a guard
-        self.device.try_lock().ok_or(SharedLockError::Busy)
+        let guard = self.device.try_lock().ok_or(SharedLockError::Busy)?;
+        // A lock may have been granted to someone else in the meantime
+        self.can_lock()?;
+        Ok(guard)
     }
 
     /// Wait for device becoming onlocked (or handle acquiring a lock) and available
@@ -470,8 +479,11 @@ impl<DEV> RemoteLockHandle<DEV> {
                     futures::select! {
                         // Device acquired
                         guard = self.device.lock() => {
-                            log::trace!("Locked!");
-                            return Ok(guard)
+                            // A lock may have been granted to someone else while waiting
+                            if self.can_lock().is_ok() {
+                                log::trace!("Locked!");
+                                return Ok(guard)
+                            }
                         },
                         // Interrupted by a new lock being granted/released
                         _event = l => {
-- 
2.43.0


From ef746783e6761dad4069a7de8b6bca93652e5c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:25 +0000
Subject: [PATCH 02/42] fix: do not keep listeners of finished or cancelled
 waits

Every wait for a device left its listener behind until some lock changed hands,
so memory grew without bound when no locks are used.
---
 device/src/lock.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/device/src/lock.rs b/device/src/lock.rs
index 0b286cd..8732ffa 100644
--- a/device/src/lock.rs
+++ b/device/src/lock.rs
@@ -79,6 +79,8 @@ impl SharedLock {
 
     fn listen(&mut self) -> Receiver<()> {
         let (sender, receiver) = channel();
+        // Forget listeners that stopped waiting
+        self.event.retain(|sender| !sender.is_canceled());
         self.event.push(sender);
         receiver
     }
-- 
2.43.0


From 70fd15977f5db9cfb04b27aa7c1b77d027ec5df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:14 +0000
Subject: [PATCH 03/42] fix: keep HiSLIP message boundaries for oversized and
 truncated messages

The payload of a message above the limit was left in the stream and parsed
as the next header, and a message cut short by the end of the stream was
processed as if complete.
---
 hislip/src/common/messages.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/hislip/src/common/messages.rs b/hislip/src/common/messages.rs
index 960c427..0c4a694 100644
--- a/hislip/src/common/messages.rs
+++ b/hislip/src/common/messages.rs
@@ -64,12 +64,17 @@ impl Message {
         let message_parameter = BigEndian::read_u32(&buf[4..8]);
 
         if len > maxlen {
+            // Skip the payload to stay in step with the message boundaries
+            let mut payload = reader.take(len);
+            if futures::io::copy(&mut payload, &mut futures::io::sink()).await? < len {
+                return Err(io::ErrorKind::UnexpectedEof.into());
+            }
             Ok(Err(Error::NonFatal(
                 NonFatalErrorCode::MessageTooLarge,
                 "Message payload too large".to_string(),
             )))
         } else {
-            let mut payload = Vec::with_capacity(len as usize);
+            let mut payload = Vec::new();
             if payload.try_reserve_exact(len as usize).is_err() {
                 return Ok(Err(Error::Fatal(
                     FatalErrorCode::UnidentifiedError,
@@ -77,6 +82,10 @@ impl Message {
                 )));
             }
             reader.take(len).read_to_end(&mut payload).await?;
+            if (payload.len() as u64) < len {
+                // Message was cut short by end of stream
+                return Err(io::ErrorKind::UnexpectedEof.into());
+            }
             match MessageType::from_message_type(buf[2]).ok_or_else(|| {
                 Error::NonFatal(
                     NonFatalErrorCode::UnrecognizedMessageType,
-- 
2.43.0


From 39cd4dc71b139aa4118fc8b2e0dd0241a1013283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:14 +0000
Subject: [PATCH 04/42] fix: refuse a second AsyncInitialize for a HiSLIP
 session

---
 hislip/src/server/session/mod.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/hislip/src/server/session/mod.rs b/hislip/src/server/session/mod.rs
index afba926..f09ea75 100644
--- a/hislip/src/server/session/mod.rs
+++ b/hislip/src/server/session/mod.rs
@@ -62,11 +62,7 @@ impl SharedSession {
 
     #[must_use]
     pub(crate) fn is_initialized(&self) -> bool {
-        // !matches!(self.state, SessionState::Handshake) // Just looks weird
-        match self.state {
-            SessionState::Handshake => false,
-            _ => false,
-        }
+        !matches!(self.state, SessionState::Handshake)
     }
 
     /// Get the session's protocol.
-- 
2.43.0


From 1797148bd081a1587d1f62b60696b958f9608258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:14 +0000
Subject: [PATCH 05/42] fix: do not panic on a short AsyncEndTLS payload

---
 hislip/src/server/session/asynchronous.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index 3b23d4e..7d0c459 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -426,6 +426,13 @@ where
                         } if protocol >= PROTOCOL_2_0 => {
                             // Only supported >= 2.0
 
+                            if payload.len() != 4 {
+                                send_fatal!(peer=peer.to_string(), session_id=self.id;
+                                    &mut wr, FatalErrorCode::PoorlyFormattedMessageHeader,
+                                    "Expected 4 bytes in AsyncEndTLS payload"
+                                )
+                            }
+
                             let _control = RmtDeliveredControl(control_code);
                             let message_id_sent = message_parameter;
                             let message_id_read = NetworkEndian::read_u32(&payload);
-- 
2.43.0


From c8db4c8207954777e4f740f9f6044efb023def48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:47 +0000
Subject: [PATCH 06/42] fix: do not close a HiSLIP session when the status
 changes again

A status change while a service request was outstanding was taken for a
shutdown of the server, and only one change was noticed per message.
---
 hislip/src/server/session/asynchronous.rs | 34 +++++++++++------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index 7d0c459..b49f3a6 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -76,29 +76,29 @@ where
             let read_msg = Message::read_from(&mut rd, self.config.max_message_size).fuse();
             pin_mut!(read_msg);
 
-            let t = match futures::future::select(read_msg, srq.next()).await {
-                // Message was received
-                Either::Left((msg, _)) => msg,
-                // Status changed
-                Either::Right((stb, read_msg)) => {
-                    // Send SRQ
-                    match stb {
-                        Some(val) if !srq_bit => {
-                            srq_bit = true;
-                            MessageType::AsyncServiceRequest
-                                .message_params(val, 0)
-                                .write_to(&mut wr)
-                                .await?
+            let t = loop {
+                match futures::future::select(read_msg.as_mut(), srq.next()).await {
+                    // Message was received
+                    Either::Left((msg, _)) => break msg,
+                    // Status changed
+                    Either::Right((stb, _)) => match stb {
+                        // Send SRQ, only once until status has been queried
+                        Some(val) => {
+                            if !srq_bit {
+                                srq_bit = true;
+                                MessageType::AsyncServiceRequest
+                                    .message_params(val, 0)
+                                    .write_to(&mut wr)
+                                    .await?
+                            }
                         }
-                        _ => {
+                        None => {
                             send_fatal!(peer=peer.to_string(), session_id=self.id;
                                 &mut wr, FatalErrorCode::UnidentifiedError,
                                 "Server shutdown",
                             );
                         }
-                    }
-                    // Finish receiving message
-                    read_msg.await
+                    },
                 }
             }?;
 
-- 
2.43.0


From 8c68c66a226f92487f223f645fa82b702492c7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:47 +0000
Subject: [PATCH 07/42] fix: go to remote when asked to enable remote and go to
 remote

---
 hislip/src/server/session/asynchronous.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index b49f3a6..6b4443f 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -242,7 +242,7 @@ where
                                     //Enable remote and go to remote
                                     shared.enable_remote = true;
                                     let mut dev = handle.async_lock().await.unwrap();
-                                    dev.set_remote(false)
+                                    dev.set_remote(true)
                                 }
                                 4 => {
                                     // Enable remote and lock out local
-- 
2.43.0


From a187839a8fb20377bfc8d06dbbd57f7d8bab2f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:47 +0000
Subject: [PATCH 08/42] fix: answer HiSLIP lock requests with the codes of the
 specification

A lock which cannot be granted right away is a failure (0), not an error,
and an error is 3 (2 is the successful release of a shared lock).
---
 hislip/src/common/messages.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hislip/src/common/messages.rs b/hislip/src/common/messages.rs
index 0c4a694..df8bdfe 100644
--- a/hislip/src/common/messages.rs
+++ b/hislip/src/common/messages.rs
@@ -452,13 +452,15 @@ impl Display for FeatureBitmap {
 pub(crate) enum RequestLockControl {
     Failure = 0,
     Success = 1,
-    Error = 2,
+    Error = 3,
 }
 
 impl From<SharedLockError> for RequestLockControl {
     fn from(err: SharedLockError) -> Self {
         match err {
-            SharedLockError::Timeout => RequestLockControl::Failure,
+            SharedLockError::Timeout
+            | SharedLockError::LockedByShared
+            | SharedLockError::LockedByExclusive => RequestLockControl::Failure,
             _ => RequestLockControl::Error,
         }
     }
-- 
2.43.0


From c8b2dab8938374cd21c4262580fbb3da5573f3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:20 +0000
Subject: [PATCH 09/42] fix: do not keep a HiSLIP session's handle and state
 locked while waiting

The async session waited for locks and for the device with the spin lock of
its handle (and the shared state) taken, which blocks its sync session's
thread, or deadlocks with it.
---
 hislip/src/server/session/asynchronous.rs | 47 +++++++++++------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index 6b4443f..730279d 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -10,7 +10,9 @@ use byteorder::{ByteOrder, NetworkEndian};
 use futures::future::Either;
 use futures::lock::Mutex;
 use futures::{pin_mut, AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, FutureExt, Stream};
-use lxi_device::lock::{LockHandle, SharedLockError, SharedLockMode, SpinMutex};
+use lxi_device::lock::{
+    LockHandle, RemoteLockHandle, SharedLockError, SharedLockMode, SpinMutex,
+};
 use lxi_device::{Device, DeviceError};
 
 use crate::common::errors::{Error, FatalErrorCode, NonFatalErrorCode};
@@ -72,6 +74,9 @@ where
         let (mut rd, mut wr) = stream.split();
         let mut srq_bit = false;
 
+        // Used whenever waiting for the device or a lock, waiting must not keep `self.handle` locked
+        let remote_handle = RemoteLockHandle::new(self.handle.clone());
+
         loop {
             let read_msg = Message::read_from(&mut rd, self.config.max_message_size).fuse();
             pin_mut!(read_msg);
@@ -147,8 +152,8 @@ where
                                 // Release
                                 let message_id = message_parameter;
                                 log::debug!(peer=peer.to_string(), session_id=self.id, message_id=message_id; "Release async lock");
-                                let mut handle = self.handle.lock();
-                                let control = match handle.try_release() {
+                                let res = self.handle.lock().try_release();
+                                let control = match res {
                                     Ok(SharedLockMode::Exclusive) => {
                                         ReleaseLockControl::SuccessExclusive
                                     }
@@ -174,16 +179,15 @@ where
 
                                         log::debug!(peer=peer.to_string(), session_id=self.id, timeout=timeout; "Async lock: {:?}", lockstr);
                                         // Try to acquire lock
-                                        let mut handle = self.handle.lock();
                                         let res = if timeout == 0 {
                                             // Try to lock immediately
-                                            handle.try_acquire(lockstr.as_bytes())
+                                            remote_handle.try_acquire(lockstr.as_bytes())
                                         } else {
                                             // Try to acquire lock before timeout
                                             // TODO: Cannot be cancelled by AsyncClearDevice
                                             future::timeout(
                                                 Duration::from_millis(timeout as u64),
-                                                handle.async_acquire(lockstr.as_bytes()),
+                                                remote_handle.async_acquire(lockstr.as_bytes()),
                                             )
                                             .await
                                             .map_err(|_| SharedLockError::Timeout)
@@ -216,57 +220,53 @@ where
                             ..
                         } => {
                             log::debug!(peer=peer.to_string(), session_id=self.id, message_id=message_id; "Remote/local request = {}", request);
-                            let mut shared = self.shared.lock().await;
-                            let handle = self.handle.lock();
                             let res = match request {
                                 0 => {
                                     // Disable remote
-                                    shared.enable_remote = false;
-                                    let mut dev = handle.async_lock().await.unwrap();
+                                    self.shared.lock().await.enable_remote = false;
+                                    let mut dev = remote_handle.async_lock().await.unwrap();
                                     dev.set_local_lockout(false);
                                     dev.set_remote(false)
                                 }
                                 1 => {
                                     // Enable remote
-                                    shared.enable_remote = true;
+                                    self.shared.lock().await.enable_remote = true;
                                     Ok(())
                                 }
                                 2 => {
                                     // Disable remote and go to local
-                                    shared.enable_remote = false;
-                                    let mut dev = handle.async_lock().await.unwrap();
+                                    self.shared.lock().await.enable_remote = false;
+                                    let mut dev = remote_handle.async_lock().await.unwrap();
                                     dev.set_local_lockout(false);
                                     dev.set_remote(false)
                                 }
                                 3 => {
                                     //Enable remote and go to remote
-                                    shared.enable_remote = true;
-                                    let mut dev = handle.async_lock().await.unwrap();
+                                    self.shared.lock().await.enable_remote = true;
+                                    let mut dev = remote_handle.async_lock().await.unwrap();
                                     dev.set_remote(true)
                                 }
                                 4 => {
                                     // Enable remote and lock out local
-                                    shared.enable_remote = true;
-                                    let mut dev = handle.async_lock().await.unwrap();
+                                    self.shared.lock().await.enable_remote = true;
+                                    let mut dev = remote_handle.async_lock().await.unwrap();
                                     dev.set_local_lockout(true);
                                     Ok(())
                                 }
                                 5 => {
                                     // Enable remote, got to remote, and set local lockout
-                                    shared.enable_remote = true;
-                                    let mut dev = handle.async_lock().await.unwrap();
+                                    self.shared.lock().await.enable_remote = true;
+                                    let mut dev = remote_handle.async_lock().await.unwrap();
                                     dev.set_local_lockout(true);
                                     dev.set_remote(true)
                                 }
                                 6 => {
                                     // Go to local without changing state of remote enable
-                                    let mut dev = handle.async_lock().await.unwrap();
+                                    let mut dev = remote_handle.async_lock().await.unwrap();
                                     dev.set_remote(false)
                                 }
                                 _ => Err(DeviceError::NotSupported),
                             };
-                            drop(shared);
-                            drop(handle);
 
                             match res {
                                 Ok(_) => {
@@ -350,9 +350,8 @@ where
                             let _control = RmtDeliveredControl(control_code);
 
                             let stb = {
+                                let mut dev = remote_handle.inner_lock().await;
                                 let shared = self.shared.lock().await;
-                                let handle = self.handle.lock();
-                                let mut dev = handle.inner_lock().await;
 
                                 // Calculate MAV bit
                                 let sent = shared.sent_message_id;
-- 
2.43.0


From ade23d89ab010572de00c6d260addb4d25f8c1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:20 +0000
Subject: [PATCH 10/42] fix: start a new message after the short HiSLIP
 identification response

---
 hislip/src/server/session/synchronous.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index a368cae..0e7a4ee 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -236,10 +236,9 @@ where
                                         {
                                             self.config.short_idn.clone()
                                         } else {
-                                            let data = dev.execute(&buffer);
-                                            buffer.clear();
-                                            data
+                                            dev.execute(&buffer)
                                         };
+                                        buffer.clear();
 
                                         // Send back response
                                         if let Some(data) = data {
-- 
2.43.0


From bb28b1fca06a85bcd61d5b887b61537b6fb9933a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:20 +0000
Subject: [PATCH 11/42] fix: do not panic on a maximum HiSLIP message size of
 zero

---
 hislip/src/server/session/synchronous.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index 0e7a4ee..5fb5db1 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -242,9 +242,13 @@ where
 
                                         // Send back response
                                         if let Some(data) = data {
-                                            let mut chunks = data
-                                                .chunks(shared.max_message_size as usize)
-                                                .peekable();
+                                            // Client may send any size, including zero
+                                            let max_message_size =
+                                                usize::try_from(shared.max_message_size)
+                                                    .unwrap_or(usize::MAX)
+                                                    .max(1);
+                                            let mut chunks =
+                                                data.chunks(max_message_size).peekable();
                                             drop(shared);
 
                                             while let Some(chunk) = chunks.next() {
-- 
2.43.0


From b726980c2eb42b4e73d2b4aa26935bab99527acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:20 +0000
Subject: [PATCH 12/42] fix: complete a device clear started while a response
 is sent or the device becomes available

The clear was forgotten when it interrupted a response, and the waiting
message could still be executed after the clear had been acknowledged.
---
 hislip/src/server/session/synchronous.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index 5fb5db1..8b34447 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -4,7 +4,7 @@ use std::str::from_utf8;
 use async_std::channel::Receiver;
 use async_std::sync::Arc;
 use futures::lock::Mutex;
-use futures::{select, AsyncRead, AsyncWrite, AsyncWriteExt, FutureExt};
+use futures::{select_biased, AsyncRead, AsyncWrite, AsyncWriteExt, FutureExt};
 use lxi_device::lock::RemoteLockHandle;
 use lxi_device::trigger::Source;
 use lxi_device::Device;
@@ -155,14 +155,14 @@ where
 
             // Wait for device becoming available or a lock is acquired
             // Abort the lock attempt if a clear device is started
-            let mut dev = select! {
-                res = self.handle.async_lock().fuse() => res.unwrap(),
+            let mut dev = select_biased! {
                 _abort = self.clear.recv().fuse() => {
                     // Clear buffer
                     buffer.clear();
                     self.clear_buffer(&mut stream, peer.clone(), msg).await?;
                     continue;
                 }
+                res = self.handle.async_lock().fuse() => res.unwrap(),
             };
 
             // Do not read messages unless a loc
@@ -252,8 +252,9 @@ where
                                             drop(shared);
 
                                             while let Some(chunk) = chunks.next() {
-                                                // Stop sending if a clear has been received on async channel
-                                                if self.clear.try_recv().is_ok() {
+                                                // Stop sending if a clear has been received on async channel,
+                                                // it is handled when the next message is received
+                                                if !self.clear.is_empty() {
                                                     break;
                                                 }
 
-- 
2.43.0


From 539908af4b2b5f41cfd4292848084b9e5c9025dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:04 +0000
Subject: [PATCH 13/42] fix: refuse an RPC record cut short by the end of the
 stream

---
 vxi11/src/common/onc_rpc/record.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vxi11/src/common/onc_rpc/record.rs b/vxi11/src/common/onc_rpc/record.rs
index d9eccdd..da9fba7 100644
--- a/vxi11/src/common/onc_rpc/record.rs
+++ b/vxi11/src/common/onc_rpc/record.rs
@@ -20,10 +20,13 @@ where
         if buf.len() + len > maxlen || buf.try_reserve(len).is_err() {
             return Err(ErrorKind::OutOfMemory.into());
         }
-        reader
+        let n = reader
             .take((fragment_len & 0x7FFFFFFF) as u64)
             .read_to_end(&mut buf)
             .await?;
+        if n != len {
+            return Err(ErrorKind::UnexpectedEof.into());
+        }
 
         // Check if last fragment
         if fragment_len & 0x80000000 != 0 {
-- 
2.43.0


From 2687d238321b1a8e89f533243a18908d89aa8bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:04 +0000
Subject: [PATCH 14/42] fix: refuse XDR opaque and string data shorter than its
 length

---
 vxi11/src/common/xdr/basic.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/vxi11/src/common/xdr/basic.rs b/vxi11/src/common/xdr/basic.rs
index c9dcb54..1a473aa 100644
--- a/vxi11/src/common/xdr/basic.rs
+++ b/vxi11/src/common/xdr/basic.rs
@@ -25,7 +25,7 @@
 #![allow(dead_code)]
 
 use byteorder::{NetworkEndian, ReadBytesExt, WriteBytesExt};
-use std::io::{Read, Result, Write};
+use std::io::{ErrorKind, Read, Result, Write};
 
 macro_rules! read_padding {
     ($reader:expr, $len:expr) => {
@@ -583,7 +583,11 @@ impl XdrDecode for Opaque {
         RD: Read,
     {
         let len = reader.read_u32::<NetworkEndian>()? as usize;
-        reader.take(len as u64).read_to_end(&mut self.0)?;
+        self.0.clear();
+        let n = reader.take(len as u64).read_to_end(&mut self.0)?;
+        if n != len {
+            return Err(ErrorKind::UnexpectedEof.into());
+        }
         read_padding!(reader, len);
         Ok(())
     }
@@ -651,8 +655,12 @@ impl XdrDecode for String {
         RD: Read,
     {
         let len = reader.read_u32::<NetworkEndian>()? as u64;
+        self.clear();
         let mut s = reader.take(len);
-        s.read_to_string(self)?;
+        let n = s.read_to_string(self)?;
+        if n as u64 != len {
+            return Err(ErrorKind::UnexpectedEof.into());
+        }
         read_padding!(reader, len);
         Ok(())
     }
-- 
2.43.0


From 031816fd487c2446227ad55045b388a89182a0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:04 +0000
Subject: [PATCH 15/42] fix: answer undecodable RPC arguments with GARBAGE_ARGS

---
 vxi11/src/common/onc_rpc/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vxi11/src/common/onc_rpc/mod.rs b/vxi11/src/common/onc_rpc/mod.rs
index f60cc42..d7edf45 100644
--- a/vxi11/src/common/onc_rpc/mod.rs
+++ b/vxi11/src/common/onc_rpc/mod.rs
@@ -134,7 +134,8 @@ pub(crate) trait RpcService {
                         RpcError::ProcUnavail => xdr::AcceptStat::ProcUnavail,
                         RpcError::GarbageArgs => xdr::AcceptStat::GarbageArgs,
                         RpcError::SystemErr => xdr::AcceptStat::SystemErr,
-                        RpcError::Io(err) => return Err(err),
+                        // Arguments could not be deserialized
+                        RpcError::Io(_) => xdr::AcceptStat::GarbageArgs,
                         RpcError::RpcMissmatch(_) => unreachable!(),
                         RpcError::AuthError(_) => unreachable!(),
                         RpcError::Portmap => unreachable!(),
-- 
2.43.0


From 94a5a3dfd696cb55a85f2eb890a63e23584e34d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:04 +0000
Subject: [PATCH 16/42] fix: deny calls with an unknown authentication flavour

---
 vxi11/src/common/onc_rpc/xdr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vxi11/src/common/onc_rpc/xdr.rs b/vxi11/src/common/onc_rpc/xdr.rs
index 761fa91..7e9a858 100644
--- a/vxi11/src/common/onc_rpc/xdr.rs
+++ b/vxi11/src/common/onc_rpc/xdr.rs
@@ -303,6 +303,7 @@ pub(crate) enum AuthFlavour {
     None,
     Sys,
     Short,
+    Other(u32),
 }
 
 impl Default for AuthFlavour {
@@ -321,7 +322,7 @@ impl XdrDecode for AuthFlavour {
             0 => Self::None,
             1 => Self::Sys,
             2 => Self::Short,
-            _ => return Err(ErrorKind::Other.into()),
+            x => Self::Other(x),
         };
         Ok(())
     }
@@ -332,10 +333,11 @@ impl XdrEncode for AuthFlavour {
     where
         WR: Write,
     {
-        writer.write_u32::<NetworkEndian>(match self {
+        writer.write_u32::<NetworkEndian>(match *self {
             AuthFlavour::None => 0,
             AuthFlavour::Sys => 1,
             AuthFlavour::Short => 2,
+            AuthFlavour::Other(x) => x,
         })
     }
 }
-- 
2.43.0


From f9827153b62a5dc27d78fd0b6ea160fe874cb9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:04 +0000
Subject: [PATCH 17/42] fix: keep serving UDP after a bad datagram or a failed
 reply

---
 vxi11/src/common/onc_rpc/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/vxi11/src/common/onc_rpc/mod.rs b/vxi11/src/common/onc_rpc/mod.rs
index d7edf45..33af279 100644
--- a/vxi11/src/common/onc_rpc/mod.rs
+++ b/vxi11/src/common/onc_rpc/mod.rs
@@ -94,9 +94,15 @@ pub(crate) trait RpcService {
             let mut buf = vec![0; 1500];
             let (n, peer) = socket.recv_from(&mut buf).await?;
 
-            let reply = self.clone().handle_message(buf[..n].to_vec()).await?;
-
-            socket.send_to(&reply, peer).await?;
+            // A bad datagram or unreachable peer must not affect anyone else
+            match self.clone().handle_message(buf[..n].to_vec()).await {
+                Ok(reply) => {
+                    if let Err(err) = socket.send_to(&reply, peer).await {
+                        log::debug!("Failed to reply to {}: {}", peer, err);
+                    }
+                }
+                Err(err) => log::debug!("Bad message from {}: {}", peer, err),
+            }
         }
     }
 
-- 
2.43.0


From a987553511f34f9e3351ead385ff19b9a68c6046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:53 +0000
Subject: [PATCH 18/42] fix: report when a new link does not get its lock, wait
 without locking the server

---
 vxi11/src/server/vxi11/core_service.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 894df22..72a31f6 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -147,10 +147,11 @@ where
                     max_recv_size: self.max_recv_size,
                 };
 
-                let mut inner = self.inner.lock().await;
-                resp.error = match inner.new_link(&parms.device) {
+                // Do not keep the server locked while waiting for the device lock
+                let new_link = self.inner.lock().await.new_link(&parms.device);
+                resp.error = match new_link {
                     Ok((lid, mut link)) => {
-                        resp.lid = lid.into();
+                        let mut error = xdr::DeviceErrorCode::NoError;
 
                         // Try to lock
                         if parms.lock_device {
@@ -164,12 +165,18 @@ where
                                 Ok(()) => {
                                     log::debug!(peer=format!("{}", self.peer), link=lid; "Exclusive lock acquired")
                                 }
-                                Err(err) => resp.error = err.into(),
+                                Err(err) => error = err.into(),
                             }
                         }
-                        log::debug!(peer=format!("{}", self.peer), link=lid; "New link: {}, client_id={}", parms.device, parms.client_id);
-                        self.links.lock().await.insert(lid, link);
-                        xdr::DeviceErrorCode::NoError
+
+                        if error == xdr::DeviceErrorCode::NoError {
+                            log::debug!(peer=format!("{}", self.peer), link=lid; "New link: {}, client_id={}", parms.device, parms.client_id);
+                            resp.lid = lid.into();
+                            self.links.lock().await.insert(lid, link);
+                        } else {
+                            self.inner.lock().await.remove_link(lid);
+                        }
+                        error
                     }
                     Err(err) => {
                         log::debug!(peer=format!("{}", self.peer); "Failed to create new link, {:?}: {}", err, parms.device);
-- 
2.43.0


From c8a84a50318f050866ff9f5e4b33f6fc568db24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:53 +0000
Subject: [PATCH 19/42] fix: remove destroyed links and the links of closed
 connections

---
 vxi11/src/server/vxi11/core_service.rs | 34 +++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 72a31f6..eab49ab 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -83,9 +83,10 @@ where
             });
 
             task::spawn(async move {
-                if let Err(err) = s.serve_tcp_stream(stream).await {
+                if let Err(err) = s.clone().serve_tcp_stream(stream).await {
                     log::debug!("Error processing client: {}", err)
                 }
+                s.close().await;
                 drop(token);
             });
         }
@@ -107,6 +108,30 @@ pub struct VxiCoreSession<DEV> {
     srq: Arc<Mutex<Option<VxiSrqClient>>>,
 }
 
+impl<DEV> VxiCoreSession<DEV> {
+    /// Take a link out of this session
+    async fn remove_link(&self, lid: u32) -> Option<Link<DEV>> {
+        self.links.lock().await.remove(&lid)
+    }
+
+    /// Release everything belonging to a link
+    async fn destroy_link(&self, mut link: Link<DEV>) {
+        link.close();
+        self.inner.lock().await.remove_link(link.id);
+        if let Some(task) = link.srq_handle.take() {
+            task.cancel().await;
+        }
+    }
+
+    /// Destroy all links when the client is gone
+    async fn close(&self) {
+        let links = std::mem::take(&mut *self.links.lock().await);
+        for (_, link) in links {
+            self.destroy_link(link).await;
+        }
+    }
+}
+
 #[async_trait::async_trait]
 impl<DEV> RpcService for VxiCoreSession<DEV>
 where
@@ -586,12 +611,9 @@ where
                 log::debug!(peer=format!("{}", self.peer), link=parms.0; "Destroy link");
 
                 let resp = xdr::DeviceError {
-                    error: match get_link!(self.links, &parms.0) {
+                    error: match self.remove_link(parms.0).await {
                         Some(link) => {
-                            let mut inner = self.inner.lock().await;
-
-                            link.handle.force_release();
-                            inner.remove_link(parms.0);
+                            self.destroy_link(link).await;
                             xdr::DeviceErrorCode::NoError
                         }
                         None => xdr::DeviceErrorCode::InvalidLinkIdentifier,
-- 
2.43.0


From aaaf9c05f9eee1a270c236abd217a7788f04ee0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:53 +0000
Subject: [PATCH 20/42] fix: end reads at the term char and do not fail when
 there is none

---
 vxi11/src/server/vxi11/core_service.rs | 28 +++++++++++++-------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index eab49ab..133701a 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -283,22 +283,22 @@ where
                     // Execute if END is set
                     resp.error = match dev {
                         Ok(_) => {
-                            let to_take = if parms.flags.is_termcharset() {
-                                let pos = link.out_buf.iter().position(|c| c.eq(&parms.term_char));
-
-                                // Take whatever is first terminator, or end
-                                let to_take = pos.map_or(parms.request_size as usize, |x| {
-                                    min(link.out_buf.len(), x + 1)
-                                });
-                                // Returning because of term_char
-                                if matches!(pos, Some(c) if c == to_take) {
-                                    resp.reason |= 0x2;
-                                }
-                                to_take
+                            let pos = if parms.flags.is_termcharset() {
+                                link.out_buf.iter().position(|c| c.eq(&parms.term_char))
                             } else {
-                                link.out_buf.len()
+                                None
+                            };
+
+                            // Take whatever is first terminator, or end
+                            let to_take = min(
+                                pos.map_or(link.out_buf.len(), |x| x + 1),
+                                parms.request_size as usize,
+                            );
+
+                            // Returning because of term_char
+                            if matches!(pos, Some(x) if x + 1 == to_take) {
+                                resp.reason |= 0x2;
                             }
-                            .min(parms.request_size as usize);
 
                             // Returning because of request_size
                             if to_take == parms.request_size as usize {
-- 
2.43.0


From cc9aed634c8a4031a70a578111d63ddc3af44b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:53 +0000
Subject: [PATCH 21/42] fix: set the MAV bit when a response is available

---
 vxi11/src/server/vxi11/core_service.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 133701a..048c091 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -350,7 +350,7 @@ where
                                     // Replace MAV bit
                                     resp.stb &= 0xef;
                                     if !link.out_buf.is_empty() {
-                                        resp.stb &= 0x10;
+                                        resp.stb |= 0x10;
                                     }
                                     xdr::DeviceErrorCode::NoError
                                 }
-- 
2.43.0


From f8e6b6813c8fe45cbe3f5ddb7117fc8a8a7f8d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:53 +0000
Subject: [PATCH 22/42] fix: an abort does not end a later operation

---
 vxi11/src/server/vxi11/core_service.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 048c091..cb14eb6 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -31,9 +31,17 @@ macro_rules! get_link {
     };
 }
 
+// An abort only ends the operation in progress when it arrives
+macro_rules! discard_aborts {
+    ($abort:expr) => {
+        while let Ok(Some(())) = $abort.try_next() {}
+    };
+}
+
 macro_rules! lock_device {
     ($handle:expr, $flags:expr, $timeout:expr, $abort:expr) => {
         if $flags.is_waitlock() {
+            discard_aborts!($abort);
             select! {
                 d = timeout(
                     Duration::from_millis($timeout as u64),
@@ -482,14 +490,17 @@ where
 
                 let resp = xdr::DeviceError {
                     error: match get_link!(self.links, &parms.lid.0) {
-                        Some(link) if parms.flags.is_waitlock() => select! {
-                            d = timeout(
-                                Duration::from_millis(parms.lock_timeout as u64),
-                                link.handle.async_acquire_exclusive(),
-                            ).fuse() => d.map_or(Err(SharedLockError::Timeout), |f| f),
-                            _ = link.abort.next() => Err(SharedLockError::Aborted)
+                        Some(link) if parms.flags.is_waitlock() => {
+                            discard_aborts!(link.abort);
+                            select! {
+                                d = timeout(
+                                    Duration::from_millis(parms.lock_timeout as u64),
+                                    link.handle.async_acquire_exclusive(),
+                                ).fuse() => d.map_or(Err(SharedLockError::Timeout), |f| f),
+                                _ = link.abort.next() => Err(SharedLockError::Aborted)
+                            }
+                            .into()
                         }
-                        .into(),
                         Some(link) => link.handle.try_acquire_exclusive().into(),
                         None => xdr::DeviceErrorCode::InvalidLinkIdentifier,
                     },
-- 
2.43.0


From 056d52a8981ca8a5701d1adf52a228fdb7a45536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:53 +0000
Subject: [PATCH 23/42] fix: keep service requests enabled when one cannot be
 sent

---
 vxi11/src/server/vxi11/core_service.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index cb14eb6..30a69f5 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -567,7 +567,6 @@ where
                                                     client.device_intr_srq(&parms.handle.0).await
                                                 {
                                                     log::error!(link=parms.lid.0; "Failed to send service request: {err:?}");
-                                                    return Err(err);
                                                 }
                                             } else {
                                                 log::error!(link=parms.lid.0; "Failed to send service request: No interrupt channel open");
-- 
2.43.0


From 9ead0f1c9d7a2df861c3483400d0f5f968e26361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:54 +0000
Subject: [PATCH 24/42] fix: do not bind UDP clients to the loopback address

---
 vxi11/src/client/portmapper.rs        | 2 +-
 vxi11/src/server/vxi11/intr_client.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vxi11/src/client/portmapper.rs b/vxi11/src/client/portmapper.rs
index 8297625..005998c 100644
--- a/vxi11/src/client/portmapper.rs
+++ b/vxi11/src/client/portmapper.rs
@@ -33,7 +33,7 @@ impl PortMapperClient {
     }
 
     pub async fn connect_udp(addrs: impl ToSocketAddrs) -> io::Result<Self> {
-        let sock = UdpSocket::bind("127.0.0.1:0").await?;
+        let sock = UdpSocket::bind("0.0.0.0:0").await?;
         sock.connect(addrs).await?;
         Ok(Self(RpcClient::Udp(UdpRpcClient::new(
             PORTMAPPER_PROG,
diff --git a/vxi11/src/server/vxi11/intr_client.rs b/vxi11/src/server/vxi11/intr_client.rs
index f153acc..89a5fc8 100644
--- a/vxi11/src/server/vxi11/intr_client.rs
+++ b/vxi11/src/server/vxi11/intr_client.rs
@@ -29,7 +29,7 @@ impl VxiSrqClient {
         udp: bool,
     ) -> io::Result<Self> {
         let client = if udp {
-            let socket = UdpSocket::bind((Ipv4Addr::LOCALHOST, 0)).await?;
+            let socket = UdpSocket::bind((Ipv4Addr::UNSPECIFIED, 0)).await?;
             socket
                 .connect((Ipv4Addr::from(host_addr), host_port))
                 .await?;
-- 
2.43.0


From a62a1e195650b312f3f96eb337cebce87bb20897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:54 +0000
Subject: [PATCH 25/42] fix: bind the core service to its own port

---
 vxi11/src/server/vxi11/core_service.rs | 3 ++-
 vxi11/src/server/vxi11/mod.rs          | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 30a69f5..6443a85 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -59,6 +59,7 @@ macro_rules! lock_device {
 pub struct VxiCoreServer<DEV> {
     pub(super) inner: Arc<Mutex<VxiInner<DEV>>>,
     pub(super) max_recv_size: u32,
+    pub(super) core_port: u16,
     pub(super) async_port: u16,
 }
 
@@ -67,7 +68,7 @@ where
     DEV: Device + Send + 'static,
 {
     pub async fn bind(self: Arc<Self>, addrs: IpAddr) -> io::Result<()> {
-        let listener = TcpListener::bind((addrs, self.async_port)).await?;
+        let listener = TcpListener::bind((addrs, self.core_port)).await?;
         self.serve(listener).await
     }
 
diff --git a/vxi11/src/server/vxi11/mod.rs b/vxi11/src/server/vxi11/mod.rs
index 049517a..04c5454 100644
--- a/vxi11/src/server/vxi11/mod.rs
+++ b/vxi11/src/server/vxi11/mod.rs
@@ -247,6 +247,7 @@ impl<DEV> VxiServerBuilder<DEV> {
         (
             Arc::new(VxiCoreServer {
                 inner: inner.clone(),
+                core_port: self.core_port,
                 async_port: self.async_port,
                 max_recv_size: 128 * 1024,
             }),
-- 
2.43.0


From 362f0cb164439b463dc5cbd932892fa2b9cd76de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:36 +0000
Subject: [PATCH 26/42] fix: RPC clients only accept the reply to their call
 and do not panic on a call

---
 vxi11/src/common/onc_rpc/mod.rs | 53 +++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/vxi11/src/common/onc_rpc/mod.rs b/vxi11/src/common/onc_rpc/mod.rs
index 33af279..e01ea08 100644
--- a/vxi11/src/common/onc_rpc/mod.rs
+++ b/vxi11/src/common/onc_rpc/mod.rs
@@ -219,7 +219,7 @@ impl UdpRpcClient {
         ARGS: XdrEncode,
         RET: XdrDecode + Default,
     {
-        self.xid += 1;
+        self.xid = self.xid.wrapping_add(1);
 
         let mut args_cursor = Cursor::new(Vec::new());
 
@@ -229,15 +229,21 @@ impl UdpRpcClient {
         args.write_xdr(&mut args_cursor)?;
         self.socket.send(&args_cursor.into_inner()).await?;
 
-        // Read response
-        let mut buf = vec![0; 1024];
-        self.socket.recv(&mut buf).await?;
-        let mut ret_cursor = Cursor::new(buf);
+        // Read response, skip replies to other calls
+        let (reply, mut ret_cursor) = loop {
+            let mut buf = vec![0; 1024];
+            let n = self.socket.recv(&mut buf).await?;
+            buf.truncate(n);
+            let mut cursor = Cursor::new(buf);
+            let mut reply = xdr::RpcMessage::default();
+            reply.read_xdr(&mut cursor)?;
+            if reply.xid == self.xid {
+                break (reply, cursor);
+            }
+        };
 
-        // Deserialize and parse response
-        let mut reply = xdr::RpcMessage::default();
+        // Parse response
         let mut ret: RET = Default::default();
-        reply.read_xdr(&mut ret_cursor)?;
         match reply {
             xdr::RpcMessage {
                 mtype:
@@ -269,9 +275,7 @@ impl UdpRpcClient {
             xdr::RpcMessage {
                 mtype: xdr::MsgType::Call(..),
                 ..
-            } => {
-                todo!()
-            }
+            } => Err(Error::from(ErrorKind::InvalidData).into()),
         }
     }
 
@@ -284,7 +288,7 @@ impl UdpRpcClient {
     where
         ARGS: XdrEncode,
     {
-        self.xid += 1;
+        self.xid = self.xid.wrapping_add(1);
 
         let mut args_cursor = Cursor::new(Vec::new());
 
@@ -336,7 +340,7 @@ where
         ARGS: XdrEncode,
         RET: XdrDecode + Default,
     {
-        self.xid += 1;
+        self.xid = self.xid.wrapping_add(1);
 
         let mut args_cursor = Cursor::new(Vec::new());
 
@@ -346,14 +350,19 @@ where
         args.write_xdr(&mut args_cursor)?;
         write_record(&mut self.io, args_cursor.into_inner()).await?;
 
-        // Read response
-        let fragment = read_record(&mut self.io, 1024 * 1024).await?;
-        let mut ret_cursor = Cursor::new(fragment);
+        // Read response, skip replies to other calls
+        let (reply, mut ret_cursor) = loop {
+            let fragment = read_record(&mut self.io, 1024 * 1024).await?;
+            let mut cursor = Cursor::new(fragment);
+            let mut reply = xdr::RpcMessage::default();
+            reply.read_xdr(&mut cursor)?;
+            if reply.xid == self.xid {
+                break (reply, cursor);
+            }
+        };
 
-        // Deserialize and parse response
-        let mut reply = xdr::RpcMessage::default();
+        // Parse response
         let mut ret: RET = Default::default();
-        reply.read_xdr(&mut ret_cursor)?;
         match reply {
             xdr::RpcMessage {
                 mtype:
@@ -385,9 +394,7 @@ where
             xdr::RpcMessage {
                 mtype: xdr::MsgType::Call(..),
                 ..
-            } => {
-                todo!()
-            }
+            } => Err(Error::from(ErrorKind::InvalidData).into()),
         }
     }
 
@@ -400,7 +407,7 @@ where
     where
         ARGS: XdrEncode,
     {
-        self.xid += 1;
+        self.xid = self.xid.wrapping_add(1);
 
         let mut args_cursor = Cursor::new(Vec::new());
 
-- 
2.43.0


From fe256c3c113e7c8e0375244e06eb5cb126e08a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:36 +0000
Subject: [PATCH 27/42] fix: encode portmapper callit arguments and results as
 opaque data

---
 vxi11/src/client/portmapper.rs     | 4 ++--
 vxi11/src/common/portmapper/xdr.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/vxi11/src/client/portmapper.rs b/vxi11/src/client/portmapper.rs
index 005998c..7d479c3 100644
--- a/vxi11/src/client/portmapper.rs
+++ b/vxi11/src/client/portmapper.rs
@@ -87,11 +87,11 @@ impl PortMapperClient {
             prog,
             vers,
             proc,
-            args: args_cursor.into_inner(),
+            args: Opaque(args_cursor.into_inner()),
         };
         let res: CallResult = self.0.call(PMAPPROC_CALLIT, callit_args).await?;
         let mut ret: RET = Default::default();
-        ret.read_xdr(&mut io::Cursor::new(res.res))?;
+        ret.read_xdr(&mut io::Cursor::new(res.res.0))?;
         Ok(ret)
     }
 }
diff --git a/vxi11/src/common/portmapper/xdr.rs b/vxi11/src/common/portmapper/xdr.rs
index bb59b8b..9ada69d 100644
--- a/vxi11/src/common/portmapper/xdr.rs
+++ b/vxi11/src/common/portmapper/xdr.rs
@@ -53,7 +53,7 @@ pub(crate) struct Callit {
     pub(crate) prog: u32,
     pub(crate) vers: u32,
     pub(crate) proc: u32,
-    pub(crate) args: Vec<u8>,
+    pub(crate) args: Opaque,
 }
 
 impl XdrEncode for Callit {
@@ -83,7 +83,7 @@ impl XdrDecode for Callit {
 #[derive(Debug, Default, Clone)]
 pub(crate) struct CallResult {
     pub(crate) port: u32,
-    pub(crate) res: Vec<u8>,
+    pub(crate) res: Opaque,
 }
 
 impl XdrEncode for CallResult {
-- 
2.43.0


From a206bd4f4d8cddd9b7a235e8e643ebde390492d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:36 +0000
Subject: [PATCH 28/42] fix: register a mapping which was not registered before

---
 vxi11/src/client/portmapper.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/vxi11/src/client/portmapper.rs b/vxi11/src/client/portmapper.rs
index 7d479c3..da7b18f 100644
--- a/vxi11/src/client/portmapper.rs
+++ b/vxi11/src/client/portmapper.rs
@@ -43,10 +43,8 @@ impl PortMapperClient {
     }
 
     pub async fn register(&mut self, mapping: Mapping) -> Result<(), RpcError> {
-        let res = self.unset(mapping).await?;
-        if !res {
-            return Err(RpcError::Portmap);
-        }
+        // Remove any old mapping, fails if there is none
+        let _ = self.unset(mapping).await?;
         let res = self.set(mapping).await?;
         if !res {
             return Err(RpcError::Portmap);
-- 
2.43.0


From e2c4848d839498149df90cca9ef563027e7baaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:36 +0000
Subject: [PATCH 29/42] fix: do not truncate port numbers in the portmapper

---
 vxi11/src/client/portmapper.rs | 3 ++-
 vxi11/src/server/portmapper.rs | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/vxi11/src/client/portmapper.rs b/vxi11/src/client/portmapper.rs
index da7b18f..ae303b4 100644
--- a/vxi11/src/client/portmapper.rs
+++ b/vxi11/src/client/portmapper.rs
@@ -65,7 +65,8 @@ impl PortMapperClient {
     }
 
     pub async fn getport(&mut self, mapping: Mapping) -> Result<u16, RpcError> {
-        self.0.call(PMAPPROC_GETPORT, mapping).await
+        let port: u32 = self.0.call(PMAPPROC_GETPORT, mapping).await?;
+        u16::try_from(port).map_err(|_| io::Error::from(io::ErrorKind::InvalidData).into())
     }
 
     pub async fn callit<ARGS, RET>(
diff --git a/vxi11/src/server/portmapper.rs b/vxi11/src/server/portmapper.rs
index 68cbddc..c6f147c 100644
--- a/vxi11/src/server/portmapper.rs
+++ b/vxi11/src/server/portmapper.rs
@@ -110,7 +110,7 @@ impl<const N: usize> RpcService for StaticPortMap<N> {
                     .find(|m| {
                         m.prog == mapping.prog && m.vers == mapping.vers && m.prot == mapping.prot
                     })
-                    .map_or(0, |m| m.port as u16);
+                    .map_or(0, |m| m.port);
                 port.write_xdr(ret)?;
                 Ok(())
             }
-- 
2.43.0


From 6337dbb343a76a706b9f6450da0bfa58246ad6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:05 +0000
Subject: [PATCH 30/42] fix: keep listening when a connection is lost before it
 is accepted

---
 hislip/src/server/mod.rs                | 19 +++++++++++++++++--
 raw/src/server/mod.rs                   | 16 ++++++++++++++--
 telnet/src/server/mod.rs                |  8 +++++++-
 vxi11/src/server/portmapper.rs          |  8 +++++++-
 vxi11/src/server/vxi11/abort_service.rs |  8 +++++++-
 vxi11/src/server/vxi11/core_service.rs  |  8 +++++++-
 6 files changed, 59 insertions(+), 8 deletions(-)

diff --git a/hislip/src/server/mod.rs b/hislip/src/server/mod.rs
index e86db47..0fe614c 100644
--- a/hislip/src/server/mod.rs
+++ b/hislip/src/server/mod.rs
@@ -3,9 +3,11 @@ use std::collections::HashMap;
 use std::io;
 use std::str::from_utf8;
 use std::sync::Weak;
+use std::time::Duration;
 
 use async_std::net::{TcpListener, ToSocketAddrs};
 use async_std::sync::Arc;
+use async_std::task::sleep;
 
 use futures::task::{Spawn, SpawnExt};
 use futures::{AsyncRead, AsyncWrite, AsyncWriteExt, Stream, StreamExt};
@@ -174,8 +176,21 @@ where
         let listener = TcpListener::bind(addr).await?;
         let mut incoming = listener.incoming();
         while let Some(stream) = incoming.next().await {
-            let stream = stream?;
-            let peer = stream.peer_addr()?;
+            let stream = match stream {
+                Ok(stream) => stream,
+                Err(err) => {
+                    log::warn!("Listening error: {}", err);
+                    sleep(Duration::from_millis(100)).await;
+                    continue;
+                }
+            };
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    log::debug!("Connection lost: {}", err);
+                    continue;
+                }
+            };
 
             let s = self.clone();
             let t = srq.get_new_receiver();
diff --git a/raw/src/server/mod.rs b/raw/src/server/mod.rs
index da13cc6..81a9f23 100644
--- a/raw/src/server/mod.rs
+++ b/raw/src/server/mod.rs
@@ -43,7 +43,13 @@ impl Server {
 
         while let Some((token, stream)) = incoming.next().await {
             let s = self.clone();
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    log::debug!("Connection lost: {}", err);
+                    continue;
+                }
+            };
             log::error!("Accepted from: {}", peer);
 
             let shared_lock = shared_lock.clone();
@@ -86,7 +92,13 @@ impl Server {
 
         while let Some((token, stream)) = incoming.next().await {
             let s = self.clone();
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    log::debug!("Connection lost: {}", err);
+                    continue;
+                }
+            };
             log::info!("Accepted from: {:?}", peer);
 
             let shared_lock = shared_lock.clone();
diff --git a/telnet/src/server/mod.rs b/telnet/src/server/mod.rs
index 905bf82..ffcfe7a 100644
--- a/telnet/src/server/mod.rs
+++ b/telnet/src/server/mod.rs
@@ -42,7 +42,13 @@ impl Server {
 
         while let Some((token, stream)) = incoming.next().await {
             let s = self.clone();
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    log::debug!("Connection lost: {}", err);
+                    continue;
+                }
+            };
             log::error!("Accepted from: {}", peer);
 
             let shared_lock = shared_lock.clone();
diff --git a/vxi11/src/server/portmapper.rs b/vxi11/src/server/portmapper.rs
index c6f147c..01ae909 100644
--- a/vxi11/src/server/portmapper.rs
+++ b/vxi11/src/server/portmapper.rs
@@ -64,7 +64,13 @@ impl<const N: usize> StaticPortMap<N> {
             .backpressure(10);
 
         while let Some((token, stream)) = incoming.next().await {
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    log::debug!("Connection lost: {}", err);
+                    continue;
+                }
+            };
             log::debug!("Accepted from: {}", peer);
 
             let s = self.clone();
diff --git a/vxi11/src/server/vxi11/abort_service.rs b/vxi11/src/server/vxi11/abort_service.rs
index a33283e..15eb95a 100644
--- a/vxi11/src/server/vxi11/abort_service.rs
+++ b/vxi11/src/server/vxi11/abort_service.rs
@@ -42,7 +42,13 @@ where
             .backpressure(10);
 
         while let Some((token, stream)) = incoming.next().await {
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    log::debug!("Connection lost: {}", err);
+                    continue;
+                }
+            };
             log::debug!("Accepted from: {}", peer);
 
             let s = self.clone();
diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 6443a85..35f5dd3 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -80,7 +80,13 @@ where
             .handle_errors(Duration::from_millis(100))
             .backpressure(10);
         while let Some((token, stream)) = incoming.next().await {
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    log::debug!("Connection lost: {}", err);
+                    continue;
+                }
+            };
             log::debug!("Accepted from: {}", peer);
             let s = Arc::new(VxiCoreSession {
                 peer,
-- 
2.43.0


From 958082ece4e08bc0618ec3f964ad376abab45ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:26 +0000
Subject: [PATCH 31/42] fix: do not execute a raw command cut short by the end
 of the stream

---
 raw/src/server/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/raw/src/server/mod.rs b/raw/src/server/mod.rs
index 81a9f23..2fff8a2 100644
--- a/raw/src/server/mod.rs
+++ b/raw/src/server/mod.rs
@@ -150,9 +150,14 @@ impl Server {
 
             log::trace!("{:?} read {} bytes", peer, cmd.len());
 
+            // Remove read_termination
+            if cmd.pop() != Some(self.0.read_termination) {
+                log::info!("{:?} disconnected, discarding incomplete command", peer);
+                break;
+            }
+
             let resp = {
                 let mut device = handle.async_lock().await.unwrap();
-                cmd.pop(); // Remove read_termination
                 device.execute(&cmd)
             };
 
-- 
2.43.0


From e0dc99a3a8f02d76313d66592cba72848395e38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:52 +0000
Subject: [PATCH 32/42] fix: end a telnet session when the client is gone

---
 telnet/src/server/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/telnet/src/server/mod.rs b/telnet/src/server/mod.rs
index ffcfe7a..e63395d 100644
--- a/telnet/src/server/mod.rs
+++ b/telnet/src/server/mod.rs
@@ -70,7 +70,7 @@ impl Server {
         mut stream: IO,
         shared_lock: Arc<SpinMutex<SharedLock>>,
         device: Arc<Mutex<DEV>>,
-        _peer: SA,
+        peer: SA,
     ) -> io::Result<()>
     where
         DEV: Device + Send,
@@ -98,6 +98,10 @@ impl Server {
 
             // Read a line from stream.
             let n = stream.read(&mut buf).await?;
+            if n == 0 {
+                log::info!("{:?} disconnected", peer);
+                break;
+            }
 
             let events = instance.receive(&buf[..n]);
             for event in events {
@@ -148,6 +152,8 @@ impl Server {
                 }
             }
         }
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From cdf5b843a2ca6c2f43614b8fe113873d57b6f110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:01 +0000
Subject: [PATCH 33/42] fix: only remove a carriage return from the end of a
 telnet line

---
 telnet/src/server/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/telnet/src/server/mod.rs b/telnet/src/server/mod.rs
index e63395d..a88f974 100644
--- a/telnet/src/server/mod.rs
+++ b/telnet/src/server/mod.rs
@@ -126,7 +126,9 @@ impl Server {
 
                             if b == b'\n' {
                                 // Remove \r
-                                cmd.pop();
+                                if cmd.last() == Some(&b'\r') {
+                                    cmd.pop();
+                                }
                                 // Lock device and execute
                                 let resp = {
                                     let mut device = handle.async_lock().await.unwrap();
-- 
2.43.0


From 923c249e3c512220d5d63d0487f8068e33b4ce5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:09 +0000
Subject: [PATCH 34/42] fix: send IAC GA as telnet go-ahead

---
 telnet/src/server/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/telnet/src/server/mod.rs b/telnet/src/server/mod.rs
index a88f974..f8a3476 100644
--- a/telnet/src/server/mod.rs
+++ b/telnet/src/server/mod.rs
@@ -93,7 +93,7 @@ impl Server {
             stream.write_all(&prompt).await?;
             // Send a go ahead
             if !instance.options.get_option(options::SGA).local_state {
-                stream.write_all(b"\xff\x03").await?;
+                stream.write_all(b"\xff\xf9").await?;
             }
 
             // Read a line from stream.
-- 
2.43.0


From 75abc5b5259cb5e0c8675b178715b89fdd16974a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:23 +0000
Subject: [PATCH 35/42] fix: parse telnet sequences no matter how they are
 split into reads

---
 telnet/src/server/mod.rs | 112 ++++++++++++++++++++++++---------------
 1 file changed, 68 insertions(+), 44 deletions(-)

diff --git a/telnet/src/server/mod.rs b/telnet/src/server/mod.rs
index f8a3476..de05c1f 100644
--- a/telnet/src/server/mod.rs
+++ b/telnet/src/server/mod.rs
@@ -12,6 +12,7 @@ use async_std::net::{TcpListener, ToSocketAddrs};
 use async_listen::ListenExt;
 
 use libtelnet_rs::events::TelnetEvents;
+use libtelnet_rs::telnet::op_command::{DONT, IAC, SB, SE, WILL};
 use libtelnet_rs::{telnet::op_option as options, Parser};
 
 use lxi_device::lock::SpinMutex;
@@ -20,6 +21,16 @@ use lxi_device::{
     Device,
 };
 
+/// Part of a telnet sequence received so far
+#[derive(Clone, Copy)]
+enum State {
+    Data,
+    Command,
+    Negotiation(u8),
+    Subnegotiation,
+    SubnegotiationCommand,
+}
+
 pub struct Server(ServerConfig);
 
 impl Server {
@@ -87,6 +98,8 @@ impl Server {
         let mut buf = [0u8; 128];
         let mut cmd = Vec::with_capacity(self.0.read_buffer);
 
+        let mut state = State::Data;
+
         let prompt = Parser::escape_iac(&b"SCPI> "[..]);
 
         loop {
@@ -103,54 +116,65 @@ impl Server {
                 break;
             }
 
-            let events = instance.receive(&buf[..n]);
-            for event in events {
-                match event {
-                    TelnetEvents::IAC(iac) => match iac.command {
-                        247 /* EC */ => {
-                            cmd.pop();
-                        },
-                        248 /* EL */ => {
-                            cmd.clear();
-                        },
-                        _cmd => {}
-                    },
-                    TelnetEvents::Negotiation(_neg) => {}
-                    TelnetEvents::Subnegotiation(_sub) => {}
-                    TelnetEvents::DataReceive(data) => {
-                        for b in data {
-                            // Echo back if enabled
-                            if instance.options.get_option(options::ECHO).local_state {
-                                stream.write_all(&[b]).await?;
-                            }
-
-                            if b == b'\n' {
-                                // Remove \r
-                                if cmd.last() == Some(&b'\r') {
-                                    cmd.pop();
-                                }
-                                // Lock device and execute
-                                let resp = {
-                                    let mut device = handle.async_lock().await.unwrap();
-                                    device.execute(&cmd)
-                                };
-                                cmd.clear();
-
-                                // Send back response if any
-                                if let Some(data) = resp {
-                                    let to_send = Parser::escape_iac(data);
-                                    stream.write_all(&to_send).await?;
-                                    stream.write_all(b"\r\n").await?;
-                                }
-                            } else {
-                                cmd.push(b);
+            for &b in &buf[..n] {
+                // Sequences may be split over several reads
+                let (next, data) = match (state, b) {
+                    (State::Data, IAC) => (State::Command, None),
+                    (State::Data, _) => (State::Data, Some(b)),
+                    (State::Command, IAC) => (State::Data, Some(IAC)),
+                    (State::Command, SB) => (State::Subnegotiation, None),
+                    (State::Command, WILL..=DONT) => (State::Negotiation(b), None),
+                    (State::Command, 247 /* EC */) => {
+                        cmd.pop();
+                        (State::Data, None)
+                    }
+                    (State::Command, 248 /* EL */) => {
+                        cmd.clear();
+                        (State::Data, None)
+                    }
+                    (State::Command, _) => (State::Data, None),
+                    (State::Negotiation(command), option) => {
+                        for event in instance.receive(&[IAC, command, option]) {
+                            if let TelnetEvents::DataSend(data) = event {
+                                stream.write_all(&data).await?;
                             }
                         }
+                        (State::Data, None)
+                    }
+                    (State::Subnegotiation, IAC) => (State::SubnegotiationCommand, None),
+                    (State::Subnegotiation, _) => (State::Subnegotiation, None),
+                    (State::SubnegotiationCommand, SE) => (State::Data, None),
+                    (State::SubnegotiationCommand, _) => (State::Subnegotiation, None),
+                };
+                state = next;
+
+                if let Some(b) = data {
+                    // Echo back if enabled
+                    if instance.options.get_option(options::ECHO).local_state {
+                        stream.write_all(&Parser::escape_iac(vec![b])).await?;
                     }
-                    TelnetEvents::DataSend(data) => {
-                        stream.write_all(&data).await?;
+
+                    if b == b'\n' {
+                        // Remove \r
+                        if cmd.last() == Some(&b'\r') {
+                            cmd.pop();
+                        }
+                        // Lock device and execute
+                        let resp = {
+                            let mut device = handle.async_lock().await.unwrap();
+                            device.execute(&cmd)
+                        };
+                        cmd.clear();
+
+                        // Send back response if any
+                        if let Some(data) = resp {
+                            let to_send = Parser::escape_iac(data);
+                            stream.write_all(&to_send).await?;
+                            stream.write_all(b"\r\n").await?;
+                        }
+                    } else {
+                        cmd.push(b);
                     }
-                    TelnetEvents::DecompressImmediate(_data) => unreachable!(),
                 }
             }
         }
-- 
2.43.0


From 3d0dc15a5449843de26bc1371bd01bb028d66081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:00 +0000
Subject: [PATCH 36/42] fix: prompt telnet clients once per line, not once per
 read

---
 telnet/src/server/mod.rs | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/telnet/src/server/mod.rs b/telnet/src/server/mod.rs
index de05c1f..06336b6 100644
--- a/telnet/src/server/mod.rs
+++ b/telnet/src/server/mod.rs
@@ -96,27 +96,40 @@ impl Server {
         instance.options.support_local(options::BINARY);
 
         let mut buf = [0u8; 128];
+        let (mut pos, mut len) = (0, 0);
         let mut cmd = Vec::with_capacity(self.0.read_buffer);
 
         let mut state = State::Data;
 
         let prompt = Parser::escape_iac(&b"SCPI> "[..]);
 
+        let mut ready = true;
+
         loop {
-            stream.write_all(&prompt).await?;
-            // Send a go ahead
-            if !instance.options.get_option(options::SGA).local_state {
-                stream.write_all(b"\xff\xf9").await?;
+            // Prompt for the next line
+            if ready {
+                stream.write_all(&prompt).await?;
+                // Send a go ahead
+                if !instance.options.get_option(options::SGA).local_state {
+                    stream.write_all(b"\xff\xf9").await?;
+                }
+                ready = false;
             }
 
-            // Read a line from stream.
-            let n = stream.read(&mut buf).await?;
-            if n == 0 {
-                log::info!("{:?} disconnected", peer);
-                break;
+            // Read from stream.
+            if pos == len {
+                len = stream.read(&mut buf).await?;
+                pos = 0;
+                if len == 0 {
+                    log::info!("{:?} disconnected", peer);
+                    break;
+                }
             }
 
-            for &b in &buf[..n] {
+            while pos < len && !ready {
+                let b = buf[pos];
+                pos += 1;
+
                 // Sequences may be split over several reads
                 let (next, data) = match (state, b) {
                     (State::Data, IAC) => (State::Command, None),
@@ -165,6 +178,7 @@ impl Server {
                             device.execute(&cmd)
                         };
                         cmd.clear();
+                        ready = true;
 
                         // Send back response if any
                         if let Some(data) = resp {
-- 
2.43.0


From a4318dccf89576a57845026222b9a06e09c0f42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 37/42] fix: forget status subscribers that are gone when
 another one subscribes

---
 device/src/status.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/device/src/status.rs b/device/src/status.rs
index da56575..a5670ec 100644
--- a/device/src/status.rs
+++ b/device/src/status.rs
@@ -34,6 +34,8 @@ impl Sender {
 
     pub fn get_new_receiver(&mut self) -> Receiver {
         let mut senders = self.senders.lock();
+        // Forget receivers which are gone, even if no status is ever sent
+        senders.retain(|sender| !sender.is_closed());
         let (sender, receiver) = mpsc::channel(1);
         senders.push(sender);
         receiver
-- 
2.43.0


From 7f55a88fb600b1d57cb5b2d3ab8942dd9819ad43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:09 +0000
Subject: [PATCH 38/42] fix: encode vendor-specific message types as the code
 they stand for

---
 hislip/src/common/messages.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hislip/src/common/messages.rs b/hislip/src/common/messages.rs
index df8bdfe..de20dba 100644
--- a/hislip/src/common/messages.rs
+++ b/hislip/src/common/messages.rs
@@ -262,7 +262,7 @@ impl MessageType {
             MessageType::AuthenticationStart => 36,
             MessageType::AuthenticationExchange => 37,
             MessageType::AuthenticationResult => 38,
-            MessageType::VendorSpecific(x) => x & 0x7F,
+            MessageType::VendorSpecific(x) => x | 0x80,
         }
     }
 
-- 
2.43.0


From 672716e81083db7e8379166859bcfd532b173bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 39/42] fix: do not keep the device while a HiSLIP client reads
 its response

---
 hislip/src/server/session/synchronous.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index 8b34447..df17d76 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -240,6 +240,9 @@ where
                                         };
                                         buffer.clear();
 
+                                        // Others may use the device while the client reads the response
+                                        drop(dev);
+
                                         // Send back response
                                         if let Some(data) = data {
                                             // Client may send any size, including zero
-- 
2.43.0


From b8f8bf6e7747e92ef0a4605eb658755385c5eadf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 40/42] fix: do not keep the device or sessions while a HiSLIP
 client reads an error message

---
 hislip/src/server/mod.rs                 | 2 ++
 hislip/src/server/session/synchronous.rs | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/hislip/src/server/mod.rs b/hislip/src/server/mod.rs
index 0fe614c..804f861 100644
--- a/hislip/src/server/mod.rs
+++ b/hislip/src/server/mod.rs
@@ -349,6 +349,7 @@ where
                                 if let Some(s) = guard.get_session(id) {
                                     s
                                 } else {
+                                    drop(guard);
                                     send_fatal!(peer=format!("{}", peer), session_id=id;
                                     &mut stream, FatalErrorCode::InvalidInitialization,
                                         "Invalid session id"
@@ -362,6 +363,7 @@ where
                             // Check if async channel has alreasy been initialized for this session
                             if session_guard.is_initialized() {
                                 drop(session_guard);
+                                drop((session, shared, device));
                                 send_fatal!(peer=peer.to_string(), session_id=id;
                                 &mut stream, FatalErrorCode::InvalidInitialization,
                                     "Async session already initialized"
diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index df17d76..06c4ac8 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -174,6 +174,7 @@ where
                             message_type: MessageType::VendorSpecific(code),
                             ..
                         } => {
+                            drop(dev);
                             send_nonfatal!(peer=peer.to_string(), session_id=self.id;
                                 &mut stream, NonFatalErrorCode::UnrecognizedVendorDefinedMessage,
                                 "Unrecognized Vendor Defined Message ({})", code
@@ -284,6 +285,7 @@ where
                                 }
                                 // Initial handshake
                                 SessionState::Handshake => {
+                                    drop(dev);
                                     send_fatal!(peer=peer.to_string(), session_id=self.id;
                                         &mut stream,
                                         FatalErrorCode::AttemptUseWithoutBothChannels,
@@ -312,6 +314,7 @@ where
                                 }
                                 // Initial handshake
                                 SessionState::Handshake => {
+                                    drop(dev);
                                     send_fatal!(peer=peer.to_string(), session_id=self.id;
                                         &mut stream,
                                         FatalErrorCode::AttemptUseWithoutBothChannels,
@@ -324,6 +327,7 @@ where
                             message_type: MessageType::DeviceClearComplete,
                             ..
                         } => {
+                            drop(dev);
                             // Should've been handled above when AsyncDeviceClear was sent
                             send_nonfatal!(peer=peer.to_string(), session_id=self.id;
                                 &mut stream,
@@ -339,6 +343,7 @@ where
                             message_type: MessageType::StartTLS | MessageType::EndTLS,
                             ..
                         } if protocol >= PROTOCOL_2_0 => {
+                            drop(dev);
                             log::debug!(peer=peer.to_string(), session_id=self.id; "Start/end TLS");
 
                             send_fatal!(
@@ -355,6 +360,7 @@ where
                             payload: _data,
                             ..
                         } if protocol >= PROTOCOL_2_0 => {
+                            drop(dev);
                             log::debug!(peer=peer.to_string(), session_id=self.id; "Authentication Start/Exchange");
 
                             send_fatal!(
@@ -364,6 +370,7 @@ where
                             )
                         }
                         msg => {
+                            drop(dev);
                             send_nonfatal!(peer=peer.to_string(), session_id=self.id;
                                 &mut stream,
                                 NonFatalErrorCode::UnidentifiedError,
@@ -374,6 +381,7 @@ where
                 }
                 // Invalid message
                 Err(err) => {
+                    drop(dev);
                     if err.is_fatal() {
                         Message::from(err).write_to(&mut stream).await?;
                         return Err(io::ErrorKind::Other.into());
-- 
2.43.0


From 0039e744cbcfe91c3ddb05ab9acf4e75f14f4ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:31 +0000
Subject: [PATCH 41/42] fix: do not clear a device that was locked while HiSLIP
 waited for it

Device clear checked the lock before waiting for the device to become
free, and then cleared it even if someone else had been granted a lock
in the meantime.
---
 hislip/src/server/session/synchronous.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index 06c4ac8..bce8d33 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -107,7 +107,10 @@ where
                 }) => {
                     if self.handle.can_lock().is_ok() {
                         let mut dev = self.handle.inner_lock().await;
-                        let _res = dev.clear();
+                        // A lock may have been granted to someone else while waiting
+                        if self.handle.can_lock().is_ok() {
+                            let _res = dev.clear();
+                        }
                     }
 
                     break self
-- 
2.43.0


From fdf20a2431c72a43d75953e6525b48b099b0736d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:31 +0000
Subject: [PATCH 42/42] fix: do not send service requests after half of one

Disabling service requests, or destroying a link, while a request is
being written cut it short. Requests of other links then followed on the
same channel, of which the host cannot make sense. Close the channel
instead.
---
 vxi11/src/server/vxi11/core_service.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 35f5dd3..876d09a 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -566,7 +566,9 @@ where
                                         while let Some(stb) = reader.next().await {
                                             // Check if interrupt channel is open
                                             let mut tmp = client.lock().await;
-                                            if let Some(client) = tmp.as_mut() {
+                                            // Close the channel if cancelled, the host cannot make sense
+                                            // of anything sent after half a request
+                                            if let Some(mut client) = tmp.take() {
                                                 log::debug!(link=parms.lid.0; "Sending service request, stb={stb}");
 
                                                 // Send SRQ RPC to host
@@ -575,6 +577,7 @@ where
                                                 {
                                                     log::error!(link=parms.lid.0; "Failed to send service request: {err:?}");
                                                 }
+                                                tmp.replace(client);
                                             } else {
                                                 log::error!(link=parms.lid.0; "Failed to send service request: No interrupt channel open");
                                             }
-- 
2.43.0

