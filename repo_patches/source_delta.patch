From 0dcc67fe4125b8f0060598625147abbac796dab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:39 +0000
Subject: [PATCH 1/8] fix: report write errors seen while checking the socket
 for readiness

A failed readiness check was treated as permission to send: the error was
lost and a partially written frame was overwritten by the next one.
---
 yamux/src/connection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index ee17d39..5e3ce0f 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -400,7 +400,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
 
     fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Result<Stream>> {
         loop {
-            if self.socket.poll_ready_unpin(cx).is_ready() {
+            if self.socket.poll_ready_unpin(cx)?.is_ready() {
                 // Note `next_ping` does not register a waker and thus if not called regularly (idle
                 // connection) no ping is sent. This is deliberate as an idle connection does not
                 // need RTT measurements to increase its stream receive window.
-- 
2.43.0


From 8a78c70541ab6e5db7cf7d59e3918c5705934eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:39 +0000
Subject: [PATCH 2/8] fix: close all streams and wake their tasks when the
 connection is closed

Only failure and drop of the connection did so. A task waiting to read from
a stream was never woken when the owner closed the connection.
---
 yamux/src/connection.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index 5e3ce0f..a4a334c 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -380,7 +380,9 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
     }
 
     /// Gracefully close the connection to the remote.
-    fn close(self) -> Closing<T> {
+    fn close(mut self) -> Closing<T> {
+        self.drop_all_streams();
+
         let pending_frames = self
             .pending_read_frame
             .into_iter()
-- 
2.43.0


From 548c039c02426356424dd4d4491ca0909b8c6528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:39 +0000
Subject: [PATCH 3/8] fix: do not accept a remote stream with the session id

Stream id 0 is even and was accepted as a server stream.
---
 yamux/src/connection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index a4a334c..977f854 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -891,7 +891,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
             return id.is_session();
         }
         match self.mode {
-            Mode::Client => id.is_server(),
+            Mode::Client => id.is_server() && !id.is_session(),
             Mode::Server => id.is_client(),
         }
     }
-- 
2.43.0


From b56957dc80ca1d7221e23a0754534be4b12952b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:39 +0000
Subject: [PATCH 4/8] fix: do not send a second FIN when a half-closed stream
 is closed again

---
 yamux/src/connection/stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index 6eb6dd4..e7b5b31 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -408,7 +408,7 @@ impl AsyncWrite for Stream {
     }
 
     fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<io::Result<()>> {
-        if self.is_closed() {
+        if !self.shared().state().can_write() {
             return Poll::Ready(Ok(()));
         }
         ready!(self
-- 
2.43.0


From a67136ecbbc3b012ac731e3059a70ca5583aa235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 5/8] fix: open the stream with SYN when it is closed before
 anything was sent

The FIN frame of a stream the remote does not know is ignored by it.
---
 yamux/src/connection/stream.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index e7b5b31..391b2bb 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -422,7 +422,17 @@ impl AsyncWrite for Stream {
             false
         };
         log::trace!("{}/{}: close", self.conn, self.id);
-        let cmd = StreamCommand::CloseStream { ack };
+        let cmd = if self.flag == Flag::Syn {
+            // Nothing has been sent yet, so the closing frame is also the one that opens the
+            // stream. Without the SYN flag the remote would never learn about it.
+            let mut header = Header::data(self.id, 0);
+            header.syn();
+            header.fin();
+            self.flag = Flag::None;
+            StreamCommand::SendFrame(Frame::new(header).left())
+        } else {
+            StreamCommand::CloseStream { ack }
+        };
         self.sender
             .start_send(cmd)
             .map_err(|_| self.write_zero_err())?;
-- 
2.43.0


From 1e945bd86a84a3b54b2923f69db8abf4275955c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 6/8] fix: record the acknowledgement that a window update
 carries

---
 yamux/src/connection/stream.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index 391b2bb..33df78f 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -229,6 +229,13 @@ impl Stream {
 
         let mut frame = Frame::window_update(self.id, credit).right();
         self.add_flag(frame.header_mut());
+
+        // See `poll_write`: sending the ACK acknowledges the stream, whatever frame carries it.
+        if frame.header().flags().contains(ACK) {
+            self.shared()
+                .update_state(self.conn, self.id, State::Open { acknowledged: true });
+        }
+
         let cmd = StreamCommand::SendFrame(frame);
         self.sender
             .start_send(cmd)
-- 
2.43.0


From 378b6fe791526b9682dab28f9417c818c37acbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 7/8] fix: wake the task waiting to open a stream whenever the
 backlog may shrink

It was woken by acknowledgements only, although resets, half-closes and
dropped streams shrink the ACK backlog as well, and although the end of the
connection ends the wait.
---
 yamux/src/connection.rs | 41 +++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index 977f854..9134c97 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -437,11 +437,15 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                             frame.header().stream_id(),
                             frame.header()
                         );
+                        if frame.header().flags().contains(header::FIN) {
+                            self.wake_new_outbound();
+                        }
                         self.pending_write_frame.replace(frame.into());
                         continue;
                     }
                     Poll::Ready(Some((id, Some(StreamCommand::CloseStream { ack })))) => {
                         log::trace!("{}/{}: sending close", self.id, id);
+                        self.wake_new_outbound();
                         self.pending_write_frame
                             .replace(Frame::close_stream(id, ack).into());
                         continue;
@@ -517,6 +521,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
 
     fn on_drop_stream(&mut self, stream_id: StreamId) -> Option<Frame<()>> {
         let s = self.streams.remove(&stream_id).expect("stream not found");
+        self.wake_new_outbound();
 
         log::trace!("{}: removing dropped stream {}", self.id, stream_id);
         let frame = {
@@ -573,17 +578,23 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
     fn on_frame(&mut self, frame: Frame<()>) -> Result<Action> {
         log::trace!("{}: received: {}", self.id, frame.header());
 
-        if frame.header().flags().contains(header::ACK)
-            && matches!(frame.header().tag(), Tag::Data | Tag::WindowUpdate)
-        {
-            let id = frame.header().stream_id();
-            if let Some(stream) = self.streams.get(&id) {
-                stream
-                    .lock()
-                    .update_state(self.id, id, State::Open { acknowledged: true });
+        if matches!(frame.header().tag(), Tag::Data | Tag::WindowUpdate) {
+            let flags = frame.header().flags();
+
+            if flags.contains(header::ACK) {
+                let id = frame.header().stream_id();
+                if let Some(stream) = self.streams.get(&id) {
+                    stream
+                        .lock()
+                        .update_state(self.id, id, State::Open { acknowledged: true });
+                }
             }
-            if let Some(waker) = self.new_outbound_stream_waker.take() {
-                waker.wake();
+
+            if flags.contains(header::ACK)
+                || flags.contains(header::FIN)
+                || flags.contains(header::RST)
+            {
+                self.wake_new_outbound();
             }
         }
 
@@ -898,8 +909,18 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
 }
 
 impl<T> Active<T> {
+    /// Wake the task waiting to open a new outbound stream, if any.
+    ///
+    /// To be called whenever the ACK backlog may have shrunk.
+    fn wake_new_outbound(&mut self) {
+        if let Some(waker) = self.new_outbound_stream_waker.take() {
+            waker.wake();
+        }
+    }
+
     /// Close and drop all `Stream`s and wake any pending `Waker`s.
     fn drop_all_streams(&mut self) {
+        self.wake_new_outbound();
         for (id, s) in self.streams.drain() {
             let mut shared = s.lock();
             shared.update_state(self.id, id, State::Closed);
-- 
2.43.0


From 63295290df88be9cb28c955b15c10f47b238d4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:23 +0000
Subject: [PATCH 8/8] fix: reject stream counts whose guaranteed window
 overflows also in release builds

The product of max_num_streams and the default credit wrapped in builds
without overflow checks, so that the limit was not enforced.
---
 yamux/src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/yamux/src/lib.rs b/yamux/src/lib.rs
index 0e5c65e..b757b0a 100644
--- a/yamux/src/lib.rs
+++ b/yamux/src/lib.rs
@@ -127,8 +127,9 @@ impl Config {
         self.max_connection_receive_window = n;
 
         assert!(
-            self.max_connection_receive_window.unwrap_or(usize::MAX)
-                >= self.max_num_streams * DEFAULT_CREDIT as usize,
+            self.max_num_streams
+                .checked_mul(DEFAULT_CREDIT as usize)
+                .is_some_and(|min| self.max_connection_receive_window.unwrap_or(usize::MAX) >= min),
             "`max_connection_receive_window` must be `>= 256 KiB * max_num_streams` to allow each
             stream at least the Yamux default window size"
         );
@@ -141,8 +142,9 @@ impl Config {
         self.max_num_streams = n;
 
         assert!(
-            self.max_connection_receive_window.unwrap_or(usize::MAX)
-                >= self.max_num_streams * DEFAULT_CREDIT as usize,
+            self.max_num_streams
+                .checked_mul(DEFAULT_CREDIT as usize)
+                .is_some_and(|min| self.max_connection_receive_window.unwrap_or(usize::MAX) >= min),
             "`max_connection_receive_window` must be `>= 256 KiB * max_num_streams` to allow each
             stream at least the Yamux default window size"
         );
-- 
2.43.0

