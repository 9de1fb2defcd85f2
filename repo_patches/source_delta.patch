From 82ac392490af0373df57330979af6e9e4276a2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:03 +0000
Subject: [PATCH 1/9] fix: server reported NeedMoreInput while responses were
 still queued

After an internally created response (literal go-ahead or rejection) was
sent, the server moved on to receiving although more responses were
queued, and asked for input without ever handing them out.
---
 src/server.rs | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 1150ae9..78f3582 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -180,28 +180,31 @@ impl Server {
     }
 
     fn progress_send(&mut self) -> Result<Option<Event>, Interrupt<Error>> {
-        match self.send_state.next() {
-            Ok(Some(ServerSendEvent::Greeting { greeting })) => {
-                // The initial greeting was sucessfully sent, inform the caller
-                Ok(Some(Event::GreetingSent { greeting }))
-            }
-            Ok(Some(ServerSendEvent::Response {
-                handle: Some(handle),
-                response,
-            })) => {
-                // A response was sucessfully sent, inform the caller
-                Ok(Some(Event::ResponseSent { handle, response }))
-            }
-            Ok(Some(ServerSendEvent::Response { handle: None, .. })) => {
-                // An internally created response was sent, don't inform the caller
-                Ok(None)
-            }
-            Ok(_) => {
-                // No progress yet
-                Ok(None)
+        loop {
+            match self.send_state.next() {
+                Ok(Some(ServerSendEvent::Greeting { greeting })) => {
+                    // The initial greeting was sucessfully sent, inform the caller
+                    return Ok(Some(Event::GreetingSent { greeting }));
+                }
+                Ok(Some(ServerSendEvent::Response {
+                    handle: Some(handle),
+                    response,
+                })) => {
+                    // A response was sucessfully sent, inform the caller
+                    return Ok(Some(Event::ResponseSent { handle, response }));
+                }
+                Ok(Some(ServerSendEvent::Response { handle: None, .. })) => {
+                    // An internally created response was sent, don't inform the caller.
+                    // Continue sending because more responses might be queued.
+                    continue;
+                }
+                Ok(None) => {
+                    // There is nothing to send
+                    return Ok(None);
+                }
+                Err(Interrupt::Io(io)) => return Err(Interrupt::Io(io)),
+                Err(Interrupt::Error(_)) => unreachable!(),
             }
-            Err(Interrupt::Io(io)) => Err(Interrupt::Io(io)),
-            Err(Interrupt::Error(_)) => unreachable!(),
         }
     }
 
-- 
2.43.0


From 95ce6b008c0baa3591d49060b5a879ed78f4892c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:09 +0000
Subject: [PATCH 2/9] fix: plain bytes that arrived together with the end of
 the TLS handshake were never delivered

---
 src/stream.rs | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index a5c4316..3ea39af 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -269,30 +269,41 @@ fn decrypt(
 ) -> Result<Vec<u8>, DecryptEncryptError> {
     let mut plain_bytes = Vec::new();
 
+    // There might already be plain bytes that arrived together with the end of the handshake.
+    // `rustls` doesn't want to read anything else until these bytes are consumed.
+    read_plain_bytes(tls, &mut plain_bytes)?;
+
     while tls.wants_read() && !read_buffer.is_empty() {
         let mut encrypted_bytes = read_buffer.reader();
         tls.read_tls(&mut encrypted_bytes)?;
         tls.process_new_packets()?;
-
-        loop {
-            let mut plain_bytes_chunk = [0; 128];
-            match tls.reader().read(&mut plain_bytes_chunk) {
-                Err(err) if err.kind() == ErrorKind::WouldBlock => {
-                    // `rustls` doesn't have more data to yield, but it believes the
-                    // connection is open. Not sure why an error needs to be handled for
-                    // that case, but `tokio_rustls` does the same, see
-                    // https://github.com/rustls/tokio-rustls/blob/7448a86b7b5eb69b438dae0782c179e55a2d3e4f/src/common/mod.rs#L226
-                    break;
-                }
-                Err(err) => return Err(DecryptEncryptError::Io(err)),
-                Ok(n) => plain_bytes.extend(&plain_bytes_chunk[0..n]),
-            };
-        }
+        read_plain_bytes(tls, &mut plain_bytes)?;
     }
 
     Ok(plain_bytes)
 }
 
+/// Take all decrypted bytes out of the TLS connection.
+fn read_plain_bytes(
+    tls: &mut rustls::Connection,
+    plain_bytes: &mut Vec<u8>,
+) -> Result<(), DecryptEncryptError> {
+    loop {
+        let mut plain_bytes_chunk = [0; 128];
+        match tls.reader().read(&mut plain_bytes_chunk) {
+            Err(err) if err.kind() == ErrorKind::WouldBlock => {
+                // `rustls` doesn't have more data to yield, but it believes the
+                // connection is open. Not sure why an error needs to be handled for
+                // that case, but `tokio_rustls` does the same, see
+                // https://github.com/rustls/tokio-rustls/blob/7448a86b7b5eb69b438dae0782c179e55a2d3e4f/src/common/mod.rs#L226
+                return Ok(());
+            }
+            Err(err) => return Err(DecryptEncryptError::Io(err)),
+            Ok(n) => plain_bytes.extend(&plain_bytes_chunk[0..n]),
+        };
+    }
+}
+
 fn encrypt(
     tls: &mut rustls::Connection,
     write_buffer: &mut BytesMut,
-- 
2.43.0


From c67c5818f653dd15290b4c9baf00ed4983193820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:59 +0000
Subject: [PATCH 3/9] fix: sending more than 64 KiB at once over TLS failed

---
 src/stream.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index 3ea39af..5f223dd 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -309,16 +309,27 @@ fn encrypt(
     write_buffer: &mut BytesMut,
     plain_bytes: Vec<u8>,
 ) -> Result<(), DecryptEncryptError> {
-    if !plain_bytes.is_empty() {
-        tls.writer().write_all(&plain_bytes)?;
-    }
+    let mut plain_bytes = plain_bytes.as_slice();
 
-    while tls.wants_write() {
-        let mut encrypted_bytes = write_buffer.writer();
-        tls.write_tls(&mut encrypted_bytes)?;
-    }
+    loop {
+        // `rustls` only buffers a limited number of bytes, so we might need multiple attempts
+        let byte_count = tls.writer().write(plain_bytes)?;
+        plain_bytes.advance(byte_count);
 
-    Ok(())
+        while tls.wants_write() {
+            let mut encrypted_bytes = write_buffer.writer();
+            tls.write_tls(&mut encrypted_bytes)?;
+        }
+
+        if plain_bytes.is_empty() {
+            return Ok(());
+        }
+
+        if byte_count == 0 {
+            // The TLS connection doesn't accept bytes anymore
+            return Err(DecryptEncryptError::Io(ErrorKind::WriteZero.into()));
+        }
+    }
 }
 
 #[derive(Debug, Error)]
-- 
2.43.0


From 2b7bd70b1c54bac5372923c8d1f91652ee57c868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 4/9] fix: endless loop when the peer closed the TLS connection

---
 src/stream.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/stream.rs b/src/stream.rs
index 5f223dd..5fc5aaa 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -138,6 +138,11 @@ impl Stream {
 
                     // Encrypt output bytes
                     encrypt(tls, &mut self.write_buffer, plain_bytes)?;
+
+                    // The peer won't send anything after it closed the TLS connection
+                    if tls.process_new_packets()?.peer_has_closed() {
+                        return Err(Error::Closed);
+                    }
                 }
             }
 
@@ -299,6 +304,10 @@ fn read_plain_bytes(
                 return Ok(());
             }
             Err(err) => return Err(DecryptEncryptError::Io(err)),
+            Ok(0) => {
+                // The TLS connection was closed by the peer and all bytes were taken.
+                return Ok(());
+            }
             Ok(n) => plain_bytes.extend(&plain_bytes_chunk[0..n]),
         };
     }
-- 
2.43.0


From 0f396e04b80ced05190c98838b062f422dc7932e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 5/9] fix: a closed stream was reported before all received
 messages were delivered

---
 src/stream.rs | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index 5fc5aaa..8fda3c2 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -86,6 +86,9 @@ impl Stream {
     }
 
     pub async fn next<F: State>(&mut self, mut state: F) -> Result<F::Event, Error<F::Error>> {
+        // Whether the peer won't send anything anymore
+        let mut closed = false;
+
         let event = loop {
             match &mut self.tls {
                 None => {
@@ -121,6 +124,8 @@ impl Stream {
                 Interrupt::Error(err) => return Err(Error::State(err)),
             };
 
+            let needs_input = matches!(io, Io::NeedMoreInput);
+
             match &mut self.tls {
                 None => {
                     // Handle the output bytes from the client/server
@@ -140,15 +145,22 @@ impl Stream {
                     encrypt(tls, &mut self.write_buffer, plain_bytes)?;
 
                     // The peer won't send anything after it closed the TLS connection
-                    if tls.process_new_packets()?.peer_has_closed() {
-                        return Err(Error::Closed);
-                    }
+                    closed |= tls.process_new_packets()?.peer_has_closed();
+                }
+            }
+
+            if closed {
+                // The client/server might still have events for the input it already got. So the
+                // closed stream must not be reported before more input is needed.
+                if needs_input {
+                    return Err(Error::Closed);
                 }
+                continue;
             }
 
             // Progress the stream
-            if self.write_buffer.is_empty() {
-                read(&mut self.stream, &mut self.read_buffer).await?;
+            let read_result = if self.write_buffer.is_empty() {
+                read(&mut self.stream, &mut self.read_buffer).await
             } else {
                 // We read and write the stream simultaneously because otherwise
                 // a deadlock between client and server might occur if both sides
@@ -156,9 +168,17 @@ impl Stream {
                 let (read_stream, write_stream) = self.stream.split();
                 select! {
                     result = read(read_stream, &mut self.read_buffer) => result,
-                    result = write(write_stream, &mut self.write_buffer) => result,
-                }?;
+                    result = write(write_stream, &mut self.write_buffer) => {
+                        result?;
+                        continue;
+                    }
+                }
             };
+
+            match read_result {
+                Err(ReadWriteError::Closed) => closed = true,
+                result => result?,
+            }
         };
 
         Ok(event)
-- 
2.43.0


From 52a3d02bc05c4d00c939557fdf16d722cbe14f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:09 +0000
Subject: [PATCH 6/9] fix: proxy advertised unsupported capabilities during
 AUTHENTICATE and IDLE

---
 proxy/src/proxy.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 105d023..3e18dfa 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -396,19 +396,23 @@ fn handle_server_event(
             trace!(role = "p2s", ?handle, "--->");
         }
         client::Event::AuthenticateContinuationRequestReceived {
-            continuation_request,
+            mut continuation_request,
             ..
         } => {
             trace!(role = "s2p", authenticate_continuation_request=%format!("{:?}", continuation_request).blue(), "<--|");
 
+            util::filter_capabilities_in_continuation(&mut continuation_request);
+
             let handle = client_to_proxy
                 .authenticate_continue(continuation_request)
                 .unwrap();
             trace!(role = "p2c", ?handle, "authenticate_continue");
         }
-        client::Event::AuthenticateStatusReceived { status, .. } => {
+        client::Event::AuthenticateStatusReceived { mut status, .. } => {
             trace!(role = "s2p", authenticate_status=%format!("{:?}", status).blue(), "<--|");
 
+            util::filter_capabilities_in_status(&mut status);
+
             // TODO(#145): Fix unwrap
             let handle = client_to_proxy.authenticate_finish(status).unwrap();
             trace!(role = "p2c", ?handle, "authenticate_finish");
@@ -444,7 +448,7 @@ fn handle_server_event(
         }
         client::Event::IdleAccepted {
             handle,
-            continuation_request,
+            mut continuation_request,
         } => {
             trace!(
                 role = "s2p",
@@ -453,13 +457,17 @@ fn handle_server_event(
                 "<--|"
             );
 
+            util::filter_capabilities_in_continuation(&mut continuation_request);
+
             // TODO(#145): Fix unwrap
             let handle = client_to_proxy.idle_accept(continuation_request).unwrap();
             trace!(role = "p2c", ?handle, "idle_accept");
         }
-        client::Event::IdleRejected { handle, status } => {
+        client::Event::IdleRejected { handle, mut status } => {
             trace!(role = "s2p", ?handle, idle_rejected_status=%format!("{:?}", status).blue(), "<--|");
 
+            util::filter_capabilities_in_status(&mut status);
+
             // TODO(#145): Fix unwrap
             let handle = client_to_proxy.idle_reject(status).unwrap();
             trace!(role = "p2c", ?handle, "idle_reject");
-- 
2.43.0


From 962c7aea61af35119feb6535ddad87f9bfcc7235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:06 +0000
Subject: [PATCH 7/9] fix: proxy dropped the remaining responses when the
 server closed the connection

---
 proxy/src/proxy.rs | 48 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 3e18dfa..6ecfb47 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -1,10 +1,11 @@
-use std::{net::SocketAddr, sync::Arc};
+use std::{convert::Infallible, net::SocketAddr, sync::Arc};
 
 use colored::Colorize;
 use imap_next::{
     client::{self, Client},
     server::{self, Server},
     stream::{self, Stream},
+    Interrupt, Io,
 };
 use imap_types::{
     bounded_static::ToBoundedStatic,
@@ -233,6 +234,51 @@ impl Proxy<ConnectedState> {
                 break;
             }
         }
+
+        // The server might have closed the connection right after it sent something.
+        // So there might be responses that were not sent to the client yet.
+        if let Err(error) = send_remaining(&mut client_to_proxy_stream, &mut client_to_proxy).await
+        {
+            info!(role = "p2c", %error, "Failed to send remaining responses");
+        }
+    }
+}
+
+/// Sends everything that is enqueued without waiting for input.
+async fn send_remaining<S: imap_next::State>(
+    stream: &mut Stream,
+    state: &mut S,
+) -> Result<(), stream::Error<Infallible>> {
+    loop {
+        match stream.next(WithoutInput(&mut *state)).await {
+            Ok(Some(_)) | Err(stream::Error::State(_)) => continue,
+            Ok(None) => break,
+            Err(stream::Error::Closed) => return Err(stream::Error::Closed),
+            Err(stream::Error::Io(error)) => return Err(stream::Error::Io(error)),
+            Err(stream::Error::Tls(error)) => return Err(stream::Error::Tls(error)),
+        }
+    }
+
+    stream.flush().await
+}
+
+/// Progresses a state until it would need more input.
+struct WithoutInput<'a, S>(&'a mut S);
+
+impl<S: imap_next::State> imap_next::State for WithoutInput<'_, S> {
+    type Event = Option<S::Event>;
+    type Error = S::Error;
+
+    fn enqueue_input(&mut self, bytes: &[u8]) {
+        self.0.enqueue_input(bytes);
+    }
+
+    fn next(&mut self) -> Result<Self::Event, Interrupt<Self::Error>> {
+        match self.0.next() {
+            Ok(event) => Ok(Some(event)),
+            Err(Interrupt::Io(Io::NeedMoreInput)) => Ok(None),
+            Err(interrupt) => Err(interrupt),
+        }
     }
 }
 
-- 
2.43.0


From 85a40cfe5a0f5025a58deab3145684a82837a350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:08 +0000
Subject: [PATCH 8/9] fix: proxy dropped the remaining commands when the client
 closed the connection

---
 proxy/src/proxy.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 6ecfb47..5d41c09 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -235,12 +235,20 @@ impl Proxy<ConnectedState> {
             }
         }
 
-        // The server might have closed the connection right after it sent something.
-        // So there might be responses that were not sent to the client yet.
-        if let Err(error) = send_remaining(&mut client_to_proxy_stream, &mut client_to_proxy).await
-        {
+        // One side might have closed the connection right after it sent something.
+        // So there might be messages that were not sent to the other side yet.
+        let (responses, commands) = tokio::join!(
+            send_remaining(&mut client_to_proxy_stream, &mut client_to_proxy),
+            send_remaining(&mut proxy_to_server_stream, &mut proxy_to_server),
+        );
+
+        if let Err(error) = responses {
             info!(role = "p2c", %error, "Failed to send remaining responses");
         }
+
+        if let Err(error) = commands {
+            info!(role = "p2s", %error, "Failed to send remaining commands");
+        }
     }
 }
 
-- 
2.43.0


From aff20e241c664fb65bf83c26b4a9f8be21f78d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:31 +0000
Subject: [PATCH 9/9] fix: a client that stalled its TLS handshake blocked all
 other clients of the service

---
 proxy/src/main.rs  |  3 +++
 proxy/src/proxy.rs | 43 ++++++++++++++++++++++++++++++-------------
 2 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/proxy/src/main.rs b/proxy/src/main.rs
index 24624b4..82a634a 100644
--- a/proxy/src/main.rs
+++ b/proxy/src/main.rs
@@ -89,6 +89,9 @@ async fn handle_service(service: Service) {
 
 #[instrument(name = "client", skip_all, fields(addr = %proxy.client_addr()))]
 async fn handle_client(proxy: Proxy<ClientAcceptedState>) -> Result<()> {
+    // Note: The TLS handshake must not happen while accepting clients. Otherwise, a client that
+    //       stalls the handshake would block all other clients of the service.
+    let proxy = proxy.secure_client().await?;
     let proxy = proxy.connect_to_server().await?;
     proxy.start_conversation().await;
     Ok(())
diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 5d41c09..7618a55 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -81,6 +81,31 @@ impl Proxy<BoundState> {
         let (client_to_proxy, client_addr) = self.state.listener.accept().await?;
         info!(?client_addr, "Accepted client");
 
+        Ok(Proxy {
+            service: self.service.clone(),
+            state: ClientAcceptedState {
+                client_addr,
+                client_to_proxy,
+            },
+        })
+    }
+}
+
+pub struct ClientAcceptedState {
+    client_addr: SocketAddr,
+    client_to_proxy: TcpStream,
+}
+
+impl State for ClientAcceptedState {}
+
+impl Proxy<ClientAcceptedState> {
+    pub fn client_addr(&self) -> SocketAddr {
+        self.state.client_addr
+    }
+
+    pub async fn secure_client(self) -> Result<Proxy<ClientSecuredState>, ProxyError> {
+        let client_to_proxy = self.state.client_to_proxy;
+
         let client_to_proxy = match &self.service.bind {
             Bind::Tls { identity, .. } => {
                 let config = {
@@ -117,27 +142,19 @@ impl Proxy<BoundState> {
         };
 
         Ok(Proxy {
-            service: self.service.clone(),
-            state: ClientAcceptedState {
-                client_addr,
-                client_to_proxy,
-            },
+            service: self.service,
+            state: ClientSecuredState { client_to_proxy },
         })
     }
 }
 
-pub struct ClientAcceptedState {
-    client_addr: SocketAddr,
+pub struct ClientSecuredState {
     client_to_proxy: Stream,
 }
 
-impl State for ClientAcceptedState {}
-
-impl Proxy<ClientAcceptedState> {
-    pub fn client_addr(&self) -> SocketAddr {
-        self.state.client_addr
-    }
+impl State for ClientSecuredState {}
 
+impl Proxy<ClientSecuredState> {
     pub async fn connect_to_server(self) -> Result<Proxy<ConnectedState>, ProxyError> {
         let server_addr_port = self.service.connect.addr_port();
         info!(%server_addr_port, "Connecting to server");
-- 
2.43.0

