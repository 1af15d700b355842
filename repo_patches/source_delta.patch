From d17d0c138ec744ce3830c5d5f608b85014ed8311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 01/25] fix: keep args apart when one ends at a frame boundary

---
 src/defragmentation.rs |  1 +
 src/fragmentation.rs   | 11 ++++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/defragmentation.rs b/src/defragmentation.rs
index 30ece5e..3c5db02 100644
--- a/src/defragmentation.rs
+++ b/src/defragmentation.rs
@@ -230,6 +230,7 @@ impl ArgsDefragmenter {
                 }
             },
             // next arg (according to protocol specs an empty arg at the beginning means the previous arg ended at the end of previous frame)
+            None if !self.args.is_empty() => {}
             None => self.args.push(BytesMut::new()),
         }
     }
diff --git a/src/fragmentation.rs b/src/fragmentation.rs
index 05b64c6..7cdb6a2 100644
--- a/src/fragmentation.rs
+++ b/src/fragmentation.rs
@@ -193,6 +193,7 @@ impl ArgsFragmenter {
         while let Some(mut arg) = self.args.pop_front() {
             payload_limit -= ARG_LEN_LEN as i32;
             let (status, frame_arg_opt) = Self::next_arg_fragment(&mut arg, payload_limit);
+            let not_started = frame_arg_opt.is_none();
             if let Some(frame_arg) = frame_arg_opt {
                 match frame_arg.len() {
                     0 => frame_args.push_back(None),
@@ -204,6 +205,10 @@ impl ArgsFragmenter {
             }
             if status == Incomplete {
                 self.args.push_front(arg);
+                if not_started {
+                    // Previous arg has ended with this frame, next frame needs an empty arg to mark it.
+                    self.args.push_front(Bytes::new());
+                }
                 break;
             } else if status == CompleteAtTheEnd {
                 self.args.push_front(Bytes::new());
@@ -218,10 +223,10 @@ impl ArgsFragmenter {
         payload_limit: i32,
     ) -> (FragmentationStatus, Option<Bytes>) {
         let src_remaining = arg.remaining() as i32;
-        if src_remaining == 0 {
-            (FragmentationStatus::Complete, Some(Bytes::new()))
-        } else if payload_limit < 0 {
+        if payload_limit < 0 {
             (FragmentationStatus::Incomplete, None)
+        } else if src_remaining == 0 {
+            (FragmentationStatus::Complete, Some(Bytes::new()))
         } else if src_remaining > payload_limit {
             let fragment = arg.split_to(payload_limit as usize);
             (FragmentationStatus::Incomplete, Some(fragment))
-- 
2.43.0


From 740a2009e6cbff0e19a6993db502c0ba8242d72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:04 +0000
Subject: [PATCH 02/25] fix: send a handler's MessageError under the error
 response code

---
 src/handler.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/handler.rs b/src/handler.rs
index 22787f0..c5a08e0 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -76,7 +76,9 @@ fn convert<MSG: Message>(msg_res: HandlerResult<MSG>) -> MessageArgsResponse {
     match msg_res {
         Ok(message) => Ok((ResponseCode::Ok, message.try_into()?)),
         Err(err) => match err {
-            HandlerError::MessageError(message) => Ok((ResponseCode::Ok, message.try_into()?)),
+            HandlerError::MessageError(message) => {
+                Ok((ResponseCode::Error, message.try_into()?))
+            }
             HandlerError::GeneralError(message) => Err(TChannelError::Error(message)),
             HandlerError::InternalError(err) => Err(err),
         },
-- 
2.43.0


From 80d6732661d9c5319da8f5c8b34f63b97e6ee3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 03/25] fix: return an error instead of panicking on truncated
 payloads

---
 src/frames/payloads.rs | 48 +++++++++++++++++++++++++-----------------
 src/handler.rs         |  4 +---
 2 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/src/frames/payloads.rs b/src/frames/payloads.rs
index 82c683c..ac6bbc0 100644
--- a/src/frames/payloads.rs
+++ b/src/frames/payloads.rs
@@ -102,10 +102,10 @@ impl Codec for Tracing {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(Tracing::new(
-            src.get_u64(),
-            src.get_u64(),
-            src.get_u64(),
-            decode_bitflag(src.get_u8(), TraceFlags::from_bits)?,
+            get(src, Bytes::get_u64)?,
+            get(src, Bytes::get_u64)?,
+            get(src, Bytes::get_u64)?,
+            decode_bitflag(get(src, Bytes::get_u8)?, TraceFlags::from_bits)?,
         ))
     }
 }
@@ -132,7 +132,7 @@ impl Codec for Init {
     }
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
-        Ok(Init::new(src.get_u16(), decode_headers(src)?))
+        Ok(Init::new(get(src, Bytes::get_u16)?, decode_headers(src)?))
     }
 }
 
@@ -191,7 +191,7 @@ impl Codec for CallWithFieldsEncoded {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallWithFieldsEncoded::new(
-            decode_bitflag(src.get_u8(), Flags::from_bits)?,
+            decode_bitflag(get(src, Bytes::get_u8)?, Flags::from_bits)?,
             CallRequestFields::decode(src)?.encode_bytes()?,
             CallArgs::decode(src)?,
         ))
@@ -236,7 +236,7 @@ impl Codec for CallRequestFields {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallRequestFields::new(
-            src.get_u32(),
+            get(src, Bytes::get_u32)?,
             Tracing::decode(src)?,
             decode_small_string(src)?,
             decode_small_headers(src)?,
@@ -278,7 +278,7 @@ impl Codec for CallRequest {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallRequest::new(
-            decode_bitflag(src.get_u8(), Flags::from_bits)?,
+            decode_bitflag(get(src, Bytes::get_u8)?, Flags::from_bits)?,
             CallRequestFields::decode(src)?,
             CallArgs::decode(src)?,
         ))
@@ -322,7 +322,7 @@ impl Codec for CallResponseFields {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallResponseFields::new(
-            decode_bitflag(src.get_u8(), ResponseCode::from_u8)?,
+            decode_bitflag(get(src, Bytes::get_u8)?, ResponseCode::from_u8)?,
             Tracing::decode(src)?,
             decode_small_headers(src)?,
         ))
@@ -363,7 +363,7 @@ impl Codec for CallResponse {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallResponse::new(
-            decode_bitflag(src.get_u8(), Flags::from_bits)?,
+            decode_bitflag(get(src, Bytes::get_u8)?, Flags::from_bits)?,
             CallResponseFields::decode(src)?,
             CallArgs::decode(src)?,
         ))
@@ -404,7 +404,7 @@ impl Codec for CallContinue {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallContinue::new(
-            decode_bitflag(src.get_u8(), Flags::from_bits)?,
+            decode_bitflag(get(src, Bytes::get_u8)?, Flags::from_bits)?,
             CallArgs::decode(src)?,
         ))
     }
@@ -432,7 +432,7 @@ impl Codec for Cancel {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(Cancel::new(
-            src.get_u32(),
+            get(src, Bytes::get_u32)?,
             Tracing::decode(src)?,
             decode_string(src)?,
         ))
@@ -457,7 +457,7 @@ impl Codec for Claim {
     }
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
-        Ok(Claim::new(src.get_u32(), Tracing::decode(src)?))
+        Ok(Claim::new(get(src, Bytes::get_u32)?, Tracing::decode(src)?))
     }
 }
 
@@ -482,13 +482,20 @@ impl Codec for ErrorMsg {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(ErrorMsg::new(
-            decode_bitflag(src.get_u8(), ErrorCode::from_u8)?,
+            decode_bitflag(get(src, Bytes::get_u8)?, ErrorCode::from_u8)?,
             Tracing::decode(src)?,
             decode_string(src)?,
         ))
     }
 }
 
+fn get<T>(src: &mut Bytes, read: impl FnOnce(&mut Bytes) -> T) -> CodecResult<T> {
+    if src.remaining() < std::mem::size_of::<T>() {
+        return Err(CodecError::Error("Payload too short".to_owned()));
+    }
+    Ok(read(src))
+}
+
 fn encode_headers(headers: HashMap<String, String>, dst: &mut BytesMut) -> CodecResult<()> {
     encode_header_fields::<u16>(headers, dst, &BytesMut::put_u16, &encode_string)
 }
@@ -547,10 +554,10 @@ fn encode_checksum(
 }
 
 fn decode_checksum(src: &mut Bytes) -> CodecResult<(ChecksumType, Option<u32>)> {
-    let checksum_type = decode_bitflag(src.get_u8(), ChecksumType::from_u8)?;
+    let checksum_type = decode_bitflag(get(src, Bytes::get_u8)?, ChecksumType::from_u8)?;
     match checksum_type {
         ChecksumType::None => Ok((ChecksumType::None, None)),
-        checksum => Ok((checksum, Some(src.get_u32()))),
+        checksum => Ok((checksum, Some(get(src, Bytes::get_u32)?))),
     }
 }
 
@@ -637,8 +644,11 @@ fn decode_string_field<T: Into<usize>>(
     src: &mut Bytes,
     get_len: &dyn Fn(&mut Bytes) -> T,
 ) -> CodecResult<String> {
-    let len = get_len(src);
-    let bytes = src.copy_to_bytes(len.into());
+    let len = get(src, get_len)?.into();
+    if src.remaining() < len {
+        return Err(CodecError::Error(format!("Wrong string length: {}", len)));
+    }
+    let bytes = src.copy_to_bytes(len);
     Ok(String::from_utf8(bytes.chunk().to_vec())?)
 }
 
@@ -660,7 +670,7 @@ fn decode_len<T: TryInto<usize>>(
     src: &mut Bytes,
     decode_len_fn: &dyn Fn(&mut Bytes) -> T,
 ) -> CodecResult<usize> {
-    decode_len_fn(src)
+    get(src, decode_len_fn)?
         .try_into()
         .map_err(|_| CodecError::Error("Failed to cast len to usize.".to_string()))
 }
diff --git a/src/handler.rs b/src/handler.rs
index c5a08e0..2983a9d 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -76,9 +76,7 @@ fn convert<MSG: Message>(msg_res: HandlerResult<MSG>) -> MessageArgsResponse {
     match msg_res {
         Ok(message) => Ok((ResponseCode::Ok, message.try_into()?)),
         Err(err) => match err {
-            HandlerError::MessageError(message) => {
-                Ok((ResponseCode::Error, message.try_into()?))
-            }
+            HandlerError::MessageError(message) => Ok((ResponseCode::Error, message.try_into()?)),
             HandlerError::GeneralError(message) => Err(TChannelError::Error(message)),
             HandlerError::InternalError(err) => Err(err),
         },
-- 
2.43.0


From deaa817265b5d229322619eb890a922fa5a0c8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:45 +0000
Subject: [PATCH 04/25] fix: reject unsupported checksum types instead of
 panicking

---
 src/defragmentation.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/defragmentation.rs b/src/defragmentation.rs
index 3c5db02..26e2223 100644
--- a/src/defragmentation.rs
+++ b/src/defragmentation.rs
@@ -199,7 +199,10 @@ async fn read_continuation(
 fn verify_args(call_args: &mut CallArgs) -> CodecResult<&mut VecDeque<Option<Bytes>>> {
     match call_args.checksum_type() {
         ChecksumType::None => Ok(call_args.args_mut()),
-        _ => todo!(),
+        other => Err(CodecError::Error(format!(
+            "Unsupported checksum type {:?}",
+            other
+        ))),
     }
 }
 
-- 
2.43.0


From 8a7d453f3f603fc72ca401e90db939217e9a3586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 05/25] fix: never deliver a message whose last fragments are
 missing

---
 src/defragmentation.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/defragmentation.rs b/src/defragmentation.rs
index 26e2223..ab284e6 100644
--- a/src/defragmentation.rs
+++ b/src/defragmentation.rs
@@ -174,7 +174,7 @@ async fn read_continuation(
                 let mut continuation = CallContinue::decode(frame.payload_mut())?;
                 verify_args(continuation.args_mut()).map(|args| args_defragmenter.add(args))?;
                 if !continuation.flags().contains(Flags::MORE_FRAGMENTS_FOLLOW) {
-                    break;
+                    return Ok(());
                 }
             }
             Type::Error => {
@@ -193,7 +193,9 @@ async fn read_continuation(
             }
         };
     }
-    Ok(())
+    Err(TChannelError::Error(
+        "Connection closed before the last fragment".to_string(),
+    ))
 }
 
 fn verify_args(call_args: &mut CallArgs) -> CodecResult<&mut VecDeque<Option<Bytes>>> {
-- 
2.43.0


From f76089180f93daaa484368bcaab3d64bd370d690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 06/25] fix: fail pending calls and discard the connection when
 the peer is gone

---
 src/connection/mod.rs  | 26 ++++++++++++++++++++++++--
 src/connection/pool.rs |  6 +++---
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 52efddb..7e9db3e 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -7,7 +7,7 @@ use futures::{future, StreamExt};
 use log::{debug, error};
 use std::collections::HashMap;
 use std::fmt::Debug;
-use std::sync::atomic::{AtomicU32, Ordering};
+use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
 use std::sync::Arc;
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::TcpStream;
@@ -51,6 +51,9 @@ pub struct FramesDispatcher {
     #[new(default)]
     senders: RwLock<HashMap<u32, Sender<TFrameId>>>,
     buffer_size: usize,
+    /// Set when no more frames will arrive. Changed only when holding write lock of `senders`.
+    #[new(default)]
+    closed: AtomicBool,
 }
 
 /// Dispatches frames to channels according to their IDs.
@@ -75,6 +78,9 @@ impl FramesDispatcher {
 
     pub async fn register(&self, id: u32, sender: Sender<TFrameId>) -> ConnectionResult<()> {
         let mut channels = self.senders.write().await;
+        if self.is_closed() {
+            return Err(ConnectionError::Error("Connection closed".to_owned()));
+        }
         if channels.insert(id, sender).is_some() {
             debug!("Sender for id {} already exists", id);
             return Err(ConnectionError::Error(format!("Duplicated id: {}.", id)));
@@ -82,6 +88,17 @@ impl FramesDispatcher {
         Ok(())
     }
 
+    /// Ends all pending frame channels and refuses new ones.
+    pub async fn close(&self) {
+        let mut channels = self.senders.write().await;
+        self.closed.store(true, Ordering::Relaxed);
+        channels.clear();
+    }
+
+    pub fn is_closed(&self) -> bool {
+        self.closed.load(Ordering::Relaxed)
+    }
+
     async fn dispatch_first(&self, frame: TFrameId) -> ConnectionResult<Receiver<TFrameId>> {
         let id = *frame.id();
         debug!("Received frame with id: {}", id);
@@ -156,6 +173,10 @@ impl Connection {
         Ok((receiver, frame_output))
     }
 
+    pub fn is_closed(&self) -> bool {
+        self.pending_ids.is_closed()
+    }
+
     fn next_message_id(&self) -> u32 {
         self.next_message_id.fetch_add(1, Ordering::Relaxed)
     }
@@ -231,7 +252,8 @@ impl FrameReceiver {
             .filter_map(Self::print_if_err_and_skip)
             .map(|frame| self.frame_senders.dispatch_following(frame))
             .for_each(Self::print_if_err)
-            .await
+            .await;
+        self.frame_senders.close().await;
     }
 
     fn print_if_err_and_skip(
diff --git a/src/connection/pool.rs b/src/connection/pool.rs
index 7cdf9a0..0f24df0 100644
--- a/src/connection/pool.rs
+++ b/src/connection/pool.rs
@@ -102,9 +102,9 @@ impl bb8::ManageConnection for ConnectionManager {
         ping(conn).await
     }
 
-    fn has_broken(&self, _conn: &mut Self::Connection) -> bool {
-        debug!("Has broken? (not implemented)");
-        false
+    fn has_broken(&self, conn: &mut Self::Connection) -> bool {
+        debug!("Has broken?");
+        conn.is_closed()
     }
 }
 
-- 
2.43.0


From 58d48892724a7783c80f18e5175a82e9f0dd439c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 07/25] fix: give up incomplete requests when the client
 disconnects

---
 src/server.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 6bf76ca..c09f632 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -10,7 +10,7 @@ use crate::frames::payloads::{Init, Tracing};
 use crate::frames::{TFrame, TFrameId, TFrameIdCodec, Type};
 use crate::SubChannel;
 use futures::TryFutureExt;
-use futures::{self, SinkExt, StreamExt, TryStreamExt};
+use futures::{self, future, stream, SinkExt, StreamExt, TryStreamExt};
 use log::debug;
 use std::collections::HashMap;
 use std::fmt::Debug;
@@ -76,7 +76,13 @@ impl Server {
 
         framed_read
             .map_err(TChannelError::CodecError)
-            .try_filter_map(|frame| self.dispatch_frame(frame))
+            .and_then(|frame| self.dispatch_frame(frame))
+            .chain(stream::once(async {
+                // No more frames, requests still waiting for fragments will not get them.
+                self.frame_dispatchers.close().await;
+                Ok(None)
+            }))
+            .try_filter_map(future::ok)
             .try_for_each_concurrent(self.server_tasks, |(id, frames)| handler.handle(id, frames))
             .await
         //TODO send fatal protocol error when it fails
-- 
2.43.0


From 4bd6755793dc8f84659e1dac853fd26a3fd2e214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 08/25] fix: keep reading fragments while server_tasks requests
 are in progress

---
 src/server.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index c09f632..6f1e9c6 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -19,6 +19,7 @@ use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::{TcpListener, TcpStream};
 use tokio::sync::mpsc;
 use tokio::sync::mpsc::Sender;
+use tokio::sync::Semaphore;
 use tokio_util::codec::{FramedRead, FramedWrite};
 
 #[derive(Debug)]
@@ -72,6 +73,7 @@ impl Server {
             self.subchannels.clone(),
             self.frame_dispatchers.clone(),
             sender,
+            Semaphore::new(task_permits(self.server_tasks)),
         );
 
         framed_read
@@ -83,7 +85,8 @@ impl Server {
                 Ok(None)
             }))
             .try_filter_map(future::ok)
-            .try_for_each_concurrent(self.server_tasks, |(id, frames)| handler.handle(id, frames))
+            // Not limited by server_tasks, frames of incomplete requests have to be read all the time.
+            .try_for_each_concurrent(None, |(id, frames)| handler.handle(id, frames))
             .await
         //TODO send fatal protocol error when it fails
     }
@@ -159,6 +162,16 @@ struct FrameHandler {
     subchannels: SharedSubChannels,
     frame_dispatchers: Arc<FramesDispatcher>,
     sender: Sender<TFrameId>,
+    tasks: Semaphore,
+}
+
+/// Zero means no limit.
+fn task_permits(server_tasks: usize) -> usize {
+    const MAX_PERMITS: usize = usize::MAX >> 4;
+    match server_tasks {
+        0 => MAX_PERMITS,
+        tasks => tasks.min(MAX_PERMITS),
+    }
 }
 
 impl FrameHandler {
@@ -174,7 +187,9 @@ impl FrameHandler {
             RequestDefragmenter::new(frame_input).read_request().await?;
         self.frame_dispatchers.deregister(&id).await;
         let subchannel = self.get_subchannel(request_fields.service()).await?;
+        let task = self.tasks.acquire().await;
         let (response_code, response_args) = subchannel.handle(message_args).await?;
+        drop(task);
         match ResponseFragmenter::new(request_fields.service(), response_code, response_args)
             .create_frames()
         {
-- 
2.43.0


From 120da300740217c92d12c337cddb297fc179fa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 09/25] fix: answer a failed request with an error frame
 instead of dropping the connection

---
 src/connection/mod.rs |  5 ++++-
 src/server.rs         | 19 ++++++++++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 7e9db3e..861b9ce 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -64,7 +64,10 @@ impl FramesDispatcher {
         let senders = self.senders.read().await;
         if let Some(sender) = senders.get(frame.id()) {
             debug!("Dispatching frame (id {}) to found sender.", frame.id());
-            return Ok(sender.send(frame).map_ok(|_| None).await?);
+            if sender.send(frame).await.is_err() {
+                debug!("Dropping frame, handling of its message has already ended.");
+            }
+            return Ok(None);
         }
         std::mem::drop(senders);
         //TODO it will return error on check if it got concurrently inserted
diff --git a/src/server.rs b/src/server.rs
index 6f1e9c6..cf7d474 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -30,6 +30,9 @@ pub struct Server {
     server_tasks: usize,
 }
 
+/// Max length of error message which fits into a single frame.
+const ERROR_MSG_MAX_LENGTH: usize = 65_000;
+
 type TFramedRead = FramedRead<OwnedReadHalf, TFrameIdCodec>;
 type TFramedWrite = FramedWrite<OwnedWriteHalf, TFrameIdCodec>;
 
@@ -178,6 +181,7 @@ impl FrameHandler {
     pub async fn handle(&self, id: u32, frame_input: FrameInput) -> TResult<()> {
         debug!("Handling message (id {})", &id);
         self.handle_input(id, frame_input)
+            .or_else(|err| self.handle_err(id, err))
             .and_then(|frames| self.send_frames(frames))
             .await
     }
@@ -213,6 +217,14 @@ impl FrameHandler {
         }
     }
 
+    /// Failure of a single request must not affect other requests of the connection.
+    async fn handle_err(&self, id: u32, err: TChannelError) -> TResult<Vec<TFrameId>> {
+        debug!("Failed to handle message (id {}): {}", id, err);
+        self.frame_dispatchers.deregister(&id).await;
+        let frame = self.to_error_frame(ErrorCode::UnexpectedError, err.to_string(), id)?;
+        Ok(vec![frame])
+    }
+
     async fn get_subchannel<STR: AsRef<str>>(&self, service: STR) -> TResult<Arc<SubChannel>> {
         let subchannels = self.subchannels.read().await;
         subchannels.get(service.as_ref()).cloned().ok_or_else(|| {
@@ -227,7 +239,12 @@ impl FrameHandler {
         Ok(())
     }
 
-    fn to_error_frame(&self, code: ErrorCode, msg: String, id: u32) -> CodecResult<TFrameId> {
+    fn to_error_frame(&self, code: ErrorCode, mut msg: String, id: u32) -> CodecResult<TFrameId> {
+        let mut end = msg.len().min(ERROR_MSG_MAX_LENGTH);
+        while !msg.is_char_boundary(end) {
+            end -= 1;
+        }
+        msg.truncate(end);
         //TODO add meaningful tracing
         let tracing = Tracing::default();
         let err = ErrorMsg::new(code, tracing, msg);
-- 
2.43.0


From 87b661fb5672305f2dbe553f1e697121aaab0c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 10/25] fix: pass the content of an error frame to the caller

---
 src/defragmentation.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/defragmentation.rs b/src/defragmentation.rs
index ab284e6..a9a4855 100644
--- a/src/defragmentation.rs
+++ b/src/defragmentation.rs
@@ -1,10 +1,10 @@
 use crate::channel::TResult;
 use crate::connection::FrameInput;
-use crate::errors::{CodecError, TChannelError};
+use crate::errors::{CodecError, ConnectionError, TChannelError};
 use crate::frames::headers::{ArgSchemeValue, TransportHeaderKey};
 use crate::frames::payloads::{
     Call, CallArgs, CallContinue, CallFields, CallRequest, CallRequestFields, CallResponse,
-    CallResponseFields, ChecksumType, Codec, CodecResult, Flags,
+    CallResponseFields, ChecksumType, Codec, CodecResult, ErrorMsg, Flags,
 };
 use crate::frames::Type;
 use crate::messages::args::{MessageArgs, ResponseCode};
@@ -115,12 +115,16 @@ impl Defragmenter {
     ) -> TResult<(FIELDS, Flags)> {
         if let Some(frame_id) = self.frame_input.recv().await {
             debug!("Reading beginning frame {}", frame_id.id());
+            let id = *frame_id.id();
             let mut frame = frame_id.frame;
             if frame_type == frame.frame_type {
                 let mut frame = decode(frame.payload_mut())?; //ugh
                 verify_args(frame.args()).map(|args| args_defragmenter.add(args))?;
                 let flags = frame.flags();
                 Ok((frame.fields(), flags))
+            } else if frame.frame_type == Type::Error {
+                let error = ErrorMsg::decode(frame.payload_mut())?;
+                Err(ConnectionError::MessageErrorId(error, id).into())
             } else {
                 Err(TChannelError::Error(format!(
                     "Expected '{:?}' got '{:?}'",
-- 
2.43.0


From 5f271069525c6390a53cd6f0a562a384a0170085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:16 +0000
Subject: [PATCH 11/25] fix: allow to unregister handlers of a shared
 subchannel

---
 src/subchannel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subchannel.rs b/src/subchannel.rs
index ed22f77..2fb351f 100644
--- a/src/subchannel.rs
+++ b/src/subchannel.rs
@@ -106,7 +106,7 @@ impl SubChannel {
     }
 
     /// Unregisters request handler. Found handler will be dropped.
-    pub async fn unregister(&mut self, endpoint: impl AsRef<str>) -> TResult<()> {
+    pub async fn unregister(&self, endpoint: impl AsRef<str>) -> TResult<()> {
         let mut handlers = self.handlers.write().await;
         match handlers.remove(endpoint.as_ref()) {
             Some(_) => Ok(()),
-- 
2.43.0


From ccc45b3bf1b8b3ae70c94583b65fcbfd91093dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:20 +0000
Subject: [PATCH 12/25] fix: answer ping requests

---
 src/server.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index cf7d474..527a799 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -9,6 +9,7 @@ use crate::frames::payloads::{Codec, CodecResult, ErrorCode, ErrorMsg, PROTOCOL_
 use crate::frames::payloads::{Init, Tracing};
 use crate::frames::{TFrame, TFrameId, TFrameIdCodec, Type};
 use crate::SubChannel;
+use bytes::Bytes;
 use futures::TryFutureExt;
 use futures::{self, future, stream, SinkExt, StreamExt, TryStreamExt};
 use log::debug;
@@ -75,13 +76,13 @@ impl Server {
         let handler = FrameHandler::new(
             self.subchannels.clone(),
             self.frame_dispatchers.clone(),
-            sender,
+            sender.clone(),
             Semaphore::new(task_permits(self.server_tasks)),
         );
 
         framed_read
             .map_err(TChannelError::CodecError)
-            .and_then(|frame| self.dispatch_frame(frame))
+            .and_then(|frame| self.dispatch_frame(frame, &sender))
             .chain(stream::once(async {
                 // No more frames, requests still waiting for fragments will not get them.
                 self.frame_dispatchers.close().await;
@@ -94,8 +95,17 @@ impl Server {
         //TODO send fatal protocol error when it fails
     }
 
-    async fn dispatch_frame(&self, frame: TFrameId) -> TResult<Option<(u32, FrameInput)>> {
+    async fn dispatch_frame(
+        &self,
+        frame: TFrameId,
+        sender: &Sender<TFrameId>,
+    ) -> TResult<Option<(u32, FrameInput)>> {
         let id = *frame.id();
+        if frame.frame().frame_type() == &Type::PingRequest {
+            let ping_res = TFrame::new(Type::PingResponse, Bytes::new());
+            sender.send(TFrameId::new(id, ping_res)).await?;
+            return Ok(None);
+        }
         self.frame_dispatchers
             .dispatch(frame)
             .await
-- 
2.43.0


From 1c5a618fd31d928d8550db798faf71557307a04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 13/25] fix: release message ids of cancelled requests

---
 src/connection/mod.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 861b9ce..8e09305 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -39,12 +39,24 @@ impl FrameOutput {
         Ok(self.sender.send(frame).await?)
     }
 
-    //TODO figure out how to automatically close it? impl Sink? do it on Drop (which is not async)?
+    //TODO figure out how to automatically close it? impl Sink?
     pub async fn close(&self) {
         self.frames_dispatcher.deregister(&self.message_id).await;
     }
 }
 
+impl Drop for FrameOutput {
+    /// Releases message id when `close` did not get called, e.g. because the request got cancelled.
+    fn drop(&mut self) {
+        if let Ok(mut senders) = self.frames_dispatcher.senders.try_write() {
+            senders.remove(&self.message_id);
+        } else if let Ok(runtime) = tokio::runtime::Handle::try_current() {
+            let (id, frames_dispatcher) = (self.message_id, self.frames_dispatcher.clone());
+            runtime.spawn(async move { frames_dispatcher.deregister(&id).await });
+        }
+    }
+}
+
 /// Pending Message Ids mapped to Senders of frames for given message Id.
 #[derive(Debug, Default, new)]
 pub struct FramesDispatcher {
-- 
2.43.0


From b099d4dd0e44b96de4ea96191dda1977e7fa942f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 14/25] fix: never leave calls waiting for a connection which
 is already available

bb8 looks for an idle connection and queues the waiter in two steps. A connection
given back in between stays idle while the call waits, and fails with 'Timed out in
bb8' after 30 s. A broken connection is not replaced either when the calls that wait
for one are already queued, and a waiter abandoned by a cancelled call may deadlock
bb8 when a connection is given back.

So ask the pool again, from a separate task, until there is a connection.
---
 src/connection/pool.rs | 30 ++++++++++++++++++++++++++++--
 src/subchannel.rs      |  4 ++--
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/connection/pool.rs b/src/connection/pool.rs
index 0f24df0..d06b2de 100644
--- a/src/connection/pool.rs
+++ b/src/connection/pool.rs
@@ -7,15 +7,17 @@ use crate::frames::payloads::Init;
 use crate::frames::payloads::{Codec, PROTOCOL_VERSION};
 use crate::frames::{TFrame, TFrameId, Type};
 use async_trait::async_trait;
-use bb8::{ErrorSink, Pool, RunError};
+use bb8::{ErrorSink, Pool, PooledConnection, RunError};
 use bytes::Bytes;
 use log::{debug, error};
 use std::collections::HashMap;
 use std::fmt::Debug;
 use std::net::SocketAddr;
 use std::sync::Arc;
+use std::time::Duration;
 use tokio::net::TcpStream;
-use tokio::sync::RwLock;
+use tokio::sync::{mpsc, RwLock};
+use tokio::time::timeout;
 
 #[derive(Debug, Default, new)]
 pub struct ConnectionPools {
@@ -63,6 +65,30 @@ impl ConnectionPools {
     }
 }
 
+type PoolResult = Result<PooledConnection<'static, ConnectionManager>, RunError<ConnectionError>>;
+
+/// Takes connection from the `pool`, or waits for one.
+///
+/// A waiting `Pool::get` misses a connection returned right before it got queued, and does not get
+/// a new connection in place of a broken one. So asks again (which finds it), less and less often.
+/// Separate tasks, because abandoning `Pool::get` (when the call got cancelled) may deadlock `bb8`.
+pub async fn get_connection(pool: &Arc<Pool<ConnectionManager>>) -> PoolResult {
+    let (sender, mut receiver) = mpsc::channel::<PoolResult>(1);
+    let mut wait_time = Duration::from_millis(10);
+    loop {
+        let (pool, sender) = (pool.clone(), sender.clone());
+        tokio::spawn(async move {
+            let connection = pool.get_owned().await;
+            // Not needed anymore when it fails, goes back to the pool.
+            let _ = sender.send(connection).await;
+        });
+        if let Ok(Some(connection)) = timeout(wait_time, receiver.recv()).await {
+            return connection;
+        }
+        wait_time *= 2;
+    }
+}
+
 #[derive(Debug, Clone, Copy, Default)]
 struct ConnectionPoolsLogger;
 
diff --git a/src/subchannel.rs b/src/subchannel.rs
index 2fb351f..e3fe8d2 100644
--- a/src/subchannel.rs
+++ b/src/subchannel.rs
@@ -1,5 +1,5 @@
 use crate::channel::TResult;
-use crate::connection::pool::ConnectionPools;
+use crate::connection::pool::{get_connection, ConnectionPools};
 use crate::connection::{ConnectionResult, FrameInput, FrameOutput};
 use crate::defragmentation::ResponseDefragmenter;
 use crate::errors::{CodecError, ConnectionError, HandlerError, TChannelError};
@@ -135,7 +135,7 @@ impl SubChannel {
 
     async fn connect(&self, host: SocketAddr) -> TResult<(FrameInput, FrameOutput)> {
         let pool = self.connection_pools.get(host).await?;
-        let connection = pool.get().await?;
+        let connection = get_connection(&pool).await?;
         Ok(connection.new_frames_io().await?)
     }
 
-- 
2.43.0


From c941cbfc6b3ca8bc4a6196fe2956855153fc9242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:56 +0000
Subject: [PATCH 15/25] fix: start listening only after the previous server
 task released the address

---
 src/channel.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/channel.rs b/src/channel.rs
index 9199598..f8d5d78 100644
--- a/src/channel.rs
+++ b/src/channel.rs
@@ -8,7 +8,7 @@ use log::debug;
 use std::collections::HashMap;
 use std::ops::Deref;
 use std::sync::{Arc, Mutex};
-use tokio::sync::RwLock;
+use tokio::sync::{Mutex as AsyncMutex, RwLock};
 use tokio::task::JoinHandle;
 
 pub(crate) type SharedSubChannels = Arc<RwLock<HashMap<String, Arc<SubChannel>>>>;
@@ -24,6 +24,8 @@ pub struct TChannel {
     connection_pools: Arc<ConnectionPools>,
     subchannels: SharedSubChannels,
     server_handle: ServerHandle,
+    // Held as long as the server task owns the server address.
+    listening: Arc<AsyncMutex<()>>,
 }
 
 impl TChannel {
@@ -37,6 +39,7 @@ impl TChannel {
             connection_pools: Arc::new(connection_pools),
             subchannels,
             server_handle: Mutex::new(None),
+            listening: Arc::new(AsyncMutex::new(())),
         })
     }
 
@@ -45,7 +48,13 @@ impl TChannel {
         let mut handle_lock = self.server_handle.lock().unwrap();
         if handle_lock.is_none() {
             debug!("Starting server"); //TODO lie
-            let handle = tokio::spawn(Server::run(self.config.clone(), self.subchannels.clone()));
+            let server = Server::run(self.config.clone(), self.subchannels.clone());
+            let listening = self.listening.clone();
+            let handle = tokio::spawn(async move {
+                // Aborted server task might not have released the address yet.
+                let _listening = listening.lock().await;
+                server.await
+            });
             *handle_lock = Some(handle);
         } else {
             return Err(TChannelError::Error("Server already started".to_string()));
-- 
2.43.0


From 1abfe56e697fc818ed2a7790c5c3779a263febcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:30 +0000
Subject: [PATCH 16/25] fix: keep accepting connections after a failed accept

---
 src/server.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 527a799..bfa6244 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -16,11 +16,13 @@ use log::debug;
 use std::collections::HashMap;
 use std::fmt::Debug;
 use std::sync::Arc;
+use std::time::Duration;
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::{TcpListener, TcpStream};
 use tokio::sync::mpsc;
 use tokio::sync::mpsc::Sender;
 use tokio::sync::Semaphore;
+use tokio::time::sleep;
 use tokio_util::codec::{FramedRead, FramedWrite};
 
 #[derive(Debug)]
@@ -31,6 +33,9 @@ pub struct Server {
     server_tasks: usize,
 }
 
+/// Delay before accepting connections again after a failure.
+const ACCEPT_RETRY_DELAY: Duration = Duration::from_millis(50);
+
 /// Max length of error message which fits into a single frame.
 const ERROR_MSG_MAX_LENGTH: usize = 65_000;
 
@@ -51,7 +56,15 @@ impl Server {
         debug!("Starting server on {}", config.server_address);
         let listener = TcpListener::bind(config.server_address).await?;
         loop {
-            let (stream, addr) = listener.accept().await?;
+            let (stream, addr) = match listener.accept().await {
+                Ok(connection) => connection,
+                Err(err) => {
+                    // Might be temporary (aborted connection, too many open files).
+                    error!("Failed to accept connection: {}", err);
+                    sleep(ACCEPT_RETRY_DELAY).await;
+                    continue;
+                }
+            };
             debug!("Handling incoming connection from {}", addr);
             let subchannels = subchannels.clone();
             let mut server =
-- 
2.43.0


From 66bdccc4f3cb977d7911990f72c76e48ba85be20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:25 +0000
Subject: [PATCH 17/25] fix: send all frames of a request also when its call
 gets cancelled

---
 src/connection/mod.rs | 17 ++++++++++++++++-
 src/subchannel.rs     | 10 ++++------
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 8e09305..9f3b05e 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -1,6 +1,6 @@
 use crate::errors::ConnectionError;
 use crate::frames::payloads::CodecResult;
-use crate::frames::{TFrame, TFrameId, TFrameIdCodec};
+use crate::frames::{TFrame, TFrameId, TFrameIdCodec, TFrameStream};
 use futures::prelude::*;
 use futures::{self, SinkExt};
 use futures::{future, StreamExt};
@@ -39,6 +39,21 @@ impl FrameOutput {
         Ok(self.sender.send(frame).await?)
     }
 
+    /// Sends all frames of a message, even when the call gets cancelled in the meantime.
+    /// Otherwise the peer would keep an incomplete message, waiting for its remaining frames.
+    pub async fn send_all(&self, mut frames: TFrameStream) -> ConnectionResult<()> {
+        let (id, sender) = (self.message_id, self.sender.clone());
+        let sending = tokio::spawn(async move {
+            while let Some(frame) = frames.next().await {
+                sender.send(TFrameId::new(id, frame)).await?;
+            }
+            Ok(())
+        });
+        sending
+            .await
+            .map_err(|err| ConnectionError::Error(err.to_string()))?
+    }
+
     //TODO figure out how to automatically close it? impl Sink?
     pub async fn close(&self) {
         self.frames_dispatcher.deregister(&self.message_id).await;
diff --git a/src/subchannel.rs b/src/subchannel.rs
index e3fe8d2..cde199f 100644
--- a/src/subchannel.rs
+++ b/src/subchannel.rs
@@ -11,8 +11,7 @@ use crate::handler::{
 };
 use crate::messages::args::{MessageArgs, MessageArgsResponse, ResponseCode};
 use crate::messages::Message;
-use futures::StreamExt;
-use futures::{future, TryStreamExt};
+use futures::TryFutureExt;
 use log::{debug, error};
 use std::collections::HashMap;
 use std::net::{SocketAddr, ToSocketAddrs};
@@ -182,9 +181,8 @@ fn first_addr<ADDR: ToSocketAddrs>(addr: ADDR) -> ConnectionResult<SocketAddr> {
 
 async fn send_frames(frames: TFrameStream, frames_out: &FrameOutput) -> ConnectionResult<()> {
     debug!("Sending frames");
-    frames
-        .then(|frame| frames_out.send(frame))
-        .inspect_err(|err| error!("Failed to send frame {:?}", err))
-        .try_for_each(|_res| future::ready(Ok(())))
+    frames_out
+        .send_all(frames)
+        .inspect_err(|err| error!("Failed to send frames {:?}", err))
         .await
 }
-- 
2.43.0


From 3d3e90bb9715c675fe72e53c5086b063389951a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:08 +0000
Subject: [PATCH 18/25] fix: answer a request only once

Frames which do not begin a request and belong to none in progress (remaining fragments of a
request refused at its first frame, a cancel) were taken for requests and answered with errors.
---
 src/connection/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 9f3b05e..a9a2b45 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -1,6 +1,6 @@
 use crate::errors::ConnectionError;
 use crate::frames::payloads::CodecResult;
-use crate::frames::{TFrame, TFrameId, TFrameIdCodec, TFrameStream};
+use crate::frames::{TFrame, TFrameId, TFrameIdCodec, TFrameStream, Type};
 use futures::prelude::*;
 use futures::{self, SinkExt};
 use futures::{future, StreamExt};
@@ -97,6 +97,13 @@ impl FramesDispatcher {
             return Ok(None);
         }
         std::mem::drop(senders);
+        if frame.frame().frame_type() != &Type::CallRequest {
+            debug!(
+                "Dropping frame (id {}), it belongs to no message.",
+                frame.id()
+            );
+            return Ok(None);
+        }
         //TODO it will return error on check if it got concurrently inserted
         self.dispatch_first(frame).map_ok(Some).await
     }
-- 
2.43.0


From 795231a602430cc5bd6cc5d3841c5150460f3a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:38 +0000
Subject: [PATCH 19/25] fix: close client connections although the peer keeps
 its side open

---
 src/connection/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index a9a2b45..b3ba623 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -185,8 +185,14 @@ impl Connection {
         let framed_write = FramedWrite::new(write, TFrameIdCodec {});
         let (sender, receiver) = mpsc::channel::<TFrameId>(buffer_size);
         let connection = Connection::new(sender, buffer_size);
-        FrameReceiver::spawn(framed_read, connection.pending_ids.clone());
-        FrameSender::spawn(framed_write, receiver, buffer_size);
+        let frame_receiver = FrameReceiver::spawn(framed_read, connection.pending_ids.clone());
+        let frame_sender = FrameSender::spawn(framed_write, receiver, buffer_size);
+        tokio::spawn(async move {
+            // Sender stops when connection and all its calls are gone. Nobody awaits frames then,
+            // and the socket must not stay open until peer closes its side too.
+            let _ = frame_sender.await;
+            frame_receiver.abort();
+        });
         Ok(connection)
     }
 
-- 
2.43.0


From b61383c583993dc97ad79625559eb2dbac0304bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:25 +0000
Subject: [PATCH 20/25] fix: drop requests abandoned before their first frame
 is sent

---
 src/connection/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index b3ba623..14bf949 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -39,9 +39,14 @@ impl FrameOutput {
         Ok(self.sender.send(frame).await?)
     }
 
-    /// Sends all frames of a message, even when the call gets cancelled in the meantime.
+    /// Sends all frames of a message, even when the call gets cancelled after the first one.
     /// Otherwise the peer would keep an incomplete message, waiting for its remaining frames.
     pub async fn send_all(&self, mut frames: TFrameStream) -> ConnectionResult<()> {
+        // Nothing gets sent when cancelled before the first frame is on its way.
+        match frames.next().await {
+            Some(frame) => self.send(frame).await?,
+            None => return Ok(()),
+        }
         let (id, sender) = (self.message_id, self.sender.clone());
         let sending = tokio::spawn(async move {
             while let Some(frame) = frames.next().await {
-- 
2.43.0


From e224cfc14042c609e1b0df939e17eef960d73241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:07 +0000
Subject: [PATCH 21/25] fix: refuse to start the server outside of a runtime

Spawning panicked there while the server handle was locked, which made
every later start and shutdown of the channel fail.
---
 src/channel.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/channel.rs b/src/channel.rs
index f8d5d78..d912a74 100644
--- a/src/channel.rs
+++ b/src/channel.rs
@@ -8,6 +8,7 @@ use log::debug;
 use std::collections::HashMap;
 use std::ops::Deref;
 use std::sync::{Arc, Mutex};
+use tokio::runtime::Handle;
 use tokio::sync::{Mutex as AsyncMutex, RwLock};
 use tokio::task::JoinHandle;
 
@@ -45,12 +46,14 @@ impl TChannel {
 
     /// Starts server task.
     pub fn start_server(&self) -> TResult<()> {
+        // Spawning outside of a runtime would panic and poison the lock.
+        let runtime = Handle::try_current().map_err(|err| TChannelError::Error(err.to_string()))?;
         let mut handle_lock = self.server_handle.lock().unwrap();
         if handle_lock.is_none() {
             debug!("Starting server"); //TODO lie
             let server = Server::run(self.config.clone(), self.subchannels.clone());
             let listening = self.listening.clone();
-            let handle = tokio::spawn(async move {
+            let handle = runtime.spawn(async move {
                 // Aborted server task might not have released the address yet.
                 let _listening = listening.lock().await;
                 server.await
-- 
2.43.0


From 5cede3c2cfa2212144ae76f1032e345425911838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:16 +0000
Subject: [PATCH 22/25] fix: do not take pings of the peer for frames of a
 message

Ids of requests are picked by their sender, so a ping of the server may have the id of
a pending call. The call failed with 'Expected CallResponse got PingRequest'.
---
 src/defragmentation.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/defragmentation.rs b/src/defragmentation.rs
index a9a4855..ee2cb45 100644
--- a/src/defragmentation.rs
+++ b/src/defragmentation.rs
@@ -6,7 +6,7 @@ use crate::frames::payloads::{
     Call, CallArgs, CallContinue, CallFields, CallRequest, CallRequestFields, CallResponse,
     CallResponseFields, ChecksumType, Codec, CodecResult, ErrorMsg, Flags,
 };
-use crate::frames::Type;
+use crate::frames::{TFrameId, Type};
 use crate::messages::args::{MessageArgs, ResponseCode};
 use crate::messages::Message;
 use bytes::{Buf, BufMut, Bytes, BytesMut};
@@ -113,7 +113,7 @@ impl Defragmenter {
         decode: fn(src: &mut Bytes) -> CodecResult<FRAME>,
         args_defragmenter: &mut ArgsDefragmenter,
     ) -> TResult<(FIELDS, Flags)> {
-        if let Some(frame_id) = self.frame_input.recv().await {
+        if let Some(frame_id) = next_frame(&mut self.frame_input).await {
             debug!("Reading beginning frame {}", frame_id.id());
             let id = *frame_id.id();
             let mut frame = frame_id.frame;
@@ -165,12 +165,24 @@ fn get_args_scheme<FIELDS: CallFields>(fields: &FIELDS) -> CodecResult<ArgScheme
     }
 }
 
+/// Next frame of the message. Skips pings of the peer, it picks ids of its pings on its own.
+async fn next_frame(frame_input: &mut FrameInput) -> Option<TFrameId> {
+    loop {
+        match frame_input.recv().await {
+            Some(frame_id) if frame_id.frame().frame_type() == &Type::PingRequest => {
+                debug!("Skipping ping (id {})", frame_id.id());
+            }
+            other => return other,
+        }
+    }
+}
+
 async fn read_continuation(
     frame_input: &mut FrameInput,
     args_defragmenter: &mut ArgsDefragmenter,
 ) -> TResult<()> {
     debug!("Reading continuation");
-    while let Some(frame_id) = frame_input.recv().await {
+    while let Some(frame_id) = next_frame(frame_input).await {
         let mut frame = frame_id.frame;
         match frame.frame_type() {
             Type::CallResponseContinue | Type::CallRequestContinue => {
-- 
2.43.0


From 2cb23cee6fec8f379ec45d71b2b0b2677ab698dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:53 +0000
Subject: [PATCH 23/25] fix: close client connections together with the runtime
 they live in

When the runtime that had opened a connection was gone, the pool kept handing it out and
every later call failed with 'channel closed'. Calls of another runtime that were pending on it
never returned.
---
 src/connection/mod.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 14bf949..fecb6ed 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -222,7 +222,7 @@ impl Connection {
     }
 
     pub fn is_closed(&self) -> bool {
-        self.pending_ids.is_closed()
+        self.pending_ids.is_closed() || self.sender.is_closed()
     }
 
     fn next_message_id(&self) -> u32 {
@@ -280,6 +280,20 @@ struct FrameReceiver {
     frame_senders: Arc<FramesDispatcher>,
 }
 
+impl Drop for FrameReceiver {
+    /// Nobody else would end pending calls when the task got dropped together with its runtime,
+    /// while the calls, or the pool of connections, belong to another one.
+    fn drop(&mut self) {
+        if let Ok(mut senders) = self.frame_senders.senders.try_write() {
+            self.frame_senders.closed.store(true, Ordering::Relaxed);
+            senders.clear();
+        } else if let Ok(runtime) = tokio::runtime::Handle::try_current() {
+            let frame_senders = self.frame_senders.clone();
+            runtime.spawn(async move { frame_senders.close().await });
+        }
+    }
+}
+
 impl FrameReceiver {
     pub fn spawn(
         framed_read: FramedRead<OwnedReadHalf, TFrameIdCodec>,
-- 
2.43.0


From ab121348525cea98d06e754b3c1f06d396c07b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:59 +0000
Subject: [PATCH 24/25] fix: keep the task of a request until its response is
 sent

Tasks were released before the response was passed on, so responses piled up
in memory without bound when the peer sent requests but did not read responses.
---
 src/server.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index bfa6244..6f476f6 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -21,7 +21,7 @@ use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::{TcpListener, TcpStream};
 use tokio::sync::mpsc;
 use tokio::sync::mpsc::Sender;
-use tokio::sync::Semaphore;
+use tokio::sync::{Semaphore, SemaphorePermit};
 use tokio::time::sleep;
 use tokio_util::codec::{FramedRead, FramedWrite};
 
@@ -203,20 +203,26 @@ fn task_permits(server_tasks: usize) -> usize {
 impl FrameHandler {
     pub async fn handle(&self, id: u32, frame_input: FrameInput) -> TResult<()> {
         debug!("Handling message (id {})", &id);
-        self.handle_input(id, frame_input)
+        // Kept until the response is sent, responses must not pile up when the peer does not read them.
+        let mut task = None;
+        self.handle_input(id, frame_input, &mut task)
             .or_else(|err| self.handle_err(id, err))
             .and_then(|frames| self.send_frames(frames))
             .await
     }
 
-    async fn handle_input(&self, id: u32, frame_input: FrameInput) -> TResult<Vec<TFrameId>> {
+    async fn handle_input<'a>(
+        &'a self,
+        id: u32,
+        frame_input: FrameInput,
+        task: &mut Option<SemaphorePermit<'a>>,
+    ) -> TResult<Vec<TFrameId>> {
         let (request_fields, message_args) =
             RequestDefragmenter::new(frame_input).read_request().await?;
         self.frame_dispatchers.deregister(&id).await;
         let subchannel = self.get_subchannel(request_fields.service()).await?;
-        let task = self.tasks.acquire().await;
+        *task = self.tasks.acquire().await.ok();
         let (response_code, response_args) = subchannel.handle(message_args).await?;
-        drop(task);
         match ResponseFragmenter::new(request_fields.service(), response_code, response_args)
             .create_frames()
         {
-- 
2.43.0


From e8032365bdd0085e095cb43e5929da2f2b6ab1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:59 +0000
Subject: [PATCH 25/25] fix: limit the time of handshakes and pings of pooled
 connections

A peer which accepts connections but does not answer took places of the pool
forever, and calls to its address failed also after it had recovered.
---
 src/connection/pool.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/connection/pool.rs b/src/connection/pool.rs
index d06b2de..e51909a 100644
--- a/src/connection/pool.rs
+++ b/src/connection/pool.rs
@@ -65,6 +65,11 @@ impl ConnectionPools {
     }
 }
 
+/// Time limits for peers which accept connections, but do not answer. Nobody else would give such
+/// connection up, and it would take the place of a working one (see `max_connections`) forever.
+const HANDSHAKE_TIMEOUT: Duration = Duration::from_secs(30);
+const PING_TIMEOUT: Duration = Duration::from_secs(10);
+
 type PoolResult = Result<PooledConnection<'static, ConnectionManager>, RunError<ConnectionError>>;
 
 /// Takes connection from the `pool`, or waits for one.
@@ -120,12 +125,16 @@ impl bb8::ManageConnection for ConnectionManager {
         debug!("Connecting to {}", self.addr);
         let stream = TcpStream::connect(self.addr).await?;
         let connection = Connection::connect(stream, self.frame_buffer_size).await?;
-        verify(connection).await
+        timeout(HANDSHAKE_TIMEOUT, verify(connection))
+            .await
+            .map_err(|_| ConnectionError::Error("Handshake timed out".to_owned()))?
     }
 
     async fn is_valid(&self, conn: &mut Self::Connection) -> Result<(), Self::Error> {
         debug!("Is valid?");
-        ping(conn).await
+        timeout(PING_TIMEOUT, ping(conn))
+            .await
+            .map_err(|_| ConnectionError::Error("Ping timed out".to_owned()))?
     }
 
     fn has_broken(&self, conn: &mut Self::Connection) -> bool {
-- 
2.43.0

