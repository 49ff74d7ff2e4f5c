From 3365a026262878ad766a56230241411970f5cfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 01/23] fix: end an arg explicitly when the next one does not
 fit its frame

With 0 or 1 bytes left in a frame after a complete arg the next arg was
either merged into it by the reader or made the frame too long.
---
 src/fragmentation.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fragmentation.rs b/src/fragmentation.rs
index 05b64c6..c170191 100644
--- a/src/fragmentation.rs
+++ b/src/fragmentation.rs
@@ -205,7 +205,10 @@ impl ArgsFragmenter {
             if status == Incomplete {
                 self.args.push_front(arg);
                 break;
-            } else if status == CompleteAtTheEnd {
+            } else if status == CompleteAtTheEnd
+                || (payload_limit < ARG_LEN_LEN as i32 && !self.args.is_empty())
+            {
+                // No room left for the length of the next arg.
                 self.args.push_front(Bytes::new());
                 break;
             }
-- 
2.43.0


From a1745e45a2ea0855b5c5a57b99ea9402e35a4721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 02/23] fix: an empty arg at the beginning of a continuation
 frame ends the previous arg

It was read as an additional empty arg.
---
 src/defragmentation.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/defragmentation.rs b/src/defragmentation.rs
index 30ece5e..227830b 100644
--- a/src/defragmentation.rs
+++ b/src/defragmentation.rs
@@ -229,8 +229,9 @@ impl ArgsDefragmenter {
                     self.args.push(first_arg);
                 }
             },
-            // next arg (according to protocol specs an empty arg at the beginning means the previous arg ended at the end of previous frame)
-            None => self.args.push(BytesMut::new()),
+            // (according to protocol specs an empty arg at the beginning means the previous arg ended at the end of previous frame)
+            None if self.args.is_empty() => self.args.push(BytesMut::new()),
+            None => (),
         }
     }
 
-- 
2.43.0


From da8a4a34ba47d1a99e0376a5d12f88b1abb21325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:02 +0000
Subject: [PATCH 03/23] fix: send a handler's error message with the error
 response code

---
 src/handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handler.rs b/src/handler.rs
index 22787f0..2983a9d 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -76,7 +76,7 @@ fn convert<MSG: Message>(msg_res: HandlerResult<MSG>) -> MessageArgsResponse {
     match msg_res {
         Ok(message) => Ok((ResponseCode::Ok, message.try_into()?)),
         Err(err) => match err {
-            HandlerError::MessageError(message) => Ok((ResponseCode::Ok, message.try_into()?)),
+            HandlerError::MessageError(message) => Ok((ResponseCode::Error, message.try_into()?)),
             HandlerError::GeneralError(message) => Err(TChannelError::Error(message)),
             HandlerError::InternalError(err) => Err(err),
         },
-- 
2.43.0


From a188cfab3d2ed25c0290a8610f91380496757044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:02 +0000
Subject: [PATCH 04/23] fix: let a handler be unregistered from a shared
 subchannel

TChannel hands out subchannels as Arc and keeps one itself, so a method
taking &mut self could never be called.
---
 src/subchannel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subchannel.rs b/src/subchannel.rs
index ed22f77..2fb351f 100644
--- a/src/subchannel.rs
+++ b/src/subchannel.rs
@@ -106,7 +106,7 @@ impl SubChannel {
     }
 
     /// Unregisters request handler. Found handler will be dropped.
-    pub async fn unregister(&mut self, endpoint: impl AsRef<str>) -> TResult<()> {
+    pub async fn unregister(&self, endpoint: impl AsRef<str>) -> TResult<()> {
         let mut handlers = self.handlers.write().await;
         match handlers.remove(endpoint.as_ref()) {
             Some(_) => Ok(()),
-- 
2.43.0


From c0c51529a65e6dc35512be42d1969e46ba281e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:01 +0000
Subject: [PATCH 05/23] fix: report truncated frame payloads as errors instead
 of panicking

---
 src/frames/payloads.rs | 84 +++++++++++++++++++++++++++++-------------
 1 file changed, 58 insertions(+), 26 deletions(-)

diff --git a/src/frames/payloads.rs b/src/frames/payloads.rs
index 82c683c..00871b9 100644
--- a/src/frames/payloads.rs
+++ b/src/frames/payloads.rs
@@ -102,10 +102,10 @@ impl Codec for Tracing {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(Tracing::new(
-            src.get_u64(),
-            src.get_u64(),
-            src.get_u64(),
-            decode_bitflag(src.get_u8(), TraceFlags::from_bits)?,
+            get_u64(src)?,
+            get_u64(src)?,
+            get_u64(src)?,
+            decode_bitflag(get_u8(src)?, TraceFlags::from_bits)?,
         ))
     }
 }
@@ -132,7 +132,7 @@ impl Codec for Init {
     }
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
-        Ok(Init::new(src.get_u16(), decode_headers(src)?))
+        Ok(Init::new(get_u16(src)?, decode_headers(src)?))
     }
 }
 
@@ -191,7 +191,7 @@ impl Codec for CallWithFieldsEncoded {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallWithFieldsEncoded::new(
-            decode_bitflag(src.get_u8(), Flags::from_bits)?,
+            decode_bitflag(get_u8(src)?, Flags::from_bits)?,
             CallRequestFields::decode(src)?.encode_bytes()?,
             CallArgs::decode(src)?,
         ))
@@ -236,7 +236,7 @@ impl Codec for CallRequestFields {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallRequestFields::new(
-            src.get_u32(),
+            get_u32(src)?,
             Tracing::decode(src)?,
             decode_small_string(src)?,
             decode_small_headers(src)?,
@@ -278,7 +278,7 @@ impl Codec for CallRequest {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallRequest::new(
-            decode_bitflag(src.get_u8(), Flags::from_bits)?,
+            decode_bitflag(get_u8(src)?, Flags::from_bits)?,
             CallRequestFields::decode(src)?,
             CallArgs::decode(src)?,
         ))
@@ -322,7 +322,7 @@ impl Codec for CallResponseFields {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallResponseFields::new(
-            decode_bitflag(src.get_u8(), ResponseCode::from_u8)?,
+            decode_bitflag(get_u8(src)?, ResponseCode::from_u8)?,
             Tracing::decode(src)?,
             decode_small_headers(src)?,
         ))
@@ -363,7 +363,7 @@ impl Codec for CallResponse {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallResponse::new(
-            decode_bitflag(src.get_u8(), Flags::from_bits)?,
+            decode_bitflag(get_u8(src)?, Flags::from_bits)?,
             CallResponseFields::decode(src)?,
             CallArgs::decode(src)?,
         ))
@@ -404,7 +404,7 @@ impl Codec for CallContinue {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallContinue::new(
-            decode_bitflag(src.get_u8(), Flags::from_bits)?,
+            decode_bitflag(get_u8(src)?, Flags::from_bits)?,
             CallArgs::decode(src)?,
         ))
     }
@@ -432,7 +432,7 @@ impl Codec for Cancel {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(Cancel::new(
-            src.get_u32(),
+            get_u32(src)?,
             Tracing::decode(src)?,
             decode_string(src)?,
         ))
@@ -457,7 +457,7 @@ impl Codec for Claim {
     }
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
-        Ok(Claim::new(src.get_u32(), Tracing::decode(src)?))
+        Ok(Claim::new(get_u32(src)?, Tracing::decode(src)?))
     }
 }
 
@@ -482,7 +482,7 @@ impl Codec for ErrorMsg {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(ErrorMsg::new(
-            decode_bitflag(src.get_u8(), ErrorCode::from_u8)?,
+            decode_bitflag(get_u8(src)?, ErrorCode::from_u8)?,
             Tracing::decode(src)?,
             decode_string(src)?,
         ))
@@ -512,16 +512,16 @@ fn encode_header_fields<T: TryFrom<usize>>(
 }
 
 fn decode_headers(src: &mut Bytes) -> CodecResult<HashMap<String, String>> {
-    decode_headers_field(src, &Bytes::get_u16, &decode_string)
+    decode_headers_field(src, &get_u16, &decode_string)
 }
 
 fn decode_small_headers(src: &mut Bytes) -> CodecResult<HashMap<String, String>> {
-    decode_headers_field(src, &Bytes::get_u8, &decode_small_string)
+    decode_headers_field(src, &get_u8, &decode_small_string)
 }
 
 fn decode_headers_field<T: TryInto<usize>>(
     src: &mut Bytes,
-    decode_len_fn: &dyn Fn(&mut Bytes) -> T,
+    decode_len_fn: &dyn Fn(&mut Bytes) -> CodecResult<T>,
     decode_string_fn: &dyn Fn(&mut Bytes) -> CodecResult<String>,
 ) -> CodecResult<HashMap<String, String>> {
     let len = decode_len(src, decode_len_fn)?;
@@ -547,10 +547,10 @@ fn encode_checksum(
 }
 
 fn decode_checksum(src: &mut Bytes) -> CodecResult<(ChecksumType, Option<u32>)> {
-    let checksum_type = decode_bitflag(src.get_u8(), ChecksumType::from_u8)?;
+    let checksum_type = decode_bitflag(get_u8(src)?, ChecksumType::from_u8)?;
     match checksum_type {
         ChecksumType::None => Ok((ChecksumType::None, None)),
-        checksum => Ok((checksum, Some(src.get_u32()))),
+        checksum => Ok((checksum, Some(get_u32(src)?))),
     }
 }
 
@@ -627,18 +627,19 @@ fn encode_string_field<T: TryFrom<usize>, STR: AsRef<str>>(
 }
 
 fn decode_string(src: &mut Bytes) -> CodecResult<String> {
-    decode_string_field(src, &Bytes::get_u16)
+    decode_string_field(src, &get_u16)
 }
 fn decode_small_string(src: &mut Bytes) -> CodecResult<String> {
-    decode_string_field(src, &Bytes::get_u8)
+    decode_string_field(src, &get_u8)
 }
 
 fn decode_string_field<T: Into<usize>>(
     src: &mut Bytes,
-    get_len: &dyn Fn(&mut Bytes) -> T,
+    get_len: &dyn Fn(&mut Bytes) -> CodecResult<T>,
 ) -> CodecResult<String> {
-    let len = get_len(src);
-    let bytes = src.copy_to_bytes(len.into());
+    let len = get_len(src)?.into();
+    check_remaining(src, len)?;
+    let bytes = src.copy_to_bytes(len);
     Ok(String::from_utf8(bytes.chunk().to_vec())?)
 }
 
@@ -658,9 +659,40 @@ fn encode_len<T: TryFrom<usize>>(
 
 fn decode_len<T: TryInto<usize>>(
     src: &mut Bytes,
-    decode_len_fn: &dyn Fn(&mut Bytes) -> T,
+    decode_len_fn: &dyn Fn(&mut Bytes) -> CodecResult<T>,
 ) -> CodecResult<usize> {
-    decode_len_fn(src)
+    decode_len_fn(src)?
         .try_into()
         .map_err(|_| CodecError::Error("Failed to cast len to usize.".to_string()))
 }
+
+fn check_remaining(src: &Bytes, len: usize) -> CodecResult<()> {
+    if src.remaining() < len {
+        return Err(CodecError::Error(format!(
+            "Frame too short: {} bytes left, {} needed",
+            src.remaining(),
+            len
+        )));
+    }
+    Ok(())
+}
+
+fn get_u8(src: &mut Bytes) -> CodecResult<u8> {
+    check_remaining(src, 1)?;
+    Ok(src.get_u8())
+}
+
+fn get_u16(src: &mut Bytes) -> CodecResult<u16> {
+    check_remaining(src, 2)?;
+    Ok(src.get_u16())
+}
+
+fn get_u32(src: &mut Bytes) -> CodecResult<u32> {
+    check_remaining(src, 4)?;
+    Ok(src.get_u32())
+}
+
+fn get_u64(src: &mut Bytes) -> CodecResult<u64> {
+    check_remaining(src, 8)?;
+    Ok(src.get_u64())
+}
-- 
2.43.0


From 5054a9f4f971205b1adf9d365525587fa264da2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:01 +0000
Subject: [PATCH 06/23] fix: report an unsupported checksum type as an error
 instead of panicking

---
 src/defragmentation.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/defragmentation.rs b/src/defragmentation.rs
index 227830b..44ad1ee 100644
--- a/src/defragmentation.rs
+++ b/src/defragmentation.rs
@@ -199,7 +199,10 @@ async fn read_continuation(
 fn verify_args(call_args: &mut CallArgs) -> CodecResult<&mut VecDeque<Option<Bytes>>> {
     match call_args.checksum_type() {
         ChecksumType::None => Ok(call_args.args_mut()),
-        _ => todo!(),
+        other => Err(CodecError::Error(format!(
+            "Unsupported checksum type {:?}",
+            other
+        ))),
     }
 }
 
-- 
2.43.0


From a3637cab05221d5d2732abecb688b5b80daab52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 07/23] fix: do not take a message for complete when its frames
 stop coming

---
 src/defragmentation.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/defragmentation.rs b/src/defragmentation.rs
index 44ad1ee..7756733 100644
--- a/src/defragmentation.rs
+++ b/src/defragmentation.rs
@@ -174,7 +174,7 @@ async fn read_continuation(
                 let mut continuation = CallContinue::decode(frame.payload_mut())?;
                 verify_args(continuation.args_mut()).map(|args| args_defragmenter.add(args))?;
                 if !continuation.flags().contains(Flags::MORE_FRAGMENTS_FOLLOW) {
-                    break;
+                    return Ok(());
                 }
             }
             Type::Error => {
@@ -193,7 +193,9 @@ async fn read_continuation(
             }
         };
     }
-    Ok(())
+    Err(TChannelError::Error(
+        "Received incomplete message".to_string(),
+    ))
 }
 
 fn verify_args(call_args: &mut CallArgs) -> CodecResult<&mut VecDeque<Option<Bytes>>> {
-- 
2.43.0


From 09fb4ac393ea041bd5d8ef9d8b50d85ffe69af50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 08/23] fix: continue a message only with continuation frames
 of its kind

---
 src/defragmentation.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/defragmentation.rs b/src/defragmentation.rs
index 7756733..a2ecacc 100644
--- a/src/defragmentation.rs
+++ b/src/defragmentation.rs
@@ -102,7 +102,16 @@ impl Defragmenter {
             let message_args = MessageArgs::new(args_scheme, args_defragmenter.args());
             return Ok((fields, message_args));
         }
-        read_continuation(&mut self.frame_input, &mut args_defragmenter).await?;
+        let continuation_type = match frame_type {
+            Type::CallRequest => Type::CallRequestContinue,
+            _ => Type::CallResponseContinue,
+        };
+        read_continuation(
+            &mut self.frame_input,
+            continuation_type,
+            &mut args_defragmenter,
+        )
+        .await?;
         let message_args = MessageArgs::new(args_scheme, args_defragmenter.args());
         Ok((fields, message_args))
     }
@@ -163,13 +172,14 @@ fn get_args_scheme<FIELDS: CallFields>(fields: &FIELDS) -> CodecResult<ArgScheme
 
 async fn read_continuation(
     frame_input: &mut FrameInput,
+    continuation_type: Type,
     args_defragmenter: &mut ArgsDefragmenter,
 ) -> TResult<()> {
     debug!("Reading continuation");
     while let Some(frame_id) = frame_input.recv().await {
         let mut frame = frame_id.frame;
         match frame.frame_type() {
-            Type::CallResponseContinue | Type::CallRequestContinue => {
+            frame_type if *frame_type == continuation_type => {
                 debug!("Reading frame with type {:?}", frame.frame_type());
                 let mut continuation = CallContinue::decode(frame.payload_mut())?;
                 verify_args(continuation.args_mut()).map(|args| args_defragmenter.add(args))?;
-- 
2.43.0


From 5ccd9a8ef8328adea9b1074e5966f1ff7b198930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 09/23] fix: reject messages with more than three args

Their excess args were dropped silently.
---
 src/defragmentation.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/defragmentation.rs b/src/defragmentation.rs
index a2ecacc..78b9e77 100644
--- a/src/defragmentation.rs
+++ b/src/defragmentation.rs
@@ -4,7 +4,7 @@ use crate::errors::{CodecError, TChannelError};
 use crate::frames::headers::{ArgSchemeValue, TransportHeaderKey};
 use crate::frames::payloads::{
     Call, CallArgs, CallContinue, CallFields, CallRequest, CallRequestFields, CallResponse,
-    CallResponseFields, ChecksumType, Codec, CodecResult, Flags,
+    CallResponseFields, ChecksumType, Codec, CodecResult, Flags, MAX_FRAME_ARGS,
 };
 use crate::frames::Type;
 use crate::messages::args::{MessageArgs, ResponseCode};
@@ -99,7 +99,7 @@ impl Defragmenter {
             .await?;
         let args_scheme = check_fields(&fields)?;
         if !flags.contains(Flags::MORE_FRAGMENTS_FOLLOW) {
-            let message_args = MessageArgs::new(args_scheme, args_defragmenter.args());
+            let message_args = MessageArgs::new(args_scheme, args_defragmenter.args()?);
             return Ok((fields, message_args));
         }
         let continuation_type = match frame_type {
@@ -112,7 +112,7 @@ impl Defragmenter {
             &mut args_defragmenter,
         )
         .await?;
-        let message_args = MessageArgs::new(args_scheme, args_defragmenter.args());
+        let message_args = MessageArgs::new(args_scheme, args_defragmenter.args()?);
         Ok((fields, message_args))
     }
 
@@ -261,11 +261,18 @@ impl ArgsDefragmenter {
         }
     }
 
-    fn args(&mut self) -> Vec<Bytes> {
-        self.args
+    fn args(&mut self) -> CodecResult<Vec<Bytes>> {
+        if self.args.len() > MAX_FRAME_ARGS {
+            return Err(CodecError::Error(format!(
+                "Wrong number of args {}",
+                self.args.len()
+            )));
+        }
+        Ok(self
+            .args
             .iter_mut()
             .map(|arg_mut| Bytes::from(arg_mut.split_to(arg_mut.len())))
-            .collect()
+            .collect())
     }
 }
 
-- 
2.43.0


From 7c7a0b55cd982cbefca184228580be4a34730969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 10/23] fix: fail pending calls and drop the connection when it
 is lost

Calls whose response could not arrive anymore waited forever, and the pool
kept handing out the dead connection.
---
 src/connection/mod.rs  | 34 ++++++++++++++++++++++++++++++----
 src/connection/pool.rs |  6 +++---
 src/subchannel.rs      |  7 +++++++
 3 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 52efddb..cc85278 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -7,7 +7,7 @@ use futures::{future, StreamExt};
 use log::{debug, error};
 use std::collections::HashMap;
 use std::fmt::Debug;
-use std::sync::atomic::{AtomicU32, Ordering};
+use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
 use std::sync::Arc;
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::TcpStream;
@@ -50,6 +50,9 @@ impl FrameOutput {
 pub struct FramesDispatcher {
     #[new(default)]
     senders: RwLock<HashMap<u32, Sender<TFrameId>>>,
+    /// Set (under the lock of `senders`) once no more frames will arrive.
+    #[new(default)]
+    closed: AtomicBool,
     buffer_size: usize,
 }
 
@@ -73,8 +76,22 @@ impl FramesDispatcher {
         channels.remove(id)
     }
 
+    /// Ends all channels: their receivers get the frames already dispatched, then nothing.
+    pub async fn close(&self) {
+        let mut channels = self.senders.write().await;
+        self.closed.store(true, Ordering::Release);
+        channels.clear();
+    }
+
+    pub fn is_closed(&self) -> bool {
+        self.closed.load(Ordering::Acquire)
+    }
+
     pub async fn register(&self, id: u32, sender: Sender<TFrameId>) -> ConnectionResult<()> {
         let mut channels = self.senders.write().await;
+        if self.is_closed() {
+            return Err(ConnectionError::Error("Connection closed".to_owned()));
+        }
         if channels.insert(id, sender).is_some() {
             debug!("Sender for id {} already exists", id);
             return Err(ConnectionError::Error(format!("Duplicated id: {}.", id)));
@@ -131,11 +148,16 @@ impl Connection {
         let framed_write = FramedWrite::new(write, TFrameIdCodec {});
         let (sender, receiver) = mpsc::channel::<TFrameId>(buffer_size);
         let connection = Connection::new(sender, buffer_size);
-        FrameReceiver::spawn(framed_read, connection.pending_ids.clone());
-        FrameSender::spawn(framed_write, receiver, buffer_size);
+        let frame_sender = FrameSender::spawn(framed_write, receiver, buffer_size);
+        FrameReceiver::spawn(framed_read, connection.pending_ids.clone(), frame_sender);
         Ok(connection)
     }
 
+    /// Whether the other side is gone. It stays so.
+    pub fn is_closed(&self) -> bool {
+        self.pending_ids.is_closed()
+    }
+
     /// Prepares frame I/O with new message id. Then sends `frame` and awaits for response.
     pub async fn send_one(&self, frame: TFrame) -> ConnectionResult<TFrameId> {
         let (mut frame_input, frame_output) = self.new_frames_io().await?;
@@ -215,13 +237,17 @@ impl FrameReceiver {
     pub fn spawn(
         framed_read: FramedRead<OwnedReadHalf, TFrameIdCodec>,
         frame_senders: Arc<FramesDispatcher>,
+        frame_sender: JoinHandle<()>,
     ) -> JoinHandle<()> {
         let frame_receiver = FrameReceiver { frame_senders };
         tokio::spawn(async move {
             frame_receiver
                 .run(framed_read)
                 .then(|_| async { debug!("FrameReceiver stopped") })
-                .await
+                .await;
+            // No response can arrive anymore.
+            frame_receiver.frame_senders.close().await;
+            frame_sender.abort();
         })
     }
 
diff --git a/src/connection/pool.rs b/src/connection/pool.rs
index 7cdf9a0..0f24df0 100644
--- a/src/connection/pool.rs
+++ b/src/connection/pool.rs
@@ -102,9 +102,9 @@ impl bb8::ManageConnection for ConnectionManager {
         ping(conn).await
     }
 
-    fn has_broken(&self, _conn: &mut Self::Connection) -> bool {
-        debug!("Has broken? (not implemented)");
-        false
+    fn has_broken(&self, conn: &mut Self::Connection) -> bool {
+        debug!("Has broken?");
+        conn.is_closed()
     }
 }
 
diff --git a/src/subchannel.rs b/src/subchannel.rs
index 2fb351f..9c872b2 100644
--- a/src/subchannel.rs
+++ b/src/subchannel.rs
@@ -135,6 +135,13 @@ impl SubChannel {
 
     async fn connect(&self, host: SocketAddr) -> TResult<(FrameInput, FrameOutput)> {
         let pool = self.connection_pools.get(host).await?;
+        // Skip pooled connections closed in the meantime. The pool drops them when it gets them back.
+        for _ in 0..pool.state().connections {
+            let connection = pool.get().await?;
+            if !connection.is_closed() {
+                return Ok(connection.new_frames_io().await?);
+            }
+        }
         let connection = pool.get().await?;
         Ok(connection.new_frames_io().await?)
     }
-- 
2.43.0


From 00d211fdba95035243aadc88a921ee81d139faed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 11/23] fix: answer a request which cannot be served with an
 error frame

It closed the connection, and with it failed all other calls.
---
 src/server.rs | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 6bf76ca..fe80cb8 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -9,7 +9,6 @@ use crate::frames::payloads::{Codec, CodecResult, ErrorCode, ErrorMsg, PROTOCOL_
 use crate::frames::payloads::{Init, Tracing};
 use crate::frames::{TFrame, TFrameId, TFrameIdCodec, Type};
 use crate::SubChannel;
-use futures::TryFutureExt;
 use futures::{self, SinkExt, StreamExt, TryStreamExt};
 use log::debug;
 use std::collections::HashMap;
@@ -84,15 +83,21 @@ impl Server {
 
     async fn dispatch_frame(&self, frame: TFrameId) -> TResult<Option<(u32, FrameInput)>> {
         let id = *frame.id();
-        self.frame_dispatchers
-            .dispatch(frame)
-            .await
+        let dispatched = match frame.frame().frame_type() {
+            Type::CallRequest => self.frame_dispatchers.dispatch(frame).await,
+            _ => self
+                .frame_dispatchers
+                .dispatch_following(frame)
+                .await
+                .map(|_| None),
+        };
+        Ok(dispatched
             .map(|receiver_option| receiver_option.map(|receiver| (id, receiver)))
-            //TODO Figure out tracing.
-            .map_err(|err| {
+            .unwrap_or_else(|err| {
+                // Frame of a message which is already answered.
                 debug!("Err while dispatching frame: {}", err.to_string());
-                TChannelError::from(ConnectionError::from((id, err, Tracing::default())))
-            })
+                None
+            }))
     }
 
     async fn handle_init_handshake(
@@ -158,15 +163,20 @@ struct FrameHandler {
 impl FrameHandler {
     pub async fn handle(&self, id: u32, frame_input: FrameInput) -> TResult<()> {
         debug!("Handling message (id {})", &id);
-        self.handle_input(id, frame_input)
-            .and_then(|frames| self.send_frames(frames))
-            .await
+        let frames = match self.handle_input(id, frame_input).await {
+            Ok(frames) => frames,
+            Err(err) => {
+                debug!("Failed to handle message (id {}): {}", id, err);
+                vec![self.to_error_frame(ErrorCode::UnexpectedError, err.to_string(), id)?]
+            }
+        };
+        self.send_frames(frames).await
     }
 
     async fn handle_input(&self, id: u32, frame_input: FrameInput) -> TResult<Vec<TFrameId>> {
-        let (request_fields, message_args) =
-            RequestDefragmenter::new(frame_input).read_request().await?;
+        let request = RequestDefragmenter::new(frame_input).read_request().await;
         self.frame_dispatchers.deregister(&id).await;
+        let (request_fields, message_args) = request?;
         let subchannel = self.get_subchannel(request_fields.service()).await?;
         let (response_code, response_args) = subchannel.handle(message_args).await?;
         match ResponseFragmenter::new(request_fields.service(), response_code, response_args)
-- 
2.43.0


From 2d4f1d071cb0eda627d5b2f96bab680e1836c766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 12/23] fix: cut error messages which do not fit an error frame

---
 src/server.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index fe80cb8..3a474f1 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -28,6 +28,9 @@ pub struct Server {
     server_tasks: usize,
 }
 
+/// Keeps an error message within a single frame.
+const ERROR_MESSAGE_MAX_LENGTH: usize = 32 * 1024;
+
 type TFramedRead = FramedRead<OwnedReadHalf, TFrameIdCodec>;
 type TFramedWrite = FramedWrite<OwnedWriteHalf, TFrameIdCodec>;
 
@@ -216,7 +219,12 @@ impl FrameHandler {
         Ok(())
     }
 
-    fn to_error_frame(&self, code: ErrorCode, msg: String, id: u32) -> CodecResult<TFrameId> {
+    fn to_error_frame(&self, code: ErrorCode, mut msg: String, id: u32) -> CodecResult<TFrameId> {
+        let mut len = msg.len().min(ERROR_MESSAGE_MAX_LENGTH);
+        while !msg.is_char_boundary(len) {
+            len -= 1;
+        }
+        msg.truncate(len);
         //TODO add meaningful tracing
         let tracing = Tracing::default();
         let err = ErrorMsg::new(code, tracing, msg);
-- 
2.43.0


From 1b8f5ed8292673e9884b4d28e7bdda8f96be56fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 13/23] fix: read all requests of a connection, limit only
 their handling

With server_tasks requests partially received no further frame was read,
so that none of them could ever become complete.
---
 src/server.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 3a474f1..3e0b2c7 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -18,6 +18,7 @@ use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::{TcpListener, TcpStream};
 use tokio::sync::mpsc;
 use tokio::sync::mpsc::Sender;
+use tokio::sync::Semaphore;
 use tokio_util::codec::{FramedRead, FramedWrite};
 
 #[derive(Debug)]
@@ -31,6 +32,9 @@ pub struct Server {
 /// Keeps an error message within a single frame.
 const ERROR_MESSAGE_MAX_LENGTH: usize = 32 * 1024;
 
+/// Within what `Semaphore` allows.
+const MAX_SERVER_TASKS: usize = u32::MAX as usize >> 4;
+
 type TFramedRead = FramedRead<OwnedReadHalf, TFrameIdCodec>;
 type TFramedWrite = FramedWrite<OwnedWriteHalf, TFrameIdCodec>;
 
@@ -74,12 +78,18 @@ impl Server {
             self.subchannels.clone(),
             self.frame_dispatchers.clone(),
             sender,
+            Semaphore::new(match self.server_tasks {
+                0 => MAX_SERVER_TASKS,
+                server_tasks => server_tasks.min(MAX_SERVER_TASKS),
+            }),
         );
 
+        // Requests are read without limit: a limit here would stop the reading of frames
+        // which requests being read wait for.
         framed_read
             .map_err(TChannelError::CodecError)
             .try_filter_map(|frame| self.dispatch_frame(frame))
-            .try_for_each_concurrent(self.server_tasks, |(id, frames)| handler.handle(id, frames))
+            .try_for_each_concurrent(None, |(id, frames)| handler.handle(id, frames))
             .await
         //TODO send fatal protocol error when it fails
     }
@@ -161,6 +171,8 @@ struct FrameHandler {
     subchannels: SharedSubChannels,
     frame_dispatchers: Arc<FramesDispatcher>,
     sender: Sender<TFrameId>,
+    /// Limits the number of requests being handled.
+    server_tasks: Semaphore,
 }
 
 impl FrameHandler {
@@ -180,6 +192,7 @@ impl FrameHandler {
         let request = RequestDefragmenter::new(frame_input).read_request().await;
         self.frame_dispatchers.deregister(&id).await;
         let (request_fields, message_args) = request?;
+        let _permit = self.server_tasks.acquire().await;
         let subchannel = self.get_subchannel(request_fields.service()).await?;
         let (response_code, response_args) = subchannel.handle(message_args).await?;
         match ResponseFragmenter::new(request_fields.service(), response_code, response_args)
-- 
2.43.0


From 01b4e4483c537cf05bf7809637021a094943d526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 14/23] fix: answer ping requests

They closed the connection, so that clients testing their connections
could not use a server at all.
---
 src/server.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 3e0b2c7..786b9dd 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -9,6 +9,7 @@ use crate::frames::payloads::{Codec, CodecResult, ErrorCode, ErrorMsg, PROTOCOL_
 use crate::frames::payloads::{Init, Tracing};
 use crate::frames::{TFrame, TFrameId, TFrameIdCodec, Type};
 use crate::SubChannel;
+use bytes::Bytes;
 use futures::{self, SinkExt, StreamExt, TryStreamExt};
 use log::debug;
 use std::collections::HashMap;
@@ -77,7 +78,7 @@ impl Server {
         let handler = FrameHandler::new(
             self.subchannels.clone(),
             self.frame_dispatchers.clone(),
-            sender,
+            sender.clone(),
             Semaphore::new(match self.server_tasks {
                 0 => MAX_SERVER_TASKS,
                 server_tasks => server_tasks.min(MAX_SERVER_TASKS),
@@ -88,16 +89,25 @@ impl Server {
         // which requests being read wait for.
         framed_read
             .map_err(TChannelError::CodecError)
-            .try_filter_map(|frame| self.dispatch_frame(frame))
+            .try_filter_map(|frame| self.dispatch_frame(frame, &sender))
             .try_for_each_concurrent(None, |(id, frames)| handler.handle(id, frames))
             .await
         //TODO send fatal protocol error when it fails
     }
 
-    async fn dispatch_frame(&self, frame: TFrameId) -> TResult<Option<(u32, FrameInput)>> {
+    async fn dispatch_frame(
+        &self,
+        frame: TFrameId,
+        sender: &Sender<TFrameId>,
+    ) -> TResult<Option<(u32, FrameInput)>> {
         let id = *frame.id();
         let dispatched = match frame.frame().frame_type() {
             Type::CallRequest => self.frame_dispatchers.dispatch(frame).await,
+            Type::PingRequest => {
+                let ping_res = TFrame::new(Type::PingResponse, Bytes::new());
+                sender.send(TFrameId::new(id, ping_res)).await?;
+                Ok(None)
+            }
             _ => self
                 .frame_dispatchers
                 .dispatch_following(frame)
-- 
2.43.0


From 990a70275f9a975ca2435f26666d77f0ea4f2e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:42 +0000
Subject: [PATCH 15/23] fix: release a connection whose client is gone

A request which could not become complete anymore kept it open forever, and
a failing connection dropped the complete requests being handled.
---
 src/server.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 786b9dd..307e227 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -10,7 +10,7 @@ use crate::frames::payloads::{Init, Tracing};
 use crate::frames::{TFrame, TFrameId, TFrameIdCodec, Type};
 use crate::SubChannel;
 use bytes::Bytes;
-use futures::{self, SinkExt, StreamExt, TryStreamExt};
+use futures::{self, future, stream, SinkExt, StreamExt, TryStreamExt};
 use log::debug;
 use std::collections::HashMap;
 use std::fmt::Debug;
@@ -90,11 +90,21 @@ impl Server {
         framed_read
             .map_err(TChannelError::CodecError)
             .try_filter_map(|frame| self.dispatch_frame(frame, &sender))
+            .inspect_err(|err| error!("Connection error: {}", err))
+            .take_while(|request| future::ready(request.is_ok()))
+            .chain(stream::once(self.close_input()).filter_map(future::ready))
+            .boxed()
             .try_for_each_concurrent(None, |(id, frames)| handler.handle(id, frames))
             .await
         //TODO send fatal protocol error when it fails
     }
 
+    /// Fails requests which cannot become complete anymore. All others still get handled.
+    async fn close_input(&self) -> Option<TResult<(u32, FrameInput)>> {
+        self.frame_dispatchers.close().await;
+        None
+    }
+
     async fn dispatch_frame(
         &self,
         frame: TFrameId,
-- 
2.43.0


From 2f399f2db4a651f09f9ef66982847647f22c2185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 16/23] fix: do not wait for a connection which is already back
 in its pool

---
 src/connection/pool.rs | 22 +++++++++++++++++++++-
 src/subchannel.rs      | 10 ++++++----
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/connection/pool.rs b/src/connection/pool.rs
index 0f24df0..79623ea 100644
--- a/src/connection/pool.rs
+++ b/src/connection/pool.rs
@@ -7,13 +7,15 @@ use crate::frames::payloads::Init;
 use crate::frames::payloads::{Codec, PROTOCOL_VERSION};
 use crate::frames::{TFrame, TFrameId, Type};
 use async_trait::async_trait;
-use bb8::{ErrorSink, Pool, RunError};
+use bb8::{ErrorSink, Pool, PooledConnection, RunError};
 use bytes::Bytes;
+use futures::future;
 use log::{debug, error};
 use std::collections::HashMap;
 use std::fmt::Debug;
 use std::net::SocketAddr;
 use std::sync::Arc;
+use std::task::Poll;
 use tokio::net::TcpStream;
 use tokio::sync::RwLock;
 
@@ -63,6 +65,24 @@ impl ConnectionPools {
     }
 }
 
+/// Gets connection out of `pool`.
+pub async fn get_connection(
+    pool: &Pool<ConnectionManager>,
+) -> Result<PooledConnection<'_, ConnectionManager>, RunError<ConnectionError>> {
+    let mut connection = Box::pin(pool.get());
+    if let Poll::Ready(result) = futures::poll!(&mut connection) {
+        return result;
+    }
+    if pool.state().idle_connections == 0 {
+        return connection.await;
+    }
+    // The pool misses a connection returned right before it starts to wait for one. Ask again for it.
+    future::select(connection, Box::pin(pool.get()))
+        .await
+        .factor_first()
+        .0
+}
+
 #[derive(Debug, Clone, Copy, Default)]
 struct ConnectionPoolsLogger;
 
diff --git a/src/subchannel.rs b/src/subchannel.rs
index 9c872b2..93c3701 100644
--- a/src/subchannel.rs
+++ b/src/subchannel.rs
@@ -1,5 +1,5 @@
 use crate::channel::TResult;
-use crate::connection::pool::ConnectionPools;
+use crate::connection::pool::{get_connection, ConnectionPools};
 use crate::connection::{ConnectionResult, FrameInput, FrameOutput};
 use crate::defragmentation::ResponseDefragmenter;
 use crate::errors::{CodecError, ConnectionError, HandlerError, TChannelError};
@@ -137,12 +137,14 @@ impl SubChannel {
         let pool = self.connection_pools.get(host).await?;
         // Skip pooled connections closed in the meantime. The pool drops them when it gets them back.
         for _ in 0..pool.state().connections {
-            let connection = pool.get().await?;
+            let connection = get_connection(&pool).await?;
             if !connection.is_closed() {
-                return Ok(connection.new_frames_io().await?);
+                if let Ok(frames_io) = connection.new_frames_io().await {
+                    return Ok(frames_io);
+                }
             }
         }
-        let connection = pool.get().await?;
+        let connection = get_connection(&pool).await?;
         Ok(connection.new_frames_io().await?)
     }
 
-- 
2.43.0


From 8de7e1dd990fd0e41b0a1a4794c4b0cc9c707a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:10 +0000
Subject: [PATCH 17/23] fix: replace a lost connection for the calls waiting
 for one

The pool does not replace a broken connection it gets back even if calls wait
for one; they waited up to 30 s, then failed. Let it drop a connection only
when the one who returns it asks for another.
---
 src/connection/mod.rs  | 11 +++++++++++
 src/connection/pool.rs |  4 +++-
 src/subchannel.rs      |  5 +++--
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index cc85278..24b1f3f 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -130,6 +130,7 @@ pub struct Connection {
     pending_ids: Arc<FramesDispatcher>,
     sender: Sender<TFrameId>,
     buffer_size: usize,
+    discarded: bool,
 }
 
 impl Connection {
@@ -139,6 +140,7 @@ impl Connection {
             pending_ids: Arc::new(FramesDispatcher::new(buffer_size)),
             sender,
             buffer_size,
+            discarded: false,
         }
     }
 
@@ -158,6 +160,15 @@ impl Connection {
         self.pending_ids.is_closed()
     }
 
+    /// Makes the pool drop the connection when it gets it back.
+    pub fn discard(&mut self) {
+        self.discarded = true;
+    }
+
+    pub fn is_discarded(&self) -> bool {
+        self.discarded
+    }
+
     /// Prepares frame I/O with new message id. Then sends `frame` and awaits for response.
     pub async fn send_one(&self, frame: TFrame) -> ConnectionResult<TFrameId> {
         let (mut frame_input, frame_output) = self.new_frames_io().await?;
diff --git a/src/connection/pool.rs b/src/connection/pool.rs
index 79623ea..750243e 100644
--- a/src/connection/pool.rs
+++ b/src/connection/pool.rs
@@ -124,7 +124,9 @@ impl bb8::ManageConnection for ConnectionManager {
 
     fn has_broken(&self, conn: &mut Self::Connection) -> bool {
         debug!("Has broken?");
-        conn.is_closed()
+        // Not just closed: the pool does not replace a connection it drops, even if there are calls
+        // waiting for one. Who discards a connection asks for another.
+        conn.is_discarded()
     }
 }
 
diff --git a/src/subchannel.rs b/src/subchannel.rs
index 93c3701..ca9d2d8 100644
--- a/src/subchannel.rs
+++ b/src/subchannel.rs
@@ -135,14 +135,15 @@ impl SubChannel {
 
     async fn connect(&self, host: SocketAddr) -> TResult<(FrameInput, FrameOutput)> {
         let pool = self.connection_pools.get(host).await?;
-        // Skip pooled connections closed in the meantime. The pool drops them when it gets them back.
+        // Replace pooled connections closed in the meantime.
         for _ in 0..pool.state().connections {
-            let connection = get_connection(&pool).await?;
+            let mut connection = get_connection(&pool).await?;
             if !connection.is_closed() {
                 if let Ok(frames_io) = connection.new_frames_io().await {
                     return Ok(frames_io);
                 }
             }
+            connection.discard();
         }
         let connection = get_connection(&pool).await?;
         Ok(connection.new_frames_io().await?)
-- 
2.43.0


From b46ac597afd4a2012b973ff8f037d89b1153a57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:27 +0000
Subject: [PATCH 18/23] fix: start a server only after the one stopped before
 released its address

---
 src/channel.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/channel.rs b/src/channel.rs
index 9199598..39bb36a 100644
--- a/src/channel.rs
+++ b/src/channel.rs
@@ -24,6 +24,8 @@ pub struct TChannel {
     connection_pools: Arc<ConnectionPools>,
     subchannels: SharedSubChannels,
     server_handle: ServerHandle,
+    /// Held by the server task as long as it uses the server address.
+    server_lock: Arc<tokio::sync::Mutex<()>>,
 }
 
 impl TChannel {
@@ -37,6 +39,7 @@ impl TChannel {
             connection_pools: Arc::new(connection_pools),
             subchannels,
             server_handle: Mutex::new(None),
+            server_lock: Arc::default(),
         })
     }
 
@@ -45,7 +48,13 @@ impl TChannel {
         let mut handle_lock = self.server_handle.lock().unwrap();
         if handle_lock.is_none() {
             debug!("Starting server"); //TODO lie
-            let handle = tokio::spawn(Server::run(self.config.clone(), self.subchannels.clone()));
+            let server = Server::run(self.config.clone(), self.subchannels.clone());
+            let server_lock = self.server_lock.clone();
+            let handle = tokio::spawn(async move {
+                // A server stopped right before may not have released the address yet.
+                let _lock = server_lock.lock().await;
+                server.await
+            });
             *handle_lock = Some(handle);
         } else {
             return Err(TChannelError::Error("Server already started".to_string()));
-- 
2.43.0


From c9eeb8b77158921d746acef1d96a389edcc7ee9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:08 +0000
Subject: [PATCH 19/23] fix: keep accepting connections after a failed accept

---
 src/server.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 307e227..f811c9c 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -15,6 +15,7 @@ use log::debug;
 use std::collections::HashMap;
 use std::fmt::Debug;
 use std::sync::Arc;
+use std::time::Duration;
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::{TcpListener, TcpStream};
 use tokio::sync::mpsc;
@@ -30,6 +31,9 @@ pub struct Server {
     server_tasks: usize,
 }
 
+/// Lets other tasks release what accepting of a connection lacks.
+const ACCEPT_RETRY_DELAY: Duration = Duration::from_millis(20);
+
 /// Keeps an error message within a single frame.
 const ERROR_MESSAGE_MAX_LENGTH: usize = 32 * 1024;
 
@@ -53,7 +57,15 @@ impl Server {
         debug!("Starting server on {}", config.server_address);
         let listener = TcpListener::bind(config.server_address).await?;
         loop {
-            let (stream, addr) = listener.accept().await?;
+            let (stream, addr) = match listener.accept().await {
+                Ok(connection) => connection,
+                Err(err) => {
+                    // E.g. out of file descriptors. It passes.
+                    error!("Failed to accept connection: {}", err);
+                    tokio::time::sleep(ACCEPT_RETRY_DELAY).await;
+                    continue;
+                }
+            };
             debug!("Handling incoming connection from {}", addr);
             let subchannels = subchannels.clone();
             let mut server =
-- 
2.43.0


From 039aaa1c028cc2e895cbea2f06be4bcc95e55d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:07 +0000
Subject: [PATCH 20/23] fix: test one pooled connection at a time

---
 src/connection/pool.rs | 44 +++++++++++++++++++++++++-----------------
 src/subchannel.rs      |  9 +++++----
 2 files changed, 31 insertions(+), 22 deletions(-)

diff --git a/src/connection/pool.rs b/src/connection/pool.rs
index 750243e..32d1ae9 100644
--- a/src/connection/pool.rs
+++ b/src/connection/pool.rs
@@ -9,7 +9,6 @@ use crate::frames::{TFrame, TFrameId, Type};
 use async_trait::async_trait;
 use bb8::{ErrorSink, Pool, PooledConnection, RunError};
 use bytes::Bytes;
-use futures::future;
 use log::{debug, error};
 use std::collections::HashMap;
 use std::fmt::Debug;
@@ -52,7 +51,8 @@ impl ConnectionPools {
             Pool::builder()
                 .max_lifetime(self.config.lifetime)
                 .max_size(self.config.max_connections)
-                .test_on_check_out(self.config.test_connection)
+                // It could not be told from waiting for a connection. See `get_connection`.
+                .test_on_check_out(false)
                 .error_sink(self.connection_pools_logger.boxed_clone())
                 .build(ConnectionManager {
                     addr,
@@ -63,24 +63,32 @@ impl ConnectionPools {
         pools.insert(addr, pool.clone());
         Ok(pool)
     }
-}
 
-/// Gets connection out of `pool`.
-pub async fn get_connection(
-    pool: &Pool<ConnectionManager>,
-) -> Result<PooledConnection<'_, ConnectionManager>, RunError<ConnectionError>> {
-    let mut connection = Box::pin(pool.get());
-    if let Poll::Ready(result) = futures::poll!(&mut connection) {
-        return result;
-    }
-    if pool.state().idle_connections == 0 {
-        return connection.await;
+    /// Gets connection out of `pool`.
+    pub async fn get_connection<'a>(
+        &self,
+        pool: &'a Pool<ConnectionManager>,
+    ) -> Result<PooledConnection<'a, ConnectionManager>, RunError<ConnectionError>> {
+        loop {
+            let mut pending = Box::pin(pool.get());
+            match futures::poll!(&mut pending) {
+                Poll::Ready(result) => {
+                    let mut connection = result?;
+                    if !self.config.test_connection {
+                        return Ok(connection);
+                    }
+                    match ping(&connection).await {
+                        Ok(()) => return Ok(connection),
+                        Err(err) => self.connection_pools_logger.sink(err),
+                    }
+                    connection.discard();
+                }
+                Poll::Pending if pool.state().idle_connections == 0 => return pending.await,
+                // The pool misses a connection returned right before it starts to wait for one. Ask again for it.
+                Poll::Pending => {}
+            }
+        }
     }
-    // The pool misses a connection returned right before it starts to wait for one. Ask again for it.
-    future::select(connection, Box::pin(pool.get()))
-        .await
-        .factor_first()
-        .0
 }
 
 #[derive(Debug, Clone, Copy, Default)]
diff --git a/src/subchannel.rs b/src/subchannel.rs
index ca9d2d8..df4fdd8 100644
--- a/src/subchannel.rs
+++ b/src/subchannel.rs
@@ -1,5 +1,5 @@
 use crate::channel::TResult;
-use crate::connection::pool::{get_connection, ConnectionPools};
+use crate::connection::pool::ConnectionPools;
 use crate::connection::{ConnectionResult, FrameInput, FrameOutput};
 use crate::defragmentation::ResponseDefragmenter;
 use crate::errors::{CodecError, ConnectionError, HandlerError, TChannelError};
@@ -134,10 +134,11 @@ impl SubChannel {
     }
 
     async fn connect(&self, host: SocketAddr) -> TResult<(FrameInput, FrameOutput)> {
-        let pool = self.connection_pools.get(host).await?;
+        let pools = &self.connection_pools;
+        let pool = pools.get(host).await?;
         // Replace pooled connections closed in the meantime.
         for _ in 0..pool.state().connections {
-            let mut connection = get_connection(&pool).await?;
+            let mut connection = pools.get_connection(&pool).await?;
             if !connection.is_closed() {
                 if let Ok(frames_io) = connection.new_frames_io().await {
                     return Ok(frames_io);
@@ -145,7 +146,7 @@ impl SubChannel {
             }
             connection.discard();
         }
-        let connection = get_connection(&pool).await?;
+        let connection = pools.get_connection(&pool).await?;
         Ok(connection.new_frames_io().await?)
     }
 
-- 
2.43.0


From d530c86314cae6faef8b4a5497d94793c25a1214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:24 +0000
Subject: [PATCH 21/23] fix: let whoever waits for a pooled connection get it

---
 src/connection/pool.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/connection/pool.rs b/src/connection/pool.rs
index 32d1ae9..ea76ce5 100644
--- a/src/connection/pool.rs
+++ b/src/connection/pool.rs
@@ -65,12 +65,12 @@ impl ConnectionPools {
     }
 
     /// Gets connection out of `pool`.
-    pub async fn get_connection<'a>(
+    pub async fn get_connection(
         &self,
-        pool: &'a Pool<ConnectionManager>,
-    ) -> Result<PooledConnection<'a, ConnectionManager>, RunError<ConnectionError>> {
+        pool: &Arc<Pool<ConnectionManager>>,
+    ) -> Result<PooledConnection<'static, ConnectionManager>, RunError<ConnectionError>> {
         loop {
-            let mut pending = Box::pin(pool.get());
+            let mut pending = Box::pin(get_owned(pool.clone()));
             match futures::poll!(&mut pending) {
                 Poll::Ready(result) => {
                     let mut connection = result?;
@@ -83,14 +83,27 @@ impl ConnectionPools {
                     }
                     connection.discard();
                 }
-                Poll::Pending if pool.state().idle_connections == 0 => return pending.await,
-                // The pool misses a connection returned right before it starts to wait for one. Ask again for it.
-                Poll::Pending => {}
+                Poll::Pending => {
+                    let missed = pool.state().idle_connections > 0;
+                    // Whoever waits for a connection has to get it, even if the caller is gone. The pool
+                    // locks up when it is about to hand over a connection to somebody who just gave up.
+                    let waiting = tokio::spawn(pending);
+                    // The pool misses a connection returned right before it starts to wait for one. Ask again for it.
+                    if !missed {
+                        return waiting.await.unwrap_or(Err(RunError::TimedOut));
+                    }
+                }
             }
         }
     }
 }
 
+async fn get_owned(
+    pool: Arc<Pool<ConnectionManager>>,
+) -> Result<PooledConnection<'static, ConnectionManager>, RunError<ConnectionError>> {
+    pool.get_owned().await
+}
+
 #[derive(Debug, Clone, Copy, Default)]
 struct ConnectionPoolsLogger;
 
-- 
2.43.0


From bd5164db47bf4679de9715e7b1d897532068001b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:40 +0000
Subject: [PATCH 22/23] fix: report the error frame which answers a call

---
 src/defragmentation.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/defragmentation.rs b/src/defragmentation.rs
index 78b9e77..7293ca8 100644
--- a/src/defragmentation.rs
+++ b/src/defragmentation.rs
@@ -1,12 +1,12 @@
 use crate::channel::TResult;
 use crate::connection::FrameInput;
-use crate::errors::{CodecError, TChannelError};
+use crate::errors::{CodecError, ConnectionError, TChannelError};
 use crate::frames::headers::{ArgSchemeValue, TransportHeaderKey};
 use crate::frames::payloads::{
     Call, CallArgs, CallContinue, CallFields, CallRequest, CallRequestFields, CallResponse,
-    CallResponseFields, ChecksumType, Codec, CodecResult, Flags, MAX_FRAME_ARGS,
+    CallResponseFields, ChecksumType, Codec, CodecResult, ErrorMsg, Flags, MAX_FRAME_ARGS,
 };
-use crate::frames::Type;
+use crate::frames::{TFrame, Type};
 use crate::messages::args::{MessageArgs, ResponseCode};
 use crate::messages::Message;
 use bytes::{Buf, BufMut, Bytes, BytesMut};
@@ -123,13 +123,16 @@ impl Defragmenter {
         args_defragmenter: &mut ArgsDefragmenter,
     ) -> TResult<(FIELDS, Flags)> {
         if let Some(frame_id) = self.frame_input.recv().await {
-            debug!("Reading beginning frame {}", frame_id.id());
+            let id = *frame_id.id();
+            debug!("Reading beginning frame {}", id);
             let mut frame = frame_id.frame;
             if frame_type == frame.frame_type {
                 let mut frame = decode(frame.payload_mut())?; //ugh
                 verify_args(frame.args()).map(|args| args_defragmenter.add(args))?;
                 let flags = frame.flags();
                 Ok((frame.fields(), flags))
+            } else if frame.frame_type == Type::Error {
+                Err(read_error(&mut frame, id))
             } else {
                 Err(TChannelError::Error(format!(
                     "Expected '{:?}' got '{:?}'",
@@ -177,6 +180,7 @@ async fn read_continuation(
 ) -> TResult<()> {
     debug!("Reading continuation");
     while let Some(frame_id) = frame_input.recv().await {
+        let id = *frame_id.id();
         let mut frame = frame_id.frame;
         match frame.frame_type() {
             frame_type if *frame_type == continuation_type => {
@@ -189,10 +193,7 @@ async fn read_continuation(
             }
             Type::Error => {
                 debug!("Transport error: {:?}", frame);
-                return Err(TChannelError::Error(format!(
-                    "Transport error: {:?}",
-                    frame
-                )));
+                return Err(read_error(&mut frame, id));
             }
             frame_type => {
                 debug!("Unexpected frame: {:?}", frame);
@@ -208,6 +209,14 @@ async fn read_continuation(
     ))
 }
 
+/// Reads why the other side failed.
+fn read_error(frame: &mut TFrame, id: u32) -> TChannelError {
+    match ErrorMsg::decode(frame.payload_mut()) {
+        Ok(error) => ConnectionError::MessageErrorId(error, id).into(),
+        Err(err) => err.into(),
+    }
+}
+
 fn verify_args(call_args: &mut CallArgs) -> CodecResult<&mut VecDeque<Option<Bytes>>> {
     match call_args.checksum_type() {
         ChecksumType::None => Ok(call_args.args_mut()),
-- 
2.43.0


From 9a71893629b7cf208ffe567230ea8a16b58cd4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:58 +0000
Subject: [PATCH 23/23] fix: release the id of an abandoned call

---
 src/connection/mod.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 24b1f3f..2b94c56 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -45,6 +45,13 @@ impl FrameOutput {
     }
 }
 
+impl Drop for FrameOutput {
+    // Nobody closes it when the call is abandoned.
+    fn drop(&mut self) {
+        self.frames_dispatcher.abandon(self.message_id);
+    }
+}
+
 /// Pending Message Ids mapped to Senders of frames for given message Id.
 #[derive(Debug, Default, new)]
 pub struct FramesDispatcher {
@@ -53,6 +60,9 @@ pub struct FramesDispatcher {
     /// Set (under the lock of `senders`) once no more frames will arrive.
     #[new(default)]
     closed: AtomicBool,
+    /// Ids which could not be deregistered right away.
+    #[new(default)]
+    abandoned: std::sync::Mutex<Vec<u32>>,
     buffer_size: usize,
 }
 
@@ -76,6 +86,16 @@ impl FramesDispatcher {
         channels.remove(id)
     }
 
+    /// Deregisters `id`, at the latest when the next one gets registered.
+    pub fn abandon(&self, id: u32) {
+        match self.senders.try_write() {
+            Ok(mut channels) => {
+                channels.remove(&id);
+            }
+            Err(_) => self.abandoned.lock().unwrap().push(id),
+        }
+    }
+
     /// Ends all channels: their receivers get the frames already dispatched, then nothing.
     pub async fn close(&self) {
         let mut channels = self.senders.write().await;
@@ -92,6 +112,9 @@ impl FramesDispatcher {
         if self.is_closed() {
             return Err(ConnectionError::Error("Connection closed".to_owned()));
         }
+        for abandoned in self.abandoned.lock().unwrap().drain(..) {
+            channels.remove(&abandoned);
+        }
         if channels.insert(id, sender).is_some() {
             debug!("Sender for id {} already exists", id);
             return Err(ConnectionError::Error(format!("Duplicated id: {}.", id)));
-- 
2.43.0

