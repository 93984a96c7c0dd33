From cc9866489215a1bab5466818f90adbe9d22782e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:50 +0000
Subject: [PATCH 01/16] fix: return an error instead of panicking on extension
 frames

Frame::decode hit unimplemented!() for frame type 0x3F, so a peer could
crash the process with six bytes. Report the type as unrecognized.
---
 binate/src/frame/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/binate/src/frame/mod.rs b/binate/src/frame/mod.rs
index d4ebe35..73cb193 100644
--- a/binate/src/frame/mod.rs
+++ b/binate/src/frame/mod.rs
@@ -171,7 +171,9 @@ impl Frame {
                 Frame::ResumeOk(ResumeOkFrame::decode(buf, stream_id, flags)?)
             }
             FrameType::EXT => {
-                unimplemented!()
+                return Err(DecodeError::UnrecognizedFrameType(
+                    FrameType::EXT.value(),
+                ));
             }
         })
     }
-- 
2.43.0


From d653625fb5af5ea3e297288ea836a07a12205ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:50 +0000
Subject: [PATCH 02/16] fix: do not count an absent resume token in
 SetupFrame::len

The token length field is only encoded when there is a token, but len()
always counted its two bytes.
---
 binate/src/frame/codec/setup.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/binate/src/frame/codec/setup.rs b/binate/src/frame/codec/setup.rs
index 9054de5..ab64fa0 100644
--- a/binate/src/frame/codec/setup.rs
+++ b/binate/src/frame/codec/setup.rs
@@ -167,12 +167,12 @@ impl Encode for SetupFrame {
         // len(version): 4
         // len(keepalive): 4
         // len(lifetime): 4
-        // len(token_length): 2
-        let mut len = 20;
+        let mut len = 18;
 
+        // len(token_length): 2
         // len(resume_token)
         if let Some(resume_token) = &self.resume_token {
-            len += resume_token.len();
+            len += 2 + resume_token.len();
         }
 
         // len(mime_metadata_length): 1
-- 
2.43.0


From 58f4be3d0ea838a63d05bd14fe8f3fc9c27aa4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 03/16] fix: always send a token field when SETUP has the
 RESUME flag

set_resume_flag() without set_resume_token() set the flag but encoded no
token length, so the decoder read the MIME type fields as the token.
---
 binate/src/frame/codec/setup.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/binate/src/frame/codec/setup.rs b/binate/src/frame/codec/setup.rs
index ab64fa0..74b6817 100644
--- a/binate/src/frame/codec/setup.rs
+++ b/binate/src/frame/codec/setup.rs
@@ -357,13 +357,20 @@ impl SetupFrameBuilder {
     }
 
     /// Builds a [`SetupFrame`] from this builder.
+    ///
+    /// If the `Resume` flag is set but no token was given, the token is empty.
     pub fn build(self) -> SetupFrame {
+        let mut resume_token = self.resume_token;
+        if self.flags.contains(Flags::RESUME) {
+            // The token length field MUST be present if the RESUME bit is set.
+            resume_token.get_or_insert_with(Bytes::new);
+        }
         SetupFrame {
             flags: self.flags,
             version: self.version,
             keepalive_interval: self.keepalive_interval,
             keepalive_timeout: self.keepalive_timeout,
-            resume_token: self.resume_token,
+            resume_token,
             metadata_mimetype: self.metadata_mimetype,
             data_mimetype: self.data_mimetype,
             payload: self.payload,
-- 
2.43.0


From 82462d5641ea75ec5997798450374ab09de8ca44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 04/16] fix: reject MIME types longer than the length field can
 express

The length is encoded in one byte, so a 256-byte MIME type was accepted
and then written with length 0, which corrupted the rest of the frame.
---
 binate/src/frame/codec/setup.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/binate/src/frame/codec/setup.rs b/binate/src/frame/codec/setup.rs
index 74b6817..87b1621 100644
--- a/binate/src/frame/codec/setup.rs
+++ b/binate/src/frame/codec/setup.rs
@@ -308,7 +308,7 @@ impl SetupFrameBuilder {
     ///
     /// # Panics
     ///
-    /// This function panics if the length of the given `mimetype` is greater than `256` bytes.
+    /// This function panics if the length of the given `mimetype` is greater than `255` bytes.
     ///
     /// [`Internet media type`]: https://en.wikipedia.org/wiki/Internet_media_type
     /// [`RFC 2045`]: https://datatracker.ietf.org/doc/html/rfc2045
@@ -317,7 +317,7 @@ impl SetupFrameBuilder {
         T: Into<String>,
     {
         let mimetype: String = mimetype.into();
-        assert!(mimetype.len() <= 256);
+        assert!(mimetype.len() <= 255);
         self.metadata_mimetype = Bytes::from(mimetype);
         self
     }
@@ -329,7 +329,7 @@ impl SetupFrameBuilder {
     ///
     /// # Panics
     ///
-    /// This function panics if the length of the given `mimetype` is greater than `256` bytes.
+    /// This function panics if the length of the given `mimetype` is greater than `255` bytes.
     ///
     /// [`Internet media type`]: https://en.wikipedia.org/wiki/Internet_media_type
     /// [`RFC 2045`]: https://datatracker.ietf.org/doc/html/rfc2045
@@ -338,7 +338,7 @@ impl SetupFrameBuilder {
         T: Into<String>,
     {
         let mimetype: String = mimetype.into();
-        assert!(mimetype.len() <= 256);
+        assert!(mimetype.len() <= 255);
         self.data_mimetype = Bytes::from(mimetype);
         self
     }
-- 
2.43.0


From 3977fec9e4481ffd80ee1568618e0fdeddceca3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 05/16] fix: make PayloadChunks::len exact

The number of chunks was computed in f32, which is wrong for payloads
beyond 2^24 bytes, and ignored a present but empty part, for which the
iterator yields one chunk. Report the same number from size_hint, as
ExactSizeIterator requires.
---
 binate/src/payload.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/binate/src/payload.rs b/binate/src/payload.rs
index 39ab4d4..a41a5a9 100644
--- a/binate/src/payload.rs
+++ b/binate/src/payload.rs
@@ -198,14 +198,14 @@ impl ExactSizeIterator for PayloadChunks {
     /// Returns the number of chunks in this `PayloadChunks`.
     #[inline]
     fn len(&self) -> usize {
-        let metadata_len =
-            self.metadata.as_ref().map(|bytes| bytes.len()).unwrap_or(0);
-        let data_len =
-            self.data.as_ref().map(|bytes| bytes.len()).unwrap_or(0);
-        let len1 = metadata_len as f32 / self.chunk_size as f32;
-        let len2 = data_len as f32 / self.chunk_size as f32;
-
-        cmp::max(len1.ceil() as usize, len2.ceil() as usize)
+        // A part that is present but empty still takes up one chunk.
+        let count = |part: &Option<Bytes>| match part {
+            Some(bytes) if bytes.is_empty() => 1,
+            Some(bytes) => (bytes.len() - 1) / self.chunk_size + 1,
+            None => 0,
+        };
+
+        cmp::max(count(&self.metadata), count(&self.data))
     }
 }
 
@@ -237,6 +237,11 @@ impl Iterator for PayloadChunks {
         }
         Some(Payload::new(meta, data))
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = ExactSizeIterator::len(self);
+        (len, Some(len))
+    }
 }
 
 impl iter::FusedIterator for PayloadChunks {}
-- 
2.43.0


From 3cde4052a0f1aa1e7d67a95274c0aaceab80b6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 06/16] fix: never hand out stream ID 0

The server-side counter is even and wraps around to 0, which RSocket
reserves for the connection.
---
 binate/src/connection/stream_id.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/binate/src/connection/stream_id.rs b/binate/src/connection/stream_id.rs
index f0d54a2..39ee850 100644
--- a/binate/src/connection/stream_id.rs
+++ b/binate/src/connection/stream_id.rs
@@ -32,7 +32,8 @@ impl StreamIdProvider {
             sid = (self.0.fetch_add(2, Ordering::Relaxed) & STREAM_ID_MASK)
                 as u32;
 
-            if !store.contains_key(&sid) {
+            // Stream ID 0 is reserved for the connection itself.
+            if sid != 0 && !store.contains_key(&sid) {
                 break;
             }
         }
-- 
2.43.0


From 3827561a3a66267826c37c7f994d91fd381e587b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 07/16] fix: keep the reserved bits of LEASE frames clear

Like every other frame, mask 31-bit fields in release builds, where the
debug assertion is off.
---
 binate/src/frame/codec/lease.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/binate/src/frame/codec/lease.rs b/binate/src/frame/codec/lease.rs
index 13c7dd7..33251d7 100644
--- a/binate/src/frame/codec/lease.rs
+++ b/binate/src/frame/codec/lease.rs
@@ -46,7 +46,11 @@ impl LeaseFrame {
         metadata: Option<Bytes>,
     ) -> Self {
         debug_assert_max_u31!(ttl, number_of_requests);
-        LeaseFrame { ttl, number_of_requests, metadata }
+        LeaseFrame {
+            ttl: ttl & MAX_U31,
+            number_of_requests: number_of_requests & MAX_U31,
+            metadata,
+        }
     }
 
     /// Returns the validity time (in milliseconds) of LEASE from time of reception.
-- 
2.43.0


From b383c08f8d782233b7a7713fa0e16924dfe0b371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 08/16] fix: accept the full range of application error codes

Error codes are 32-bit unsigned and MAX_APPLICATION_ERROR_CODE is
0xFFFFFFFE, but ErrorFrame::new panicked on (or masked) anything above
31 bits.
---
 binate/src/frame/codec/error.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/binate/src/frame/codec/error.rs b/binate/src/frame/codec/error.rs
index 233124f..034bd9e 100644
--- a/binate/src/frame/codec/error.rs
+++ b/binate/src/frame/codec/error.rs
@@ -108,14 +108,13 @@ impl ErrorFrame {
 impl ErrorFrame {
     /// Create a new `ErrorFrame`.
     ///
-    /// - `stream_id` and `error_code` MUST be <= [`MAX_U31`].
+    /// - `stream_id` MUST be <= [`MAX_U31`].
     /// - `data` SHOULD be a UTF-8 encoded string.
     pub fn new(stream_id: u32, error_code: u32, data: Option<Bytes>) -> Self {
         debug_assert_max_u31!(stream_id);
-        debug_assert_max_u31!(error_code);
         ErrorFrame {
             stream_id: stream_id & MAX_U31,
-            code: error_code & MAX_U31,
+            code: error_code,
             data,
         }
     }
-- 
2.43.0


From bb704c6331678993d86d5e7490709363fa8cb2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 09/16] fix: describe REJECTED errors as REJECTED

---
 binate/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binate/src/error.rs b/binate/src/error.rs
index 2662325..5b7c1ef 100644
--- a/binate/src/error.rs
+++ b/binate/src/error.rs
@@ -211,7 +211,7 @@ impl Error {
             ConnectionError => "CONNECTION_ERROR (0x00000101)",
             ConnectionClose => "CONNECTION_CLOSE (0x00000102)",
             ApplicationError => "APPLICATION_ERROR (0x00000201)",
-            Rejected => "CONNECTION_ERROR (0x00000202)",
+            Rejected => "REJECTED (0x00000202)",
             Canceled => "CANCELED (0x00000203)",
             Invalid => "INVALID (0x00000204)",
             Decode(_) => "error decoding frame",
-- 
2.43.0


From 585f76e12c83446af6fea684e00aaa51a0451e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 10/16] fix: convert well-known MIME types to strings

The conversion called itself for every type but UNPARSEABLE, which
overflowed the stack.
---
 binate/src/mimetype.rs | 55 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/binate/src/mimetype.rs b/binate/src/mimetype.rs
index 18277b3..5526ee4 100644
--- a/binate/src/mimetype.rs
+++ b/binate/src/mimetype.rs
@@ -117,12 +117,59 @@ impl From<&str> for WellKnownMimeType {
     }
 }
 
+#[rustfmt::skip]
 impl From<WellKnownMimeType> for &'static str {
     fn from(t: WellKnownMimeType) -> &'static str {
-        if t == WellKnownMimeType::UNPARSEABLE {
-            ""
-        } else {
-            t.into()
+        use WellKnownMimeType::*;
+        match t {
+            UNPARSEABLE => "",
+            APPLICATION_AVRO => "application/avro",
+            APPLICATION_CBOR => "application/cbor",
+            APPLICATION_GRAPHQL => "application/graphql",
+            APPLICATION_GZIP => "application/gzip",
+            APPLICATION_JAVASCRIPT => "application/javascript",
+            APPLICATION_JSON => "application/json",
+            APPLICATION_OCTET_STREAM => "application/octet-stream",
+            APPLICATION_PDF => "application/pdf",
+            APPLICATION_VND_APACHE_THRIFT_BINARY => "application/vnd.apache.thrift.binary",
+            APPLICATION_VND_GOOGLE_PROTOBUF => "application/vnd.google.protobuf",
+            APPLICATION_XML => "application/xml",
+            APPLICATION_ZIP => "application/zip",
+            AUDIO_AAC => "audio/aac",
+            AUDIO_MP3 => "audio/mp3",
+            AUDIO_MP4 => "audio/mp4",
+            AUDIO_MPEG3 => "audio/mpeg3",
+            AUDIO_MPEG => "audio/mpeg",
+            AUDIO_OGG => "audio/ogg",
+            AUDIO_OPUS => "audio/opus",
+            AUDIO_VORBIS => "audio/vorbis",
+            IMAGE_BMP => "image/bmp",
+            IMAGE_GIF => "image/gif",
+            IMAGE_HEIC_SEQUENCE => "image/heic-sequence",
+            IMAGE_HEIC => "image/heic",
+            IMAGE_HEIF_SEQUENCE => "image/heif-sequence",
+            IMAGE_HEIF => "image/heif",
+            IMAGE_JPEG => "image/jpeg",
+            IMAGE_PNG => "image/png",
+            IMAGE_TIFF => "image/tiff",
+            MULTIPART_MIXED => "multipart/mixed",
+            TEXT_CSS => "text/css",
+            TEXT_CSV => "text/csv",
+            TEXT_HTML => "text/html",
+            TEXT_PLAIN => "text/plain",
+            TEXT_XML => "text/xml",
+            VIDEO_H264 => "video/H264",
+            VIDEO_H265 => "video/H265",
+            VIDEO_VP8 => "video/VP8",
+            APPLICATION_X_HESSIAN => "application/x-hessian",
+            APPLICATION_X_JAVA_OBJECT => "application/x-java-object",
+            APPLICATION_CLOUDEVENTS_JSON => "application/cloudevents+json",
+            MESSAGE_X_RSOCKET_MIME_TYPE_V0 => "message/x.rsocket.mime.type.v0",
+            MESSAGE_X_RSOCKET_ACCEPT_TIME_TYPES_V0 => "message/x.rsocket.accept.time.types.v0",
+            MESSAGE_X_RSOCKET_AUTHENTICATION_V0 => "message/x.rsocket.authentication.v0",
+            MESSAGE_X_RSOCKET_TRACING_ZIPKIN_V0 => "message/x.rsocket.tracing.zipkin.v0",
+            MESSAGE_X_RSOCKET_ROUTING_V0 => "message/x.rsocket.routing.v0",
+            MESSAGE_X_RSOCKET_COMPOSITE_METADATA_V0 => "message/x.rsocket.composite.metadata.v0",
         }
     }
 }
-- 
2.43.0


From aa37d2e9108fc66dc9045d90727d0ea5ed1ee386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 11/16] fix: spell the RSocket extension MIME types as the
 protocol does

The registered names use hyphens (and accept-mime-types, not
accept.time.types), so these types were never recognized.
---
 binate/src/mimetype.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/binate/src/mimetype.rs b/binate/src/mimetype.rs
index 5526ee4..8cf97a1 100644
--- a/binate/src/mimetype.rs
+++ b/binate/src/mimetype.rs
@@ -106,12 +106,12 @@ impl From<&str> for WellKnownMimeType {
             "application/x-hessian" => APPLICATION_X_HESSIAN,
             "application/x-java-object" => APPLICATION_X_JAVA_OBJECT,
             "application/cloudevents+json" => APPLICATION_CLOUDEVENTS_JSON,
-            "message/x.rsocket.mime.type.v0" => MESSAGE_X_RSOCKET_MIME_TYPE_V0,
-            "message/x.rsocket.accept.time.types.v0" => MESSAGE_X_RSOCKET_ACCEPT_TIME_TYPES_V0,
+            "message/x.rsocket.mime-type.v0" => MESSAGE_X_RSOCKET_MIME_TYPE_V0,
+            "message/x.rsocket.accept-mime-types.v0" => MESSAGE_X_RSOCKET_ACCEPT_TIME_TYPES_V0,
             "message/x.rsocket.authentication.v0" => MESSAGE_X_RSOCKET_AUTHENTICATION_V0,
-            "message/x.rsocket.tracing.zipkin.v0" => MESSAGE_X_RSOCKET_TRACING_ZIPKIN_V0,
+            "message/x.rsocket.tracing-zipkin.v0" => MESSAGE_X_RSOCKET_TRACING_ZIPKIN_V0,
             "message/x.rsocket.routing.v0" => MESSAGE_X_RSOCKET_ROUTING_V0,
-            "message/x.rsocket.composite.metadata.v0" => MESSAGE_X_RSOCKET_COMPOSITE_METADATA_V0,
+            "message/x.rsocket.composite-metadata.v0" => MESSAGE_X_RSOCKET_COMPOSITE_METADATA_V0,
             _ => UNPARSEABLE,
         }
     }
@@ -164,12 +164,12 @@ impl From<WellKnownMimeType> for &'static str {
             APPLICATION_X_HESSIAN => "application/x-hessian",
             APPLICATION_X_JAVA_OBJECT => "application/x-java-object",
             APPLICATION_CLOUDEVENTS_JSON => "application/cloudevents+json",
-            MESSAGE_X_RSOCKET_MIME_TYPE_V0 => "message/x.rsocket.mime.type.v0",
-            MESSAGE_X_RSOCKET_ACCEPT_TIME_TYPES_V0 => "message/x.rsocket.accept.time.types.v0",
+            MESSAGE_X_RSOCKET_MIME_TYPE_V0 => "message/x.rsocket.mime-type.v0",
+            MESSAGE_X_RSOCKET_ACCEPT_TIME_TYPES_V0 => "message/x.rsocket.accept-mime-types.v0",
             MESSAGE_X_RSOCKET_AUTHENTICATION_V0 => "message/x.rsocket.authentication.v0",
-            MESSAGE_X_RSOCKET_TRACING_ZIPKIN_V0 => "message/x.rsocket.tracing.zipkin.v0",
+            MESSAGE_X_RSOCKET_TRACING_ZIPKIN_V0 => "message/x.rsocket.tracing-zipkin.v0",
             MESSAGE_X_RSOCKET_ROUTING_V0 => "message/x.rsocket.routing.v0",
-            MESSAGE_X_RSOCKET_COMPOSITE_METADATA_V0 => "message/x.rsocket.composite.metadata.v0",
+            MESSAGE_X_RSOCKET_COMPOSITE_METADATA_V0 => "message/x.rsocket.composite-metadata.v0",
         }
     }
 }
-- 
2.43.0


From bb090582c871593902a6a6790f654727c271b32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 12/16] fix: reading one byte needs one byte

eat_u8 reported an incomplete frame unless two bytes were left.
---
 binate/src/frame/visit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binate/src/frame/visit.rs b/binate/src/frame/visit.rs
index 0556ba6..6955ac7 100644
--- a/binate/src/frame/visit.rs
+++ b/binate/src/frame/visit.rs
@@ -41,7 +41,7 @@ pub(super) fn eat_version<B: Buf>(buf: &mut B) -> Result<Version> {
 }
 
 pub(super) fn eat_u8<B: Buf>(buf: &mut B) -> Result<u8> {
-    incomplete_if_less_than!(buf, 2);
+    incomplete_if_less_than!(buf, 1);
 
     Ok(buf.get_u8())
 }
-- 
2.43.0


From 3c23faf5afbb2da2b0a0c4835d7e1b3899465d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 13/16] fix: send the metadata length only with the METADATA
 flag

In SETUP, PAYLOAD and the REQUEST_* frames the 24-bit metadata length is
present only if the METADATA flag is set. It was always written and
always expected, so frames without metadata could not be exchanged with
other RSocket implementations: their data was taken for a metadata
length.
---
 binate/src/frame/codec/payload.rs          | 18 +++++++++++-------
 binate/src/frame/codec/request_channel.rs  | 18 +++++++++++-------
 binate/src/frame/codec/request_fnf.rs      | 18 +++++++++++-------
 binate/src/frame/codec/request_response.rs | 18 +++++++++++-------
 binate/src/frame/codec/request_stream.rs   | 18 +++++++++++-------
 binate/src/frame/codec/setup.rs            | 20 +++++++++++++-------
 binate/src/frame/visit.rs                  |  4 ++--
 7 files changed, 70 insertions(+), 44 deletions(-)

diff --git a/binate/src/frame/codec/payload.rs b/binate/src/frame/codec/payload.rs
index 71033d5..c1e6c7d 100644
--- a/binate/src/frame/codec/payload.rs
+++ b/binate/src/frame/codec/payload.rs
@@ -91,11 +91,13 @@ impl Encode for PayloadFrame {
     fn encode(&self, buf: &mut BytesMut) {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::PAYLOAD.bits() | self.flags.bits());
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if self.flags.contains(Flags::METADATA) {
+            let u24 = U24::from_usize(
+                self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
+            );
+            buf.put_u8(u24.0);
+            buf.put_u16(u24.1);
+        }
         self.payload.encode(buf);
     }
 
@@ -104,7 +106,9 @@ impl Encode for PayloadFrame {
         // len(flags): 2
         // len(metadata_len): 3
         // len(payload)
-        9 + self.payload.len()
+        let metadata_len =
+            if self.flags.contains(Flags::METADATA) { 3 } else { 0 };
+        6 + metadata_len + self.payload.len()
     }
 }
 
@@ -116,7 +120,7 @@ impl Decode for PayloadFrame {
         stream_id: u32,
         flags: Flags,
     ) -> Result<Self::Value> {
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags.contains(Flags::METADATA))?;
         Ok(PayloadFrame { stream_id, flags, payload })
     }
 }
diff --git a/binate/src/frame/codec/request_channel.rs b/binate/src/frame/codec/request_channel.rs
index a3942b2..6fccff7 100644
--- a/binate/src/frame/codec/request_channel.rs
+++ b/binate/src/frame/codec/request_channel.rs
@@ -103,11 +103,13 @@ impl Encode for RequestChannelFrame {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::REQUEST_CHANNEL.bits() | self.flags.bits());
         buf.put_u32(self.initial_request_n);
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if self.flags.contains(Flags::METADATA) {
+            let u24 = U24::from_usize(
+                self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
+            );
+            buf.put_u8(u24.0);
+            buf.put_u16(u24.1);
+        }
         self.payload.encode(buf);
     }
 
@@ -117,7 +119,9 @@ impl Encode for RequestChannelFrame {
         // len(metadata_len): 3
         // len(initial_request_n): 4
         // len(payload)
-        13 + self.payload.len()
+        let metadata_len =
+            if self.flags.contains(Flags::METADATA) { 3 } else { 0 };
+        10 + metadata_len + self.payload.len()
     }
 }
 
@@ -130,7 +134,7 @@ impl Decode for RequestChannelFrame {
         flags: Flags,
     ) -> Result<Self::Value> {
         let initial_request_n = eat_u31(buf)?;
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags.contains(Flags::METADATA))?;
         Ok(RequestChannelFrame {
             stream_id,
             flags,
diff --git a/binate/src/frame/codec/request_fnf.rs b/binate/src/frame/codec/request_fnf.rs
index fedc700..46cbecc 100644
--- a/binate/src/frame/codec/request_fnf.rs
+++ b/binate/src/frame/codec/request_fnf.rs
@@ -75,11 +75,13 @@ impl Encode for RequestFnfFrame {
     fn encode(&self, buf: &mut BytesMut) {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::REQUEST_FNF.bits() | self.flags.bits());
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if self.flags.contains(Flags::METADATA) {
+            let u24 = U24::from_usize(
+                self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
+            );
+            buf.put_u8(u24.0);
+            buf.put_u16(u24.1);
+        }
         self.payload.encode(buf);
     }
 
@@ -88,7 +90,9 @@ impl Encode for RequestFnfFrame {
         // len(flags): 2
         // len(metadata_len): 3
         // len(payload)
-        9 + self.payload.len()
+        let metadata_len =
+            if self.flags.contains(Flags::METADATA) { 3 } else { 0 };
+        6 + metadata_len + self.payload.len()
     }
 }
 
@@ -100,7 +104,7 @@ impl Decode for RequestFnfFrame {
         stream_id: u32,
         flags: Flags,
     ) -> Result<Self::Value> {
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags.contains(Flags::METADATA))?;
         Ok(RequestFnfFrame { stream_id, flags, payload })
     }
 }
diff --git a/binate/src/frame/codec/request_response.rs b/binate/src/frame/codec/request_response.rs
index aaeabb1..60eb018 100644
--- a/binate/src/frame/codec/request_response.rs
+++ b/binate/src/frame/codec/request_response.rs
@@ -75,11 +75,13 @@ impl Encode for RequestResponseFrame {
     fn encode(&self, buf: &mut BytesMut) {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::REQUEST_RESPONSE.bits() | self.flags.bits());
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if self.flags.contains(Flags::METADATA) {
+            let u24 = U24::from_usize(
+                self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
+            );
+            buf.put_u8(u24.0);
+            buf.put_u16(u24.1);
+        }
         self.payload.encode(buf);
     }
 
@@ -88,7 +90,9 @@ impl Encode for RequestResponseFrame {
         // len(flags): 2
         // len(metadata_len): 3
         // len(payload)
-        9 + self.payload.len()
+        let metadata_len =
+            if self.flags.contains(Flags::METADATA) { 3 } else { 0 };
+        6 + metadata_len + self.payload.len()
     }
 }
 
@@ -100,7 +104,7 @@ impl Decode for RequestResponseFrame {
         stream_id: u32,
         flags: Flags,
     ) -> Result<Self::Value> {
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags.contains(Flags::METADATA))?;
         Ok(RequestResponseFrame { stream_id, flags, payload })
     }
 }
diff --git a/binate/src/frame/codec/request_stream.rs b/binate/src/frame/codec/request_stream.rs
index ab09fb4..64e8b8d 100644
--- a/binate/src/frame/codec/request_stream.rs
+++ b/binate/src/frame/codec/request_stream.rs
@@ -92,11 +92,13 @@ impl Encode for RequestStreamFrame {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::REQUEST_STREAM.bits() | self.flags.bits());
         buf.put_u32(self.initial_request_n);
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if self.flags.contains(Flags::METADATA) {
+            let u24 = U24::from_usize(
+                self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
+            );
+            buf.put_u8(u24.0);
+            buf.put_u16(u24.1);
+        }
         self.payload.encode(buf);
     }
 
@@ -106,7 +108,9 @@ impl Encode for RequestStreamFrame {
         // len(metadata_len): 3
         // len(initial_request_n): 4
         // len(payload)
-        13 + self.payload.len()
+        let metadata_len =
+            if self.flags.contains(Flags::METADATA) { 3 } else { 0 };
+        10 + metadata_len + self.payload.len()
     }
 }
 
@@ -119,7 +123,7 @@ impl Decode for RequestStreamFrame {
         flags: Flags,
     ) -> Result<Self::Value> {
         let initial_request_n = eat_u31(buf)?;
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags.contains(Flags::METADATA))?;
         Ok(RequestStreamFrame { stream_id, flags, initial_request_n, payload })
     }
 }
diff --git a/binate/src/frame/codec/setup.rs b/binate/src/frame/codec/setup.rs
index 87b1621..fd4ba67 100644
--- a/binate/src/frame/codec/setup.rs
+++ b/binate/src/frame/codec/setup.rs
@@ -153,11 +153,13 @@ impl Encode for SetupFrame {
         buf.put_slice(&self.metadata_mimetype);
         buf.put_u8(self.data_mimetype.len() as u8);
         buf.put_slice(&self.data_mimetype);
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if self.flags.contains(Flags::METADATA) {
+            let u24 = U24::from_usize(
+                self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
+            );
+            buf.put_u8(u24.0);
+            buf.put_u16(u24.1);
+        }
         self.payload.encode(buf);
     }
 
@@ -182,8 +184,12 @@ impl Encode for SetupFrame {
         len += 1 + self.metadata_mimetype.len() + 1 + self.data_mimetype.len();
 
         // len(metadata_length): 3
+        if self.flags.contains(Flags::METADATA) {
+            len += 3;
+        }
+
         // len(payload)
-        len += 3 + self.payload.len();
+        len += self.payload.len();
 
         len
     }
@@ -206,7 +212,7 @@ impl Decode for SetupFrame {
             eat_bytes(buf, metadata_mimetype_len as usize)?;
         let data_mimetype_len = eat_u8(buf)?;
         let data_mimetype = eat_bytes(buf, data_mimetype_len as usize)?;
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags.contains(Flags::METADATA))?;
         Ok(SetupFrame {
             flags,
             version,
diff --git a/binate/src/frame/visit.rs b/binate/src/frame/visit.rs
index 6955ac7..9d70e42 100644
--- a/binate/src/frame/visit.rs
+++ b/binate/src/frame/visit.rs
@@ -84,10 +84,10 @@ pub(super) fn eat_bytes<B: Buf>(buf: &mut B, len: usize) -> Result<Bytes> {
 
 pub(super) fn eat_payload<B: Buf>(
     buf: &mut B,
-    can_have_data: bool,
+    has_metadata: bool,
 ) -> Result<Payload> {
     let metadata_len =
-        if can_have_data { eat_u24(buf)?.into_usize() } else { 0 };
+        if has_metadata { eat_u24(buf)?.into_usize() } else { 0 };
     let metadata = if metadata_len > 0 {
         Some(eat_bytes(buf, metadata_len)?)
     } else {
-- 
2.43.0


From 5b16a413531a9264535bf60d73ce1104f25de6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:52 +0000
Subject: [PATCH 14/16] verif: entry points for the verification harnesses,
 guarded by cfg(binate_verif)

---
 binate/src/connection/mod.rs       |  8 +++
 binate/src/connection/socket.rs    | 29 ++++++++++
 binate/src/connection/stream_id.rs | 14 +++++
 binate/src/lib.rs                  |  8 +++
 binate/src/verif.rs                | 90 ++++++++++++++++++++++++++++++
 5 files changed, 149 insertions(+)
 create mode 100644 binate/src/verif.rs

diff --git a/binate/src/connection/mod.rs b/binate/src/connection/mod.rs
index d8f323f..761a618 100644
--- a/binate/src/connection/mod.rs
+++ b/binate/src/connection/mod.rs
@@ -6,6 +6,14 @@ mod counter;
 mod socket;
 mod stream_id;
 
+#[cfg(any(binate_verif = "list", binate_verif = "machine"))]
+pub(crate) mod verif {
+    #[cfg(binate_verif = "list")]
+    pub(crate) use super::buf::BufList;
+    #[cfg(binate_verif = "machine")]
+    pub use super::socket::verif::machine;
+}
+
 pub use self::conn::{ConnectionStatus, DuplexConnection};
 pub use self::counter::RequestCounter;
 pub use self::stream_id::StreamIdProvider;
diff --git a/binate/src/connection/socket.rs b/binate/src/connection/socket.rs
index 06f252c..7e00489 100644
--- a/binate/src/connection/socket.rs
+++ b/binate/src/connection/socket.rs
@@ -173,3 +173,32 @@ impl RSocket for RSocketMachine {
         self.connection.send(frame)
     }
 }
+
+#[cfg(binate_verif = "machine")]
+pub(crate) mod verif {
+    #![allow(missing_docs)]
+    use super::*;
+
+    /// An `RSocketMachine` that runs no background tasks.
+    pub fn machine(
+        connection: Arc<dyn DuplexConnection>,
+        stream_id: StreamIdProvider,
+        chunk_payload: Option<usize>,
+        now: Instant,
+    ) -> impl RSocket {
+        RSocketMachine {
+            role: Role::Client,
+            stream_id: Arc::new(stream_id),
+            connection,
+            request_handler: RequestHanlder(Arc::new(RwLock::new(Box::new(
+                crate::rsocket::DummyRSocket,
+            )))),
+            receivers: Arc::new(DashMap::new()),
+            subscriptions: Arc::new(DashMap::new()),
+            request_n: Arc::new(RequestCounter::new(0)),
+            chunk_payload,
+            keepalive_timeout: Duration::from_secs(1),
+            keepalive_last_received: now,
+        }
+    }
+}
diff --git a/binate/src/connection/stream_id.rs b/binate/src/connection/stream_id.rs
index 39ee850..2285b31 100644
--- a/binate/src/connection/stream_id.rs
+++ b/binate/src/connection/stream_id.rs
@@ -47,6 +47,20 @@ impl StreamIdProvider {
     }
 }
 
+#[cfg(binate_verif = "ids")]
+#[allow(missing_docs)]
+impl StreamIdProvider {
+    /// A provider in an arbitrary state.
+    pub fn verif_new(init: i32) -> StreamIdProvider {
+        StreamIdProvider(AtomicI32::new(init))
+    }
+
+    /// The state of this provider.
+    pub fn verif_state(&self) -> i32 {
+        self.0.load(Ordering::SeqCst)
+    }
+}
+
 #[cfg(all(test, not(loom)))]
 mod tests {
     use super::*;
diff --git a/binate/src/lib.rs b/binate/src/lib.rs
index daab4d8..d35baf1 100644
--- a/binate/src/lib.rs
+++ b/binate/src/lib.rs
@@ -37,6 +37,14 @@ cfg_not! {
     mod frame;
 }
 
+#[cfg(any(
+    binate_verif = "list",
+    binate_verif = "errors",
+    binate_verif = "machine"
+))]
+#[doc(hidden)]
+pub mod verif;
+
 pub use self::error::{Code, Error, Result};
 pub use self::payload::{Data, Metadata, Payload, PayloadBuilder};
 pub use self::rsocket::{Flux, Mono, RSocket};
diff --git a/binate/src/verif.rs b/binate/src/verif.rs
new file mode 100644
index 0000000..6e4e533
--- /dev/null
+++ b/binate/src/verif.rs
@@ -0,0 +1,90 @@
+//! Entry points for the verification harnesses to items that are otherwise private.
+//!
+//! Each one is compiled only with `--cfg binate_verif="<name>"`. Everything here delegates;
+//! nothing in the crate depends on it.
+#![allow(missing_docs, missing_debug_implementations)]
+
+#[cfg(binate_verif = "machine")]
+pub use crate::connection::verif::machine;
+
+#[cfg(binate_verif = "list")]
+pub use self::list::List;
+
+#[cfg(binate_verif = "errors")]
+pub use self::errors::protocol_error;
+
+#[cfg(binate_verif = "list")]
+mod list {
+    use crate::connection::verif::BufList;
+    use crate::frame::DecodeError;
+    use crate::payload::Payload;
+    use bytes::{Buf, Bytes};
+    use std::convert::TryInto;
+    use std::io::IoSlice;
+
+    /// The buffer list used for frame reassembly.
+    pub struct List<T>(BufList<T>);
+
+    impl<T: Buf> List<T> {
+        #[allow(clippy::new_without_default)]
+        pub fn new() -> Self {
+            List(BufList::new())
+        }
+
+        pub fn push(&mut self, buf: T) {
+            self.0.push(buf)
+        }
+
+        pub fn count(&self) -> usize {
+            self.0.len()
+        }
+
+        pub fn into_payload(self) -> Result<Payload, DecodeError> {
+            self.0.try_into()
+        }
+    }
+
+    impl<T: Buf> Buf for List<T> {
+        fn remaining(&self) -> usize {
+            self.0.remaining()
+        }
+
+        fn chunk(&self) -> &[u8] {
+            self.0.chunk()
+        }
+
+        fn chunks_vectored<'t>(&'t self, dst: &mut [IoSlice<'t>]) -> usize {
+            self.0.chunks_vectored(dst)
+        }
+
+        fn advance(&mut self, cnt: usize) {
+            self.0.advance(cnt)
+        }
+
+        fn copy_to_bytes(&mut self, len: usize) -> Bytes {
+            self.0.copy_to_bytes(len)
+        }
+    }
+}
+
+#[cfg(binate_verif = "errors")]
+mod errors {
+    use crate::error::{Code, Error, Kind};
+
+    /// The error for a protocol error code.
+    pub fn protocol_error(code: Code, source: Option<String>) -> Error {
+        let kind = match code {
+            Code::InvalidSetup => Kind::InvalidSetup,
+            Code::UnsupportedSetup => Kind::UnsupportedSetup,
+            Code::RejectedSetup => Kind::RejectedSetup,
+            Code::RejectedResume => Kind::RejectedResume,
+            Code::ConnectionError => Kind::ConnectionError,
+            Code::ConnectionClose => Kind::ConnectionClose,
+            Code::ApplicationError => Kind::ApplicationError,
+            Code::Rejected => Kind::Rejected,
+            Code::Canceled => Kind::Canceled,
+            Code::Invalid => Kind::Invalid,
+        };
+        Error::new(kind, source)
+    }
+}
-- 
2.43.0


From d0050dec6ded50a5baa3c83088ae6d2dbd2df499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 15/16] verif: expose the frame header readers and the chunk
 iterator's state, guarded by cfg(binate_verif)

---
 binate/src/frame/mod.rs | 13 +++++++++++++
 binate/src/lib.rs       |  2 ++
 binate/src/payload.rs   | 19 +++++++++++++++++++
 binate/src/verif.rs     |  6 ++++++
 4 files changed, 40 insertions(+)

diff --git a/binate/src/frame/mod.rs b/binate/src/frame/mod.rs
index 73cb193..45af36b 100644
--- a/binate/src/frame/mod.rs
+++ b/binate/src/frame/mod.rs
@@ -179,6 +179,19 @@ impl Frame {
     }
 }
 
+#[cfg(binate_verif = "header")]
+pub(crate) mod verif {
+    use super::*;
+
+    pub fn eat_stream_id<B: Buf>(buf: &mut B) -> Result<u32> {
+        super::visit::eat_stream_id(buf)
+    }
+
+    pub fn eat_flags<B: Buf>(buf: &mut B) -> Result<(FrameType, Flags)> {
+        super::visit::eat_flags(buf)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/binate/src/lib.rs b/binate/src/lib.rs
index d35baf1..9064d4f 100644
--- a/binate/src/lib.rs
+++ b/binate/src/lib.rs
@@ -38,6 +38,8 @@ cfg_not! {
 }
 
 #[cfg(any(
+    binate_verif = "header",
+    binate_verif = "chunks",
     binate_verif = "list",
     binate_verif = "errors",
     binate_verif = "machine"
diff --git a/binate/src/payload.rs b/binate/src/payload.rs
index a41a5a9..a660114 100644
--- a/binate/src/payload.rs
+++ b/binate/src/payload.rs
@@ -246,6 +246,25 @@ impl Iterator for PayloadChunks {
 
 impl iter::FusedIterator for PayloadChunks {}
 
+#[cfg(binate_verif = "chunks")]
+#[allow(missing_docs)]
+impl PayloadChunks {
+    /// An iterator in an arbitrary state.
+    pub fn verif_new(
+        chunk_size: usize,
+        metadata: Option<Bytes>,
+        data: Option<Bytes>,
+    ) -> PayloadChunks {
+        PayloadChunks { chunk_size, metadata, data }
+    }
+
+    /// The whole state of this iterator.
+    pub fn verif_state(&self) -> (usize, Option<&Bytes>, Option<&Bytes>) {
+        let PayloadChunks { chunk_size, metadata, data } = self;
+        (*chunk_size, metadata.as_ref(), data.as_ref())
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/binate/src/verif.rs b/binate/src/verif.rs
index 6e4e533..d109804 100644
--- a/binate/src/verif.rs
+++ b/binate/src/verif.rs
@@ -13,6 +13,12 @@ pub use self::list::List;
 #[cfg(binate_verif = "errors")]
 pub use self::errors::protocol_error;
 
+#[cfg(binate_verif = "header")]
+pub use crate::frame::verif::{eat_flags, eat_stream_id};
+
+#[cfg(binate_verif = "chunks")]
+pub use crate::payload::PayloadChunks;
+
 #[cfg(binate_verif = "list")]
 mod list {
     use crate::connection::verif::BufList;
-- 
2.43.0


From 5ad9e2600e8cd680970549a4002ec7c8b6d7fc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 16/16] fix: put the frame flags where the protocol puts them

The ten flag bits start with IGNORE (0x200) and METADATA (0x100); all of
the constants were one bit too low, so that frames exchanged with other
RSocket implementations carried the wrong flags.
---
 binate/src/frame/flags.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/binate/src/frame/flags.rs b/binate/src/frame/flags.rs
index eae215a..b3a7e98 100644
--- a/binate/src/frame/flags.rs
+++ b/binate/src/frame/flags.rs
@@ -155,21 +155,21 @@ bitflags! {
     /// Frame header flags.
     pub struct Flags: u16 {
         /// The frame can be ignored.
-        const IGNORE           = 0b01_0000_0000;
+        const IGNORE           = 0b10_0000_0000;
         /// Metadata present.
-        const METADATA         = 0b00_1000_0000;
+        const METADATA         = 0b01_0000_0000;
         /// More fragments follow this fragment.
-        const FOLLOWS          = 0b00_0100_0000;
+        const FOLLOWS          = 0b00_1000_0000;
         /// Client requests resume capability if possible.
-        const RESUME           = 0b00_0100_0000;
+        const RESUME           = 0b00_1000_0000;
         /// Respond with KEEPALIVE.
-        const RESPOND          = 0b00_0100_0000;
+        const RESPOND          = 0b00_1000_0000;
         /// Bit to indicate stream completion.
-        const COMPLETE         = 0b00_0010_0000;
+        const COMPLETE         = 0b00_0100_0000;
         /// Will honor LEASE.
-        const LEASE            = 0b00_0010_0000;
+        const LEASE            = 0b00_0100_0000;
         /// Bit to indicate Next (Payload Data and/or Metadata present).
-        const NEXT             = 0b00_0001_0000;
+        const NEXT             = 0b00_0010_0000;
     }
 }
 
-- 
2.43.0

