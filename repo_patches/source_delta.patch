From 931a20ed123691d0b931da643a0b120a2365f3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:45 +0000
Subject: [PATCH 1/9] fix: report Eof for a name pointer cut off after its
 first byte

A message ending in the first byte of a compression pointer made
Reader::read_domain_name panic instead of returning Error::Eof.
---
 src/packet/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet/decoder.rs b/src/packet/decoder.rs
index ee710bd..d00b1a2 100644
--- a/src/packet/decoder.rs
+++ b/src/packet/decoder.rs
@@ -110,7 +110,7 @@ impl<'a> Reader<'a> {
             match length & 0b1100_0000 {
                 0b1100_0000 => {
                     // 16-bit pointer to somewhere else in the UDP message.
-                    let ptr = usize::from(copy.read_u16().unwrap() & 0b0011_1111_1111_1111);
+                    let ptr = usize::from(copy.read_u16()? & 0b0011_1111_1111_1111);
                     if ptr >= min_pos {
                         // We require pointers to point to an earlier part of the message, to
                         // prevent loops. The specification is unclear about what exactly is
-- 
2.43.0


From 0fbd9cc69a44035f85ea259eec4d5622dc46a889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:09 +0000
Subject: [PATCH 2/9] fix: resume decoding right after the first pointer of a
 name

When the labels a pointer leads to extend past the pointer itself,
read_domain_name continued behind those labels and skipped or misread the
rest of the message. The name ends with its first pointer.
---
 src/packet/decoder.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/packet/decoder.rs b/src/packet/decoder.rs
index d00b1a2..a4c314f 100644
--- a/src/packet/decoder.rs
+++ b/src/packet/decoder.rs
@@ -1,7 +1,7 @@
 //! DNS packet decoder.
 
 use core::mem;
-use std::{any::TypeId, cell::Cell, cmp, fmt, marker::PhantomData, mem::size_of};
+use std::{any::TypeId, cell::Cell, fmt, marker::PhantomData, mem::size_of};
 
 use bytemuck::AnyBitPattern;
 
@@ -105,6 +105,8 @@ impl<'a> Reader<'a> {
         let mut domain_name = DomainName::ROOT;
         let mut min_pos = self.pos.get();
         let mut copy = self.clone();
+        // Position following the name, known as soon as the first pointer has been read.
+        let mut end = None;
         loop {
             let length = copy.peek_u8()?;
             match length & 0b1100_0000 {
@@ -117,7 +119,7 @@ impl<'a> Reader<'a> {
                         // allowed.
                         return Err(Error::PointerLoop);
                     } else {
-                        self.pos.set(cmp::max(self.pos.get(), copy.pos.get()));
+                        end.get_or_insert(copy.pos.get());
                         min_pos = ptr;
                         copy.pos = ptr.into();
                     }
@@ -137,7 +139,7 @@ impl<'a> Reader<'a> {
             }
         }
 
-        self.pos.set(cmp::max(self.pos.get(), copy.pos.get()));
+        self.pos.set(end.unwrap_or(copy.pos.get()));
         Ok(domain_name)
     }
 
-- 
2.43.0


From f707005916ace906c6e5502fdabe03510fb39aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:08 +0000
Subject: [PATCH 3/9] fix: keep all 15 bits of a question's class

---
 src/packet/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet/decoder.rs b/src/packet/decoder.rs
index a4c314f..ce44131 100644
--- a/src/packet/decoder.rs
+++ b/src/packet/decoder.rs
@@ -148,7 +148,7 @@ impl<'a> Reader<'a> {
         let qtype = QType(self.read_u16()?);
         let qclass = self.read_u16()?;
         let prefer_unicast = qclass & 0x8000 != 0;
-        let qclass = QClass(qclass & 0xff);
+        let qclass = QClass(qclass & !0x8000);
         Ok(Question {
             qname,
             qtype,
-- 
2.43.0


From eeadec1ba24426d4208ac2b822a223d4fd848229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:54 +0000
Subject: [PATCH 4/9] fix: refuse encoder buffers without room for a header in
 MessageEncoder::new

---
 src/packet/encoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/packet/encoder.rs b/src/packet/encoder.rs
index d6a7e6d..09e6856 100644
--- a/src/packet/encoder.rs
+++ b/src/packet/encoder.rs
@@ -144,6 +144,10 @@ impl<'a> MessageEncoder<'a, section::Question> {
     /// `buf` must be large enough to fit at least the message header (`size_of::<Header>()`),
     /// otherwise this function will panic.
     pub fn new(buf: &'a mut [u8]) -> Self {
+        assert!(
+            buf.len() >= size_of::<Header>(),
+            "buffer too small for a message header"
+        );
         let mut w = Writer::new(buf);
         w.write_obj(Header::zeroed());
         Self {
-- 
2.43.0


From 261dd3f39292d859f51772cf5bcbe2aa770d565d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:30 +0000
Subject: [PATCH 5/9] fix: ignore TXT strings with an empty key

RFC 6763 requires strings with a missing key to be silently ignored. An
instance without metadata is advertised with one empty string, which was
discovered as a flag with an empty name.
---
 src/service.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/service.rs b/src/service.rs
index cb0a898..1510a5a 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -277,6 +277,11 @@ impl TxtRecords {
         for entry in txt.entries() {
             let mut split = entry.splitn(2, |&b| b == b'=');
             let key = split.next().unwrap();
+            if key.is_empty() {
+                // RFC 6763, 6.4: strings with a missing key must be silently ignored. This includes
+                // the single empty string of a TXT record that carries no information.
+                continue;
+            }
             let key = match String::from_utf8(key.to_vec()) {
                 Ok(key) => key,
                 Err(e) => {
-- 
2.43.0


From 0fef0de339e7fca3758157366a8fa5142d5f7a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 6/9] fix: recognize multicast resolvers by their server
 address

The flag was derived from the unspecified bind address and thus never set,
so add_server did not panic on a multicast resolver as documented.
---
 src/resolver.rs             | 2 +-
 uwuhi-async/src/resolver.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index 6a98bf1..c7b2669 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -42,7 +42,7 @@ impl SyncResolver {
             servers: vec![sock],
             sock: UdpSocket::bind(bind_addr)?,
             ip_buf: Vec::new(),
-            is_multicast: bind_addr.ip().is_multicast(),
+            is_multicast: sock.ip().is_multicast(),
         };
         this.set_timeout(Self::DEFAULT_TIMEOUT)?;
         Ok(this)
diff --git a/uwuhi-async/src/resolver.rs b/uwuhi-async/src/resolver.rs
index c1221eb..f9301a4 100644
--- a/uwuhi-async/src/resolver.rs
+++ b/uwuhi-async/src/resolver.rs
@@ -33,7 +33,7 @@ impl AsyncResolver {
             servers: vec![server],
             sock: Async::<UdpSocket>::bind(bind_addr)?,
             ip_buf: Vec::new(),
-            is_multicast: bind_addr.ip().is_multicast(),
+            is_multicast: server.ip().is_multicast(),
             timeout: Self::DEFAULT_TIMEOUT,
         })
     }
-- 
2.43.0


From cc1429ad4ddaf3b806144a368f7a2ddf3cf843c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 7/9] fix: drop addresses of responses that fail to decode

Addresses decoded before the error stayed in the buffer and were returned
together with those of a later response.
---
 src/resolver.rs             | 3 +++
 uwuhi-async/src/resolver.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/resolver.rs b/src/resolver.rs
index c7b2669..a31cff0 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -141,6 +141,9 @@ impl SyncResolver {
                     }
                 }
                 Err(e) => {
+                    // Drop the addresses that were found before the error, so that they don't end
+                    // up in the result together with those of a later response.
+                    self.ip_buf.clear();
                     log::warn!("failed to decode response from {}: {:?}", addr, e);
                 }
             }
diff --git a/uwuhi-async/src/resolver.rs b/uwuhi-async/src/resolver.rs
index f9301a4..256aa6a 100644
--- a/uwuhi-async/src/resolver.rs
+++ b/uwuhi-async/src/resolver.rs
@@ -138,6 +138,9 @@ impl AsyncResolver {
                     }
                 }
                 Err(e) => {
+                    // Drop the addresses that were found before the error, so that they don't end
+                    // up in the result together with those of a later response.
+                    self.ip_buf.clear();
                     log::warn!("failed to decode response from {}: {:?}", addr, e);
                 }
             }
-- 
2.43.0


From 70a9e14461f908eff4ddd58055ae53304422f1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:44 +0000
Subject: [PATCH 8/9] fix: ignore unicast responses whose ID does not match the
 query

The documentation of set_timeout promises that packets that don't match the
query are ignored, but any response was accepted. Multicast responders are
free to use another ID.
---
 src/resolver.rs             | 17 ++++++++++++++++-
 uwuhi-async/src/resolver.rs |  5 +++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index a31cff0..2cc6b7e 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -20,6 +20,9 @@ use crate::{
 
 use crate::{DNS_BUFFER_SIZE, MDNS_BUFFER_SIZE};
 
+/// ID of the queries written by [`encode_query`].
+pub const QUERY_ID: u16 = 12345;
+
 /// A simple, synchronous, non-recursive (m)DNS stub resolver.
 pub struct SyncResolver {
     servers: Vec<SocketAddr>,
@@ -133,6 +136,11 @@ impl SyncResolver {
             let recv = &recv_buf[..b];
             log::trace!("recv from {}: {}", addr, Hex(recv));
 
+            if !self.is_multicast && !has_query_id(recv) {
+                log::debug!("ignoring packet from {} that does not match the query", addr);
+                continue;
+            }
+
             match decode_answer(recv, &mut self.ip_buf) {
                 Ok(()) => {
                     if !self.ip_buf.is_empty() {
@@ -157,7 +165,7 @@ impl SyncResolver {
 pub fn encode_query<'a>(buf: &'a mut [u8], name: &DomainName) -> &'a [u8] {
     let mut header = Header::default();
     header.set_recursion_desired(true);
-    header.set_id(12345);
+    header.set_id(QUERY_ID);
     let mut enc = MessageEncoder::new(buf);
     enc.set_header(header);
     enc.question(Question::new(&name).ty(QType::A));
@@ -166,6 +174,13 @@ pub fn encode_query<'a>(buf: &'a mut [u8], name: &DomainName) -> &'a [u8] {
     &buf[..bytes]
 }
 
+/// Returns whether the ID of the message `msg` is that of the queries written by [`encode_query`].
+///
+/// Responses to a unicast query carry its ID.
+pub fn has_query_id(msg: &[u8]) -> bool {
+    MessageDecoder::new(msg).map_or(false, |dec| dec.header().id() == QUERY_ID)
+}
+
 /// Decodes an answer packet from a DNS resolver, adding any contained IP addresses to `ip_buf`.
 pub fn decode_answer(msg: &[u8], ip_buf: &mut Vec<IpAddr>) -> Result<(), Error> {
     let dec = MessageDecoder::new(msg)?;
diff --git a/uwuhi-async/src/resolver.rs b/uwuhi-async/src/resolver.rs
index 256aa6a..81dc4ad 100644
--- a/uwuhi-async/src/resolver.rs
+++ b/uwuhi-async/src/resolver.rs
@@ -130,6 +130,11 @@ impl AsyncResolver {
             let recv = &recv_buf[..b];
             log::trace!("recv from {}: {:x?}", addr, recv);
 
+            if !self.is_multicast && !has_query_id(recv) {
+                log::debug!("ignoring packet from {} that does not match the query", addr);
+                continue;
+            }
+
             match decode_answer(recv, &mut self.ip_buf) {
                 Ok(()) => {
                     if !self.ip_buf.is_empty() {
-- 
2.43.0


From 201afa07259e9a8734172c3f3b521aba6ad4df6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:05 +0000
Subject: [PATCH 9/9] fix: refuse TXT entries over 255 bytes when they are
 registered

An advertiser with such metadata panicked on the first query that asked for it.
---
 src/packet/records.rs      | 7 ++++++-
 src/service/advertising.rs | 5 +++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/packet/records.rs b/src/packet/records.rs
index ee15107..3c3633f 100644
--- a/src/packet/records.rs
+++ b/src/packet/records.rs
@@ -448,7 +448,8 @@ impl<'a> TXT<'a> {
     ///
     /// # Panics
     ///
-    /// This method will panic if `entries` is empty.
+    /// This method will panic if `entries` is empty, or if any entry is longer than 255 bytes (which
+    /// no *character string* can hold).
     pub fn new<I, T>(entries: I) -> Self
     where
         I: IntoIterator<Item = T>,
@@ -458,6 +459,10 @@ impl<'a> TXT<'a> {
             entries: entries.into_iter().map(|t| t.into()).collect(),
         };
         assert!(!this.entries.is_empty());
+        assert!(
+            this.entries.iter().all(|entry| entry.len() <= 255),
+            "TXT entries must not be longer than 255 bytes",
+        );
         this
     }
 
diff --git a/src/service/advertising.rs b/src/service/advertising.rs
index 2d97c53..1e83746 100644
--- a/src/service/advertising.rs
+++ b/src/service/advertising.rs
@@ -107,6 +107,11 @@ impl Advertiser {
         self.db.entries.push(Entry::new(host_and_domain, record));
     }
 
+    /// Adds a service instance to advertise.
+    ///
+    /// # Panics
+    ///
+    /// Panics if the metadata in `details` has an entry of more than 255 bytes.
     pub fn add_instance(&mut self, instance: ServiceInstance, details: InstanceDetails) {
         // Add SRV and TXT records for `$instance.$service.$transport.$domain`.
         // Add PTR record for `$service.$transport.$domain`.
-- 
2.43.0

