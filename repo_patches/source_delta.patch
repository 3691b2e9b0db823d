From 6cf6c5553b9f945e64cc8fa31e17e8db43f1b81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:16 +0000
Subject: [PATCH 01/28] fix: report malformed traceparent headers as 400
 instead of panicking

A traceparent value with fewer than four parts indexed out of bounds, and a
malformed version was reported as a 500.
---
 src/trace/trace_context.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/trace/trace_context.rs b/src/trace/trace_context.rs
index 3bc062f..13c71bd 100644
--- a/src/trace/trace_context.rs
+++ b/src/trace/trace_context.rs
@@ -106,14 +106,15 @@ impl TraceContext {
             Some(header) => header,
             None => return Ok(None),
         };
-        let parts: Vec<&str> = traceparent.as_str().split('-').collect();
+        let mut parts = traceparent.as_str().split('-');
+        let mut next_part = || parts.next().status(400);
 
         Ok(Some(Self {
             id: fastrand::u64(..),
-            version: u8::from_str_radix(parts[0], 16)?,
-            trace_id: u128::from_str_radix(parts[1], 16).status(400)?,
-            parent_id: Some(u64::from_str_radix(parts[2], 16).status(400)?),
-            flags: u8::from_str_radix(parts[3], 16).status(400)?,
+            version: u8::from_str_radix(next_part()?, 16).status(400)?,
+            trace_id: u128::from_str_radix(next_part()?, 16).status(400)?,
+            parent_id: Some(u64::from_str_radix(next_part()?, 16).status(400)?),
+            flags: u8::from_str_radix(next_part()?, 16).status(400)?,
         }))
     }
 
-- 
2.43.0


From 63847be7af740533e1bee04165ebc6da5faa5da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:16 +0000
Subject: [PATCH 02/28] fix: use the last traceparent field line like the other
 single-valued headers

---
 src/trace/trace_context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trace/trace_context.rs b/src/trace/trace_context.rs
index 13c71bd..34ea563 100644
--- a/src/trace/trace_context.rs
+++ b/src/trace/trace_context.rs
@@ -106,7 +106,7 @@ impl TraceContext {
             Some(header) => header,
             None => return Ok(None),
         };
-        let mut parts = traceparent.as_str().split('-');
+        let mut parts = traceparent.last().as_str().split('-');
         let mut next_part = || parts.next().status(400);
 
         Ok(Some(Self {
-- 
2.43.0


From ec8ce1760fa7d68bdf2146df94f011b42cc01c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 03/28] fix: parse Forwarded values that end after a comma or
 hold non-ASCII text without panicking

match_ignore_case sliced the remaining input by the length of "for=" without
checking that it is that long, or that the index is a character boundary.
---
 src/proxies/forwarded.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/proxies/forwarded.rs b/src/proxies/forwarded.rs
index 30e491b..2bbfc11 100644
--- a/src/proxies/forwarded.rs
+++ b/src/proxies/forwarded.rs
@@ -420,20 +420,17 @@ fn format_value(input: &str) -> Cow<'_, str> {
 }
 
 fn match_ignore_case<'a>(start: &'static str, input: &'a str) -> (bool, &'a str) {
-    let len = start.len();
-    if input[..len].eq_ignore_ascii_case(start) {
-        (true, &input[len..])
+    if starts_with_ignore_case(start, input) {
+        (true, &input[start.len()..])
     } else {
         (false, input)
     }
 }
 
 fn starts_with_ignore_case(start: &'static str, input: &str) -> bool {
-    if start.len() <= input.len() {
-        let len = start.len();
-        input[..len].eq_ignore_ascii_case(start)
-    } else {
-        false
+    match input.get(..start.len()) {
+        Some(prefix) => prefix.eq_ignore_ascii_case(start),
+        None => false,
     }
 }
 
-- 
2.43.0


From f37051bf47e8dfb709cc0be541cbb838587e58b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 04/28] fix: compare whole characters in parse_quoted_string

Characters were truncated to their low byte, so that e.g. U+0122 was taken for
a closing quote and the text was then sliced inside that character (panic).
---
 src/parse_utils.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index a2dc235..ca1b5c3 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -44,7 +44,7 @@ fn tchar(c: char) -> bool {
 
 /// https://tools.ietf.org/html/rfc7230#section-3.2.6
 fn vchar(c: char) -> bool {
-    matches!(c as u8, b'\t' | 32..=126 | 128..=255)
+    matches!(c, '\t' | ' '..='~' | '\u{80}'..=char::MAX)
 }
 
 /// https://tools.ietf.org/html/rfc7230#section-3.2.6
@@ -65,20 +65,20 @@ pub(crate) fn parse_quoted_string(input: &str) -> (Option<Cow<'_, str>>, &str) {
             }
         // otherwise, we skip over this character while parsing
         } else {
-            match c as u8 {
+            match c {
                 // we have reached a quoted-pair
-                b'\\' => {
+                '\\' => {
                     backslashes.push(i - 1);
                 }
 
                 // end of the string, DQUOTE
-                b'"' => {
+                '"' => {
                     end_of_string = Some(i + 1);
                     break;
                 }
 
                 // qdtext
-                b'\t' | b' ' | 15 | 35..=91 | 93..=126 | 128..=255 => {}
+                '\t' | ' ' | '\u{f}' | '#'..='[' | ']'..='~' | '\u{80}'..=char::MAX => {}
 
                 // unexpected character, bail
                 _ => return (None, input),
-- 
2.43.0


From f375b1b2922b9a86a7a30c14d9c72dc8c53468f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:31 +0000
Subject: [PATCH 05/28] fix: report unknown content and transfer codings as 400
 instead of panicking

---
 src/content/content_encoding.rs   | 3 ++-
 src/transfer/transfer_encoding.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/content/content_encoding.rs b/src/content/content_encoding.rs
index bbab123..f58a936 100644
--- a/src/content/content_encoding.rs
+++ b/src/content/content_encoding.rs
@@ -4,6 +4,7 @@ use crate::headers::{HeaderName, HeaderValue, Headers, CONTENT_ENCODING};
 use crate::{
     content::{Encoding, EncodingProposal},
     headers::Header,
+    Status,
 };
 
 use std::fmt::{self, Debug};
@@ -57,7 +58,7 @@ impl ContentEncoding {
             }
         }
 
-        let inner = inner.expect("Headers instance with no entries found");
+        let inner = inner.status(400)?;
         Ok(Some(Self { inner }))
     }
 
diff --git a/src/transfer/transfer_encoding.rs b/src/transfer/transfer_encoding.rs
index 7fede4a..df99f7c 100644
--- a/src/transfer/transfer_encoding.rs
+++ b/src/transfer/transfer_encoding.rs
@@ -1,5 +1,6 @@
 use crate::headers::{Header, HeaderName, HeaderValue, Headers, TRANSFER_ENCODING};
 use crate::transfer::{Encoding, EncodingProposal};
+use crate::Status;
 
 use std::fmt::{self, Debug};
 use std::ops::{Deref, DerefMut};
@@ -54,7 +55,7 @@ impl TransferEncoding {
             }
         }
 
-        let inner = inner.expect("Headers instance with no entries found");
+        let inner = inner.status(400)?;
         Ok(Some(Self { inner }))
     }
 
-- 
2.43.0


From 9cb23d84c15a5c8cc56b36237a293d652eb63421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:32 +0000
Subject: [PATCH 06/28] fix: report unknown Clear-Site-Data directives as 400
 instead of panicking

---
 src/cache/clear_site_data/directive.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cache/clear_site_data/directive.rs b/src/cache/clear_site_data/directive.rs
index b178027..aba3c0e 100644
--- a/src/cache/clear_site_data/directive.rs
+++ b/src/cache/clear_site_data/directive.rs
@@ -1,3 +1,5 @@
+use crate::bail_status;
+
 use std::fmt::Display;
 use std::str::FromStr;
 
@@ -45,7 +47,7 @@ impl Display for ClearDirective {
 }
 
 impl FromStr for ClearDirective {
-    type Err = std::string::ParseError;
+    type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         match s {
@@ -53,7 +55,7 @@ impl FromStr for ClearDirective {
             r#""cookies""# => Ok(Self::Cookies),
             r#""storage""# => Ok(Self::Storage),
             r#""executionContexts""# => Ok(Self::ExecutionContexts),
-            _ => todo!(),
+            _ => bail_status!(400, "unknown Clear-Site-Data directive"),
         }
     }
 }
-- 
2.43.0


From 33369d919d72f92af1c8368dda7c028bae223ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:32 +0000
Subject: [PATCH 07/28] fix: read large Age values exactly

Going through f64 lost precision and panicked for values near u64::MAX.
---
 src/cache/age.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cache/age.rs b/src/cache/age.rs
index 0ee78a0..1da4833 100644
--- a/src/cache/age.rs
+++ b/src/cache/age.rs
@@ -63,7 +63,7 @@ impl Age {
         let header = headers.iter().last().unwrap();
 
         let num: u64 = header.as_str().parse::<u64>().status(400)?;
-        let dur = Duration::from_secs_f64(num as f64);
+        let dur = Duration::from_secs(num);
 
         Ok(Some(Self { dur }))
     }
-- 
2.43.0


From 29acebe30d04c258a8524c1de3dcc805f720fa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:45 +0000
Subject: [PATCH 08/28] fix: report Server-Timing durations out of range as an
 error instead of panicking

---
 src/trace/server_timing/parse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/trace/server_timing/parse.rs b/src/trace/server_timing/parse.rs
index 4469336..e26c12b 100644
--- a/src/trace/server_timing/parse.rs
+++ b/src/trace/server_timing/parse.rs
@@ -65,7 +65,12 @@ fn parse_entry(s: &str) -> crate::Result<Metric> {
                 let millis: f64 = value.parse().map_err(|_| {
                         format_err!("Server timing duration params must be a valid double-precision floating-point number.")
                     })?;
-                dur = Some(Duration::from_secs_f64(millis) / 1000);
+                let value = Duration::try_from_secs_f64(millis).map_err(|_| {
+                    format_err!(
+                        "Server timing duration params must be representable as a duration."
+                    )
+                })?;
+                dur = Some(value / 1000);
             }
             "desc" => {
                 // Ensure quotes line up, and strip them from the resulting output
-- 
2.43.0


From f420b6a62e64eafd0c8b5ccbf53c9656ffb443c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:27 +0000
Subject: [PATCH 09/28] fix: do not hand a response's trailer and upgrade
 channel ends to its clones

---
 src/response.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 4b4a4aa..2a96290 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -590,11 +590,11 @@ impl Clone for Response {
             status: self.status,
             headers: self.headers.clone(),
             version: self.version,
-            trailers_sender: self.trailers_sender.clone(),
-            trailers_receiver: self.trailers_receiver.clone(),
+            trailers_sender: None,
+            trailers_receiver: None,
             has_trailers: false,
-            upgrade_sender: self.upgrade_sender.clone(),
-            upgrade_receiver: self.upgrade_receiver.clone(),
+            upgrade_sender: None,
+            upgrade_receiver: None,
             has_upgrade: false,
             body: Body::empty(),
             ext: Extensions::new(),
-- 
2.43.0


From c2292c539b461f2aa579f81f956fa64dd5b175d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:18 +0000
Subject: [PATCH 10/28] fix: keep buffered reads of a body within its declared
 length and count them

---
 src/body.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/body.rs b/src/body.rs
index ac1acfc..defdbb1 100644
--- a/src/body.rs
+++ b/src/body.rs
@@ -586,7 +586,7 @@ impl AsyncRead for Body {
     ) -> Poll<io::Result<usize>> {
         let buf = match self.length {
             None => buf,
-            Some(length) if length == self.bytes_read => return Poll::Ready(Ok(0)),
+            Some(length) if length <= self.bytes_read => return Poll::Ready(Ok(0)),
             Some(length) => {
                 // Compute `min` using u64, then truncate back to usize. Since
                 // buf.len() is a usize, this can never overflow.
@@ -604,11 +604,22 @@ impl AsyncRead for Body {
 impl AsyncBufRead for Body {
     #[allow(rustdoc::missing_doc_code_examples)]
     fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&'_ [u8]>> {
-        self.project().reader.poll_fill_buf(cx)
+        let remaining = self.length.map(|l| l.saturating_sub(self.bytes_read));
+        if remaining == Some(0) {
+            return Poll::Ready(Ok(&[]));
+        }
+
+        let bytes = ready!(self.project().reader.poll_fill_buf(cx))?;
+        let len = match remaining {
+            None => bytes.len(),
+            Some(remaining) => remaining.min(bytes.len() as u64) as usize,
+        };
+        Poll::Ready(Ok(&bytes[..len]))
     }
 
     fn consume(mut self: Pin<&mut Self>, amt: usize) {
-        Pin::new(&mut self.reader).consume(amt)
+        Pin::new(&mut self.reader).consume(amt);
+        self.bytes_read += amt as u64;
     }
 }
 
-- 
2.43.0


From bfae4d790d68b8ee8cf677a18790a5eb9c1aa984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:20 +0000
Subject: [PATCH 11/28] fix: refuse integers that are not status codes instead
 of truncating them when deserializing

---
 src/status_code.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/status_code.rs b/src/status_code.rs
index 8814183..d84ce99 100644
--- a/src/status_code.rs
+++ b/src/status_code.rs
@@ -536,6 +536,7 @@ mod serde {
     use super::StatusCode;
     use serde_crate::de::{Error as DeError, Unexpected, Visitor};
     use serde_crate::{Deserialize, Deserializer, Serialize, Serializer};
+    use std::convert::TryFrom;
     use std::fmt;
 
     impl Serialize for StatusCode {
@@ -561,28 +562,36 @@ mod serde {
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            match u16::try_from(v) {
+                Ok(v) => self.visit_u16(v),
+                Err(_) => Err(DeError::invalid_value(Unexpected::Signed(v as i64), &self)),
+            }
         }
 
         fn visit_i32<E>(self, v: i32) -> Result<Self::Value, E>
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            match u16::try_from(v) {
+                Ok(v) => self.visit_u16(v),
+                Err(_) => Err(DeError::invalid_value(Unexpected::Signed(v as i64), &self)),
+            }
         }
 
         fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E>
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            match u16::try_from(v) {
+                Ok(v) => self.visit_u16(v),
+                Err(_) => Err(DeError::invalid_value(Unexpected::Signed(v), &self)),
+            }
         }
 
         fn visit_u16<E>(self, v: u16) -> Result<Self::Value, E>
         where
             E: DeError,
         {
-            use std::convert::TryFrom;
             match StatusCode::try_from(v) {
                 Ok(status_code) => Ok(status_code),
                 Err(_) => Err(DeError::invalid_value(
@@ -596,14 +605,23 @@ mod serde {
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            match u16::try_from(v) {
+                Ok(v) => self.visit_u16(v),
+                Err(_) => Err(DeError::invalid_value(
+                    Unexpected::Unsigned(v as u64),
+                    &self,
+                )),
+            }
         }
 
         fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            match u16::try_from(v) {
+                Ok(v) => self.visit_u16(v),
+                Err(_) => Err(DeError::invalid_value(Unexpected::Unsigned(v), &self)),
+            }
         }
     }
 
-- 
2.43.0


From 1fae1757912f3e6eca60f1b261b508539f74854a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:26 +0000
Subject: [PATCH 12/28] fix: emit the s-maxage cache directive under its
 registered name

---
 src/cache/cache_control/cache_directive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cache/cache_control/cache_directive.rs b/src/cache/cache_control/cache_directive.rs
index 5e8b0b9..f8f12a0 100644
--- a/src/cache/cache_control/cache_directive.rs
+++ b/src/cache/cache_control/cache_directive.rs
@@ -148,7 +148,7 @@ impl From<CacheDirective> for HeaderValue {
             Private => h("private".to_string()),
             ProxyRevalidate => h("proxy-revalidate".to_string()),
             Public => h("public".to_string()),
-            SMaxAge(dur) => h(format!("s-max-age={}", dur.as_secs())),
+            SMaxAge(dur) => h(format!("s-maxage={}", dur.as_secs())),
             StaleIfError(dur) => h(format!("stale-if-error={}", dur.as_secs())),
             StaleWhileRevalidate(dur) => h(format!("stale-while-revalidate={}", dur.as_secs())),
         }
-- 
2.43.0


From 431fe15b10a3d7a1e35d8a508a7cb50e3dc1164a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:32 +0000
Subject: [PATCH 13/28] fix: recognise the includeSubdomains directive as it is
 emitted

---
 src/security/strict_transport_security.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/security/strict_transport_security.rs b/src/security/strict_transport_security.rs
index f6c4fe4..77100b0 100644
--- a/src/security/strict_transport_security.rs
+++ b/src/security/strict_transport_security.rs
@@ -111,7 +111,7 @@ impl StrictTransportSecurity {
         // the spec we should just ignore it.
         for s in value.as_str().split(';') {
             let s = s.trim();
-            if s == "includesubdomains" {
+            if s.eq_ignore_ascii_case("includesubdomains") {
                 include_subdomains = true;
             } else if s == "preload" {
                 preload = true;
-- 
2.43.0


From ffe1b5764d10e2ff144778c6ed671ff574e50a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:38 +0000
Subject: [PATCH 14/28] fix: set and remove X-Powered-By under its lower case
 name

---
 src/security/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/security/mod.rs b/src/security/mod.rs
index 2cb9b6a..a541440 100644
--- a/src/security/mod.rs
+++ b/src/security/mod.rs
@@ -118,7 +118,7 @@ pub fn frameguard(mut headers: impl AsMut<Headers>, guard: Option<FrameOptions>)
 // /// ```
 #[inline]
 pub fn powered_by(mut headers: impl AsMut<Headers>, value: Option<HeaderValue>) {
-    let name = HeaderName::from_lowercase_str("X-Powered-By");
+    let name = HeaderName::from_lowercase_str("x-powered-by");
     match value {
         Some(value) => {
             // Can never fail as value is already a HeaderValue, could use unsafe version of insert
-- 
2.43.0


From 245450c1ffdb531d6b50be7d304868d48d06c197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:42 +0000
Subject: [PATCH 15/28] fix: report malformed Allow, Vary, Accept,
 Accept-Encoding and TE headers as 400

---
 src/conditional/vary.rs            |  3 ++-
 src/content/encoding_proposal.rs   |  3 ++-
 src/content/media_type_proposal.rs | 10 ++++++----
 src/server/allow.rs                |  4 ++--
 src/transfer/encoding_proposal.rs  |  3 ++-
 5 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/conditional/vary.rs b/src/conditional/vary.rs
index 9023811..b9cc679 100644
--- a/src/conditional/vary.rs
+++ b/src/conditional/vary.rs
@@ -1,6 +1,7 @@
 //! Apply the HTTP method if the ETag matches.
 
 use crate::headers::{Header, HeaderName, HeaderValue, Headers, VARY};
+use crate::Status;
 
 use std::fmt::{self, Debug, Write};
 use std::iter::Iterator;
@@ -66,7 +67,7 @@ impl Vary {
                     wildcard = true;
                     continue;
                 }
-                let entry = HeaderName::from_str(part.trim())?;
+                let entry = HeaderName::from_str(part.trim()).status(400)?;
                 entries.push(entry);
             }
         }
diff --git a/src/content/encoding_proposal.rs b/src/content/encoding_proposal.rs
index 7d32944..65c24dd 100644
--- a/src/content/encoding_proposal.rs
+++ b/src/content/encoding_proposal.rs
@@ -2,6 +2,7 @@ use crate::content::Encoding;
 use crate::ensure;
 use crate::headers::HeaderValue;
 use crate::utils::parse_weight;
+use crate::Status;
 
 use std::cmp::{Ordering, PartialEq};
 use std::ops::{Deref, DerefMut};
@@ -52,7 +53,7 @@ impl EncodingProposal {
         };
         let weight = parts.next().map(parse_weight).transpose()?;
 
-        Ok(Some(Self::new(encoding, weight)?))
+        Ok(Some(Self::new(encoding, weight).status(400)?))
     }
 }
 
diff --git a/src/content/media_type_proposal.rs b/src/content/media_type_proposal.rs
index 622558d..2be48bf 100644
--- a/src/content/media_type_proposal.rs
+++ b/src/content/media_type_proposal.rs
@@ -1,6 +1,7 @@
 use crate::ensure;
 use crate::headers::HeaderValue;
 use crate::mime::Mime;
+use crate::Status;
 
 use std::ops::{Deref, DerefMut};
 use std::{
@@ -58,12 +59,13 @@ impl MediaTypeProposal {
     /// we have to parse the full string to the media type first, and then see if
     /// a `q` value has been set.
     pub(crate) fn from_str(s: &str) -> crate::Result<Self> {
-        let mut media_type = Mime::from_str(s)?;
+        let mut media_type = Mime::from_str(s).status(400)?;
         let weight = media_type
             .remove_param("q")
-            .map(|param| param.as_str().parse())
-            .transpose()?;
-        Self::new(media_type, weight)
+            .map(|param| param.as_str().parse::<f32>())
+            .transpose()
+            .status(400)?;
+        Self::new(media_type, weight).status(400)
     }
 }
 
diff --git a/src/server/allow.rs b/src/server/allow.rs
index 9377a3f..bd51a00 100644
--- a/src/server/allow.rs
+++ b/src/server/allow.rs
@@ -1,7 +1,7 @@
 //! List the set of methods supported by a resource.
 
 use crate::headers::{Header, HeaderName, HeaderValue, Headers, ALLOW};
-use crate::Method;
+use crate::{Method, Status};
 
 use std::collections::{hash_set, HashSet};
 use std::fmt::{self, Debug, Write};
@@ -58,7 +58,7 @@ impl Allow {
 
         for value in headers {
             for part in value.as_str().trim().split(',') {
-                let method = Method::from_str(part.trim())?;
+                let method = Method::from_str(part.trim()).status(400)?;
                 entries.insert(method);
             }
         }
diff --git a/src/transfer/encoding_proposal.rs b/src/transfer/encoding_proposal.rs
index 72f083d..7e6e032 100644
--- a/src/transfer/encoding_proposal.rs
+++ b/src/transfer/encoding_proposal.rs
@@ -2,6 +2,7 @@ use crate::ensure;
 use crate::headers::HeaderValue;
 use crate::transfer::Encoding;
 use crate::utils::parse_weight;
+use crate::Status;
 
 use std::cmp::{Ordering, PartialEq};
 use std::ops::{Deref, DerefMut};
@@ -54,7 +55,7 @@ impl EncodingProposal {
         };
         let weight = parts.next().map(parse_weight).transpose()?;
 
-        Ok(Some(Self::new(encoding, weight)?))
+        Ok(Some(Self::new(encoding, weight).status(400)?))
     }
 }
 
-- 
2.43.0


From 27decac439997e0e25cc146da40cdab353533f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:08 +0000
Subject: [PATCH 16/28] fix: serialize Allow in a fixed order

---
 src/server/allow.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server/allow.rs b/src/server/allow.rs
index bd51a00..e8ddf21 100644
--- a/src/server/allow.rs
+++ b/src/server/allow.rs
@@ -89,8 +89,12 @@ impl Header for Allow {
         ALLOW
     }
     fn header_value(&self) -> HeaderValue {
+        // A set has no order of its own: sort, so the same set always gives the same value.
+        let mut methods: Vec<&str> = self.entries.iter().map(|m| m.as_ref()).collect();
+        methods.sort_unstable();
+
         let mut output = String::new();
-        for (n, method) in self.entries.iter().enumerate() {
+        for (n, method) in methods.into_iter().enumerate() {
             match n {
                 0 => write!(output, "{}", method).unwrap(),
                 _ => write!(output, ", {}", method).unwrap(),
-- 
2.43.0


From 056a6b5fa3f0c0707f5848971fcb9c8dc0f20e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:14 +0000
Subject: [PATCH 17/28] fix: applying a content security policy twice repeated
 its directives

---
 src/security/csp.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/security/csp.rs b/src/security/csp.rs
index 9478f34..dc357e6 100644
--- a/src/security/csp.rs
+++ b/src/security/csp.rs
@@ -345,13 +345,13 @@ impl ContentSecurityPolicy {
     }
 
     /// Create and retrieve the policy value
-    fn value(&mut self) -> String {
+    fn value(&self) -> String {
+        let mut policy = self.policy.clone();
         for (directive, sources) in &self.directives {
-            let policy = format!("{} {}", directive, sources.join(" "));
-            self.policy.push(policy);
-            self.policy.sort();
+            policy.push(format!("{} {}", directive, sources.join(" ")));
+            policy.sort();
         }
-        self.policy.join("; ")
+        policy.join("; ")
     }
 
     /// Sets the `Content-Security-Policy` (CSP) HTTP header to prevent cross-site injections
-- 
2.43.0


From a962b9e4d3c82ac3d8d983708df01a20bb20b88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:55 +0000
Subject: [PATCH 18/28] fix: converting a header map from the http crate
 dropped all but the first value of each header, and did not check values for
 ASCII

---
 src/hyperium_http.rs | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/src/hyperium_http.rs b/src/hyperium_http.rs
index 81d3342..d4bc204 100644
--- a/src/hyperium_http.rs
+++ b/src/hyperium_http.rs
@@ -96,18 +96,7 @@ impl TryFrom<http::HeaderMap> for Headers {
     fn try_from(hyperium_headers: http::HeaderMap) -> Result<Self, Self::Error> {
         let mut headers = Headers::new();
 
-        hyperium_headers
-            .into_iter()
-            .map(|(name, value)| {
-                if let Some(name) = name {
-                    let value: HeaderValue = value.try_into()?;
-                    let name: HeaderName = name.try_into()?;
-                    headers.append(name, value)?;
-                }
-                Ok(())
-            })
-            .collect::<Result<Vec<()>, Error>>()?;
-
+        hyperium_headers_to_headers(hyperium_headers, &mut headers)?;
         Ok(headers)
     }
 }
@@ -144,13 +133,14 @@ fn hyperium_headers_to_headers(
     hyperium_headers: http::HeaderMap,
     headers: &mut Headers,
 ) -> crate::Result<()> {
+    // A header map names a header only along with the first of its values.
+    let mut current = None;
     for (name, value) in hyperium_headers {
-        let value = value.as_bytes().to_owned();
-        let value = unsafe { HeaderValue::from_bytes_unchecked(value) };
         if let Some(name) = name {
-            let name = name.as_str().as_bytes().to_owned();
-            let name = unsafe { HeaderName::from_bytes_unchecked(name) };
-            headers.append(name, value)?;
+            current = Some(HeaderName::try_from(name)?);
+        }
+        if let Some(name) = &current {
+            headers.append(name, HeaderValue::try_from(value)?)?;
         }
     }
     Ok(())
-- 
2.43.0


From 8ac01830727634c07a3ebd0d45ed0db1294961f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:11 +0000
Subject: [PATCH 19/28] fix: converting a message from the http crate gave it a
 second Content-Type

---
 src/hyperium_http.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperium_http.rs b/src/hyperium_http.rs
index d4bc204..82bfdd7 100644
--- a/src/hyperium_http.rs
+++ b/src/hyperium_http.rs
@@ -177,9 +177,9 @@ impl TryFrom<http::Request<Body>> for Request {
         let method = parts.method.into();
         let url = from_uri_to_url(parts.uri)?;
         let mut req = Request::new(method, url);
-        req.set_body(body);
         req.set_version(Some(parts.version.into()));
         hyperium_headers_to_headers(parts.headers, req.as_mut())?;
+        req.set_body(body);
         Ok(req)
     }
 }
@@ -202,9 +202,9 @@ impl TryFrom<http::Response<Body>> for Response {
     fn try_from(res: http::Response<Body>) -> Result<Self, Self::Error> {
         let (parts, body) = res.into_parts();
         let mut res = Response::new(parts.status);
-        res.set_body(body);
         res.set_version(Some(parts.version.into()));
         hyperium_headers_to_headers(parts.headers, res.as_mut())?;
+        res.set_body(body);
         Ok(res)
     }
 }
-- 
2.43.0


From bd7a03a0a3b38bb506780cb917b8fb4d0c057acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:16 +0000
Subject: [PATCH 20/28] fix: converting a message with an unknown method or
 status from the http crate panicked instead of failing

---
 src/hyperium_http.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperium_http.rs b/src/hyperium_http.rs
index 82bfdd7..c5b10ea 100644
--- a/src/hyperium_http.rs
+++ b/src/hyperium_http.rs
@@ -174,7 +174,7 @@ impl TryFrom<http::Request<Body>> for Request {
 
     fn try_from(req: http::Request<Body>) -> Result<Self, Self::Error> {
         let (parts, body) = req.into_parts();
-        let method = parts.method.into();
+        let method = Method::from_str(parts.method.as_str())?;
         let url = from_uri_to_url(parts.uri)?;
         let mut req = Request::new(method, url);
         req.set_version(Some(parts.version.into()));
@@ -201,7 +201,7 @@ impl TryFrom<http::Response<Body>> for Response {
     type Error = crate::Error;
     fn try_from(res: http::Response<Body>) -> Result<Self, Self::Error> {
         let (parts, body) = res.into_parts();
-        let mut res = Response::new(parts.status);
+        let mut res = Response::new(StatusCode::try_from(parts.status.as_u16())?);
         res.set_version(Some(parts.version.into()));
         hyperium_headers_to_headers(parts.headers, res.as_mut())?;
         res.set_body(body);
-- 
2.43.0


From ad47aeb05aaca7940dc1097a478bf6c80ca7633f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:36 +0000
Subject: [PATCH 21/28] fix: inserting an empty list of header values stored an
 entry without values

---
 src/headers/headers.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/headers/headers.rs b/src/headers/headers.rs
index a7a9d90..81f4f2f 100644
--- a/src/headers/headers.rs
+++ b/src/headers/headers.rs
@@ -52,6 +52,9 @@ impl Headers {
     ) -> crate::Result<Option<HeaderValues>> {
         let name = name.into();
         let values: HeaderValues = values.to_header_values()?.collect();
+        if values.inner.is_empty() {
+            return Ok(self.headers.remove(&name));
+        }
         Ok(self.headers.insert(name, values))
     }
 
-- 
2.43.0


From 03dc2dfa11828d8f5d0b77bab1b82cafb3068f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:42 +0000
Subject: [PATCH 22/28] fix: the size bounds of the header value iterator
 counted names instead of values

---
 src/headers/values.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/headers/values.rs b/src/headers/values.rs
index 810c051..4ae5588 100644
--- a/src/headers/values.rs
+++ b/src/headers/values.rs
@@ -64,9 +64,14 @@ impl<'a> Iterator for Values<'a> {
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        match self.inner.as_ref() {
-            Some(inner) => inner.size_hint(),
-            None => (0, None),
+        let slot = match self.slot {
+            Some(values) => values.inner.len().saturating_sub(self.cursor),
+            None => 0,
+        };
+        // The names still to come may have any number of values each.
+        match self.inner.as_ref().map(|inner| inner.len()) {
+            Some(1..) => (slot, None),
+            _ => (slot, Some(slot)),
         }
     }
 }
-- 
2.43.0


From b818129024ff0aca3d5b7382d46744fb5036a98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:18 +0000
Subject: [PATCH 23/28] fix: the realm of WWW-Authenticate could end its own
 quotes

---
 src/auth/www_authenticate.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/auth/www_authenticate.rs b/src/auth/www_authenticate.rs
index bf9d7a0..a7cf4ce 100644
--- a/src/auth/www_authenticate.rs
+++ b/src/auth/www_authenticate.rs
@@ -76,16 +76,18 @@ impl WwwAuthenticate {
 
         let mut chars = realm.chars();
         let mut closing_quote = false;
-        let realm = (&mut chars)
-            .take_while(|c| {
-                if c == &'"' {
+        let mut realm = String::new();
+        while let Some(c) = chars.next() {
+            match c {
+                '"' => {
                     closing_quote = true;
-                    false
-                } else {
-                    true
+                    break;
                 }
-            })
-            .collect();
+                // a quoted-pair stands for the character it escapes
+                '\\' => realm.extend(chars.next()),
+                c => realm.push(c),
+            }
+        }
         if !closing_quote {
             bail!(400, r"Expected a closing quote");
         }
@@ -120,7 +122,14 @@ impl Header for WwwAuthenticate {
     }
 
     fn header_value(&self) -> HeaderValue {
-        let output = format!(r#"{} realm="{}", charset="UTF-8""#, self.scheme, self.realm);
+        let mut output = format!(r#"{} realm=""#, self.scheme);
+        for c in self.realm.chars() {
+            if let '\\' | '"' = c {
+                output.push('\\');
+            }
+            output.push(c);
+        }
+        output.push_str(r#"", charset="UTF-8""#);
 
         // SAFETY: the internal string is validated to be ASCII.
         unsafe { HeaderValue::from_bytes_unchecked(output.into()) }
-- 
2.43.0


From 99b7da7c1eb34f2c3ce5bb618fe1d1d56099b912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:25 +0000
Subject: [PATCH 24/28] fix: the description of a Server-Timing metric could
 end its own quotes

---
 src/trace/server_timing/metric.rs | 14 +++++++++++++-
 src/trace/server_timing/parse.rs  | 13 ++++++++++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/trace/server_timing/metric.rs b/src/trace/server_timing/metric.rs
index ed55c18..245f8ef 100644
--- a/src/trace/server_timing/metric.rs
+++ b/src/trace/server_timing/metric.rs
@@ -59,7 +59,19 @@ impl From<Metric> for HeaderValue {
         // Format a `Duration` into the format that the spec expects.
         let f = |d: Duration| d.as_secs_f64() * 1000.0;
 
-        match (entry.dur, entry.desc) {
+        // Escape the description, so that it cannot end its own quotes.
+        let desc = entry.desc.map(|desc| {
+            let mut escaped = String::new();
+            for c in desc.chars() {
+                if let '\\' | '"' = c {
+                    escaped.push('\\');
+                }
+                escaped.push(c);
+            }
+            escaped
+        });
+
+        match (entry.dur, desc) {
             (Some(dur), Some(desc)) => {
                 string.push_str(&format!("; dur={}; desc=\"{}\"", f(dur), desc))
             }
diff --git a/src/trace/server_timing/parse.rs b/src/trace/server_timing/parse.rs
index e26c12b..3860cdb 100644
--- a/src/trace/server_timing/parse.rs
+++ b/src/trace/server_timing/parse.rs
@@ -81,13 +81,24 @@ fn parse_entry(s: &str) -> crate::Result<Metric> {
                         "Server timing description params must use matching quotes"
                     );
                     value = &value[0..value.len() - 1];
+
+                    // Undo the escaping of the quoted characters
+                    let mut unescaped = String::new();
+                    let mut chars = value.chars();
+                    while let Some(c) = chars.next() {
+                        match c {
+                            '\\' => unescaped.extend(chars.next()),
+                            c => unescaped.push(c),
+                        }
+                    }
+                    desc = Some(unescaped);
                 } else {
                     ensure!(
                         !value.ends_with('"'),
                         "Server timing description params must use matching quotes"
                     );
+                    desc = Some(value.to_string());
                 }
-                desc = Some(value.to_string());
             }
             _ => continue,
         }
-- 
2.43.0


From 8e8cb48a6b5c69d944a833a2bd232163c051eaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:48 +0000
Subject: [PATCH 25/28] fix: Forwarded wrote empty members and unquoted values
 that it cannot parse

---
 src/proxies/forwarded.rs | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/proxies/forwarded.rs b/src/proxies/forwarded.rs
index 2bbfc11..b477418 100644
--- a/src/proxies/forwarded.rs
+++ b/src/proxies/forwarded.rs
@@ -2,7 +2,7 @@ use crate::{
     headers::{Header, HeaderName, HeaderValue, Headers, FORWARDED},
     parse_utils::{parse_quoted_string, parse_token},
 };
-use std::{borrow::Cow, convert::TryFrom, fmt::Write, net::IpAddr};
+use std::{borrow::Cow, convert::TryFrom, net::IpAddr};
 
 // these constants are private because they are nonstandard
 const X_FORWARDED_FOR: HeaderName = HeaderName::from_lowercase_str("x-forwarded-for");
@@ -363,32 +363,30 @@ impl<'a> Header for Forwarded<'a> {
         FORWARDED
     }
     fn header_value(&self) -> HeaderValue {
-        let mut output = String::new();
+        let mut pairs = Vec::new();
         if let Some(by) = self.by() {
-            write!(&mut output, "by={};", by).unwrap();
+            pairs.push(format!("by={}", format_value(by)));
         }
 
-        output.push_str(
-            &self
-                .forwarded_for
-                .iter()
-                .map(|f| format!("for={}", format_value(f)))
-                .collect::<Vec<_>>()
-                .join(", "),
-        );
-
-        output.push(';');
+        if !self.forwarded_for.is_empty() {
+            pairs.push(
+                self.forwarded_for
+                    .iter()
+                    .map(|f| format!("for={}", format_value(f)))
+                    .collect::<Vec<_>>()
+                    .join(", "),
+            );
+        }
 
         if let Some(host) = self.host() {
-            write!(&mut output, "host={};", host).unwrap();
+            pairs.push(format!("host={}", format_value(host)));
         }
 
         if let Some(proto) = self.proto() {
-            write!(&mut output, "proto={};", proto).unwrap();
+            pairs.push(format!("proto={}", format_value(proto)));
         }
 
-        // remove a trailing semicolon
-        output.pop();
+        let output = pairs.join(";");
 
         // SAFETY: the internal string is validated to be ASCII.
         unsafe { HeaderValue::from_bytes_unchecked(output.into()) }
-- 
2.43.0


From 1ae06e69f657491fad66b532fb3c8e592c5d74cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:55 +0000
Subject: [PATCH 26/28] fix: an empty value in Forwarded was written without
 the quotes its parser needs

---
 src/proxies/forwarded.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proxies/forwarded.rs b/src/proxies/forwarded.rs
index b477418..a797ca9 100644
--- a/src/proxies/forwarded.rs
+++ b/src/proxies/forwarded.rs
@@ -402,7 +402,7 @@ fn parse_value(input: &str) -> (Option<Cow<'_, str>>, &str) {
 
 fn format_value(input: &str) -> Cow<'_, str> {
     match parse_token(input) {
-        (_, "") => input.into(),
+        (Some(_), "") => input.into(),
         _ => {
             let mut string = String::from("\"");
             for ch in input.chars() {
-- 
2.43.0


From 1e709e241b88d525e50aa55a44f4e0e23194f5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:27 +0000
Subject: [PATCH 27/28] fix: Mime::subset_eq compares charset=utf-8 like every
 other parameter

---
 src/mime/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mime/mod.rs b/src/mime/mod.rs
index f416de3..a2ff9fe 100644
--- a/src/mime/mod.rs
+++ b/src/mime/mod.rs
@@ -153,6 +153,10 @@ impl Mime {
         if other.subtype() != "*" && self.subtype() != other.subtype() {
             return false;
         }
+        // `charset=utf-8` is not part of `params`.
+        if other.is_utf8 && !self.is_utf8 {
+            return false;
+        }
         for (name, value) in other.params.iter() {
             if !self
                 .param(name.clone())
-- 
2.43.0


From 318432631d430e11dd2ed001ef7be9bd6cd14f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:34 +0000
Subject: [PATCH 28/28] fix: a repeated charset parameter of a media type is
 ignored, whichever one is utf-8

---
 src/mime/parse.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mime/parse.rs b/src/mime/parse.rs
index f2ec569..a7a426a 100644
--- a/src/mime/parse.rs
+++ b/src/mime/parse.rs
@@ -41,7 +41,7 @@ pub(crate) fn parse(input: &str) -> crate::Result<Mime> {
     // 10.
     let basetype = basetype.to_ascii_lowercase();
     let subtype = subtype.to_ascii_lowercase();
-    let mut params = vec![];
+    let mut params: Vec<(ParamName, ParamValue)> = vec![];
     let mut is_utf8 = false;
 
     // 11.
@@ -93,7 +93,12 @@ pub(crate) fn parse(input: &str) -> crate::Result<Mime> {
         };
 
         // 10.
-        if parameter_name == "charset" && parameter_value == "utf-8" {
+        if parameter_name == "charset"
+            && (is_utf8 || params.iter().any(|(k, _)| k.as_str() == "charset"))
+        {
+            // Only the first occurrence of a parameter counts.
+            continue;
+        } else if parameter_name == "charset" && parameter_value == "utf-8" {
             is_utf8 = true;
         } else if !parameter_name.is_empty()
             && parameter_name.chars().all(is_http_token_code_point)
-- 
2.43.0

