From 4ff0f9e42599afbbb80a677b8a2c8ee91ad2c7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:15 +0000
Subject: [PATCH 1/2] fix: percent-encode backslashes in path arguments

The URL parser treats a backslash in the path of an http URL as a slash,
so an argument with one ended up as several path segments.
---
 progenitor-client/src/progenitor_client.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/progenitor-client/src/progenitor_client.rs b/progenitor-client/src/progenitor_client.rs
index c709e6f..61d98a8 100644
--- a/progenitor-client/src/progenitor_client.rs
+++ b/progenitor-client/src/progenitor_client.rs
@@ -413,6 +413,8 @@ const PATH_SET: &percent_encoding::AsciiSet = &percent_encoding::CONTROLS
     .add(b'<')
     .add(b'>')
     .add(b'?')
+    // Parsing a URL takes a backslash for a slash.
+    .add(b'\\')
     .add(b'`')
     .add(b'{')
     .add(b'}')
-- 
2.43.0


From 111ae47edf699be55dd7468c28dd97e06228be6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:15 +0000
Subject: [PATCH 2/2] fix: content_length() ignores a Content-Length value with
 a sign

---
 progenitor-client/src/progenitor_client.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/progenitor-client/src/progenitor_client.rs b/progenitor-client/src/progenitor_client.rs
index 61d98a8..eed778d 100644
--- a/progenitor-client/src/progenitor_client.rs
+++ b/progenitor-client/src/progenitor_client.rs
@@ -156,12 +156,16 @@ impl<T> ResponseValue<T> {
     /// Gets the parsed value of the Content-Length header, if present and
     /// valid.
     pub fn content_length(&self) -> Option<u64> {
-        self.headers
+        let value = self
+            .headers
             .get(reqwest::header::CONTENT_LENGTH)?
             .to_str()
-            .ok()?
-            .parse::<u64>()
-            .ok()
+            .ok()?;
+        // Parsing an integer also accepts a sign, which is not valid here.
+        if !value.bytes().all(|b| b.is_ascii_digit()) {
+            return None;
+        }
+        value.parse::<u64>().ok()
     }
 
     #[doc(hidden)]
-- 
2.43.0

