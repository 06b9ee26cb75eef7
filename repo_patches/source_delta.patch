From ce23174bbb7ae5c9dba614e7a2fd13e0abe74f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 01/41] fix: a Content-Length header must not crash the message
 reader

The announced size was allocated up front, so a header such as
'Content-Length: 18446744073709551615' panicked the reader thread
(or aborted the process).
---
 crates/sync-lsp/src/msg.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/sync-lsp/src/msg.rs b/crates/sync-lsp/src/msg.rs
index 91bc037..62b65cb 100644
--- a/crates/sync-lsp/src/msg.rs
+++ b/crates/sync-lsp/src/msg.rs
@@ -2,7 +2,7 @@
 
 use std::{
     fmt,
-    io::{self, BufRead, Write},
+    io::{self, BufRead, Read, Write},
 };
 
 use serde::{Deserialize, Serialize};
@@ -231,8 +231,11 @@ pub(crate) fn read_msg_text(inp: &mut dyn BufRead) -> io::Result<Option<String>>
     }
     let size: usize = size.ok_or_else(|| invalid_data_fmt!("no Content-Length"))?;
     let mut buf = buf.into_bytes();
-    buf.resize(size, 0);
-    inp.read_exact(&mut buf)?;
+    buf.clear();
+    // The announced size is not trusted: the buffer only grows by what arrives.
+    if inp.take(size as u64).read_to_end(&mut buf)? < size {
+        return Err(io::ErrorKind::UnexpectedEof.into());
+    }
     let buf = String::from_utf8(buf).map_err(invalid_data)?;
     log::debug!("< {buf}");
     Ok(Some(buf))
-- 
2.43.0


From cc64db54ae92d35e1707f17b01e54a86c94a0acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 02/41] fix: a resource request without arguments must not
 crash the server

It indexed the empty argument list, which panicked the main loop instead of
answering with an invalid-params error.
---
 crates/sync-lsp/src/server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/sync-lsp/src/server.rs b/crates/sync-lsp/src/server.rs
index 08b48b4..e3a1916 100644
--- a/crates/sync-lsp/src/server.rs
+++ b/crates/sync-lsp/src/server.rs
@@ -617,8 +617,11 @@ impl<M, Args: Initializer> LsDriver<M, Args> {
     pub fn get_resources(&mut self, req_id: RequestId, args: Vec<JsonValue>) -> ScheduledResult {
         let s = self.state.opt_mut().ok_or_else(not_initialized)?;
 
+        let path = args
+            .first()
+            .ok_or_else(|| invalid_params("expect path as the first argument"))?;
         let path =
-            from_value::<PathBuf>(args[0].clone()).map_err(|e| invalid_params(e.to_string()))?;
+            from_value::<PathBuf>(path.clone()).map_err(|e| invalid_params(e.to_string()))?;
 
         let Some(handler) = self.resources.get(path.as_path()) else {
             log::error!("asked for unknown resource: {path:?}");
-- 
2.43.0


From 5ebaccd7bf54ede56143b1256fc8e7bc3d1676cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:24 +0000
Subject: [PATCH 03/41] fix: a DAP sequence number beyond 32 bits is answered
 under its own number

---
 crates/sync-lsp/src/msg.rs            | 13 +++++++++++++
 crates/sync-lsp/src/server.rs         |  3 +--
 crates/sync-lsp/src/server/dap_srv.rs |  2 +-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/sync-lsp/src/msg.rs b/crates/sync-lsp/src/msg.rs
index 62b65cb..1fb07cf 100644
--- a/crates/sync-lsp/src/msg.rs
+++ b/crates/sync-lsp/src/msg.rs
@@ -22,15 +22,26 @@ impl RequestId {
     pub(crate) fn dap(id: RequestId) -> i64 {
         match id.0 {
             IdRepr::I32(it) => it as i64,
+            IdRepr::I64(it) => it,
             IdRepr::String(it) => panic!("unexpected string ID in DAP: {it}"),
         }
     }
+
+    /// Creates the ID of the DAP message with the given sequence number.
+    #[cfg(all(feature = "dap", feature = "server"))]
+    pub(crate) fn from_dap(seq: i64) -> RequestId {
+        RequestId(i32::try_from(seq).map_or(IdRepr::I64(seq), IdRepr::I32))
+    }
 }
 
 #[derive(Debug, Serialize, Deserialize, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
 #[serde(untagged)]
 enum IdRepr {
     I32(i32),
+    /// A sequence number of the DAP beyond the range of LSP integers.
+    #[cfg(all(feature = "dap", feature = "server"))]
+    #[serde(skip_deserializing)]
+    I64(i64),
     String(String),
 }
 
@@ -50,6 +61,8 @@ impl fmt::Display for RequestId {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match &self.0 {
             IdRepr::I32(it) => fmt::Display::fmt(it, f),
+            #[cfg(all(feature = "dap", feature = "server"))]
+            IdRepr::I64(it) => fmt::Display::fmt(it, f),
             // Use debug here, to make it clear that `92` and `"92"` are
             // different, and to reduce WTF factor if the sever uses `" "` as an
             // ID.
diff --git a/crates/sync-lsp/src/server.rs b/crates/sync-lsp/src/server.rs
index e3a1916..4baa6ba 100644
--- a/crates/sync-lsp/src/server.rs
+++ b/crates/sync-lsp/src/server.rs
@@ -277,8 +277,7 @@ impl LspClient {
         let mut req_queue = self.req_queue.lock();
         let Some(handler) = req_queue
             .outgoing
-            // todo: casting i64 to i32
-            .complete((response.request_seq as i32).into())
+            .complete(RequestId::from_dap(response.request_seq))
         else {
             log::warn!("received response for unknown request");
             return;
diff --git a/crates/sync-lsp/src/server/dap_srv.rs b/crates/sync-lsp/src/server/dap_srv.rs
index 463158e..d585085 100644
--- a/crates/sync-lsp/src/server/dap_srv.rs
+++ b/crates/sync-lsp/src/server/dap_srv.rs
@@ -181,7 +181,7 @@ where
     /// Registers and handles a request. This should only be called once per
     /// incoming request.
     fn on_request(&mut self, request_received: Instant, req: dap::Request) {
-        let req_id = (req.seq as i32).into();
+        let req_id = RequestId::from_dap(req.seq);
         self.client
             .register_request(&req.command, &req_id, request_received);
 
-- 
2.43.0


From 0d7ca0bc97ada06c37f77140045fcee75ce61ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 04/41] fix: report an unterminated section of a translation
 file instead of panicking

---
 crates/tinymist-l10n/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-l10n/src/lib.rs b/crates/tinymist-l10n/src/lib.rs
index 9eeaf4a..d856f13 100644
--- a/crates/tinymist-l10n/src/lib.rs
+++ b/crates/tinymist-l10n/src/lib.rs
@@ -275,7 +275,12 @@ pub fn deserialize(input: &str, key_first: bool) -> anyhow::Result<TranslationMa
 
     for line in lines {
         if line.starts_with('[') {
-            key = line[1..line.len() - 1].to_string();
+            key = line[1..]
+                .strip_suffix(']')
+                .ok_or_else(|| {
+                    anyhow::anyhow!("cannot find closing bracket in translation line: {line}")
+                })?
+                .to_string();
         } else {
             let equal_index = line.find('=').map_or_else(
                 || {
-- 
2.43.0


From 494c896f30f3538496adf0238449dc966fc2e992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 05/41] fix: report a malformed translation message instead of
 panicking

---
 crates/tinymist-l10n/src/lib.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/tinymist-l10n/src/lib.rs b/crates/tinymist-l10n/src/lib.rs
index d856f13..7742ceb 100644
--- a/crates/tinymist-l10n/src/lib.rs
+++ b/crates/tinymist-l10n/src/lib.rs
@@ -1,6 +1,5 @@
 //! Tinymist's localization library.
 
-use core::panic;
 use std::{
     borrow::Cow,
     collections::HashSet,
@@ -52,16 +51,17 @@ pub fn set_locale(locale: &str) -> Option<()> {
 /// Loads a TOML string into a map of translations.
 pub fn load_translations(input: &str) -> anyhow::Result<TranslationMapSet> {
     let mut translations = deserialize(input, false)?;
-    translations.par_iter_mut().for_each(|(_, v)| {
-        v.par_iter_mut().for_each(|(_, v)| {
-            if !v.starts_with('"') {
-                return;
+    translations.par_iter_mut().try_for_each(|(_, v)| {
+        v.par_iter_mut().try_for_each(|(_, v)| {
+            if v.starts_with('"') {
+                *v = serde_json::from_str::<String>(v).map_err(|e| {
+                    anyhow::anyhow!("cannot parse translation message: {e}, message: {v}")
+                })?;
             }
 
-            *v = serde_json::from_str::<String>(v)
-                .unwrap_or_else(|e| panic!("cannot parse translation message: {e}, message: {v}"));
-        });
-    });
+            anyhow::Ok(())
+        })
+    })?;
 
     Ok(translations)
 }
-- 
2.43.0


From da27f3135bd875a9f7df7b97be9b94e1f826a578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 06/41] fix: keep the text after a placeholder of a translated
 message

---
 crates/tinymist-l10n/src/lib.rs | 42 ++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/crates/tinymist-l10n/src/lib.rs b/crates/tinymist-l10n/src/lib.rs
index 7742ceb..faaf6fd 100644
--- a/crates/tinymist-l10n/src/lib.rs
+++ b/crates/tinymist-l10n/src/lib.rs
@@ -233,31 +233,29 @@ pub fn t_with_args(
     //     }
     // }
 
-    let message_iter = &mut message.chars();
-    while let Some(c) = message_iter.next() {
-        if c == '{' {
-            let arg_index_str = message_iter.take_while(|c| *c != '}').collect::<String>();
-            message_iter.next();
-
-            let Some(arg) = args
-                .iter()
-                .find(|(k, _)| k == &arg_index_str)
-                .map(|(_, v)| v)
-            else {
-                result.push(c);
-                result.push_str(&arg_index_str);
-                continue;
-            };
-
-            match arg {
-                Arg::Str(s) => result.push_str(s.as_ref()),
-                Arg::Int(i) => result.push_str(&i.to_string()),
-                Arg::Float(f) => result.push_str(&f.to_string()),
+    let mut rest = message;
+    while let Some((text, placeholder)) = rest.split_once('{') {
+        result.push_str(text);
+
+        // An unterminated or unknown placeholder is kept as is.
+        let Some((name, suffix)) = placeholder.split_once('}') else {
+            rest = &rest[text.len()..];
+            break;
+        };
+
+        match args.iter().find(|(k, _)| *k == name).map(|(_, v)| v) {
+            Some(Arg::Str(s)) => result.push_str(s.as_ref()),
+            Some(Arg::Int(i)) => result.push_str(&i.to_string()),
+            Some(Arg::Float(f)) => result.push_str(&f.to_string()),
+            None => {
+                result.push('{');
+                result.push_str(name);
+                result.push('}');
             }
-        } else {
-            result.push(c);
         }
+        rest = suffix;
     }
+    result.push_str(rest);
 
     Cow::Owned(result)
 }
-- 
2.43.0


From 1ca9d1dfe83e542bd6a6e2b6beab75ae990ac4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 07/41] fix: report a malformed fingerprint text instead of
 panicking

---
 crates/tinymist-std/src/hash.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/crates/tinymist-std/src/hash.rs b/crates/tinymist-std/src/hash.rs
index f356f9f..6523b97 100644
--- a/crates/tinymist-std/src/hash.rs
+++ b/crates/tinymist-std/src/hash.rs
@@ -13,7 +13,7 @@ use siphasher::sip128::{Hasher128, SipHasher13};
 #[cfg(feature = "rkyv")]
 use rkyv::{Archive, Deserialize as rDeser, Serialize as rSer};
 
-use crate::error::prelude::Result;
+use crate::error::prelude::*;
 
 pub(crate) type FxBuildHasher = std::hash::BuildHasherDefault<FxHasher>;
 pub use rustc_hash::{FxHashMap, FxHashSet, FxHasher};
@@ -89,15 +89,21 @@ impl Fingerprint {
 
     /// Creates a new `Fingerprint` from a svg id that **doesn't have prefix**.
     pub fn try_from_str(s: &str) -> Result<Self> {
-        let bytes = base64::engine::general_purpose::STANDARD_NO_PAD
-            .decode(&s.as_bytes()[..11])
-            .expect("invalid base64 string");
-        let lo = u64::from_le_bytes(bytes.try_into().unwrap());
-        let mut bytes = base64::engine::general_purpose::STANDARD_NO_PAD
-            .decode(&s.as_bytes()[11..])
-            .expect("invalid base64 string");
-        bytes.resize(8, 0);
-        let hi = u64::from_le_bytes(bytes.try_into().unwrap());
+        fn decode(text: &[u8]) -> Result<u64> {
+            let mut bytes = base64::engine::general_purpose::STANDARD_NO_PAD
+                .decode(text)
+                .context_ut("invalid base64 in a fingerprint")?;
+            if bytes.len() > 8 {
+                bail!("a part of a fingerprint has more than 64 bits");
+            }
+            bytes.resize(8, 0);
+            Ok(u64::from_le_bytes(bytes.try_into().unwrap()))
+        }
+
+        let Some((lo, hi)) = s.as_bytes().split_at_checked(11) else {
+            bail!("a fingerprint has at least 11 characters");
+        };
+        let (lo, hi) = (decode(lo)?, decode(hi)?);
         Ok(Self::from_pair(lo, hi))
     }
 
-- 
2.43.0


From 2c917a7812c4105f9e0e5d2c23e1ca508fd4e77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:13 +0000
Subject: [PATCH 08/41] fix: a path difference that starts at the current
 directory or below an unknown one

---
 crates/tinymist-std/src/path.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/crates/tinymist-std/src/path.rs b/crates/tinymist-std/src/path.rs
index 424a2f9..cedef15 100644
--- a/crates/tinymist-std/src/path.rs
+++ b/crates/tinymist-std/src/path.rs
@@ -55,8 +55,10 @@ pub fn diff(fr: &Path, to: &Path) -> Option<PathBuf> {
     // Because of <https://github.com/Manishearth/pathdiff/issues/8>, we have to clean the path
     // before diff.
     fn clean_for_diff(p: &Path) -> Cow<'_, Path> {
-        if p.components()
-            .any(|c| matches!(c, Component::ParentDir | Component::CurDir))
+        // The empty path is the current directory.
+        if p.as_os_str().is_empty()
+            || p.components()
+                .any(|c| matches!(c, Component::ParentDir | Component::CurDir))
         {
             Cow::Owned(p.clean())
         } else {
@@ -64,7 +66,16 @@ pub fn diff(fr: &Path, to: &Path) -> Option<PathBuf> {
         }
     }
 
-    pathdiff::diff_paths(clean_for_diff(fr).as_ref(), clean_for_diff(to).as_ref())
+    let (fr, to) = (clean_for_diff(fr), clean_for_diff(to));
+    // There is no way down from a directory whose name is not known.
+    if to
+        .strip_prefix(&fr)
+        .is_ok_and(|rest| rest.starts_with(Component::ParentDir))
+    {
+        return None;
+    }
+
+    pathdiff::diff_paths(fr.as_ref(), to.as_ref())
 }
 
 #[cfg(test)]
-- 
2.43.0


From 060027a0b22c3fed908378a14d3d1788fde3ea32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:13 +0000
Subject: [PATCH 09/41] fix: a system time out of range has no UTC date instead
 of panicking

---
 crates/tinymist-std/src/time.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-std/src/time.rs b/crates/tinymist-std/src/time.rs
index f158568..6567531 100644
--- a/crates/tinymist-std/src/time.rs
+++ b/crates/tinymist-std/src/time.rs
@@ -49,7 +49,11 @@ impl ToUtcDateTime for i64 {
 impl ToUtcDateTime for Time {
     /// Converts a system time to a [`UtcDateTime`].
     fn to_utc_datetime(self) -> Option<UtcDateTime> {
-        Some(UtcDateTime::from(self))
+        let epoch = UtcDateTime::UNIX_EPOCH;
+        match self.duration_since(Time::UNIX_EPOCH) {
+            Ok(after) => epoch.checked_add(after.try_into().ok()?),
+            Err(err) => epoch.checked_sub(err.duration().try_into().ok()?),
+        }
     }
 }
 
-- 
2.43.0


From 65463760b96a4c522ddc209b860d3bd19c599e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:13 +0000
Subject: [PATCH 10/41] fix: show an error without a location by its message
 alone

---
 crates/tinymist-std/src/error.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/tinymist-std/src/error.rs b/crates/tinymist-std/src/error.rs
index a751f2a..4bdd985 100644
--- a/crates/tinymist-std/src/error.rs
+++ b/crates/tinymist-std/src/error.rs
@@ -222,11 +222,7 @@ impl fmt::Display for Error {
         if err.loc.is_empty() {
             match &err.kind {
                 ErrKind::Msg(msg) => {
-                    if msg.is_empty() {
-                        write_with_args!(f, err.args, "{}", err.loc)
-                    } else {
-                        write_with_args!(f, err.args, "{}: {msg}", err.loc)
-                    }
+                    write_with_args!(f, err.args, "{msg}")
                 }
                 #[cfg(feature = "typst")]
                 ErrKind::RawDiag(diag) => {
-- 
2.43.0


From c52689e4be740f679b5a2f2ea2b6f862deefad89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:13 +0000
Subject: [PATCH 11/41] fix: bound the number of shards before rounding it up

---
 crates/tinymist-std/src/adt/fmap.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist-std/src/adt/fmap.rs b/crates/tinymist-std/src/adt/fmap.rs
index 896c446..73f7d45 100644
--- a/crates/tinymist-std/src/adt/fmap.rs
+++ b/crates/tinymist-std/src/adt/fmap.rs
@@ -56,8 +56,8 @@ impl<V> Default for FingerprintMap<V> {
 impl<V> FingerprintMap<V> {
     /// Create a new `FingerprintMap` with the given shard size.
     pub fn new(shard_size: NonZeroU32) -> Self {
-        let shard_size = shard_size.get().next_power_of_two();
-        let shard_size = shard_size.min(MAX_SHARD_SIZE);
+        let shard_size = shard_size.get().min(MAX_SHARD_SIZE);
+        let shard_size = shard_size.next_power_of_two();
 
         assert!(
             shard_size.is_power_of_two(),
-- 
2.43.0


From 9f03b936aead8118741f227bbecb57d09ad82c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:37 +0000
Subject: [PATCH 12/41] fix: items that race for a fast hash get two
 fingerprints

---
 crates/tinymist-std/src/hash.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/crates/tinymist-std/src/hash.rs b/crates/tinymist-std/src/hash.rs
index 6523b97..c829fad 100644
--- a/crates/tinymist-std/src/hash.rs
+++ b/crates/tinymist-std/src/hash.rs
@@ -229,17 +229,23 @@ impl FingerprintBuilder {
 
 #[cfg(feature = "bi-hash")]
 impl FingerprintBuilder {
+    /// Returns whether the fast hash belongs to the data. An unused hash
+    /// belongs to the first data that claims it, even if several threads do.
+    fn claim_fast(&self, hash: u32, data: &[u8]) -> bool {
+        if let Some(owner) = self.fast_conflict_checker.get(&hash) {
+            return *owner == data;
+        }
+
+        let owner = self.fast_conflict_checker.entry(hash);
+        *owner.or_insert_with(|| data.to_vec()) == data
+    }
+
     /// Resolve the fingerprint without checking the conflict.
     pub fn resolve_unchecked<T: Hash>(&self, item: &T) -> Fingerprint {
         let mut s = FingerprintSipHasher { data: Vec::new() };
         item.hash(&mut s);
         let (fingerprint, featured_data) = s.fast_hash();
-        let Some(prev_featured_data) = self.fast_conflict_checker.get(&fingerprint) else {
-            self.fast_conflict_checker.insert(fingerprint, s.data);
-            return Fingerprint::from_pair(fingerprint as u64, 0);
-        };
-
-        if *prev_featured_data == *featured_data {
+        if self.claim_fast(fingerprint, featured_data) {
             return Fingerprint::from_pair(fingerprint as u64, 0);
         }
 
@@ -253,12 +259,7 @@ impl FingerprintBuilder {
         item.type_id().hash(&mut s);
         item.hash(&mut s);
         let (fingerprint, featured_data) = s.fast_hash();
-        let Some(prev_featured_data) = self.fast_conflict_checker.get(&fingerprint) else {
-            self.fast_conflict_checker.insert(fingerprint, s.data);
-            return Fingerprint::from_pair(fingerprint as u64, 0);
-        };
-
-        if *prev_featured_data == *featured_data {
+        if self.claim_fast(fingerprint, featured_data) {
             return Fingerprint::from_pair(fingerprint as u64, 0);
         }
 
-- 
2.43.0


From 4da55dc10e9976919aff07bbbebcd6dca1602bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:03 +0000
Subject: [PATCH 13/41] fix: removing a symlink does not change the permissions
 of its target

---
 crates/tinymist-std/src/fs/paths.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/tinymist-std/src/fs/paths.rs b/crates/tinymist-std/src/fs/paths.rs
index 0c43b6a..7b72e65 100644
--- a/crates/tinymist-std/src/fs/paths.rs
+++ b/crates/tinymist-std/src/fs/paths.rs
@@ -489,6 +489,13 @@ where
 }
 
 fn set_not_readonly(p: &Path) -> io::Result<bool> {
+    // The permissions are changed through symlinks, whose targets are not to be
+    // removed.
+    #[cfg(unix)]
+    if fs::symlink_metadata(p)?.is_symlink() {
+        return Ok(false);
+    }
+
     let mut perms = p.metadata()?.permissions();
     if !perms.readonly() {
         return Ok(false);
-- 
2.43.0


From bf61e5ff09df764b8b84b07c49b76ca2ee2bcda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:34 +0000
Subject: [PATCH 14/41] fix: vfs snapshots do not share what they read with a
 changed access model

---
 crates/tinymist-vfs/src/lib.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-vfs/src/lib.rs b/crates/tinymist-vfs/src/lib.rs
index 8e8b3ed..84cc347 100644
--- a/crates/tinymist-vfs/src/lib.rs
+++ b/crates/tinymist-vfs/src/lib.rs
@@ -340,9 +340,10 @@ impl<M: PathAccessModel + Sized> Vfs<M> {
     }
 
     pub fn revise(&mut self) -> RevisingVfs<M> {
-        let managed = self.managed.lock().clone();
+        let mut managed = self.managed.lock().clone();
         let paths = self.paths.lock().clone();
         let goal_revision = self.revision.checked_add(1).expect("revision overflowed");
+        managed.forget_unread(goal_revision);
 
         RevisingVfs {
             managed,
@@ -503,6 +504,7 @@ impl<M: PathAccessModel + Sized> RevisingVfs<'_, M> {
     /// Reset the shadowing files in [`OverlayAccessModel`].
     pub fn reset_shadow(&mut self) {
         for path in self.am().inner.inner.file_paths() {
+            self.view_changed = true;
             self.invalidate_path(&path);
         }
         for fid in self.am().file_paths() {
@@ -566,6 +568,9 @@ impl<M: PathAccessModel + Sized> RevisingVfs<'_, M> {
     ///
     /// See [`NotifyAccessModel`] for more information.
     pub fn notify_fs_changes(&mut self, event: FileChangeSet) {
+        // Even if no one has read the files yet, a snapshot may be about to read them,
+        // and must not share what it finds with the changed access model.
+        self.view_changed |= !event.is_empty();
         for path in &event.removes {
             self.invalidate_path(path);
         }
@@ -592,6 +597,20 @@ struct EntryMap {
 }
 
 impl EntryMap {
+    /// Detaches the slots that have not been read. A snapshot sharing them may
+    /// be reading them now, from an access model that is going to be outdated.
+    fn forget_unread(&mut self, goal_revision: NonZeroUsize) {
+        let is_unread = |e: &VfsEntry| e.bytes.get().is_none();
+        let unread = self.entries.iter().filter(|(_, e)| is_unread(e));
+        for fid in unread.map(|(fid, _)| *fid).collect::<Vec<_>>() {
+            let entry = VfsEntry {
+                changed_at: goal_revision.get(),
+                ..VfsEntry::default()
+            };
+            self.entries.insert_mut(fid, entry);
+        }
+    }
+
     /// Read a slot.
     #[inline(always)]
     fn slot<T>(&mut self, path: TypstFileId, f: impl FnOnce(&mut VfsEntry) -> T) -> T {
-- 
2.43.0


From 9464b792f8855635177a3badd57e06029e2ff13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 15/41] fix: a vfs entry whose changes are unknown is not
 regarded as clean

---
 crates/tinymist-vfs/src/lib.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/crates/tinymist-vfs/src/lib.rs b/crates/tinymist-vfs/src/lib.rs
index 84cc347..68706ca 100644
--- a/crates/tinymist-vfs/src/lib.rs
+++ b/crates/tinymist-vfs/src/lib.rs
@@ -360,7 +360,10 @@ impl<M: PathAccessModel + Sized> Vfs<M> {
 
     /// Reads a file.
     pub fn read(&self, fid: TypstFileId) -> FileResult<Bytes> {
-        let bytes = self.managed.lock().slot(fid, |entry| entry.bytes.clone());
+        let bytes = self
+            .managed
+            .lock()
+            .slot(fid, self.revision, |entry| entry.bytes.clone());
 
         self.read_content(&bytes, fid).clone()
     }
@@ -370,7 +373,9 @@ impl<M: PathAccessModel + Sized> Vfs<M> {
         let (bytes, source) = self
             .managed
             .lock()
-            .slot(file_id, |entry| (entry.bytes.clone(), entry.source.clone()));
+            .slot(file_id, self.revision, |entry| {
+                (entry.bytes.clone(), entry.source.clone())
+            });
 
         let source = source.get_or_init(|| {
             let content = self
@@ -494,7 +499,7 @@ impl<M: PathAccessModel + Sized> RevisingVfs<'_, M> {
 
     fn invalidate_file_id(&mut self, file_id: TypstFileId) {
         self.view_changed = true;
-        self.managed.slot(file_id, |e| {
+        self.managed.slot(file_id, self.goal_revision, |e| {
             e.changed_at = self.goal_revision.get();
             e.bytes = Arc::default();
             e.source = Arc::default();
@@ -611,13 +616,22 @@ impl EntryMap {
         }
     }
 
-    /// Read a slot.
+    /// Read a slot. It is unknown whether a file without a slot was changed
+    /// before, so that it is regarded as changed at the given revision.
     #[inline(always)]
-    fn slot<T>(&mut self, path: TypstFileId, f: impl FnOnce(&mut VfsEntry) -> T) -> T {
+    fn slot<T>(
+        &mut self,
+        path: TypstFileId,
+        revision: NonZeroUsize,
+        f: impl FnOnce(&mut VfsEntry) -> T,
+    ) -> T {
         if let Some(entry) = self.entries.get_mut(&path) {
             f(entry)
         } else {
-            let mut entry = VfsEntry::default();
+            let mut entry = VfsEntry {
+                changed_at: revision.get(),
+                ..VfsEntry::default()
+            };
             let res = f(&mut entry);
             self.entries.insert_mut(path, entry);
             res
-- 
2.43.0


From 489b63326da425b4ebfe205cd29b6a5700aaaba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 16/41] fix: a workspace root is interned once, however it is
 spelled

---
 crates/tinymist-vfs/src/path_mapper.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/tinymist-vfs/src/path_mapper.rs b/crates/tinymist-vfs/src/path_mapper.rs
index 80196d3..c8ca5a9 100644
--- a/crates/tinymist-vfs/src/path_mapper.rs
+++ b/crates/tinymist-vfs/src/path_mapper.rs
@@ -182,7 +182,11 @@ impl WorkspaceResolver {
             return id;
         }
 
+        // The entries are interned by their clean paths.
         let root = ImmutPath::from(root.clean());
+        if let Some(&id) = interner.to_id.get(&root) {
+            return id;
+        }
 
         // Create a new entry forever by leaking the pair. We can't leak more
         // than 2^16 pair (and typically will leak a lot less), so its not a
-- 
2.43.0


From 60a03055bb09c2542e3a92a5ae95e70776c19e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 17/41] fix: resetting the vfs reaches the underlying access
 model

---
 crates/tinymist-vfs/src/overlay.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/tinymist-vfs/src/overlay.rs b/crates/tinymist-vfs/src/overlay.rs
index 4c25211..f4a2a49 100644
--- a/crates/tinymist-vfs/src/overlay.rs
+++ b/crates/tinymist-vfs/src/overlay.rs
@@ -73,6 +73,10 @@ impl<K: Ord + Clone, M> OverlayAccessModel<K, M> {
 }
 
 impl<M: PathAccessModel> PathAccessModel for OverlayAccessModel<ImmutPath, M> {
+    fn reset(&mut self) {
+        self.inner.reset();
+    }
+
     fn content(&self, src: &Path) -> FileResult<Bytes> {
         if let Some(content) = self.files.get(src) {
             return content.content().cloned();
-- 
2.43.0


From f5f59cb569d28fb117bcf4512dbe6679c9b2ebd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 18/41] fix: a document that imports an unknown workspace does
 not panic

---
 crates/tinymist-vfs/src/path_mapper.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist-vfs/src/path_mapper.rs b/crates/tinymist-vfs/src/path_mapper.rs
index c8ca5a9..70c803e 100644
--- a/crates/tinymist-vfs/src/path_mapper.rs
+++ b/crates/tinymist-vfs/src/path_mapper.rs
@@ -128,8 +128,11 @@ impl WorkspaceId {
             return None;
         }
 
-        let num = name[1..].parse().ok()?;
-        Some(WorkspaceId(num))
+        let num: u16 = name[1..].parse().ok()?;
+        // The name may come from an import of a document, so that it may not be a
+        // workspace.
+        let is_interned = usize::from(num) < INTERNER.read().from_id.len();
+        is_interned.then_some(WorkspaceId(num))
     }
 }
 
-- 
2.43.0


From 30a2c9d70462e0efbca3f09a4ddf06189f75b1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:34 +0000
Subject: [PATCH 19/41] fix: a file that stays removed or empty is told to the
 consumer

---
 crates/tinymist-project/src/watch.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/crates/tinymist-project/src/watch.rs b/crates/tinymist-project/src/watch.rs
index cfe06da..8a7e847 100644
--- a/crates/tinymist-project/src/watch.rs
+++ b/crates/tinymist-project/src/watch.rs
@@ -378,6 +378,11 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                 // or truncating the file. They are possibly flushing the file
                 // but not finished yet.
                 WatchState::Stable => {
+                    // Ignores the error if the error is stable
+                    if it.as_ref().is_err_and(|it| it == err) {
+                        return None;
+                    }
+
                     if matches!(err.as_ref(), FileError::NotFound(..) | FileError::Other(..)) {
                         entry.state = WatchState::EmptyOrRemoval {
                             recheck_at: self.logical_tick,
@@ -393,11 +398,6 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                         return None;
                     }
                     // Otherwise, we push the error to the consumer.
-
-                    // Ignores the error if the error is stable
-                    if it.as_ref().is_err_and(|it| it == err) {
-                        return None;
-                    }
                 }
 
                 // Very complicated case of check error sequence, so we simplify
@@ -412,6 +412,10 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
             (Some(Ok(prev_content)), Ok(next_content)) => {
                 // So far it is accurately no change for the file, skip it
                 if prev_content == next_content {
+                    // The payload may be an error that is gone.
+                    if let WatchState::EmptyOrRemoval { payload, .. } = &mut entry.state {
+                        *payload = file;
+                    }
                     return None;
                 }
 
@@ -486,9 +490,7 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                 if recheck_at == event.at_logical_tick {
                     log::debug!("notify event real happened {event:?}, state: {payload:?}");
 
-                    if Some(&payload) == entry.prev.as_ref() {
-                        return None;
-                    }
+                    entry.prev = Some(payload.clone());
 
                     // Send the underlying change to the consumer
                     let mut changeset = FileChangeSet::default();
-- 
2.43.0


From 6b2dbebbed770c7d06a30d7cdf0e5f2b759c8d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:50 +0000
Subject: [PATCH 20/41] fix: a recheck of a file does not discard the recheck
 of a later event

---
 crates/tinymist-project/src/watch.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/crates/tinymist-project/src/watch.rs b/crates/tinymist-project/src/watch.rs
index 8a7e847..d3b6906 100644
--- a/crates/tinymist-project/src/watch.rs
+++ b/crates/tinymist-project/src/watch.rs
@@ -477,27 +477,28 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
         // Check whether the entry is still valid
         let entry = self.watched_entries.get_mut(&event.path)?;
 
+        // A later event is going to recheck the entry, so keep the state for it.
+        if matches!(entry.state, WatchState::EmptyOrRemoval { recheck_at, .. } if recheck_at != event.at_logical_tick)
+        {
+            return None;
+        }
+
         // Check the state of the entry
         match std::mem::take(&mut entry.state) {
             // If the entry is stable, we do nothing
             WatchState::Stable => {}
             // If the entry is not stable, and no other event is produced after
             // this event, we send the event to the consumer.
-            WatchState::EmptyOrRemoval {
-                recheck_at,
-                payload,
-            } => {
-                if recheck_at == event.at_logical_tick {
-                    log::debug!("notify event real happened {event:?}, state: {payload:?}");
+            WatchState::EmptyOrRemoval { payload, .. } => {
+                log::debug!("notify event real happened {event:?}, state: {payload:?}");
 
-                    entry.prev = Some(payload.clone());
+                entry.prev = Some(payload.clone());
 
-                    // Send the underlying change to the consumer
-                    let mut changeset = FileChangeSet::default();
-                    changeset.inserts.push((event.path, payload));
+                // Send the underlying change to the consumer
+                let mut changeset = FileChangeSet::default();
+                changeset.inserts.push((event.path, payload));
 
-                    (self.interrupted_by_events)(FilesystemEvent::Update(changeset));
-                }
+                (self.interrupted_by_events)(FilesystemEvent::Update(changeset));
             }
         };
 
-- 
2.43.0


From 39471699caedbb8f2371fdea48192ad5c3f10eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:48 +0000
Subject: [PATCH 21/41] fix: updates from upstream do not unwatch the
 dependencies

---
 crates/tinymist-project/src/watch.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/tinymist-project/src/watch.rs b/crates/tinymist-project/src/watch.rs
index d3b6906..bc7056b 100644
--- a/crates/tinymist-project/src/watch.rs
+++ b/crates/tinymist-project/src/watch.rs
@@ -185,7 +185,7 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                     self.invalidate_upstream(event);
                 }
                 ActorEvent::Message(Some(SyncDependency(paths))) => {
-                    if let Some(changeset) = self.update_watches(paths.as_ref()) {
+                    if let Some(changeset) = self.update_watches(paths.as_ref(), true) {
                         (self.interrupted_by_events)(FilesystemEvent::Update(changeset));
                     }
                 }
@@ -207,7 +207,9 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
     /// Update the watches of corresponding invalidation
     fn invalidate_upstream(&mut self, event: UpstreamUpdateEvent) {
         // Update watches of invalidated files.
-        let changeset = self.update_watches(&event.invalidates).unwrap_or_default();
+        let changeset = self
+            .update_watches(&event.invalidates, false)
+            .unwrap_or_default();
 
         // Send the event to the consumer.
         (self.interrupted_by_events)(FilesystemEvent::UpstreamUpdate {
@@ -216,10 +218,14 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
         });
     }
 
-    /// Update the watches of corresponding files.
-    fn update_watches(&mut self, paths: &dyn NotifyDeps) -> Option<FileChangeSet> {
-        // Increase the lifetime per external message.
-        self.lifetime += 1;
+    /// Update the watches of corresponding files. The files are all the
+    /// dependencies if `is_sync` is true. Otherwise, other files are kept
+    /// watched.
+    fn update_watches(&mut self, paths: &dyn NotifyDeps, is_sync: bool) -> Option<FileChangeSet> {
+        // Increase the lifetime per synchronization of dependencies.
+        if is_sync {
+            self.lifetime += 1;
+        }
 
         let mut changeset = FileChangeSet::default();
 
@@ -286,7 +292,7 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
         // Note: since we have increased the lifetime, it is safe to remove the
         // old entries after updating the watched entries.
         self.watched_entries.retain(|path, entry| {
-            if !entry.seen && entry.watching {
+            if is_sync && !entry.seen && entry.watching {
                 log::debug!("unwatch {path:?}");
                 if let Some(watcher) = &mut self.watcher {
                     log_notify_error(watcher.0.unwatch(path), "failed to unwatch");
-- 
2.43.0


From a4dc80483adadb0fff041cc01458b69263758d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:49 +0000
Subject: [PATCH 22/41] fix: a position beyond the end of its line means the
 end of the line

---
 crates/tinymist-analysis/src/location.rs | 53 +++++++++---------------
 1 file changed, 20 insertions(+), 33 deletions(-)

diff --git a/crates/tinymist-analysis/src/location.rs b/crates/tinymist-analysis/src/location.rs
index a775ad4..9cea36f 100644
--- a/crates/tinymist-analysis/src/location.rs
+++ b/crates/tinymist-analysis/src/location.rs
@@ -3,7 +3,7 @@
 use std::cmp::Ordering;
 use std::ops::Range;
 
-use typst::syntax::Source;
+use typst::syntax::{is_newline, Source};
 
 /// An LSP Position encoded by [`PositionEncoding`].
 type LspPosition = tinymist_world::debug_loc::LspPosition;
@@ -78,41 +78,28 @@ pub fn to_typst_position(
         return Some(typst_source.len_bytes());
     }
 
-    match lsp_position_encoding {
-        PositionEncoding::Utf8 => {
-            let line_index = lsp_position.line as usize;
-            let column_index = lsp_position.character as usize;
-            typst_source.line_column_to_byte(line_index, column_index)
+    // We have a line number and an offset into that line in units of the encoding.
+    // We want a byte offset into the file.
+    let line_range = typst_source.line_to_range(lsp_position.line as usize)?;
+    // The line terminator doesn't belong to the line. If the character is greater
+    // than the line length, it defaults back to the line length.
+    let line = typst_source.text().get(line_range.clone())?;
+    let line = line.trim_end_matches(is_newline);
+
+    let offset_in_line = lsp_position.character as usize;
+    let mut units = 0;
+    for (byte_offset_in_line, ch) in line.char_indices() {
+        if units >= offset_in_line {
+            return Some(line_range.start + byte_offset_in_line);
         }
-        PositionEncoding::Utf16 => {
-            // We have a line number and a UTF-16 offset into that line. We want a byte
-            // offset into the file.
-            //
-            // Typst's `Source` provides several UTF-16 methods:
-            //  - `len_utf16` for the length of the file
-            //  - `byte_to_utf16` to convert a byte offset from the start of the file to a
-            //    UTF-16 offset from the start of the file
-            //  - `utf16_to_byte` to do the opposite of `byte_to_utf16`
-            //
-            // Unfortunately, none of these address our needs well, so we do some math
-            // instead. This is not the fastest possible implementation, but
-            // it's the most reasonable without access to the internal state
-            // of `Source`.
-
-            // TODO: Typst's `Source` could easily provide an implementation of the method
-            // we need   here. Submit a PR against `typst` to add it, then
-            // update this if/when merged.
-
-            let line_index = lsp_position.line as usize;
-            let utf16_offset_in_line = lsp_position.character as usize;
 
-            let byte_line_offset = typst_source.line_to_byte(line_index)?;
-            let utf16_line_offset = typst_source.byte_to_utf16(byte_line_offset)?;
-            let utf16_offset = utf16_line_offset + utf16_offset_in_line;
-
-            typst_source.utf16_to_byte(utf16_offset)
-        }
+        units += match lsp_position_encoding {
+            PositionEncoding::Utf8 => ch.len_utf8(),
+            PositionEncoding::Utf16 => ch.len_utf16(),
+        };
     }
+
+    Some(line_range.start + line.len())
 }
 
 /// Convert a Typst position to an LSP position.
-- 
2.43.0


From ee0afeffb3da657e5bd90b98908ec0b814d65374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:55 +0000
Subject: [PATCH 23/41] fix: positions in UTF-8 count bytes

---
 crates/tinymist-analysis/src/location.rs     | 6 ++++--
 crates/tinymist-query/src/analysis/global.rs | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/tinymist-analysis/src/location.rs b/crates/tinymist-analysis/src/location.rs
index 9cea36f..b473808 100644
--- a/crates/tinymist-analysis/src/location.rs
+++ b/crates/tinymist-analysis/src/location.rs
@@ -113,11 +113,13 @@ pub fn to_lsp_position(
     }
 
     let line_index = typst_source.byte_to_line(typst_offset).unwrap();
-    let column_index = typst_source.byte_to_column(typst_offset).unwrap();
 
     let lsp_line = line_index as u32;
     let lsp_column = match lsp_position_encoding {
-        PositionEncoding::Utf8 => column_index as u32,
+        PositionEncoding::Utf8 => {
+            let byte_line_offset = typst_source.line_to_byte(line_index).unwrap();
+            (typst_offset - byte_line_offset) as u32
+        }
         PositionEncoding::Utf16 => {
             // See the implementation of `position_to_offset` for discussion
             // relevant to this function.
diff --git a/crates/tinymist-query/src/analysis/global.rs b/crates/tinymist-query/src/analysis/global.rs
index e3b59f2..636cf31 100644
--- a/crates/tinymist-query/src/analysis/global.rs
+++ b/crates/tinymist-query/src/analysis/global.rs
@@ -1360,7 +1360,7 @@ fn find_loc(
 
     let line = r as u32;
     let character = match encoding {
-        PositionEncoding::Utf8 => column_prefix.chars().count(),
+        PositionEncoding::Utf8 => column_prefix.len(),
         PositionEncoding::Utf16 => column_prefix.chars().map(|ch| ch.len_utf16()).sum(),
     } as u32;
 
-- 
2.43.0


From f4c0ae3ef209516d44bc29fb41dadcd388b55a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:56 +0000
Subject: [PATCH 24/41] fix: semantic tokens do not overlap

---
 crates/tinymist-query/src/analysis/semantic_tokens.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/tinymist-query/src/analysis/semantic_tokens.rs b/crates/tinymist-query/src/analysis/semantic_tokens.rs
index d87b5a9..57fb4e8 100644
--- a/crates/tinymist-query/src/analysis/semantic_tokens.rs
+++ b/crates/tinymist-query/src/analysis/semantic_tokens.rs
@@ -399,10 +399,10 @@ impl Tokenizer {
         // This might be a bug of typst, that `end > len` is possible
         let source_len = self.source.text().len();
         let utf8_end = (range.end).min(source_len);
-        self.pos_offset = utf8_start;
         if utf8_end <= utf8_start || utf8_start > source_len {
             return;
         }
+        self.pos_offset = utf8_end;
 
         let position = lsp_typst_boundary::to_lsp_position(utf8_start, self.encoding, &self.source);
 
@@ -478,7 +478,6 @@ impl Tokenizer {
                 } else {
                     delta_line += 1;
                 }
-                self.pos_offset = utf8_cursor;
                 utf8_cursor = next_offset;
             }
             self.curr_pos.line = final_line - delta_line;
-- 
2.43.0


From 90127692865195ee01a162ede4531cb16f879a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:56 +0000
Subject: [PATCH 25/41] fix: clearing the semantic token cache keeps the ids
 and the locks given out

---
 crates/tinymist-query/src/analysis/semantic_tokens.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist-query/src/analysis/semantic_tokens.rs b/crates/tinymist-query/src/analysis/semantic_tokens.rs
index 57fb4e8..65ec83a 100644
--- a/crates/tinymist-query/src/analysis/semantic_tokens.rs
+++ b/crates/tinymist-query/src/analysis/semantic_tokens.rs
@@ -47,8 +47,11 @@ pub struct SemanticTokenCache {
 
 impl SemanticTokenCache {
     pub(crate) fn clear(&mut self) {
-        self.next_id = 0;
-        self.manager.clear();
+        // The clients may still hold the ids we gave and the contexts their locks, so
+        // we neither reuse the ids nor forget the locks.
+        for manager in self.manager.values_mut() {
+            manager.clear();
+        }
     }
 
     /// Lock the token cache with an optional previous id in *main thread*.
-- 
2.43.0


From 66d1489522c3b07e4ea6cd98bf2f953a2221178e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:07 +0000
Subject: [PATCH 26/41] fix: revisions without a common base do not share their
 analyses

---
 crates/tinymist-query/src/analysis/global.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/tinymist-query/src/analysis/global.rs b/crates/tinymist-query/src/analysis/global.rs
index 636cf31..86eea4b 100644
--- a/crates/tinymist-query/src/analysis/global.rs
+++ b/crates/tinymist-query/src/analysis/global.rs
@@ -1240,14 +1240,14 @@ impl AnalysisRevCache {
         lg.inner.access(revision);
         self.manager.find_revision(revision, |slot_base| {
             log::debug!("analysis revision {} is created", revision.get());
-            slot_base
-                .map(|slot| AnalysisRevSlot {
-                    revision: slot.revision,
-                    expr_stage: slot.data.expr_stage.crawl(revision.get()),
-                    type_check: slot.data.type_check.crawl(revision.get()),
-                    lint: slot.data.lint.crawl(revision.get()),
-                })
-                .unwrap_or_else(|| self.default_slot.clone())
+            // The revisions without base must not share what they compute as well.
+            let base = slot_base.map_or(&self.default_slot, |slot| &slot.data);
+            AnalysisRevSlot {
+                revision: revision.get(),
+                expr_stage: base.expr_stage.crawl(revision.get()),
+                type_check: base.type_check.crawl(revision.get()),
+                lint: base.lint.crawl(revision.get()),
+            }
         })
     }
 }
-- 
2.43.0


From 8daca5da3851a3e418afdd38d92588e0f080dc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:41 +0000
Subject: [PATCH 27/41] fix: events for a settled project do not panic

---
 crates/tinymist-project/src/compiler.rs | 28 ++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/crates/tinymist-project/src/compiler.rs b/crates/tinymist-project/src/compiler.rs
index 9fc301e..d35f11a 100644
--- a/crates/tinymist-project/src/compiler.rs
+++ b/crates/tinymist-project/src/compiler.rs
@@ -458,12 +458,17 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
         primary: &'a mut ProjectInsState<F, Ext>,
         dedicates: &'a mut [ProjectInsState<F, Ext>],
         id: &ProjectInsId,
-    ) -> &'a mut ProjectInsState<F, Ext> {
+    ) -> Option<&'a mut ProjectInsState<F, Ext>> {
         if id == &primary.id {
-            return primary;
+            return Some(primary);
         }
 
-        dedicates.iter_mut().find(|e| e.id == *id).unwrap()
+        let proj = dedicates.iter_mut().find(|e| e.id == *id);
+        if proj.is_none() {
+            // It may have been settled meanwhile.
+            log::warn!("ProjectCompiler: project not found {id:?}");
+        }
+        proj
     }
 
     /// Clear all dedicate projects.
@@ -524,7 +529,10 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
     fn process_inner(&mut self, intr: Interrupt<F>) {
         match intr {
             Interrupt::Compile(id) => {
-                let proj = Self::find_project(&mut self.primary, &mut self.dedicates, &id);
+                let Some(proj) = Self::find_project(&mut self.primary, &mut self.dedicates, &id)
+                else {
+                    return;
+                };
                 // Increment the revision anyway.
                 proj.verse.increment_revision(|verse| {
                     verse.flush();
@@ -533,8 +541,11 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
                 proj.reason.see(reason_by_entry_change());
             }
             Interrupt::Compiled(artifact) => {
-                let proj =
-                    Self::find_project(&mut self.primary, &mut self.dedicates, artifact.id());
+                let Some(proj) =
+                    Self::find_project(&mut self.primary, &mut self.dedicates, artifact.id())
+                else {
+                    return;
+                };
 
                 let processed = proj.process_compile(artifact);
 
@@ -552,7 +563,10 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
                 self.remove_dedicates(&id);
             }
             Interrupt::ChangeTask(id, change) => {
-                let proj = Self::find_project(&mut self.primary, &mut self.dedicates, &id);
+                let Some(proj) = Self::find_project(&mut self.primary, &mut self.dedicates, &id)
+                else {
+                    return;
+                };
                 proj.verse.increment_revision(|verse| {
                     if let Some(inputs) = change.inputs.clone() {
                         verse.set_inputs(inputs);
-- 
2.43.0


From b1fe03696bd59a5f16f4b4ced94e3cd9d52cfd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:41 +0000
Subject: [PATCH 28/41] fix: a delayed memory event does not overtake a newer
 one

---
 crates/tinymist-project/src/compiler.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/tinymist-project/src/compiler.rs b/crates/tinymist-project/src/compiler.rs
index d35f11a..15e2360 100644
--- a/crates/tinymist-project/src/compiler.rs
+++ b/crates/tinymist-project/src/compiler.rs
@@ -520,6 +520,7 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
 
     /// Process an interrupt.
     pub fn process(&mut self, intr: Interrupt<F>) {
+        self.logical_tick += 1;
         // todo: evcit cache
         self.process_inner(intr);
         // Customized Project Compilation Handler
-- 
2.43.0


From e9f7859049e66a9e7b470e656f225f8650410e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:31 +0000
Subject: [PATCH 29/41] fix: outdated diagnostics do not replace newer ones

---
 crates/tinymist/src/actor/editor.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/tinymist/src/actor/editor.rs b/crates/tinymist/src/actor/editor.rs
index b9a4533..222e512 100644
--- a/crates/tinymist/src/actor/editor.rs
+++ b/crates/tinymist/src/actor/editor.rs
@@ -50,6 +50,9 @@ pub struct EditorActor {
     diagnostics: HashMap<Url, HashMap<ProjectInsId, EcoVec<Diagnostic>>>,
     /// The map from project ID to the affected files.
     affect_map: HashMap<ProjectInsId, Vec<Url>>,
+    /// The revisions of the diagnostics that were published last. The
+    /// diagnostics of a revision may come later than those of a newer one.
+    revisions: HashMap<ProjectInsId, usize>,
 }
 
 impl EditorActor {
@@ -64,6 +67,7 @@ impl EditorActor {
             editor_rx,
             diagnostics: HashMap::new(),
             affect_map: HashMap::new(),
+            revisions: HashMap::new(),
             config: EditorActorConfig { notify_status },
         }
     }
@@ -91,6 +95,13 @@ impl EditorActor {
                         diagnostics.as_ref().map(|files| files.len())
                     );
 
+                    let revision = self.revisions.entry(version.id.clone()).or_default();
+                    if *revision > version.revision {
+                        log::info!("outdated diagnostics from {version:?} <= {revision}");
+                        continue;
+                    }
+                    *revision = version.revision;
+
                     self.publish(version.id, diagnostics).await;
                 }
                 EditorRequest::Status(compile_status) => {
-- 
2.43.0


From 5c4bc3ec7d43bfb38e5d69a1cda851420c1aecf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:32 +0000
Subject: [PATCH 30/41] fix: compilations of a removed project are not taken
 for those of its successor

---
 crates/tinymist-project/src/compiler.rs | 55 +++++++++++++++++++++----
 crates/tinymist/src/project.rs          | 15 ++++---
 2 files changed, 56 insertions(+), 14 deletions(-)

diff --git a/crates/tinymist-project/src/compiler.rs b/crates/tinymist-project/src/compiler.rs
index 15e2360..4b0b33e 100644
--- a/crates/tinymist-project/src/compiler.rs
+++ b/crates/tinymist-project/src/compiler.rs
@@ -2,6 +2,7 @@
 
 use core::fmt;
 use std::collections::HashSet;
+use std::num::NonZeroUsize;
 use std::path::Path;
 use std::sync::{Arc, OnceLock};
 
@@ -208,8 +209,10 @@ pub trait CompileHandler<F: CompilerFeat, Ext>: Send + Sync + 'static {
     // todo: notify project specific compile
     /// Called when a compilation is done.
     fn notify_compile(&self, res: &CompiledArtifact<F>);
-    /// Called when a project is removed.
-    fn notify_removed(&self, _id: &ProjectInsId) {}
+    /// Called when a project is removed. The compilations of the project up to
+    /// the revision are outdated. A later project of the same id starts beyond
+    /// the revision.
+    fn notify_removed(&self, _id: &ProjectInsId, _revision: usize) {}
     /// Called when the compilation status is changed.
     fn status(&self, revision: usize, rep: CompileReport);
 }
@@ -380,6 +383,9 @@ pub struct ProjectCompiler<F: CompilerFeat, Ext> {
     pub dedicates: Vec<ProjectInsState<F, Ext>>,
     /// The project file dependencies.
     deps: ProjectDeps,
+    /// The last revision of the dedicate tasks removed. The compilations of a
+    /// removed task may still end while another task has taken over its id.
+    removed_revision: usize,
 }
 
 impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCompiler<F, Ext> {
@@ -413,6 +419,7 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
             primary,
             deps: Default::default(),
             dedicates: vec![],
+            removed_revision: 0,
         }
     }
 
@@ -494,6 +501,7 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
         proj.reason.see(reason_by_entry_change());
 
         self.remove_dedicates(&id);
+        proj.start_after(self.removed_revision);
         self.dedicates.push(proj);
 
         Ok(id)
@@ -502,13 +510,16 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
     fn remove_dedicates(&mut self, id: &ProjectInsId) {
         let proj = self.dedicates.iter().position(|e| e.id == *id);
         if let Some(idx) = proj {
-            // Resets the handle state, e.g. notified revision
-            self.handler.notify_removed(id);
             self.deps.project_deps.remove_mut(id);
 
-            let _proj = self.dedicates.remove(idx);
+            let proj = self.dedicates.remove(idx);
             // todo: kill compilations
 
+            // Resets the handle state, e.g. notified revision
+            let revision = proj.verse.revision.get();
+            self.removed_revision = self.removed_revision.max(revision);
+            self.handler.notify_removed(id, revision);
+
             let res = self
                 .dep_tx
                 .send(NotifyMessage::SyncDependency(Box::new(self.deps.clone())));
@@ -518,6 +529,19 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
         }
     }
 
+    /// Removes all the projects, as those of the `next` compiler take over
+    /// their ids.
+    pub fn hand_over(&mut self, next: &mut Self) {
+        while let Some(id) = self.dedicates.last().map(|e| e.id.clone()) {
+            self.remove_dedicates(&id);
+        }
+
+        let revision = self.primary.verse.revision.get();
+        self.handler.notify_removed(&self.primary.id, revision);
+        next.primary.start_after(revision);
+        next.removed_revision = next.removed_revision.max(self.removed_revision);
+    }
+
     /// Process an interrupt.
     pub fn process(&mut self, intr: Interrupt<F>) {
         self.logical_tick += 1;
@@ -801,6 +825,21 @@ impl<F: CompilerFeat, Ext: 'static> ProjectInsState<F, Ext> {
         WorldComputeGraph::new(snap)
     }
 
+    /// Lets the revisions of a fresh project start after the given one, which
+    /// is the last of another project that had its id.
+    fn start_after(&mut self, revision: usize) {
+        if let Some(next) = NonZeroUsize::new(revision + 1) {
+            self.verse.revision = next;
+            self.committed_revision = revision;
+        }
+    }
+
+    /// Whether the artifact is older than the last one that was processed, or
+    /// comes of another project that had the id of this project.
+    pub fn is_outdated(&self, artifact: &CompiledArtifact<F>) -> bool {
+        self.committed_revision >= artifact.world().revision().get()
+    }
+
     /// Compile the document once if there is any reason and the entry is
     /// active. (this is used for experimenting typst.node compilations)
     #[must_use]
@@ -887,11 +926,11 @@ impl<F: CompilerFeat, Ext: 'static> ProjectInsState<F, Ext> {
     }
 
     fn process_compile(&mut self, artifact: CompiledArtifact<F>) -> bool {
-        let world = &artifact.snap.world;
-        let compiled_revision = world.revision().get();
-        if self.committed_revision >= compiled_revision {
+        if self.is_outdated(&artifact) {
             return false;
         }
+        let world = &artifact.snap.world;
+        let compiled_revision = world.revision().get();
 
         // Update state.
         let doc = artifact.doc.clone();
diff --git a/crates/tinymist/src/project.rs b/crates/tinymist/src/project.rs
index 8218a10..cfebdbd 100644
--- a/crates/tinymist/src/project.rs
+++ b/crates/tinymist/src/project.rs
@@ -95,6 +95,9 @@ impl ServerState {
         let mut old_project = std::mem::replace(&mut self.project, new_project);
 
         // todo: the old dedicate projects should be transferred.
+        // The compilations of the old projects that are under way are outdated.
+        let next = &mut self.project.compiler;
+        old_project.compiler.hand_over(next);
 
         let snapshot = FileChangeSet::new_inserts(
             self.memory_changes
@@ -309,7 +312,7 @@ impl ProjectState {
     pub fn do_interrupt(compiler: &mut LspProjectCompiler, intr: Interrupt<LspCompilerFeat>) {
         if let Interrupt::Compiled(compiled) = &intr {
             let proj = compiler.projects().find(|p| &p.id == compiled.id());
-            if let Some(proj) = proj {
+            if let Some(proj) = proj.filter(|p| !p.is_outdated(compiled)) {
                 proj.ext
                     .compiled(&proj.verse.revision, proj.handler.as_ref(), compiled);
             }
@@ -580,16 +583,16 @@ impl CompileHandler<LspCompilerFeat, ProjectInsStateExt> for CompileHandlerImpl
         self.editor_tx.send(EditorRequest::Status(rep)).unwrap();
     }
 
-    fn notify_removed(&self, id: &ProjectInsId) {
-        let n_revs = &mut self.notified_revision.lock();
-        let last_rev = n_revs.remove(id).unwrap_or_default();
+    fn notify_removed(&self, id: &ProjectInsId, revision: usize) {
+        // Compilations under way must not notify anymore.
+        self.notified_revision.lock().insert(id.clone(), revision);
 
+        // Beyond the diagnostics of the compilations that are about to be sent.
         let dv = ProjVersion {
             id: id.clone(),
-            revision: last_rev,
+            revision: revision + 1,
         };
 
-        // todo: race condition with notify_compile?
         // remove diagnostics
         self.push_diagnostics(dv, None);
     }
-- 
2.43.0


From 15f43af1de9d027e35dddf31b37253460d068244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:32 +0000
Subject: [PATCH 31/41] fix: a document of another entry is not the last one of
 the current entry

---
 crates/tinymist-project/src/compiler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-project/src/compiler.rs b/crates/tinymist-project/src/compiler.rs
index 4b0b33e..73839f4 100644
--- a/crates/tinymist-project/src/compiler.rs
+++ b/crates/tinymist-project/src/compiler.rs
@@ -935,7 +935,8 @@ impl<F: CompilerFeat, Ext: 'static> ProjectInsState<F, Ext> {
         // Update state.
         let doc = artifact.doc.clone();
         self.committed_revision = compiled_revision;
-        if doc.is_some() {
+        // The entry may have changed during the compilation.
+        if doc.is_some() && world.main_id() == self.verse.main_id() {
             self.latest_success_doc = doc;
         }
 
-- 
2.43.0


From 6a4cbbe8ef4aadac03ccd39bc5b44e4cb5906385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:53 +0000
Subject: [PATCH 32/41] fix: memory events delayed before a reload do not
 overwrite what is open

---
 crates/tinymist-project/src/compiler.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist-project/src/compiler.rs b/crates/tinymist-project/src/compiler.rs
index 73839f4..2376ff8 100644
--- a/crates/tinymist-project/src/compiler.rs
+++ b/crates/tinymist-project/src/compiler.rs
@@ -372,6 +372,9 @@ pub struct ProjectCompiler<F: CompilerFeat, Ext> {
 
     /// The current logical tick.
     logical_tick: usize,
+    /// The logical tick when this compiler took over from another one. Memory
+    /// events that were delayed before are outdated.
+    start_logical_tick: usize,
     /// Last logical tick when invalidation is caused by shadow update.
     dirty_shadow_logical_tick: usize,
     /// Estimated latest set of shadow files.
@@ -412,6 +415,7 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
             export_target,
 
             logical_tick: 1,
+            start_logical_tick: 0,
             dirty_shadow_logical_tick: 0,
 
             estimated_shadow_files: Default::default(),
@@ -540,6 +544,9 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
         self.handler.notify_removed(&self.primary.id, revision);
         next.primary.start_after(revision);
         next.removed_revision = next.removed_revision.max(self.removed_revision);
+
+        next.logical_tick = self.logical_tick + 1;
+        next.start_logical_tick = next.logical_tick;
     }
 
     /// Process an interrupt.
@@ -695,6 +702,7 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
                 log::debug!("ProjectCompiler: fs event incoming {event:?}");
 
                 // Apply file system changes.
+                let start_tick = self.start_logical_tick;
                 let dirty_tick = &mut self.dirty_shadow_logical_tick;
                 let (changes, event) = event.split();
                 let changes = std::iter::repeat_n(changes, 1 + self.dedicates.len());
@@ -707,8 +715,10 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
 
                             // Handle delayed upstream update event before applying file system
                             // changes
-                            if Self::apply_delayed_memory_changes(&mut vfs, dirty_tick, &event)
-                                .is_none()
+                            if Self::apply_delayed_memory_changes(
+                                &mut vfs, start_tick, dirty_tick, &event,
+                            )
+                            .is_none()
                             {
                                 log::warn!("ProjectCompiler: unknown upstream update event");
 
@@ -731,6 +741,7 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
     /// Apply delayed memory changes to underlying compiler.
     fn apply_delayed_memory_changes(
         verse: &mut RevisingVfs<'_, F::AccessModel>,
+        start_logical_tick: usize,
         dirty_shadow_logical_tick: &mut usize,
         event: &Option<UpstreamUpdateEvent>,
     ) -> Option<()> {
@@ -741,6 +752,11 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
                 event,
             } = event.opaque.as_ref().downcast_ref()?;
 
+            // The event was sent by the compiler that this one took over from.
+            if *logical_tick < start_logical_tick {
+                return Some(());
+            }
+
             // Recovery from dirty shadow state.
             if logical_tick == dirty_shadow_logical_tick {
                 *dirty_shadow_logical_tick = 0;
-- 
2.43.0


From 473cb3f1d260416b7d66bb9dd0f6d953a735edc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:35 +0000
Subject: [PATCH 33/41] fix: a change with an inverted range is refused instead
 of panicking

---
 crates/tinymist/src/input.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/tinymist/src/input.rs b/crates/tinymist/src/input.rs
index ff4b1de..92516c7 100644
--- a/crates/tinymist/src/input.rs
+++ b/crates/tinymist/src/input.rs
@@ -60,19 +60,23 @@ impl ServerState {
             .get_mut(&path)
             .ok_or_else(|| error_once!("file missing", path: path.display()))?;
 
+        // Either all the changes are applied, or none of them.
+        let mut edited = source.clone();
         for change in content {
             let replacement = change.text;
             match change.range {
                 Some(lsp_range) => {
-                    let range = to_typst_range(lsp_range, position_encoding, source)
-                        .expect("invalid range");
-                    source.edit(range, &replacement);
+                    let range = to_typst_range(lsp_range, position_encoding, &edited)
+                        .filter(|range| range.start <= range.end)
+                        .ok_or_else(|| error_once!("invalid range", path: path.display()))?;
+                    edited.edit(range, &replacement);
                 }
                 None => {
-                    source.replace(&replacement);
+                    edited.replace(&replacement);
                 }
             }
         }
+        *source = edited;
 
         let snapshot = FileResult::Ok(Bytes::from_string(source.text().to_owned())).into();
 
-- 
2.43.0


From 03f9630baec28e86c830f6f5b6a864b34b1ecc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:35 +0000
Subject: [PATCH 34/41] fix: special characters of an untitled document are
 kept in its URL

---
 crates/tinymist-query/src/lsp_typst_boundary.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-query/src/lsp_typst_boundary.rs b/crates/tinymist-query/src/lsp_typst_boundary.rs
index 912f4ff..6f1d3ab 100644
--- a/crates/tinymist-query/src/lsp_typst_boundary.rs
+++ b/crates/tinymist-query/src/lsp_typst_boundary.rs
@@ -1,5 +1,6 @@
 //! Conversions between Typst and LSP types and representations
 
+use percent_encoding::{utf8_percent_encode, AsciiSet, CONTROLS};
 use tinymist_std::path::PathClean;
 use tinymist_world::vfs::PathResolution;
 
@@ -15,9 +16,14 @@ pub use tinymist_analysis::location::*;
 const UNTITLED_ROOT: &str = "/untitled";
 static EMPTY_URL: LazyLock<Url> = LazyLock::new(|| Url::parse("file://").unwrap());
 
+/// The characters of an untitled path that have another meaning in a URL.
+const UNTITLED_ESCAPED: &AsciiSet = &CONTROLS.add(b' ').add(b'#').add(b'%').add(b'?');
+
 /// Convert a path to a URL.
 pub fn untitled_url(path: &Path) -> anyhow::Result<Url> {
-    Ok(Url::parse(&format!("untitled:{}", path.display()))?)
+    let path = path.display().to_string();
+    let path = utf8_percent_encode(&path, UNTITLED_ESCAPED);
+    Ok(Url::parse(&format!("untitled:{path}"))?)
 }
 
 /// Convert a path to a URL.
-- 
2.43.0


From 74d37a60c83dd2fde53e76f2c903e232e3e60079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:35 +0000
Subject: [PATCH 35/41] fix: the URL of a document that has no path does not
 panic

---
 crates/tinymist-query/src/lsp_typst_boundary.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/tinymist-query/src/lsp_typst_boundary.rs b/crates/tinymist-query/src/lsp_typst_boundary.rs
index 6f1d3ab..a7d0948 100644
--- a/crates/tinymist-query/src/lsp_typst_boundary.rs
+++ b/crates/tinymist-query/src/lsp_typst_boundary.rs
@@ -1,6 +1,6 @@
 //! Conversions between Typst and LSP types and representations
 
-use percent_encoding::{utf8_percent_encode, AsciiSet, CONTROLS};
+use percent_encoding::{utf8_percent_encode, AsciiSet, CONTROLS, NON_ALPHANUMERIC};
 use tinymist_std::path::PathClean;
 use tinymist_world::vfs::PathResolution;
 
@@ -60,9 +60,7 @@ pub fn url_to_path(uri: Url) -> PathBuf {
             return PathBuf::from("/untitled/nEoViM-BuG");
         }
 
-        return uri
-            .to_file_path()
-            .unwrap_or_else(|_| panic!("could not convert URI to path: URI: {uri:?}",));
+        return uri.to_file_path().unwrap_or_else(|_| foreign_path(&uri));
     }
 
     if uri.scheme() == "untitled" {
@@ -79,7 +77,14 @@ pub fn url_to_path(uri: Url) -> PathBuf {
         return Path::new(String::from_utf8_lossy(&bytes).as_ref()).clean();
     }
 
-    uri.to_file_path().unwrap()
+    uri.to_file_path().unwrap_or_else(|_| foreign_path(&uri))
+}
+
+/// The path that stands for a document that is not in the file system.
+fn foreign_path(uri: &Url) -> PathBuf {
+    log::warn!("could not convert URI to path: URI: {uri:?}");
+    let name = utf8_percent_encode(uri.as_str(), NON_ALPHANUMERIC);
+    Path::new(UNTITLED_ROOT).join(name.to_string())
 }
 
 #[cfg(test)]
-- 
2.43.0


From 06e2d7f660017a62ba2f828326dfbfcc60392ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:22 +0000
Subject: [PATCH 36/41] fix: formatting does not drop a change within a
 multi-byte character

---
 crates/tinymist/src/task/format.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tinymist/src/task/format.rs b/crates/tinymist/src/task/format.rs
index f515705..783ddff 100644
--- a/crates/tinymist/src/task/format.rs
+++ b/crates/tinymist/src/task/format.rs
@@ -79,7 +79,7 @@ fn calc_diff(prev: Source, next: String, encoding: PositionEncoding) -> Option<V
         .count();
 
     while !old.is_char_boundary(old.len() - suffix) || !new.is_char_boundary(new.len() - suffix) {
-        suffix += 1;
+        suffix -= 1;
     }
 
     let replace = prefix..old.len() - suffix;
-- 
2.43.0


From b7cae572538ab40d63c9830c4085d160252d27e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:22 +0000
Subject: [PATCH 37/41] fix: formatting does not split a line end of two
 characters

---
 crates/tinymist/src/task/format.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist/src/task/format.rs b/crates/tinymist/src/task/format.rs
index 783ddff..26bad02 100644
--- a/crates/tinymist/src/task/format.rs
+++ b/crates/tinymist/src/task/format.rs
@@ -70,7 +70,10 @@ fn calc_diff(prev: Source, next: String, encoding: PositionEncoding) -> Option<V
         return Some(vec![]);
     }
 
-    while !old.is_char_boundary(prefix) || !new.is_char_boundary(prefix) {
+    // A position cannot be between `\r` and `\n`, which end a line together.
+    let in_line_end = |idx: usize| old[..idx].ends_with('\r') && old[idx..].starts_with('\n');
+
+    while !old.is_char_boundary(prefix) || !new.is_char_boundary(prefix) || in_line_end(prefix) {
         prefix -= 1;
     }
 
@@ -78,7 +81,10 @@ fn calc_diff(prev: Source, next: String, encoding: PositionEncoding) -> Option<V
         .take_while(|(x, y)| x == y)
         .count();
 
-    while !old.is_char_boundary(old.len() - suffix) || !new.is_char_boundary(new.len() - suffix) {
+    while !old.is_char_boundary(old.len() - suffix)
+        || !new.is_char_boundary(new.len() - suffix)
+        || in_line_end(old.len() - suffix)
+    {
         suffix -= 1;
     }
 
-- 
2.43.0


From c08152b49664f9a2baa1b14517ecaf5e81d8f089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:22 +0000
Subject: [PATCH 38/41] fix: a resource path with colons is read back

---
 crates/tinymist-task/src/primitives.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/crates/tinymist-task/src/primitives.rs b/crates/tinymist-task/src/primitives.rs
index e1ba2ad..fee5089 100644
--- a/crates/tinymist-task/src/primitives.rs
+++ b/crates/tinymist-task/src/primitives.rs
@@ -270,14 +270,9 @@ impl FromStr for ResourcePath {
     type Err = &'static str;
 
     fn from_str(value: &str) -> Result<Self, Self::Err> {
-        let mut parts = value.split(':');
-        let scheme = parts.next().ok_or("missing scheme")?;
-        let path = parts.next().ok_or("missing path")?;
-        if parts.next().is_some() {
-            Err("too many colons")
-        } else {
-            Ok(ResourcePath(scheme.into(), path.to_string()))
-        }
+        // The path may have colons, e.g. that of a package file.
+        let (scheme, path) = value.split_once(':').ok_or("missing path")?;
+        Ok(ResourcePath(scheme.into(), path.to_string()))
     }
 }
 
-- 
2.43.0


From 06961cc50bf91d1963f014e88fa81dadc7cdc6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:22 +0000
Subject: [PATCH 39/41] fix: what is substituted in a path pattern is not
 substituted again

---
 crates/tinymist-task/src/primitives.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/crates/tinymist-task/src/primitives.rs b/crates/tinymist-task/src/primitives.rs
index fee5089..ee39843 100644
--- a/crates/tinymist-task/src/primitives.rs
+++ b/crates/tinymist-task/src/primitives.rs
@@ -157,13 +157,24 @@ impl PathPattern {
         let w = root.to_string_lossy();
         let f = file_name.to_string_lossy();
 
-        // replace all $root
-        let mut path = self.0.replace("$root", &w);
-        if let Some(dir) = dir {
-            let d = dir.to_string_lossy();
-            path = path.replace("$dir", &d);
+        let d = dir.map(Path::to_string_lossy).unwrap_or_default();
+
+        // replace all variables, but not in what is substituted for them
+        let vars = [("$root", w), ("$dir", d), ("$name", f)];
+        let mut path = String::new();
+        let mut rest = self.0.as_str();
+        while let Some(idx) = rest.find('$') {
+            path.push_str(&rest[..idx]);
+            rest = &rest[idx..];
+
+            let var = vars
+                .iter()
+                .find_map(|(var, value)| Some((value.as_ref(), rest.strip_prefix(var)?)));
+            let (value, tail) = var.unwrap_or_else(|| rest.split_at(1));
+            path.push_str(value);
+            rest = tail;
         }
-        path = path.replace("$name", &f);
+        path.push_str(rest);
 
         Some(Path::new(path.as_str()).clean().into())
     }
-- 
2.43.0


From dd4a4d9c5a92c1e749751288f4852a522a25a469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:22 +0000
Subject: [PATCH 40/41] fix: an export of a project does not displace that of
 another

---
 crates/tinymist/src/task/export.rs |  4 ++--
 crates/tinymist/src/task/mod.rs    | 19 ++++++++++++-------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/crates/tinymist/src/task/export.rs b/crates/tinymist/src/task/export.rs
index bc6a07a..a2178d1 100644
--- a/crates/tinymist/src/task/export.rs
+++ b/crates/tinymist/src/task/export.rs
@@ -82,7 +82,7 @@ impl ExportTask {
         }
 
         let rev = artifact.world().revision().get();
-        let fut = self.export_folder.spawn(rev, || {
+        let fut = self.export_folder.spawn(artifact.id(), rev, || {
             let task = config.task.clone();
             let artifact = artifact.clone();
             Box::pin(async move {
@@ -107,7 +107,7 @@ impl ExportTask {
 
         let editor_tx = self.editor_tx.clone()?;
         let rev = artifact.world().revision().get();
-        let fut = self.count_word_folder.spawn(rev, || {
+        let fut = self.count_word_folder.spawn(artifact.id(), rev, || {
             let artifact = artifact.clone();
             Box::pin(async move {
                 let id = artifact.id().clone();
diff --git a/crates/tinymist/src/task/mod.rs b/crates/tinymist/src/task/mod.rs
index 0c9cf8c..061a8db 100644
--- a/crates/tinymist/src/task/mod.rs
+++ b/crates/tinymist/src/task/mod.rs
@@ -10,7 +10,7 @@ pub use format::*;
 mod user_action;
 pub use user_action::*;
 
-use std::{ops::DerefMut, pin::Pin, sync::Arc};
+use std::{collections::VecDeque, ops::DerefMut, pin::Pin, sync::Arc};
 
 use futures::Future;
 use parking_lot::Mutex;
@@ -18,6 +18,8 @@ use rayon::Scope;
 use reflexo::TakeAs;
 use tinymist_std::error::prelude::*;
 
+use crate::project::ProjectInsId;
+
 /// Please uses this if you believe all mutations are fast
 #[derive(Clone, Default)]
 pub struct SyncTaskFactory<T>(Arc<std::sync::RwLock<Arc<T>>>);
@@ -46,7 +48,8 @@ type FoldFuture = Pin<Box<dyn Future<Output = Option<()>> + Send>>;
 #[derive(Default)]
 struct FoldingState {
     running: bool,
-    task: Option<(usize, FoldFuture)>,
+    /// The next task of each project.
+    tasks: VecDeque<(ProjectInsId, usize, FoldFuture)>,
 }
 
 #[derive(Clone, Default)]
@@ -67,14 +70,16 @@ impl FutureFolder {
     #[must_use]
     fn spawn(
         &self,
+        id: &ProjectInsId,
         revision: usize,
         fut: impl FnOnce() -> FoldFuture,
     ) -> Option<impl Future<Output = ()> + Send + 'static> {
         let mut state = self.state.lock();
         let state = state.deref_mut();
 
-        match &mut state.task {
-            Some((prev_revision, prev)) => {
+        // The revisions of different projects are not comparable.
+        match state.tasks.iter_mut().find(|(prev_id, ..)| prev_id == id) {
+            Some((_, prev_revision, prev)) => {
                 if *prev_revision < revision {
                     *prev = fut();
                     *prev_revision = revision;
@@ -82,8 +87,8 @@ impl FutureFolder {
 
                 return None;
             }
-            next_update => {
-                *next_update = Some((revision, fut()));
+            None => {
+                state.tasks.push_back((id.clone(), revision, fut()));
             }
         }
 
@@ -98,7 +103,7 @@ impl FutureFolder {
             loop {
                 let fut = {
                     let mut state = state.lock();
-                    let Some((_, fut)) = state.task.take() else {
+                    let Some((_, _, fut)) = state.tasks.pop_front() else {
                         state.running = false;
                         return;
                     };
-- 
2.43.0


From b85e75980ae3f1673024a34baef224d73968bee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:02 +0000
Subject: [PATCH 41/41] fix: the paths in a lock file lead from its own
 directory

The server wrote the main file, fonts and packages of a document relative to
its current directory, while every reader takes them relative to the directory
storing the lock file, and thus found other files.
---
 crates/tinymist-project/src/lock.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/tinymist-project/src/lock.rs b/crates/tinymist-project/src/lock.rs
index 74cd273..1f38bd3 100644
--- a/crates/tinymist-project/src/lock.rs
+++ b/crates/tinymist-project/src/lock.rs
@@ -241,14 +241,21 @@ impl LockFileUpdate {
     pub fn compiled(&mut self, world: &LspWorld) -> Option<Id> {
         let id = Id::from_world(world)?;
 
+        // The paths are read relative to the directory storing the lock file, which is
+        // not necessarily the current directory.
+        let resource_path = |path: &Path| match tinymist_std::path::diff(path, &self.root) {
+            Some(rel) if path.is_absolute() => ResourcePath::from_user_sys(&rel),
+            _ => ResourcePath::from_user_sys(path),
+        };
+
         let root = ResourcePath::from_user_sys(Path::new("."));
-        let main = ResourcePath::from_user_sys(world.path_for_id(world.main()).ok()?.as_path());
+        let main = resource_path(world.path_for_id(world.main()).ok()?.as_path());
 
         let font_resolver = &world.font_resolver;
         let font_paths = font_resolver
             .font_paths()
             .iter()
-            .map(|p| ResourcePath::from_user_sys(p))
+            .map(|p| resource_path(p))
             .collect::<Vec<_>>();
 
         // let system_font = font_resolver.system_font();
@@ -256,10 +263,10 @@ impl LockFileUpdate {
         let registry = &world.registry;
         let package_path = registry
             .package_path()
-            .map(|p| ResourcePath::from_user_sys(p));
+            .map(|p| resource_path(p));
         let package_cache_path = registry
             .package_cache_path()
-            .map(|p| ResourcePath::from_user_sys(p));
+            .map(|p| resource_path(p));
 
         // todo: freeze the package paths
         let _ = package_cache_path;
-- 
2.43.0

