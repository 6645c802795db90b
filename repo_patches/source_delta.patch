From 39ec147c8884d23e87c6c17265d2f7ec2ba69acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:37 +0000
Subject: [PATCH 01/46] fix: do not preallocate a message buffer of the
 declared Content-Length

An absurd length made the reader abort on allocation (or panic with a
capacity overflow) before any payload arrived; it is now an error like any
other truncated message.
---
 crates/sync-lsp/src/msg.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/sync-lsp/src/msg.rs b/crates/sync-lsp/src/msg.rs
index 91bc037..8f3c410 100644
--- a/crates/sync-lsp/src/msg.rs
+++ b/crates/sync-lsp/src/msg.rs
@@ -2,7 +2,7 @@
 
 use std::{
     fmt,
-    io::{self, BufRead, Write},
+    io::{self, BufRead, Read, Write},
 };
 
 use serde::{Deserialize, Serialize};
@@ -230,9 +230,13 @@ pub(crate) fn read_msg_text(inp: &mut dyn BufRead) -> io::Result<Option<String>>
         }
     }
     let size: usize = size.ok_or_else(|| invalid_data_fmt!("no Content-Length"))?;
+    // The declared size is not trusted: the buffer only grows as data arrives.
     let mut buf = buf.into_bytes();
-    buf.resize(size, 0);
-    inp.read_exact(&mut buf)?;
+    buf.clear();
+    inp.take(size as u64).read_to_end(&mut buf)?;
+    if buf.len() < size {
+        return Err(io::ErrorKind::UnexpectedEof.into());
+    }
     let buf = String::from_utf8(buf).map_err(invalid_data)?;
     log::debug!("< {buf}");
     Ok(Some(buf))
-- 
2.43.0


From 11fba096fd9cebb399abb62583749a52c18f969e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:37 +0000
Subject: [PATCH 02/46] fix: reject a resource request without arguments
 instead of panicking

---
 crates/sync-lsp/src/server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/sync-lsp/src/server.rs b/crates/sync-lsp/src/server.rs
index 08b48b4..589ac8f 100644
--- a/crates/sync-lsp/src/server.rs
+++ b/crates/sync-lsp/src/server.rs
@@ -617,8 +617,11 @@ impl<M, Args: Initializer> LsDriver<M, Args> {
     pub fn get_resources(&mut self, req_id: RequestId, args: Vec<JsonValue>) -> ScheduledResult {
         let s = self.state.opt_mut().ok_or_else(not_initialized)?;
 
+        let path = args
+            .first()
+            .ok_or_else(|| invalid_params("expected the path of the resource"))?;
         let path =
-            from_value::<PathBuf>(args[0].clone()).map_err(|e| invalid_params(e.to_string()))?;
+            from_value::<PathBuf>(path.clone()).map_err(|e| invalid_params(e.to_string()))?;
 
         let Some(handler) = self.resources.get(path.as_path()) else {
             log::error!("asked for unknown resource: {path:?}");
-- 
2.43.0


From 028007eab3b4d6e1d6ab41623c50dbe849c45945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:53 +0000
Subject: [PATCH 03/46] fix: correlate debug adaptor messages by the full
 sequence number

Sequence numbers were truncated to 32 bits, so that a request beyond that
range was answered with another number, and two requests equal modulo 2^32
were answered by one response.
---
 crates/sync-lsp/src/msg.rs            | 14 ++++++++++----
 crates/sync-lsp/src/server.rs         |  3 +--
 crates/sync-lsp/src/server/dap_srv.rs |  2 +-
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/crates/sync-lsp/src/msg.rs b/crates/sync-lsp/src/msg.rs
index 8f3c410..334d770 100644
--- a/crates/sync-lsp/src/msg.rs
+++ b/crates/sync-lsp/src/msg.rs
@@ -21,7 +21,7 @@ impl RequestId {
     #[cfg(all(feature = "dap", feature = "server"))]
     pub(crate) fn dap(id: RequestId) -> i64 {
         match id.0 {
-            IdRepr::I32(it) => it as i64,
+            IdRepr::Int(it) => it,
             IdRepr::String(it) => panic!("unexpected string ID in DAP: {it}"),
         }
     }
@@ -30,13 +30,19 @@ impl RequestId {
 #[derive(Debug, Serialize, Deserialize, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
 #[serde(untagged)]
 enum IdRepr {
-    I32(i32),
+    Int(i64),
     String(String),
 }
 
 impl From<i32> for RequestId {
     fn from(id: i32) -> RequestId {
-        RequestId(IdRepr::I32(id))
+        RequestId(IdRepr::Int(id as i64))
+    }
+}
+
+impl From<i64> for RequestId {
+    fn from(id: i64) -> RequestId {
+        RequestId(IdRepr::Int(id))
     }
 }
 
@@ -49,7 +55,7 @@ impl From<String> for RequestId {
 impl fmt::Display for RequestId {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match &self.0 {
-            IdRepr::I32(it) => fmt::Display::fmt(it, f),
+            IdRepr::Int(it) => fmt::Display::fmt(it, f),
             // Use debug here, to make it clear that `92` and `"92"` are
             // different, and to reduce WTF factor if the sever uses `" "` as an
             // ID.
diff --git a/crates/sync-lsp/src/server.rs b/crates/sync-lsp/src/server.rs
index 589ac8f..9393cf7 100644
--- a/crates/sync-lsp/src/server.rs
+++ b/crates/sync-lsp/src/server.rs
@@ -277,8 +277,7 @@ impl LspClient {
         let mut req_queue = self.req_queue.lock();
         let Some(handler) = req_queue
             .outgoing
-            // todo: casting i64 to i32
-            .complete((response.request_seq as i32).into())
+            .complete(response.request_seq.into())
         else {
             log::warn!("received response for unknown request");
             return;
diff --git a/crates/sync-lsp/src/server/dap_srv.rs b/crates/sync-lsp/src/server/dap_srv.rs
index 463158e..6cecc7f 100644
--- a/crates/sync-lsp/src/server/dap_srv.rs
+++ b/crates/sync-lsp/src/server/dap_srv.rs
@@ -181,7 +181,7 @@ where
     /// Registers and handles a request. This should only be called once per
     /// incoming request.
     fn on_request(&mut self, request_received: Instant, req: dap::Request) {
-        let req_id = (req.seq as i32).into();
+        let req_id = req.seq.into();
         self.client
             .register_request(&req.command, &req_id, request_received);
 
-- 
2.43.0


From db3789365256065e800daa28e9d2fc73a85b5044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 04/46] fix: removing a symlink never changes the permissions
 of its target

---
 crates/tinymist-std/src/fs/paths.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/tinymist-std/src/fs/paths.rs b/crates/tinymist-std/src/fs/paths.rs
index 0c43b6a..4767567 100644
--- a/crates/tinymist-std/src/fs/paths.rs
+++ b/crates/tinymist-std/src/fs/paths.rs
@@ -489,6 +489,12 @@ where
 }
 
 fn set_not_readonly(p: &Path) -> io::Result<bool> {
+    // Permissions are set through symlinks: those of the target must not change.
+    #[cfg(unix)]
+    if p.symlink_metadata()?.is_symlink() {
+        return Ok(false);
+    }
+
     let mut perms = p.metadata()?.permissions();
     if !perms.readonly() {
         return Ok(false);
-- 
2.43.0


From 63b53b2d610c74ddb390fdd57a4682a89d0054b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 05/46] fix: report a file in the way of an excluded directory

---
 crates/tinymist-std/src/fs/paths.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tinymist-std/src/fs/paths.rs b/crates/tinymist-std/src/fs/paths.rs
index 4767567..91c6222 100644
--- a/crates/tinymist-std/src/fs/paths.rs
+++ b/crates/tinymist-std/src/fs/paths.rs
@@ -675,7 +675,7 @@ pub fn create_dir_all_excluded_from_backups_atomic(p: impl AsRef<Path>) -> Resul
     // directory (which didn't exist a moment earlier) exists we can infer from
     // it's another cargo process doing work.
     if let Err(e) = fs::rename(tempdir.path(), path) {
-        if !path.exists() {
+        if !path.is_dir() {
             return Err(anyhow::Error::from(e))
                 .with_context(|| format!("failed to create directory `{}`", path.display()));
         }
-- 
2.43.0


From 1697dfd426b33558b1d22625865cae3e52ce0642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 06/46] fix: reject malformed fingerprint text instead of
 panicking

---
 crates/tinymist-std/src/hash.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/crates/tinymist-std/src/hash.rs b/crates/tinymist-std/src/hash.rs
index f356f9f..4bd3cb0 100644
--- a/crates/tinymist-std/src/hash.rs
+++ b/crates/tinymist-std/src/hash.rs
@@ -13,7 +13,7 @@ use siphasher::sip128::{Hasher128, SipHasher13};
 #[cfg(feature = "rkyv")]
 use rkyv::{Archive, Deserialize as rDeser, Serialize as rSer};
 
-use crate::error::prelude::Result;
+use crate::error::prelude::*;
 
 pub(crate) type FxBuildHasher = std::hash::BuildHasherDefault<FxHasher>;
 pub use rustc_hash::{FxHashMap, FxHashSet, FxHasher};
@@ -89,15 +89,22 @@ impl Fingerprint {
 
     /// Creates a new `Fingerprint` from a svg id that **doesn't have prefix**.
     pub fn try_from_str(s: &str) -> Result<Self> {
-        let bytes = base64::engine::general_purpose::STANDARD_NO_PAD
-            .decode(&s.as_bytes()[..11])
-            .expect("invalid base64 string");
-        let lo = u64::from_le_bytes(bytes.try_into().unwrap());
-        let mut bytes = base64::engine::general_purpose::STANDARD_NO_PAD
-            .decode(&s.as_bytes()[11..])
-            .expect("invalid base64 string");
-        bytes.resize(8, 0);
-        let hi = u64::from_le_bytes(bytes.try_into().unwrap());
+        fn decode(s: &[u8]) -> Result<u64> {
+            let mut bytes = base64::engine::general_purpose::STANDARD_NO_PAD
+                .decode(s)
+                .context_ut("invalid base64 string")?;
+            if bytes.len() > 8 {
+                bail!("fingerprint is too long");
+            }
+            bytes.resize(8, 0);
+            Ok(u64::from_le_bytes(bytes.try_into().unwrap()))
+        }
+
+        let (lo, hi) = s
+            .as_bytes()
+            .split_at_checked(11)
+            .context("fingerprint is too short")?;
+        let (lo, hi) = (decode(lo)?, decode(hi)?);
         Ok(Self::from_pair(lo, hi))
     }
 
-- 
2.43.0


From 91bb0575a1d0292a4793ce46c1a13ac2ebe004b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 07/46] fix: bound the shard size before rounding it up

---
 crates/tinymist-std/src/adt/fmap.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist-std/src/adt/fmap.rs b/crates/tinymist-std/src/adt/fmap.rs
index 896c446..73f7d45 100644
--- a/crates/tinymist-std/src/adt/fmap.rs
+++ b/crates/tinymist-std/src/adt/fmap.rs
@@ -56,8 +56,8 @@ impl<V> Default for FingerprintMap<V> {
 impl<V> FingerprintMap<V> {
     /// Create a new `FingerprintMap` with the given shard size.
     pub fn new(shard_size: NonZeroU32) -> Self {
-        let shard_size = shard_size.get().next_power_of_two();
-        let shard_size = shard_size.min(MAX_SHARD_SIZE);
+        let shard_size = shard_size.get().min(MAX_SHARD_SIZE);
+        let shard_size = shard_size.next_power_of_two();
 
         assert!(
             shard_size.is_power_of_two(),
-- 
2.43.0


From 69686270de78bd8b4899728ef24e0d27269b8b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:46 +0000
Subject: [PATCH 08/46] fix: convert out-of-range system times to none instead
 of panicking

---
 crates/tinymist-std/src/time.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-std/src/time.rs b/crates/tinymist-std/src/time.rs
index f158568..579945b 100644
--- a/crates/tinymist-std/src/time.rs
+++ b/crates/tinymist-std/src/time.rs
@@ -49,7 +49,10 @@ impl ToUtcDateTime for i64 {
 impl ToUtcDateTime for Time {
     /// Converts a system time to a [`UtcDateTime`].
     fn to_utc_datetime(self) -> Option<UtcDateTime> {
-        Some(UtcDateTime::from(self))
+        match self.duration_since(Time::UNIX_EPOCH) {
+            Ok(since) => UtcDateTime::UNIX_EPOCH.checked_add(since.try_into().ok()?),
+            Err(err) => UtcDateTime::UNIX_EPOCH.checked_sub(err.duration().try_into().ok()?),
+        }
     }
 }
 
-- 
2.43.0


From bc38a93a08e714a48e929b4c1df86b34eda2b049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 09/46] fix: clean an empty path before taking its difference

---
 crates/tinymist-std/src/path.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist-std/src/path.rs b/crates/tinymist-std/src/path.rs
index 424a2f9..6a5ebdb 100644
--- a/crates/tinymist-std/src/path.rs
+++ b/crates/tinymist-std/src/path.rs
@@ -55,8 +55,9 @@ pub fn diff(fr: &Path, to: &Path) -> Option<PathBuf> {
     // Because of <https://github.com/Manishearth/pathdiff/issues/8>, we have to clean the path
     // before diff.
     fn clean_for_diff(p: &Path) -> Cow<'_, Path> {
-        if p.components()
-            .any(|c| matches!(c, Component::ParentDir | Component::CurDir))
+        if p.as_os_str().is_empty()
+            || p.components()
+                .any(|c| matches!(c, Component::ParentDir | Component::CurDir))
         {
             Cow::Owned(p.clean())
         } else {
-- 
2.43.0


From c58c81f0c0dc6ee6551e7fdb8743768335e62b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:27 +0000
Subject: [PATCH 10/46] fix: claim the fast fingerprint of an item atomically

---
 crates/tinymist-std/src/hash.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/crates/tinymist-std/src/hash.rs b/crates/tinymist-std/src/hash.rs
index 4bd3cb0..de862d3 100644
--- a/crates/tinymist-std/src/hash.rs
+++ b/crates/tinymist-std/src/hash.rs
@@ -235,12 +235,13 @@ impl FingerprintBuilder {
         let mut s = FingerprintSipHasher { data: Vec::new() };
         item.hash(&mut s);
         let (fingerprint, featured_data) = s.fast_hash();
-        let Some(prev_featured_data) = self.fast_conflict_checker.get(&fingerprint) else {
-            self.fast_conflict_checker.insert(fingerprint, s.data);
-            return Fingerprint::from_pair(fingerprint as u64, 0);
-        };
-
-        if *prev_featured_data == *featured_data {
+        // Claims the fast fingerprint atomically.
+        let owns_fast_fingerprint = *self
+            .fast_conflict_checker
+            .entry(fingerprint)
+            .or_insert_with(|| featured_data.clone())
+            == *featured_data;
+        if owns_fast_fingerprint {
             return Fingerprint::from_pair(fingerprint as u64, 0);
         }
 
@@ -254,12 +255,13 @@ impl FingerprintBuilder {
         item.type_id().hash(&mut s);
         item.hash(&mut s);
         let (fingerprint, featured_data) = s.fast_hash();
-        let Some(prev_featured_data) = self.fast_conflict_checker.get(&fingerprint) else {
-            self.fast_conflict_checker.insert(fingerprint, s.data);
-            return Fingerprint::from_pair(fingerprint as u64, 0);
-        };
-
-        if *prev_featured_data == *featured_data {
+        // Claims the fast fingerprint atomically.
+        let owns_fast_fingerprint = *self
+            .fast_conflict_checker
+            .entry(fingerprint)
+            .or_insert_with(|| featured_data.clone())
+            == *featured_data;
+        if owns_fast_fingerprint {
             return Fingerprint::from_pair(fingerprint as u64, 0);
         }
 
-- 
2.43.0


From 5b4a9268f5d25974736d82f26c65d0a06446ea23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:48 +0000
Subject: [PATCH 11/46] fix: keep the text around placeholders of translated
 messages

---
 crates/tinymist-l10n/src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/tinymist-l10n/src/lib.rs b/crates/tinymist-l10n/src/lib.rs
index 9eeaf4a..da75852 100644
--- a/crates/tinymist-l10n/src/lib.rs
+++ b/crates/tinymist-l10n/src/lib.rs
@@ -236,16 +236,20 @@ pub fn t_with_args(
     let message_iter = &mut message.chars();
     while let Some(c) = message_iter.next() {
         if c == '{' {
-            let arg_index_str = message_iter.take_while(|c| *c != '}').collect::<String>();
-            message_iter.next();
+            let Some((arg_index_str, rest)) = message_iter.as_str().split_once('}') else {
+                result.push(c);
+                continue;
+            };
+            *message_iter = rest.chars();
 
             let Some(arg) = args
                 .iter()
-                .find(|(k, _)| k == &arg_index_str)
+                .find(|(k, _)| *k == arg_index_str)
                 .map(|(_, v)| v)
             else {
                 result.push(c);
-                result.push_str(&arg_index_str);
+                result.push_str(arg_index_str);
+                result.push('}');
                 continue;
             };
 
-- 
2.43.0


From b52fb5ae56110e801eda8fae9bba67beac283fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:48 +0000
Subject: [PATCH 12/46] fix: name the root placeholder as its argument

---
 crates/tinymist-project/src/entry.rs | 2 +-
 locales/tinymist-rt.toml             | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/tinymist-project/src/entry.rs b/crates/tinymist-project/src/entry.rs
index 8ca75c0..1cd1a9f 100644
--- a/crates/tinymist-project/src/entry.rs
+++ b/crates/tinymist-project/src/entry.rs
@@ -182,7 +182,7 @@ impl EntryResolver {
             if !root.is_absolute() {
                 tinymist_l10n::bail!(
                     "tinymist-project.validate-error.root-path-not-absolute",
-                    "rootPath or typstExtraArgs.root must be an absolute path: {root:?}",
+                    "rootPath or typstExtraArgs.root must be an absolute path: {root}",
                     root = root.debug_l10n()
                 );
             }
diff --git a/locales/tinymist-rt.toml b/locales/tinymist-rt.toml
index bed7bdf..4d18ecd 100644
--- a/locales/tinymist-rt.toml
+++ b/locales/tinymist-rt.toml
@@ -2,8 +2,8 @@
 # The translations are partially generated by copilot
 
 [tinymist-project.validate-error.root-path-not-absolute]
-en = "rootPath or typstExtraArgs.root must be an absolute path: {root:?}"
-zh = "rootPath 或 typstExtraArgs.root 必须是绝对路径：{root:?}"
+en = "rootPath or typstExtraArgs.root must be an absolute path: {root}"
+zh = "rootPath 或 typstExtraArgs.root 必须是绝对路径：{root}"
 
 [tinymist-query.code-action.exportHtml]
 en = "Export HTML"
-- 
2.43.0


From 7e10c6ea804eda327f08f448a4006e6b1606d028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 13/46] fix: refuse an unclosed catalogue section instead of
 panicking

---
 crates/tinymist-l10n/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist-l10n/src/lib.rs b/crates/tinymist-l10n/src/lib.rs
index da75852..53bcbe2 100644
--- a/crates/tinymist-l10n/src/lib.rs
+++ b/crates/tinymist-l10n/src/lib.rs
@@ -278,8 +278,11 @@ pub fn deserialize(input: &str, key_first: bool) -> anyhow::Result<TranslationMa
     let mut key = String::new();
 
     for line in lines {
-        if line.starts_with('[') {
-            key = line[1..line.len() - 1].to_string();
+        if let Some(section) = line.strip_prefix('[') {
+            key = section
+                .strip_suffix(']')
+                .ok_or_else(|| anyhow::anyhow!("unclosed section in translation line: {line}"))?
+                .to_string();
         } else {
             let equal_index = line.find('=').map_or_else(
                 || {
-- 
2.43.0


From 4637f984c1fd04c8acbcedc6203881f492a11230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 14/46] fix: reuse the workspace id of a root whose path is not
 clean

---
 crates/tinymist-vfs/src/path_mapper.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/tinymist-vfs/src/path_mapper.rs b/crates/tinymist-vfs/src/path_mapper.rs
index 80196d3..b99b3c6 100644
--- a/crates/tinymist-vfs/src/path_mapper.rs
+++ b/crates/tinymist-vfs/src/path_mapper.rs
@@ -177,13 +177,12 @@ impl WorkspaceResolver {
         // We could check with just a read lock, but if the pair is not yet
         // present, we would then need to recheck after acquiring a write lock,
         // which is probably not worth it.
+        let root = ImmutPath::from(root.clean());
         let mut interner = INTERNER.write();
-        if let Some(&id) = interner.to_id.get(root) {
+        if let Some(&id) = interner.to_id.get(&root) {
             return id;
         }
 
-        let root = ImmutPath::from(root.clean());
-
         // Create a new entry forever by leaking the pair. We can't leak more
         // than 2^16 pair (and typically will leak a lot less), so its not a
         // big deal.
-- 
2.43.0


From a96e46335ac7dd1b2ca6f41db4c84d57932d1701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 15/46] fix: report unknown workspace ids in package
 specifications instead of panicking

---
 crates/tinymist-vfs/src/path_mapper.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist-vfs/src/path_mapper.rs b/crates/tinymist-vfs/src/path_mapper.rs
index b99b3c6..98bc2a4 100644
--- a/crates/tinymist-vfs/src/path_mapper.rs
+++ b/crates/tinymist-vfs/src/path_mapper.rs
@@ -128,8 +128,10 @@ impl WorkspaceId {
             return None;
         }
 
-        let num = name[1..].parse().ok()?;
-        Some(WorkspaceId(num))
+        let num: u16 = name[1..].parse().ok()?;
+        // The package specification may come from a document.
+        let known = (num as usize) < INTERNER.read().from_id.len();
+        known.then_some(WorkspaceId(num))
     }
 }
 
-- 
2.43.0


From 20bda85116b6280040a2c7400e6c15b4955998e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 16/46] fix: forward resets through the path overlay

---
 crates/tinymist-vfs/src/overlay.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/tinymist-vfs/src/overlay.rs b/crates/tinymist-vfs/src/overlay.rs
index 4c25211..fb36de9 100644
--- a/crates/tinymist-vfs/src/overlay.rs
+++ b/crates/tinymist-vfs/src/overlay.rs
@@ -73,6 +73,11 @@ impl<K: Ord + Clone, M> OverlayAccessModel<K, M> {
 }
 
 impl<M: PathAccessModel> PathAccessModel for OverlayAccessModel<ImmutPath, M> {
+    #[inline]
+    fn reset(&mut self) {
+        self.inner.reset();
+    }
+
     fn content(&self, src: &Path) -> FileResult<Bytes> {
         if let Some(content) = self.files.get(src) {
             return content.content().cloned();
-- 
2.43.0


From 969eb5acb49e9ca79d98eafcb8924e1786d1a174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 17/46] fix: keep unread file slots apart from those of earlier
 snapshots

A revision shared the slots of the files that had not been read yet with the
snapshots taken before it, which fill them from the access model as it was. The
files read from the new revision were then stale.
---
 crates/tinymist-vfs/src/lib.rs | 35 ++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist-vfs/src/lib.rs b/crates/tinymist-vfs/src/lib.rs
index 8e8b3ed..d3ab264 100644
--- a/crates/tinymist-vfs/src/lib.rs
+++ b/crates/tinymist-vfs/src/lib.rs
@@ -340,7 +340,10 @@ impl<M: PathAccessModel + Sized> Vfs<M> {
     }
 
     pub fn revise(&mut self) -> RevisingVfs<M> {
-        let managed = self.managed.lock().clone();
+        let mut managed = self.managed.lock().clone();
+        // The paths of the files that are not detached have been recorded, so the
+        // paths must be cloned afterwards.
+        managed.detach_unread();
         let paths = self.paths.lock().clone();
         let goal_revision = self.revision.checked_add(1).expect("revision overflowed");
 
@@ -350,6 +353,7 @@ impl<M: PathAccessModel + Sized> Vfs<M> {
             inner: self,
             goal_revision,
             view_changed: false,
+            model_changed: false,
         }
     }
 
@@ -455,14 +459,22 @@ pub struct RevisingVfs<'a, M: PathAccessModel + Sized> {
     managed: EntryMap,
     paths: PathMap,
     goal_revision: NonZeroUsize,
+    /// Whether any file that has been read may be changed.
     view_changed: bool,
+    /// Whether the access model may read other contents than that of the
+    /// snapshots taken before.
+    model_changed: bool,
 }
 
 impl<M: PathAccessModel + Sized> Drop for RevisingVfs<'_, M> {
     fn drop(&mut self) {
-        if self.view_changed {
+        // No longer shares the slots with the snapshots, which read from the access
+        // model before the changes.
+        if self.view_changed || self.model_changed {
             self.inner.managed = Arc::new(Mutex::new(std::mem::take(&mut self.managed)));
             self.inner.paths = Arc::new(Mutex::new(std::mem::take(&mut self.paths)));
+        }
+        if self.view_changed {
             let revision = &mut self.inner.revision;
             *revision = self.goal_revision;
         }
@@ -475,6 +487,7 @@ impl<M: PathAccessModel + Sized> RevisingVfs<'_, M> {
     }
 
     fn am(&mut self) -> &mut VfsAccessModel<M> {
+        self.model_changed = true;
         &mut self.inner.access_model
     }
 
@@ -605,6 +618,24 @@ impl EntryMap {
         }
     }
 
+    /// Detaches the slots that are not read yet from the maps sharing them, which
+    /// may read them from another access model.
+    fn detach_unread(&mut self) {
+        let unread = |entry: &VfsEntry| entry.bytes.get().is_none();
+        let ids: Vec<_> = self
+            .entries
+            .iter()
+            .filter(|(_, entry)| unread(entry))
+            .map(|(id, _)| *id)
+            .collect();
+        for id in ids {
+            self.slot(id, |e| {
+                e.bytes = Arc::default();
+                e.source = Arc::default();
+            });
+        }
+    }
+
     fn display(&self) -> DisplayEntryMap {
         DisplayEntryMap { map: self }
     }
-- 
2.43.0


From 76ceceef95b648b5d8c8aba69a7e12516fe8fca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 18/46] fix: read the whole path of files in tarballs whose
 path is long

---
 crates/tinymist-package/src/pack/tarball.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/tinymist-package/src/pack/tarball.rs b/crates/tinymist-package/src/pack/tarball.rs
index 2f9c4af..7b0778c 100644
--- a/crates/tinymist-package/src/pack/tarball.rs
+++ b/crates/tinymist-package/src/pack/tarball.rs
@@ -27,14 +27,14 @@ impl<R: Read> PackFs for TarballPack<R> {
     ) -> PackageResult<()> {
         for entry in self.reader.entries().map_err(malform)? {
             let entry = entry.map_err(malform)?;
-            let header = entry.header();
 
-            let is_file = header.entry_type().is_file();
+            let is_file = entry.header().entry_type().is_file();
             if !is_file {
                 continue;
             }
 
-            let path = header.path().map_err(malform)?;
+            // The path in the header alone is truncated if it is a long one.
+            let path = entry.path().map_err(malform)?;
             let path = path.to_string_lossy().to_string();
 
             let pack_file = PackFile::Read(Box::new(entry));
-- 
2.43.0


From 92e253d90b05c57d6edf055339c962958a6315c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 19/46] fix: read packages in hidden directories and in the
 current one

---
 crates/tinymist-package/src/pack/fs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-package/src/pack/fs.rs b/crates/tinymist-package/src/pack/fs.rs
index 15b17ef..f0bc1f4 100644
--- a/crates/tinymist-package/src/pack/fs.rs
+++ b/crates/tinymist-package/src/pack/fs.rs
@@ -87,7 +87,8 @@ impl<Src: AsRef<Path>, F: Fn(&str) -> bool + Send + Sync> PackFs for FilterDirPa
         let w = walkdir::WalkDir::new(self.path.as_ref())
             .follow_links(true)
             .into_iter()
-            .filter_entry(|e| !e.file_name().to_string_lossy().starts_with('.'))
+            // The directory of the package itself may be hidden, or be `.`.
+            .filter_entry(|e| e.depth() == 0 || !e.file_name().to_string_lossy().starts_with('.'))
             .filter_map(|e| e.ok())
             .filter(|e| e.file_type().is_file());
 
-- 
2.43.0


From ed3abdbced85c3e3573ea75bee5abc6d38be8c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 20/46] fix: refuse to clone files out of the directory of the
 package

---
 crates/tinymist-package/src/pack/fs.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-package/src/pack/fs.rs b/crates/tinymist-package/src/pack/fs.rs
index f0bc1f4..f7e12b3 100644
--- a/crates/tinymist-package/src/pack/fs.rs
+++ b/crates/tinymist-package/src/pack/fs.rs
@@ -1,4 +1,4 @@
-use std::{fs::File, io::Write};
+use std::{fs::File, io::Write, path::Component};
 
 use super::*;
 
@@ -48,6 +48,10 @@ impl<P: AsRef<Path>> CloneIntoPack for DirPack<P> {
     fn clone_into_pack(&mut self, pack: &mut impl PackFs) -> std::io::Result<()> {
         let base = self.path.as_ref();
         pack.read_all(&mut |path, file| {
+            let inside = |c| matches!(c, Component::Normal(_) | Component::CurDir);
+            if !Path::new(path).components().all(inside) {
+                return Err(other(format!("file {path:?} is not inside the package")));
+            }
             let path = base.join(path);
             std::fs::create_dir_all(path.parent().unwrap()).map_err(other)?;
             let mut dst = std::fs::File::create(path).map_err(other)?;
-- 
2.43.0


From 6a3cc9bb042af3d562780a4bf292867b0680472b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 21/46] fix: make downloaded packages appear whole

---
 crates/tinymist-package/src/registry/http.rs | 32 ++++++++++++++++----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/crates/tinymist-package/src/registry/http.rs b/crates/tinymist-package/src/registry/http.rs
index 7d8bc1d..2101961 100644
--- a/crates/tinymist-package/src/registry/http.rs
+++ b/crates/tinymist-package/src/registry/http.rs
@@ -1,6 +1,7 @@
 //! Http registry for tinymist.
 
 use std::path::Path;
+use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::{Arc, OnceLock};
 
 use parking_lot::Mutex;
@@ -294,13 +295,32 @@ impl PackageStorage {
                 Err(err) => return Err(PackageError::NetworkFailed(Some(eco_format!("{err}")))),
             };
 
+            // Unpacks aside and then moves the whole package, so that neither a
+            // concurrent compilation nor one after an interruption takes a part of the
+            // package for it.
+            static UNPACKED: AtomicUsize = AtomicUsize::new(0);
+            let unpacking = package_dir.with_file_name(format!(
+                ".unpacking-{}-{}-{}",
+                spec.version,
+                std::process::id(),
+                UNPACKED.fetch_add(1, Ordering::Relaxed)
+            ));
+            // It may remain from an interrupted process of the same id.
+            std::fs::remove_dir_all(&unpacking).ok();
+
             let decompressed = flate2::read::GzDecoder::new(reader);
-            tar::Archive::new(decompressed)
-                .unpack(package_dir)
-                .map_err(|err| {
-                    std::fs::remove_dir_all(package_dir).ok();
-                    PackageError::MalformedArchive(Some(eco_format!("{err}")))
-                })
+            let unpacked = tar::Archive::new(decompressed)
+                .unpack(&unpacking)
+                .map_err(|err| PackageError::MalformedArchive(Some(eco_format!("{err}"))))
+                .and_then(|()| match std::fs::rename(&unpacking, package_dir) {
+                    Err(err) if !package_dir.exists() => Err(PackageError::Other(Some(
+                        eco_format!("failed to move the unpacked package: {err}"),
+                    ))),
+                    // Otherwise, it is moved or someone else was faster.
+                    _ => Ok(()),
+                });
+            std::fs::remove_dir_all(&unpacking).ok();
+            unpacked
         })
         .ok_or_else(|| PackageError::Other(Some(eco_format!("cannot spawn http thread"))))?
     }
-- 
2.43.0


From 7333aeebaf6daa9d8fe9c071c9a9608cb9dbd4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:27 +0000
Subject: [PATCH 22/46] fix: ignore what comes late for removed projects

---
 crates/tinymist-project/src/compiler.rs | 30 ++++++++++++++++++-------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/crates/tinymist-project/src/compiler.rs b/crates/tinymist-project/src/compiler.rs
index 9fc301e..f0b57c3 100644
--- a/crates/tinymist-project/src/compiler.rs
+++ b/crates/tinymist-project/src/compiler.rs
@@ -453,17 +453,22 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
         }
     }
 
-    /// Find a project by id, but with less borrow checker restriction.
+    /// Find a project by id, but with less borrow checker restriction. Returns
+    /// `None` if the project has been removed.
     pub fn find_project<'a>(
         primary: &'a mut ProjectInsState<F, Ext>,
         dedicates: &'a mut [ProjectInsState<F, Ext>],
         id: &ProjectInsId,
-    ) -> &'a mut ProjectInsState<F, Ext> {
+    ) -> Option<&'a mut ProjectInsState<F, Ext>> {
         if id == &primary.id {
-            return primary;
+            return Some(primary);
         }
 
-        dedicates.iter_mut().find(|e| e.id == *id).unwrap()
+        let proj = dedicates.iter_mut().find(|e| e.id == *id);
+        if proj.is_none() {
+            log::warn!("ProjectCompiler: project not found {id:?}");
+        }
+        proj
     }
 
     /// Clear all dedicate projects.
@@ -524,7 +529,10 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
     fn process_inner(&mut self, intr: Interrupt<F>) {
         match intr {
             Interrupt::Compile(id) => {
-                let proj = Self::find_project(&mut self.primary, &mut self.dedicates, &id);
+                let Some(proj) = Self::find_project(&mut self.primary, &mut self.dedicates, &id)
+                else {
+                    return;
+                };
                 // Increment the revision anyway.
                 proj.verse.increment_revision(|verse| {
                     verse.flush();
@@ -533,8 +541,11 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
                 proj.reason.see(reason_by_entry_change());
             }
             Interrupt::Compiled(artifact) => {
-                let proj =
-                    Self::find_project(&mut self.primary, &mut self.dedicates, artifact.id());
+                let Some(proj) =
+                    Self::find_project(&mut self.primary, &mut self.dedicates, artifact.id())
+                else {
+                    return;
+                };
 
                 let processed = proj.process_compile(artifact);
 
@@ -552,7 +563,10 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
                 self.remove_dedicates(&id);
             }
             Interrupt::ChangeTask(id, change) => {
-                let proj = Self::find_project(&mut self.primary, &mut self.dedicates, &id);
+                let Some(proj) = Self::find_project(&mut self.primary, &mut self.dedicates, &id)
+                else {
+                    return;
+                };
                 proj.verse.increment_revision(|verse| {
                     if let Some(inputs) = change.inputs.clone() {
                         verse.set_inputs(inputs);
-- 
2.43.0


From cfb5cc65247273170739c9bbb9ba64b856e2cb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:33 +0000
Subject: [PATCH 23/46] fix: give every delayed memory event its own tick

---
 crates/tinymist-project/src/compiler.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-project/src/compiler.rs b/crates/tinymist-project/src/compiler.rs
index f0b57c3..9bde89e 100644
--- a/crates/tinymist-project/src/compiler.rs
+++ b/crates/tinymist-project/src/compiler.rs
@@ -654,7 +654,9 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
                 }
 
                 // Otherwise, send upstream update event.
-                // Also, record the logical tick when shadow is dirty.
+                // Also, record the logical tick when shadow is dirty. Every event has its own
+                // tick, so that only the answer to the last one ends the dirty state.
+                self.logical_tick += 1;
                 self.dirty_shadow_logical_tick = self.logical_tick;
                 let event = NotifyMessage::UpstreamUpdate(UpstreamUpdateEvent {
                     invalidates: files.into_iter().collect(),
-- 
2.43.0


From 467a0995af8c3f296855afb9cc57066c2f33a258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:33 +0000
Subject: [PATCH 24/46] fix: continue the revisions of removed projects when
 restarting them

---
 crates/tinymist-project/src/compiler.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-project/src/compiler.rs b/crates/tinymist-project/src/compiler.rs
index 9bde89e..a8092c4 100644
--- a/crates/tinymist-project/src/compiler.rs
+++ b/crates/tinymist-project/src/compiler.rs
@@ -380,6 +380,8 @@ pub struct ProjectCompiler<F: CompilerFeat, Ext> {
     pub dedicates: Vec<ProjectInsState<F, Ext>>,
     /// The project file dependencies.
     deps: ProjectDeps,
+    /// The latest revision of the dedicated projects that were removed.
+    removed_revision: usize,
 }
 
 impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCompiler<F, Ext> {
@@ -412,6 +414,7 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
 
             primary,
             deps: Default::default(),
+            removed_revision: 0,
             dedicates: vec![],
         }
     }
@@ -494,6 +497,11 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
         proj.reason.see(reason_by_entry_change());
 
         self.remove_dedicates(&id);
+
+        // Continues with the revisions of the removed projects, because a compilation
+        // of a removed project with the same id can still be on its way.
+        proj.verse.revision = proj.verse.revision.saturating_add(self.removed_revision);
+        proj.committed_revision = self.removed_revision;
         self.dedicates.push(proj);
 
         Ok(id)
@@ -506,7 +514,8 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
             self.handler.notify_removed(id);
             self.deps.project_deps.remove_mut(id);
 
-            let _proj = self.dedicates.remove(idx);
+            let proj = self.dedicates.remove(idx);
+            self.removed_revision = self.removed_revision.max(proj.verse.revision.get());
             // todo: kill compilations
 
             let res = self
-- 
2.43.0


From 064f33192b55641002b52d32fff60936b388f7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:34 +0000
Subject: [PATCH 25/46] fix: tell the consumer about removed and emptied files

---
 crates/tinymist-project/src/watch.rs | 66 +++++++++++++++-------------
 1 file changed, 36 insertions(+), 30 deletions(-)

diff --git a/crates/tinymist-project/src/watch.rs b/crates/tinymist-project/src/watch.rs
index cfe06da..28d5d2f 100644
--- a/crates/tinymist-project/src/watch.rs
+++ b/crates/tinymist-project/src/watch.rs
@@ -64,7 +64,7 @@ struct WatchedEntry {
     seen: bool,
     /// The state of the entry.
     state: WatchState,
-    /// Previous content of the file.
+    /// Previous content of the file, as the consumer knows it.
     prev: Option<FileSnapshot>,
 }
 
@@ -381,9 +381,8 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                     if matches!(err.as_ref(), FileError::NotFound(..) | FileError::Other(..)) {
                         entry.state = WatchState::EmptyOrRemoval {
                             recheck_at: self.logical_tick,
-                            payload: file.clone(),
+                            payload: file,
                         };
-                        entry.prev = Some(file);
                         let event = UndeterminedNotifyEvent {
                             at_realtime: tinymist_std::time::Instant::now(),
                             at_logical_tick: self.logical_tick,
@@ -412,10 +411,11 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
             (Some(Ok(prev_content)), Ok(next_content)) => {
                 // So far it is accurately no change for the file, skip it
                 if prev_content == next_content {
+                    entry.state = WatchState::Stable;
                     return None;
                 }
 
-                match entry.state {
+                match &mut entry.state {
                     // If the file is stable, check whether the editor is
                     // removing or truncating the file. They are possibly
                     // flushing the file but not finished yet.
@@ -423,9 +423,8 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                         if next_content.is_empty() {
                             entry.state = WatchState::EmptyOrRemoval {
                                 recheck_at: self.logical_tick,
-                                payload: file.clone(),
+                                payload: file,
                             };
-                            entry.prev = Some(file);
                             let event = UndeterminedNotifyEvent {
                                 at_realtime: tinymist_std::time::Instant::now(),
                                 at_logical_tick: self.logical_tick,
@@ -437,7 +436,10 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                     }
 
                     // Still empty
-                    WatchState::EmptyOrRemoval { .. } if next_content.is_empty() => return None,
+                    WatchState::EmptyOrRemoval { payload, .. } if next_content.is_empty() => {
+                        *payload = file;
+                        return None;
+                    }
                     // Otherwise, we push the diff to the consumer.
                     WatchState::EmptyOrRemoval { .. } => {}
                 }
@@ -473,31 +475,35 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
         // Check whether the entry is still valid
         let entry = self.watched_entries.get_mut(&event.path)?;
 
-        // Check the state of the entry
-        match std::mem::take(&mut entry.state) {
-            // If the entry is stable, we do nothing
-            WatchState::Stable => {}
-            // If the entry is not stable, and no other event is produced after
-            // this event, we send the event to the consumer.
-            WatchState::EmptyOrRemoval {
-                recheck_at,
-                payload,
-            } => {
-                if recheck_at == event.at_logical_tick {
-                    log::debug!("notify event real happened {event:?}, state: {payload:?}");
-
-                    if Some(&payload) == entry.prev.as_ref() {
-                        return None;
-                    }
+        // If the entry is stable, we do nothing
+        let WatchState::EmptyOrRemoval {
+            recheck_at,
+            payload,
+        } = &entry.state
+        else {
+            return None;
+        };
 
-                    // Send the underlying change to the consumer
-                    let mut changeset = FileChangeSet::default();
-                    changeset.inserts.push((event.path, payload));
+        // If another event is produced after this event, it is rechecked on its own.
+        if *recheck_at != event.at_logical_tick {
+            return None;
+        }
 
-                    (self.interrupted_by_events)(FilesystemEvent::Update(changeset));
-                }
-            }
-        };
+        log::debug!("notify event real happened {event:?}, state: {payload:?}");
+        let payload = payload.clone();
+        entry.state = WatchState::Stable;
+
+        // The consumer already knows it
+        if Some(&payload) == entry.prev.as_ref() {
+            return None;
+        }
+        entry.prev = Some(payload.clone());
+
+        // Send the underlying change to the consumer
+        let mut changeset = FileChangeSet::default();
+        changeset.inserts.push((event.path, payload));
+
+        (self.interrupted_by_events)(FilesystemEvent::Update(changeset));
 
         Some(())
     }
-- 
2.43.0


From 26dba3d2e0a3bdbf3a8981604635a9a9da0d399c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:41 +0000
Subject: [PATCH 26/46] fix: keep watching the other files when some are
 invalidated

---
 crates/tinymist-project/src/watch.rs | 107 +++++++++++++++------------
 1 file changed, 59 insertions(+), 48 deletions(-)

diff --git a/crates/tinymist-project/src/watch.rs b/crates/tinymist-project/src/watch.rs
index 28d5d2f..1096e1a 100644
--- a/crates/tinymist-project/src/watch.rs
+++ b/crates/tinymist-project/src/watch.rs
@@ -206,8 +206,11 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
 
     /// Update the watches of corresponding invalidation
     fn invalidate_upstream(&mut self, event: UpstreamUpdateEvent) {
-        // Update watches of invalidated files.
-        let changeset = self.update_watches(&event.invalidates).unwrap_or_default();
+        // Update watches of invalidated files. The other files are still depended on.
+        let mut changeset = FileChangeSet::default();
+        for path in &event.invalidates {
+            self.update_watch(path, &mut changeset);
+        }
 
         // Send the event to the consumer.
         (self.interrupted_by_events)(FilesystemEvent::UpstreamUpdate {
@@ -233,52 +236,9 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
         // Also check whether the file is updated since there is a window
         // between unwatch the file and watch the file again.
         paths.dependencies(&mut |path| {
-            let mut contained = false;
-            // Update or insert the entry with the new lifetime.
-            let entry = self
-                .watched_entries
-                .entry(path.clone())
-                .and_modify(|watch_entry| {
-                    contained = true;
-                    watch_entry.lifetime = self.lifetime;
-                })
-                .or_insert_with(|| WatchedEntry {
-                    lifetime: self.lifetime,
-                    watching: false,
-                    seen: false,
-                    state: WatchState::Stable,
-                    prev: None,
-                });
-
-            if entry.seen {
-                return;
-            }
-            entry.seen = true;
-
-            // Update in-memory metadata for now.
-            let meta = path.metadata().map_err(|e| FileError::from_io(e, path));
-
-            if let Some((watcher, _)) = &mut self.watcher {
-                // Case1. meta = Err(..) We cannot get the metadata successfully, so we
-                // are okay to ignore this file for watching.
-                //
-                // Case2. meta = Ok(..) Watch the file if it's not watched.
-                if meta
-                    .as_ref()
-                    .is_ok_and(|meta| !meta.is_dir() && (!contained || !entry.watching))
-                {
-                    log::debug!("watching {path:?}");
-                    entry.watching = log_notify_error(
-                        watcher.watch(path.as_ref(), RecursiveMode::NonRecursive),
-                        "failed to watch",
-                    )
-                    .is_some();
-                }
-
-                changeset.may_insert(self.notify_entry_update(path.clone()));
-            } else {
-                let watched = self.inner.content(path);
-                changeset.inserts.push((path.clone(), watched.into()));
+            let seen = self.watched_entries.get(path).is_some_and(|it| it.seen);
+            if !seen {
+                self.update_watch(path, &mut changeset);
             }
         });
 
@@ -304,6 +264,57 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
         (!changeset.is_empty()).then_some(changeset)
     }
 
+    /// Watches the file if it exists, and checks whether it is updated.
+    fn update_watch(&mut self, path: &ImmutPath, changeset: &mut FileChangeSet) {
+        self.update_watch_(path, changeset, true)
+    }
+
+    fn update_watch_(&mut self, path: &ImmutPath, changeset: &mut FileChangeSet, retry: bool) {
+        // Update or insert the entry with the new lifetime.
+        let entry = self
+            .watched_entries
+            .entry(path.clone())
+            .and_modify(|watch_entry| {
+                watch_entry.lifetime = self.lifetime;
+            })
+            .or_insert_with(|| WatchedEntry {
+                lifetime: self.lifetime,
+                watching: false,
+                seen: false,
+                state: WatchState::Stable,
+                prev: None,
+            });
+        entry.seen = true;
+
+        let Some((watcher, _)) = &mut self.watcher else {
+            let watched = self.inner.content(path);
+            changeset.inserts.push((path.clone(), watched.into()));
+            return;
+        };
+
+        // Case1. meta = Err(..) We cannot get the metadata successfully, so we
+        // are okay to ignore this file for watching.
+        //
+        // Case2. meta = Ok(..) Watch the file if it's not watched.
+        let can_watch = || path.metadata().is_ok_and(|meta| !meta.is_dir());
+        if !entry.watching && can_watch() {
+            log::debug!("watching {path:?}");
+            entry.watching = log_notify_error(
+                watcher.watch(path.as_ref(), RecursiveMode::NonRecursive),
+                "failed to watch",
+            )
+            .is_some();
+        }
+        let watching = entry.watching;
+
+        changeset.may_insert(self.notify_entry_update(path.clone()));
+
+        // The file may be created in between.
+        if !watching && can_watch() && retry {
+            self.update_watch_(path, changeset, false);
+        }
+    }
+
     /// Notify the event from the builtin watcher.
     fn notify_event(&mut self, event: notify::Event) {
         // Account file updates.
-- 
2.43.0


From b17c13eeedb9f961d875e2d723f6fa5595b55386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:41 +0000
Subject: [PATCH 27/46] fix: watch files again that were replaced by the same
 content

---
 crates/tinymist-project/src/watch.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/tinymist-project/src/watch.rs b/crates/tinymist-project/src/watch.rs
index 1096e1a..6e69ceb 100644
--- a/crates/tinymist-project/src/watch.rs
+++ b/crates/tinymist-project/src/watch.rs
@@ -349,6 +349,10 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                     log_notify_error(watcher.0.unwatch(path), "failed to unwatch");
                 }
                 entry.watching = false;
+
+                // The file may have been replaced by another one already. If their contents
+                // are the same, there is no change that makes us sync dependencies.
+                self.update_watch(&path.as_path().into(), &mut changeset);
             }
         }
 
-- 
2.43.0


From b0b1afa144688d1a875747c9525f683f9d1f1b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:42 +0000
Subject: [PATCH 28/46] fix: see changes of files that only earlier snapshots
 have read

---
 crates/tinymist-vfs/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/tinymist-vfs/src/lib.rs b/crates/tinymist-vfs/src/lib.rs
index d3ab264..326d033 100644
--- a/crates/tinymist-vfs/src/lib.rs
+++ b/crates/tinymist-vfs/src/lib.rs
@@ -579,6 +579,10 @@ impl<M: PathAccessModel + Sized> RevisingVfs<'_, M> {
     ///
     /// See [`NotifyAccessModel`] for more information.
     pub fn notify_fs_changes(&mut self, event: FileChangeSet) {
+        // A snapshot taken before may read the files later, so it doesn't matter
+        // whether they have been read.
+        self.view_changed |= !event.is_empty();
+
         for path in &event.removes {
             self.invalidate_path(path);
         }
-- 
2.43.0


From e6c53abdab2f11f62680796f4fdfddfe1eb7c213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:42 +0000
Subject: [PATCH 29/46] fix: do not take files for clean that are not read yet

---
 crates/tinymist-vfs/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/tinymist-vfs/src/lib.rs b/crates/tinymist-vfs/src/lib.rs
index 326d033..2903b61 100644
--- a/crates/tinymist-vfs/src/lib.rs
+++ b/crates/tinymist-vfs/src/lib.rs
@@ -231,6 +231,12 @@ impl<M: PathAccessModel + Clone + Sized> Vfs<M> {
                 log::debug!("Vfs(dirty, {id:?}): file id not found");
                 return false;
             };
+            // The file was read through a snapshot taken before, so it is unknown whether
+            // it is changed since then.
+            if entry.bytes.get().is_none_or(|e| e.1 > rev) {
+                log::debug!("Vfs(dirty, {id:?}): file is not read at rev {rev:?}");
+                return false;
+            }
             if entry.changed_at > rev {
                 log::debug!("Vfs(dirty, {id:?}): rev {rev:?} => {:?}", entry.changed_at);
                 return false;
-- 
2.43.0


From 1c44ff887d776f0b139d5617557d4d061ea0b5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:13 +0000
Subject: [PATCH 30/46] fix: count bytes in UTF-8 positions and stay on the
 line that a position names

---
 crates/tinymist-analysis/src/location.rs     | 55 +++++++-------------
 crates/tinymist-query/src/analysis/global.rs |  2 +-
 2 files changed, 21 insertions(+), 36 deletions(-)

diff --git a/crates/tinymist-analysis/src/location.rs b/crates/tinymist-analysis/src/location.rs
index a775ad4..51681ef 100644
--- a/crates/tinymist-analysis/src/location.rs
+++ b/crates/tinymist-analysis/src/location.rs
@@ -3,7 +3,7 @@
 use std::cmp::Ordering;
 use std::ops::Range;
 
-use typst::syntax::Source;
+use typst::syntax::{is_newline, Source};
 
 /// An LSP Position encoded by [`PositionEncoding`].
 type LspPosition = tinymist_world::debug_loc::LspPosition;
@@ -78,41 +78,25 @@ pub fn to_typst_position(
         return Some(typst_source.len_bytes());
     }
 
-    match lsp_position_encoding {
-        PositionEncoding::Utf8 => {
-            let line_index = lsp_position.line as usize;
-            let column_index = lsp_position.character as usize;
-            typst_source.line_column_to_byte(line_index, column_index)
-        }
-        PositionEncoding::Utf16 => {
-            // We have a line number and a UTF-16 offset into that line. We want a byte
-            // offset into the file.
-            //
-            // Typst's `Source` provides several UTF-16 methods:
-            //  - `len_utf16` for the length of the file
-            //  - `byte_to_utf16` to convert a byte offset from the start of the file to a
-            //    UTF-16 offset from the start of the file
-            //  - `utf16_to_byte` to do the opposite of `byte_to_utf16`
-            //
-            // Unfortunately, none of these address our needs well, so we do some math
-            // instead. This is not the fastest possible implementation, but
-            // it's the most reasonable without access to the internal state
-            // of `Source`.
-
-            // TODO: Typst's `Source` could easily provide an implementation of the method
-            // we need   here. Submit a PR against `typst` to add it, then
-            // update this if/when merged.
-
-            let line_index = lsp_position.line as usize;
-            let utf16_offset_in_line = lsp_position.character as usize;
+    let line_range = typst_source.line_to_range(lsp_position.line as usize)?;
+    let line = typst_source.get(line_range.clone())?;
+    // If the character value is greater than the line length it defaults back to
+    // the line length, which doesn't include the line ending.
+    let line = line.trim_end_matches(is_newline);
 
-            let byte_line_offset = typst_source.line_to_byte(line_index)?;
-            let utf16_line_offset = typst_source.byte_to_utf16(byte_line_offset)?;
-            let utf16_offset = utf16_line_offset + utf16_offset_in_line;
-
-            typst_source.utf16_to_byte(utf16_offset)
+    let mut column_index = 0;
+    for (byte_column, ch) in line.char_indices() {
+        if column_index >= lsp_position.character as usize {
+            return Some(line_range.start + byte_column);
         }
+
+        column_index += match lsp_position_encoding {
+            PositionEncoding::Utf8 => ch.len_utf8(),
+            PositionEncoding::Utf16 => ch.len_utf16(),
+        };
     }
+
+    Some(line_range.start + line.len())
 }
 
 /// Convert a Typst position to an LSP position.
@@ -126,11 +110,12 @@ pub fn to_lsp_position(
     }
 
     let line_index = typst_source.byte_to_line(typst_offset).unwrap();
-    let column_index = typst_source.byte_to_column(typst_offset).unwrap();
 
     let lsp_line = line_index as u32;
     let lsp_column = match lsp_position_encoding {
-        PositionEncoding::Utf8 => column_index as u32,
+        PositionEncoding::Utf8 => {
+            (typst_offset - typst_source.line_to_byte(line_index).unwrap()) as u32
+        }
         PositionEncoding::Utf16 => {
             // See the implementation of `position_to_offset` for discussion
             // relevant to this function.
diff --git a/crates/tinymist-query/src/analysis/global.rs b/crates/tinymist-query/src/analysis/global.rs
index e3b59f2..636cf31 100644
--- a/crates/tinymist-query/src/analysis/global.rs
+++ b/crates/tinymist-query/src/analysis/global.rs
@@ -1360,7 +1360,7 @@ fn find_loc(
 
     let line = r as u32;
     let character = match encoding {
-        PositionEncoding::Utf8 => column_prefix.chars().count(),
+        PositionEncoding::Utf8 => column_prefix.len(),
         PositionEncoding::Utf16 => column_prefix.chars().map(|ch| ch.len_utf16()).sum(),
     } as u32;
 
-- 
2.43.0


From c66fc4ed22622575d7dcfad2f657767212d4d191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:28 +0000
Subject: [PATCH 31/46] fix: shrink the common end of a formatted text to where
 an edit can end

---
 crates/tinymist/src/task/format.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/tinymist/src/task/format.rs b/crates/tinymist/src/task/format.rs
index f515705..2797ad7 100644
--- a/crates/tinymist/src/task/format.rs
+++ b/crates/tinymist/src/task/format.rs
@@ -70,7 +70,7 @@ fn calc_diff(prev: Source, next: String, encoding: PositionEncoding) -> Option<V
         return Some(vec![]);
     }
 
-    while !old.is_char_boundary(prefix) || !new.is_char_boundary(prefix) {
+    while !is_boundary(old, prefix) || !is_boundary(new, prefix) {
         prefix -= 1;
     }
 
@@ -78,8 +78,8 @@ fn calc_diff(prev: Source, next: String, encoding: PositionEncoding) -> Option<V
         .take_while(|(x, y)| x == y)
         .count();
 
-    while !old.is_char_boundary(old.len() - suffix) || !new.is_char_boundary(new.len() - suffix) {
-        suffix += 1;
+    while !is_boundary(old, old.len() - suffix) || !is_boundary(new, new.len() - suffix) {
+        suffix -= 1;
     }
 
     let replace = prefix..old.len() - suffix;
@@ -92,3 +92,9 @@ fn calc_diff(prev: Source, next: String, encoding: PositionEncoding) -> Option<V
         range,
     }])
 }
+
+/// Checks that an edit can start or end at the index. There is no LSP position
+/// inside of a character or a CRLF line ending.
+fn is_boundary(text: &str, idx: usize) -> bool {
+    text.is_char_boundary(idx) && !(text[..idx].ends_with('\r') && text[idx..].starts_with('\n'))
+}
-- 
2.43.0


From 651c97cb19837987637d4c0e53bdb8a548457564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:28 +0000
Subject: [PATCH 32/46] fix: escape the characters of untitled urls

---
 crates/tinymist-query/src/lsp_typst_boundary.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-query/src/lsp_typst_boundary.rs b/crates/tinymist-query/src/lsp_typst_boundary.rs
index 912f4ff..142be02 100644
--- a/crates/tinymist-query/src/lsp_typst_boundary.rs
+++ b/crates/tinymist-query/src/lsp_typst_boundary.rs
@@ -1,5 +1,6 @@
 //! Conversions between Typst and LSP types and representations
 
+use percent_encoding::{utf8_percent_encode, AsciiSet, CONTROLS};
 use tinymist_std::path::PathClean;
 use tinymist_world::vfs::PathResolution;
 
@@ -15,9 +16,14 @@ pub use tinymist_analysis::location::*;
 const UNTITLED_ROOT: &str = "/untitled";
 static EMPTY_URL: LazyLock<Url> = LazyLock::new(|| Url::parse("file://").unwrap());
 
+/// The characters that would not be taken as part of the path of a URL.
+const UNTITLED_ESCAPES: &AsciiSet = &CONTROLS.add(b' ').add(b'?').add(b'#').add(b'%');
+
 /// Convert a path to a URL.
 pub fn untitled_url(path: &Path) -> anyhow::Result<Url> {
-    Ok(Url::parse(&format!("untitled:{}", path.display()))?)
+    let path = path.to_string_lossy();
+    let path = utf8_percent_encode(&path, UNTITLED_ESCAPES);
+    Ok(Url::parse(&format!("untitled:{path}"))?)
 }
 
 /// Convert a path to a URL.
-- 
2.43.0


From ca16f434e8d876018dab370bdc67fc325bc10f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:15 +0000
Subject: [PATCH 33/46] fix: keep the editor actor running after a jump from
 the outline of a browser

---
 crates/typst-preview/src/actor/editor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/typst-preview/src/actor/editor.rs b/crates/typst-preview/src/actor/editor.rs
index 6a441d9..efa8959 100644
--- a/crates/typst-preview/src/actor/editor.rs
+++ b/crates/typst-preview/src/actor/editor.rs
@@ -189,7 +189,7 @@ impl<T: EditorServer> EditorActor<T> {
                             self.source_scroll_by_span(req.span)
                                 .await;
 
-                            false
+                            true
                         },
                         EditorActorRequest::CompileStatus(status) => {
                             self.editor_conn.resp_ctl_plane("CompileStatus", ControlPlaneResponse::CompileStatus(status)).await
-- 
2.43.0


From 9d0c7297fcfe10cf5a433eca8c5a99244f259c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 34/46] fix: survive malformed span ids that browsers and
 editors send

---
 crates/typst-preview/src/debug_loc.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/typst-preview/src/debug_loc.rs b/crates/typst-preview/src/debug_loc.rs
index 42c7314..8f3624f 100644
--- a/crates/typst-preview/src/debug_loc.rs
+++ b/crates/typst-preview/src/debug_loc.rs
@@ -38,8 +38,8 @@ impl InternId {
         format!("{:x}", self.to_u64())
     }
 
-    pub fn from_hex(hex: &str) -> Self {
-        Self::from_u64(u64::from_str_radix(hex, 16).unwrap())
+    pub fn from_hex(hex: &str) -> Option<Self> {
+        Some(Self::from_u64(u64::from_str_radix(hex, 16).ok()?))
     }
 }
 
@@ -113,7 +113,10 @@ impl SpanInternerImpl {
     }
 
     pub fn span_by_str(&self, str: &str) -> InternQuery<SourceSpan> {
-        self.span(InternId::from_hex(str))
+        match InternId::from_hex(str) {
+            Some(id) => self.span(id),
+            None => InternQuery::Ok(None),
+        }
     }
 
     pub fn span(&self, id: InternId) -> InternQuery<SourceSpan> {
-- 
2.43.0


From b825ad9254b8b79b0449228aa8efe8fe68bb6372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 35/46] fix: render the latest document when a full render is
 requested

---
 crates/typst-preview/src/actor/render.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/typst-preview/src/actor/render.rs b/crates/typst-preview/src/actor/render.rs
index c6f7a86..2633419 100644
--- a/crates/typst-preview/src/actor/render.rs
+++ b/crates/typst-preview/src/actor/render.rs
@@ -151,14 +151,12 @@ impl RenderActor {
                 continue;
             };
 
+            // The delta also makes the document the current one of the renderer.
+            let delta = self.renderer.pack_delta(&document);
             let data = if has_full_render {
-                if let Some(data) = self.renderer.pack_current() {
-                    data
-                } else {
-                    self.renderer.pack_delta(&document)
-                }
+                self.renderer.pack_current().unwrap_or(delta)
             } else {
-                self.renderer.pack_delta(&document)
+                delta
             };
             let Ok(_) = self.svg_sender.send(data) else {
                 log::info!("RenderActor: svg_sender is dropped");
-- 
2.43.0


From a830cb9a1e592db0e0a7b840cf79f8d80c955533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 36/46] fix: keep delivering messages to a browser that lagged
 behind

---
 crates/typst-preview/src/actor/webview.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/typst-preview/src/actor/webview.rs b/crates/typst-preview/src/actor/webview.rs
index deba25d..aec74b1 100644
--- a/crates/typst-preview/src/actor/webview.rs
+++ b/crates/typst-preview/src/actor/webview.rs
@@ -88,7 +88,18 @@ impl<
     pub async fn run(mut self) {
         loop {
             tokio::select! {
-                Ok(msg) = self.mailbox.recv() => {
+                msg = self.mailbox.recv() => {
+                    let msg = match msg {
+                        Ok(msg) => msg,
+                        Err(broadcast::error::RecvError::Lagged(_)) => {
+                            log::info!("WebviewActor: lagged message. Some events are dropped");
+                            continue;
+                        }
+                        Err(broadcast::error::RecvError::Closed) => {
+                            log::info!("WebviewActor: no more messages");
+                            break;
+                        }
+                    };
                     log::trace!("WebviewActor: received message from mailbox: {:?}", msg);
                     match msg {
                         WebviewActorRequest::SrcToDocJump(jump_info) => {
-- 
2.43.0


From bd00083bb40a5ef0bf02970e4254f99f7a0cb258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 37/46] fix: keep the ids of spans valid when older spans are
 collected

---
 crates/typst-preview/src/debug_loc.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/typst-preview/src/debug_loc.rs b/crates/typst-preview/src/debug_loc.rs
index 8f3624f..402f0a4 100644
--- a/crates/typst-preview/src/debug_loc.rs
+++ b/crates/typst-preview/src/debug_loc.rs
@@ -87,6 +87,8 @@ impl SpanInterner {
 
 pub struct SpanInternerImpl {
     lifetime: usize,
+    /// The number of the spans that are collected, which are the oldest ones.
+    collected: usize,
     span2id: IndexSet<(usize, SourceSpan)>,
 }
 
@@ -102,14 +104,17 @@ impl SpanInternerImpl {
     pub fn new() -> Self {
         Self {
             lifetime: 1,
+            collected: 0,
             span2id: IndexSet::new(),
         }
     }
 
     pub fn reset(&mut self) {
         self.lifetime += 1;
+        let len = self.span2id.len();
         self.span2id
             .retain(|(id, _)| self.lifetime - id < GARAGE_COLLECT_THRESHOLD);
+        self.collected += len - self.span2id.len();
     }
 
     pub fn span_by_str(&self, str: &str) -> InternQuery<SourceSpan> {
@@ -124,8 +129,9 @@ impl SpanInternerImpl {
             InternQuery::UseAfterFree
         } else {
             InternQuery::Ok(
-                self.span2id
-                    .get_index(id.id as usize)
+                (id.id as usize)
+                    .checked_sub(self.collected)
+                    .and_then(|idx| self.span2id.get_index(idx))
                     .map(|(_, span)| span)
                     .copied(),
             )
@@ -137,6 +143,6 @@ impl SpanInternerImpl {
         let (idx, _) = self.span2id.insert_full(item);
         // combine lifetime
 
-        InternId::new(self.lifetime, idx)
+        InternId::new(self.lifetime, self.collected + idx)
     }
 }
-- 
2.43.0


From 1db2931daeb6338817b2ff37d650dc841ddace45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 38/46] fix: stop counting browsers as connected whose
 handshakes fail

---
 crates/typst-preview/src/lib.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/crates/typst-preview/src/lib.rs b/crates/typst-preview/src/lib.rs
index 3c8cbad..dd76f56 100644
--- a/crates/typst-preview/src/lib.rs
+++ b/crates/typst-preview/src/lib.rs
@@ -97,6 +97,15 @@ impl Previewer {
             let h = conn_handler.clone();
             let alive_tx = alive_tx.clone();
             tokio::spawn(async move {
+                struct FinallySend(mpsc::UnboundedSender<()>);
+                impl Drop for FinallySend {
+                    fn drop(&mut self) {
+                        let _ = self.0.send(());
+                    }
+                }
+
+                let _send = FinallySend(alive_tx);
+
                 let conn: C = caster(conn.await).unwrap();
                 tokio::pin!(conn);
 
@@ -138,14 +147,6 @@ impl Previewer {
                 );
                 tokio::spawn(outline_render_actor.run());
 
-                struct FinallySend(mpsc::UnboundedSender<()>);
-                impl Drop for FinallySend {
-                    fn drop(&mut self) {
-                        let _ = self.0.send(());
-                    }
-                }
-
-                let _send = FinallySend(alive_tx);
                 webview_actor.run().await;
             })
         };
-- 
2.43.0


From 448a659c4446d1bb7a5b0e1d1b27a9ccfb012580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:50 +0000
Subject: [PATCH 39/46] fix: keep the status up to date while the editor is not
 notified of it

---
 crates/tinymist/src/actor/editor.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/tinymist/src/actor/editor.rs b/crates/tinymist/src/actor/editor.rs
index b9a4533..5835cd5 100644
--- a/crates/tinymist/src/actor/editor.rs
+++ b/crates/tinymist/src/actor/editor.rs
@@ -95,7 +95,7 @@ impl EditorActor {
                 }
                 EditorRequest::Status(compile_status) => {
                     log::trace!("received status request: {compile_status:?}");
-                    if self.config.notify_status && compile_status.id == ProjectInsId::PRIMARY {
+                    if compile_status.id == ProjectInsId::PRIMARY {
                         use tinymist_project::CompileStatusEnum::*;
 
                         status.path = compile_status
@@ -109,14 +109,18 @@ impl EditorActor {
                                 CompileStatusEnum::CompileError
                             }
                         };
-                        self.client.send_notification::<StatusAll>(&status);
+                        if self.config.notify_status {
+                            self.client.send_notification::<StatusAll>(&status);
+                        }
                     }
                 }
                 EditorRequest::WordCount(id, count) => {
                     log::trace!("received word count request");
-                    if self.config.notify_status && id == ProjectInsId::PRIMARY {
+                    if id == ProjectInsId::PRIMARY {
                         status.words_count = Some(count);
-                        self.client.send_notification::<StatusAll>(&status);
+                        if self.config.notify_status {
+                            self.client.send_notification::<StatusAll>(&status);
+                        }
                     }
                 }
             }
-- 
2.43.0


From 128686d59634f04618f31377c1a0779d3af26ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:16 +0000
Subject: [PATCH 40/46] fix: keep pending exports and word counts of different
 projects apart

The folder of the pending export was shared by all projects, while revisions
of different projects are not comparable: the last export (or word count) of
a project was dropped when another project was waiting with a greater
revision, and was replaced when the other's revision was newer.
---
 crates/tinymist/src/task/export.rs | 14 +++++++-------
 crates/tinymist/src/task/mod.rs    | 17 ++++++++++++++++-
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/crates/tinymist/src/task/export.rs b/crates/tinymist/src/task/export.rs
index bc6a07a..c61843d 100644
--- a/crates/tinymist/src/task/export.rs
+++ b/crates/tinymist/src/task/export.rs
@@ -17,7 +17,7 @@ use typlite::Typlite;
 use typst::foundations::IntoValue;
 use typst::visualize::Color;
 
-use super::{FutureFolder, SyncTaskFactory};
+use super::{FutureFolder, ProjectFutureFolder, SyncTaskFactory};
 use crate::project::{
     ApplyProjectTask, CompiledArtifact, EntryReader, ExportHtmlTask, ExportMarkdownTask,
     ExportPdfTask, ExportPngTask, ExportSvgTask, ExportTask as ProjectExportTask, ExportTextTask,
@@ -30,8 +30,8 @@ pub struct ExportTask {
     pub handle: tokio::runtime::Handle,
     pub editor_tx: Option<mpsc::UnboundedSender<EditorRequest>>,
     pub factory: SyncTaskFactory<ExportUserConfig>,
-    export_folder: FutureFolder,
-    count_word_folder: FutureFolder,
+    export_folder: ProjectFutureFolder,
+    count_word_folder: ProjectFutureFolder,
 }
 
 impl ExportTask {
@@ -44,8 +44,8 @@ impl ExportTask {
             handle,
             editor_tx,
             factory: SyncTaskFactory::new(export_config),
-            export_folder: FutureFolder::default(),
-            count_word_folder: FutureFolder::default(),
+            export_folder: ProjectFutureFolder::default(),
+            count_word_folder: ProjectFutureFolder::default(),
         }
     }
 
@@ -82,7 +82,7 @@ impl ExportTask {
         }
 
         let rev = artifact.world().revision().get();
-        let fut = self.export_folder.spawn(rev, || {
+        let fut = self.export_folder.get(artifact.id()).spawn(rev, || {
             let task = config.task.clone();
             let artifact = artifact.clone();
             Box::pin(async move {
@@ -107,7 +107,7 @@ impl ExportTask {
 
         let editor_tx = self.editor_tx.clone()?;
         let rev = artifact.world().revision().get();
-        let fut = self.count_word_folder.spawn(rev, || {
+        let fut = self.count_word_folder.get(artifact.id()).spawn(rev, || {
             let artifact = artifact.clone();
             Box::pin(async move {
                 let id = artifact.id().clone();
diff --git a/crates/tinymist/src/task/mod.rs b/crates/tinymist/src/task/mod.rs
index 0c9cf8c..1986488 100644
--- a/crates/tinymist/src/task/mod.rs
+++ b/crates/tinymist/src/task/mod.rs
@@ -10,7 +10,7 @@ pub use format::*;
 mod user_action;
 pub use user_action::*;
 
-use std::{ops::DerefMut, pin::Pin, sync::Arc};
+use std::{collections::HashMap, ops::DerefMut, pin::Pin, sync::Arc};
 
 use futures::Future;
 use parking_lot::Mutex;
@@ -18,6 +18,8 @@ use rayon::Scope;
 use reflexo::TakeAs;
 use tinymist_std::error::prelude::*;
 
+use crate::project::ProjectInsId;
+
 /// Please uses this if you believe all mutations are fast
 #[derive(Clone, Default)]
 pub struct SyncTaskFactory<T>(Arc<std::sync::RwLock<Arc<T>>>);
@@ -109,3 +111,16 @@ impl FutureFolder {
         })
     }
 }
+
+/// Folds the tasks of each project on its own, since the revisions of different
+/// projects are not comparable.
+#[derive(Clone, Default)]
+struct ProjectFutureFolder {
+    folders: Arc<Mutex<HashMap<ProjectInsId, FutureFolder>>>,
+}
+
+impl ProjectFutureFolder {
+    fn get(&self, id: &ProjectInsId) -> FutureFolder {
+        self.folders.lock().entry(id.clone()).or_default().clone()
+    }
+}
-- 
2.43.0


From 52e7b53f49164e4216171656aef17b9cf573a595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:36 +0000
Subject: [PATCH 41/46] fix: write what was sent completely when the server
 fails

with_stdio_transport returned the error of the server loop at once, so that the
process could exit while the writer thread was in the middle of a response.
---
 crates/sync-lsp/src/transport.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/sync-lsp/src/transport.rs b/crates/sync-lsp/src/transport.rs
index 4a7cc4a..5794073 100644
--- a/crates/sync-lsp/src/transport.rs
+++ b/crates/sync-lsp/src/transport.rs
@@ -96,9 +96,12 @@ fn with_stdio_transport_impl(
         },
     };
 
-    f(connection)?;
+    // Even if the server fails, what it has sent is written completely.
+    let res = f(connection);
+    let written = io_threads.join_write();
 
-    io_threads.join_write()?;
+    res?;
+    written?;
 
     Ok(())
 }
-- 
2.43.0


From 3855ac6fc33c27a2f69ce0a0d22e2337ff7cfad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:07 +0000
Subject: [PATCH 42/46] fix: read resource paths that contain colons

---
 crates/tinymist-task/src/primitives.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/crates/tinymist-task/src/primitives.rs b/crates/tinymist-task/src/primitives.rs
index e1ba2ad..eecf8fd 100644
--- a/crates/tinymist-task/src/primitives.rs
+++ b/crates/tinymist-task/src/primitives.rs
@@ -270,14 +270,9 @@ impl FromStr for ResourcePath {
     type Err = &'static str;
 
     fn from_str(value: &str) -> Result<Self, Self::Err> {
-        let mut parts = value.split(':');
-        let scheme = parts.next().ok_or("missing scheme")?;
-        let path = parts.next().ok_or("missing path")?;
-        if parts.next().is_some() {
-            Err("too many colons")
-        } else {
-            Ok(ResourcePath(scheme.into(), path.to_string()))
-        }
+        // The path may contain colons, e.g. `file_id:@preview/pkg:0.1.0/lib.typ`.
+        let (scheme, path) = value.split_once(':').ok_or("missing path")?;
+        Ok(ResourcePath(scheme.into(), path.to_string()))
     }
 }
 
-- 
2.43.0


From 2f7a46d052e9666af8e3215782ecefe1b585ab74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:07 +0000
Subject: [PATCH 43/46] fix: keep the paths in a lock file relative to its
 directory

---
 crates/tinymist-project/src/lock.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/crates/tinymist-project/src/lock.rs b/crates/tinymist-project/src/lock.rs
index 74cd273..cb5f540 100644
--- a/crates/tinymist-project/src/lock.rs
+++ b/crates/tinymist-project/src/lock.rs
@@ -241,25 +241,28 @@ impl LockFileUpdate {
     pub fn compiled(&mut self, world: &LspWorld) -> Option<Id> {
         let id = Id::from_world(world)?;
 
+        // The paths in the lock file are relative to the directory storing it, which
+        // is not always the current directory.
+        let resource = |path: &Path| {
+            let rel = tinymist_std::path::diff(path, &self.root);
+            ResourcePath::from_user_sys(rel.as_deref().unwrap_or(path))
+        };
+
         let root = ResourcePath::from_user_sys(Path::new("."));
-        let main = ResourcePath::from_user_sys(world.path_for_id(world.main()).ok()?.as_path());
+        let main = resource(world.path_for_id(world.main()).ok()?.as_path());
 
         let font_resolver = &world.font_resolver;
         let font_paths = font_resolver
             .font_paths()
             .iter()
-            .map(|p| ResourcePath::from_user_sys(p))
+            .map(|p| resource(p))
             .collect::<Vec<_>>();
 
         // let system_font = font_resolver.system_font();
 
         let registry = &world.registry;
-        let package_path = registry
-            .package_path()
-            .map(|p| ResourcePath::from_user_sys(p));
-        let package_cache_path = registry
-            .package_cache_path()
-            .map(|p| ResourcePath::from_user_sys(p));
+        let package_path = registry.package_path().map(|p| resource(p));
+        let package_cache_path = registry.package_cache_path().map(|p| resource(p));
 
         // todo: freeze the package paths
         let _ = package_cache_path;
-- 
2.43.0


From b9717716b9309ee4ed127e2c28e62a301585b722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:21 +0000
Subject: [PATCH 44/46] fix: export HTML when the command line asks for it

---
 crates/tinymist-project/src/args.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tinymist-project/src/args.rs b/crates/tinymist-project/src/args.rs
index 5a85994..0a61f86 100644
--- a/crates/tinymist-project/src/args.rs
+++ b/crates/tinymist-project/src/args.rs
@@ -223,7 +223,7 @@ impl TaskCompileArgs {
                 fill: None,
             }),
             OutputFormat::Svg => ProjectTask::ExportSvg(ExportSvgTask { export }),
-            OutputFormat::Html => ProjectTask::ExportSvg(ExportSvgTask { export }),
+            OutputFormat::Html => ProjectTask::ExportHtml(ExportHtmlTask { export }),
         };
 
         Ok(ApplyProjectTask {
-- 
2.43.0


From cece6f4036677ab8f742646cfbbcd2a0de3c04b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:21 +0000
Subject: [PATCH 45/46] fix: refuse a resolution that is not a number

---
 crates/tinymist-project/src/args.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-project/src/args.rs b/crates/tinymist-project/src/args.rs
index 0a61f86..a19c1a3 100644
--- a/crates/tinymist-project/src/args.rs
+++ b/crates/tinymist-project/src/args.rs
@@ -219,7 +219,10 @@ impl TaskCompileArgs {
             }),
             OutputFormat::Png => ProjectTask::ExportPng(ExportPngTask {
                 export,
-                ppi: self.png.ppi.try_into().unwrap(),
+                ppi: match self.png.ppi.try_into() {
+                    Ok(ppi) => ppi,
+                    Err(err) => bail!("invalid value for `--ppi`: {err}"),
+                },
                 fill: None,
             }),
             OutputFormat::Svg => ProjectTask::ExportSvg(ExportSvgTask { export }),
-- 
2.43.0


From 92ac919d09d64dc37b7950e27bdf886fc35a1bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:57 +0000
Subject: [PATCH 46/46] fix: find the entry file in a root given with parent
 components

---
 crates/tinymist-project/src/lsp.rs | 15 +++++++++++++++
 crates/tinymist-world/src/args.rs  |  9 ++++++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-project/src/lsp.rs b/crates/tinymist-project/src/lsp.rs
index f614898..9ce7b4f 100644
--- a/crates/tinymist-project/src/lsp.rs
+++ b/crates/tinymist-project/src/lsp.rs
@@ -2,6 +2,7 @@ use std::path::Path;
 use std::{borrow::Cow, sync::Arc};
 
 use tinymist_std::error::prelude::*;
+use tinymist_std::path::PathClean;
 use tinymist_std::{bail, ImmutPath};
 use tinymist_task::ExportTarget;
 use tinymist_world::config::CompileFontOpts;
@@ -110,6 +111,13 @@ impl WorldProvider for CompileOnceArgs {
                 .to_owned()
         };
 
+        // A root like `..` is not a literal prefix of the files in it.
+        let (root, main) = if main.starts_with(&root) {
+            (root, main)
+        } else {
+            (root.clean(), main.clean())
+        };
+
         let relative_main = match main.strip_prefix(&root) {
             Ok(relative_main) => relative_main,
             Err(_) => {
@@ -186,6 +194,13 @@ impl WorldProvider for (ProjectInput, ImmutPath) {
             lock_dir.as_ref().to_owned()
         };
 
+        // A root like `..` is not a literal prefix of the files in it.
+        let (root, entry) = if entry.starts_with(&root) {
+            (root, entry)
+        } else {
+            (root.clean(), entry.clean())
+        };
+
         if !entry.starts_with(&root) {
             bail!("entry file must be in the root directory, {entry:?}, {root:?}");
         }
diff --git a/crates/tinymist-world/src/args.rs b/crates/tinymist-world/src/args.rs
index 2781c0c..e9461a8 100644
--- a/crates/tinymist-world/src/args.rs
+++ b/crates/tinymist-world/src/args.rs
@@ -6,7 +6,7 @@ use std::{
 
 use clap::{builder::ValueParser, ArgAction, Parser, ValueEnum};
 use serde::{Deserialize, Serialize};
-use tinymist_std::{bail, error::prelude::*};
+use tinymist_std::{bail, error::prelude::*, path::PathClean};
 use tinymist_vfs::ImmutDict;
 use typst::{foundations::IntoValue, utils::LazyHash};
 
@@ -153,6 +153,13 @@ impl CompileOnceArgs {
                 .to_owned()
         };
 
+        // A root like `..` is not a literal prefix of the files in it.
+        let (root, main) = if main.starts_with(&root) {
+            (root, main)
+        } else {
+            (root.clean(), main.clean())
+        };
+
         let relative_main = match main.strip_prefix(&root) {
             Ok(relative_main) => relative_main,
             Err(_) => {
-- 
2.43.0

