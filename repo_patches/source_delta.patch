From ee83f67264375455ed289e83f1d71a8a743ddae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:52 +0000
Subject: [PATCH 1/4] fix: free the slab slot and key of an abandoned
 placeholder

remove_placeholder only removed the hash table entry, so every guard that was
dropped without inserting (or failed get_or_insert loader) leaked its key and
its slot in the entries slab.
---
 src/shard.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shard.rs b/src/shard.rs
index 65fc148..bbae92d 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -182,6 +182,7 @@ impl<Key, Val, We, B, L, Plh: SharedPlaceholder> CacheShard<Key, Val, We, B, L,
             matches!(entry, Entry::Placeholder(Placeholder { shared, .. }) if shared.same_as(placeholder))
         }) {
             entry.remove();
+            self.entries.remove(placeholder.idx());
         }
     }
 
-- 
2.43.0


From b2c5ea63404038830e837826bc9092fab05f2428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:23 +0000
Subject: [PATCH 2/4] fix: unsync get_or_insert_with leaves nothing behind when
 the loader fails

When the closure returned an error or panicked, the placeholder stayed in the
map and the slab for good: its key leaked and later lookups counted as hits.
---
 src/unsync.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/unsync.rs b/src/unsync.rs
index 0aded9c..a0dcb3f 100644
--- a/src/unsync.rs
+++ b/src/unsync.rs
@@ -251,13 +251,16 @@ impl<Key: Eq + Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<K
     {
         let idx = match self.shard.upsert_placeholder(self.shard.hash(key), key) {
             Ok((idx, _)) => idx,
-            Err((plh, _)) => {
-                let v = with()?;
-                let mut lcs = self.shard.lifecycle.begin_request();
-                let replaced = self.shard.replace_placeholder(&mut lcs, &plh, false, v);
-                self.shard.lifecycle.end_request(lcs);
-                debug_assert!(replaced.is_ok(), "unsync replace_placeholder can't fail");
-                plh.idx
+            Err((placeholder, _)) => {
+                let idx = placeholder.idx;
+                // the guard removes the placeholder if `with` fails or panics
+                let guard = Guard {
+                    cache: self,
+                    placeholder,
+                    inserted: false,
+                };
+                guard.insert(with()?);
+                idx
             }
         };
         Ok(self.shard.peek_token(idx))
@@ -277,13 +280,16 @@ impl<Key: Eq + Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<K
     {
         let idx = match self.shard.upsert_placeholder(self.shard.hash(key), key) {
             Ok((idx, _)) => idx,
-            Err((plh, _)) => {
-                let v = with()?;
-                let mut lcs = self.shard.lifecycle.begin_request();
-                let replaced = self.shard.replace_placeholder(&mut lcs, &plh, false, v);
-                debug_assert!(replaced.is_ok(), "unsync replace_placeholder can't fail");
-                self.shard.lifecycle.end_request(lcs);
-                plh.idx
+            Err((placeholder, _)) => {
+                let idx = placeholder.idx;
+                // the guard removes the placeholder if `with` fails or panics
+                let guard = Guard {
+                    cache: self,
+                    placeholder,
+                    inserted: false,
+                };
+                guard.insert(with()?);
+                idx
             }
         };
         Ok(self.shard.peek_token_mut(idx).map(RefMut))
-- 
2.43.0


From 8c2733c17e4391d1ed247ba6e5d3f4a2a7e1de4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:23 +0000
Subject: [PATCH 3/4] fix: park for the remaining time in timed guard lookups

The wait was parked for the time already elapsed instead of the time left, so
it woke up repeatedly at first and overshot the timeout by up to 100%.
---
 src/sync_placeholder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sync_placeholder.rs b/src/sync_placeholder.rs
index 2952ef8..8a291d3 100644
--- a/src/sync_placeholder.rs
+++ b/src/sync_placeholder.rs
@@ -238,7 +238,7 @@ impl<
                 let start = Instant::now();
                 loop {
                     #[cfg(not(fuzzing))]
-                    thread::park_timeout(Instant::now().saturating_duration_since(start));
+                    thread::park_timeout(timeout.saturating_sub(start.elapsed()));
                     if notification.load(atomic::Ordering::Acquire) {
                         break;
                     }
-- 
2.43.0


From c237e5f3a3c64a83757713b3a7b894e1808b4103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:46 +0000
Subject: [PATCH 4/4] fix: count the miss of a sync guard lookup once

get_value_or_guard, get_or_insert_with and their async versions first looked
the key up, recording a miss, and then recorded a second miss (or a hit, if
the key was being loaded) when reserving the placeholder.
---
 src/shard.rs | 14 +++++++++++++-
 src/sync.rs  |  4 ++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index bbae92d..85333cf 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -487,6 +487,19 @@ impl<
     }
 
     pub fn get<Q>(&self, hash: u64, key: &Q) -> Option<&Val>
+    where
+        Q: Hash + Equivalent<Key> + ?Sized,
+    {
+        let value = self.get_no_miss(hash, key);
+        if value.is_none() {
+            record_miss!(self);
+        }
+        value
+    }
+
+    /// Same as `get`, but doesn't record a miss if the key isn't found.
+    /// For callers that go on to `upsert_placeholder`, which records the outcome of the lookup.
+    pub fn get_no_miss<Q>(&self, hash: u64, key: &Q) -> Option<&Val>
     where
         Q: Hash + Equivalent<Key> + ?Sized,
     {
@@ -501,7 +514,6 @@ impl<
             record_hit!(self);
             Some(&resident.value)
         } else {
-            record_miss!(self);
             None
         }
     }
diff --git a/src/sync.rs b/src/sync.rs
index eb0e806..d21f18e 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -358,7 +358,7 @@ impl<
         Q: Hash + Equivalent<Key> + ToOwned<Owned = Key> + ?Sized,
     {
         let (shard, hash) = self.shard_for(key).unwrap();
-        if let Some(v) = shard.read().get(hash, key) {
+        if let Some(v) = shard.read().get_no_miss(hash, key) {
             return GuardResult::Value(v.clone());
         }
         PlaceholderGuard::join(&self.lifecycle, shard, hash, key, timeout)
@@ -401,7 +401,7 @@ impl<
         Q: Hash + Equivalent<Key> + ToOwned<Owned = Key> + ?Sized,
     {
         let (shard, hash) = self.shard_for(key).unwrap();
-        if let Some(v) = shard.read().get(hash, key) {
+        if let Some(v) = shard.read().get_no_miss(hash, key) {
             return Ok(v.clone());
         }
         JoinFuture::new(&self.lifecycle, shard, hash, key).await
-- 
2.43.0

