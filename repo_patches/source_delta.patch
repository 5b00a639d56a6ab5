From 8acab42e3d6a286fda8a58879a9d4279f594a0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 01/24] fix: keep page-mode KV slots of TokenToKVPoolAllocator
 inside [1, size]

With page_size > 1 the allocator handed out pages 1..size//page_size, whose
last slots lie beyond size (e.g. size=64, page_size=16 gives slots up to 79
while the KV buffer has 72 rows). Only offer pages that fit entirely.
---
 pymllm/mem_cache/memory_pool.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymllm/mem_cache/memory_pool.py b/pymllm/mem_cache/memory_pool.py
index 9c8ab2a..c6ed8be 100644
--- a/pymllm/mem_cache/memory_pool.py
+++ b/pymllm/mem_cache/memory_pool.py
@@ -258,7 +258,9 @@ class TokenToKVPoolAllocator:
                 1, self.size + 1, dtype=torch.int32, device=self.device
             )
         else:
-            num_pages = self.size // self.page_size
+            # Page 0 holds the padding slot, so only pages that lie entirely in
+            # [page_size, size] can be handed out.
+            num_pages = max((self.size + 1) // self.page_size - 1, 0)
             self.free_slots = torch.arange(
                 1, num_pages + 1, dtype=torch.int32, device=self.device
             )
-- 
2.43.0


From 74377b5b9a3447e7728a2630284746553732cb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 02/24] fix: keep RadixCache/MambaRadixCache evictable size
 when an unlocked leaf gains a child

_add_leaf subtracted the parent's key length from the evictable size when the
parent stopped being a leaf, but every other update (inc/dec_lock_ref,
_delete_leaf) counts all unlocked nodes, so the counter drifted below the
number of cached tokens and went negative after eviction.
---
 pymllm/mem_cache/mamba_radix_cache.py | 9 ---------
 pymllm/mem_cache/radix_cache.py       | 8 --------
 2 files changed, 17 deletions(-)

diff --git a/pymllm/mem_cache/mamba_radix_cache.py b/pymllm/mem_cache/mamba_radix_cache.py
index bee8027..55d82e2 100644
--- a/pymllm/mem_cache/mamba_radix_cache.py
+++ b/pymllm/mem_cache/mamba_radix_cache.py
@@ -534,15 +534,6 @@ class MambaRadixCache(BasePrefixCache):
         value: torch.Tensor,
         mamba_value: Optional[torch.Tensor] = None,
     ) -> MambaTreeNode:
-        # Parent may lose leaf status
-        if (
-            len(parent.children) == 0
-            and parent != self.root_node
-            and parent.full_lock_ref == 0
-            and not parent.evicted
-        ):
-            self._full_evictable -= len(parent.key)
-
         new_node = MambaTreeNode()
         new_node.parent = parent
         new_node.key = key
diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index 80f3d6f..e7d3fec 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -639,14 +639,6 @@ class RadixCache(BasePrefixCache):
         value: torch.Tensor,
         swa_tombstone: bool = False,
     ) -> TreeNode:
-        if (
-            len(parent.children) == 0
-            and parent != self.root_node
-            and parent.lock_ref == 0
-            and not parent.evicted
-        ):
-            self._evictable_size -= len(parent.key)
-
         new_node = TreeNode()
         new_node.parent = parent
         new_node.key = key
-- 
2.43.0


From 455f5a1cdeb2f15c9710562b60e5f8bfdf5e527b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 03/24] fix: radix _key_match no longer reports more tokens
 than the keys contain

With page_size > 1 and a trailing partial page the page loop stepped past the
end of both keys, so insert() reported a prefix longer than the key.
---
 pymllm/mem_cache/radix_cache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index e7d3fec..4974d93 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -112,7 +112,8 @@ def _key_match(key0: RadixKey, key1: RadixKey, page_size: int) -> int:
         if key0.token_ids[i : i + page_size] != key1.token_ids[i : i + page_size]:
             break
         i += page_size
-    return i
+    # The last page may be partial: never report more tokens than the keys have.
+    return min(i, min_len)
 
 
 def _child_key(key: RadixKey, page_size: int) -> Any:
-- 
2.43.0


From 195d7fe1b65c3553c0e9141df474bd82dfb86691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 04/24] fix: sliding-window insert continues from the split
 node

_insert_swa dropped the node returned by _split_node and went on with the
deeper half: the rest of the key was attached below the wrong tokens, so a
later lookup returned KV slots computed for a different prefix.
---
 pymllm/mem_cache/radix_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index 4974d93..210fd70 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -593,7 +593,7 @@ class RadixCache(BasePrefixCache):
             plen = _key_match(node.key, key, self.page_size)
 
             if plen < len(node.key):
-                self._split_node(node.key, node, plen)
+                node = self._split_node(node.key, node, plen)
 
             beyond_protected = prev_prefix_len < total_prefix + plen
             if beyond_protected and node.swa_tombstone:
-- 
2.43.0


From cf73a2cf0e98cc5dd6e1a0c8ee5510de3539604c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 05/24] fix: sliding-window insert keeps the KV slots of locked
 nodes

Un-tombstoning a node freed its KV slots and replaced them even while a
running request held a lock on the node and was still reading those slots.
---
 pymllm/mem_cache/radix_cache.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index 210fd70..47b1280 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -597,7 +597,9 @@ class RadixCache(BasePrefixCache):
 
             beyond_protected = prev_prefix_len < total_prefix + plen
             if beyond_protected and node.swa_tombstone:
-                if swa_evicted_seqlen <= total_prefix:
+                # A locked node's slots are still being read by a running
+                # request: keep them and drop the incoming duplicate instead.
+                if swa_evicted_seqlen <= total_prefix and node.lock_ref == 0:
                     self._free_indices(node.value[:plen])
                     node.value = value[:plen].clone()
                     node.swa_tombstone = False
-- 
2.43.0


From 2bd42be2ad7c4043b5e2fa5c51bcb80405502a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 06/24] fix: MambaRadixCache counts state entries, not tokens,
 in the mamba sizes

Inserting and deleting a node changed _mamba_evictable by the number of tokens
of the node while locking and eviction use len(mamba_value); whenever the two
lengths differ the counters drifted (and could go negative).
---
 pymllm/mem_cache/mamba_radix_cache.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymllm/mem_cache/mamba_radix_cache.py b/pymllm/mem_cache/mamba_radix_cache.py
index 55d82e2..9d14f36 100644
--- a/pymllm/mem_cache/mamba_radix_cache.py
+++ b/pymllm/mem_cache/mamba_radix_cache.py
@@ -416,7 +416,7 @@ class MambaRadixCache(BasePrefixCache):
             # Existing node gains mamba state (un-tombstone)
             node.mamba_value = mamba_value.clone()
             self.mamba_lru.insert_mru(node)
-            self._mamba_evictable += len(node.value)
+            self._mamba_evictable += len(node.mamba_value)
 
         return InsertResult(
             prefix_len=total_prefix, last_node=node, mamba_exist=mamba_exist
@@ -548,7 +548,7 @@ class MambaRadixCache(BasePrefixCache):
         if mamba_value is not None:
             new_node.mamba_value = mamba_value.clone()
             self.mamba_lru.insert_mru(new_node)
-            self._mamba_evictable += len(key)
+            self._mamba_evictable += len(new_node.mamba_value)
 
         return new_node
 
@@ -592,7 +592,7 @@ class MambaRadixCache(BasePrefixCache):
 
         if node.mamba_value is not None and node in self.mamba_lru:
             self.mamba_lru.remove(node)
-            self._mamba_evictable -= len(node.key)
+            self._mamba_evictable -= len(node.mamba_value)
 
         node.value = None
         node.mamba_value = None
-- 
2.43.0


From 8b54ba50c2b2138037740cdfa4fd70676e91bf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 07/24] fix: splitting a locked MambaRadixCache node no longer
 leaks a mamba lock

_split_node copied the mamba lock to the new parent, but dec_lock_ref only
unlocks the node itself: the parent's state stayed protected for ever.
---
 pymllm/mem_cache/mamba_radix_cache.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pymllm/mem_cache/mamba_radix_cache.py b/pymllm/mem_cache/mamba_radix_cache.py
index 9d14f36..11221e4 100644
--- a/pymllm/mem_cache/mamba_radix_cache.py
+++ b/pymllm/mem_cache/mamba_radix_cache.py
@@ -560,7 +560,6 @@ class MambaRadixCache(BasePrefixCache):
         new_node.children[_child_key(key[split_len:], self.page_size)] = child
         new_node.parent = child.parent
         new_node.full_lock_ref = child.full_lock_ref
-        new_node.mamba_lock_ref = child.mamba_lock_ref
         new_node.key = child.key[:split_len]
         new_node.value = child.value[:split_len].clone()
 
@@ -568,6 +567,12 @@ class MambaRadixCache(BasePrefixCache):
         if child.mamba_value is not None:
             new_node.mamba_value = child.mamba_value[:split_len].clone()
             child.mamba_value = child.mamba_value[split_len:].clone()
+            # A mamba lock belongs to the locked node only (dec_lock_ref does
+            # not walk up), so the new parent's share starts unlocked.
+            if child.mamba_lock_ref > 0:
+                moved = len(new_node.mamba_value)
+                self._mamba_protected -= moved
+                self._mamba_evictable += moved
 
         child.parent = new_node
         child.key = child.key[split_len:]
-- 
2.43.0


From dd28123bbfe8ec9a194c86dc63b680a090002b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 08/24] fix: MambaRadixCache.dec_lock_ref accepts the lock
 token returned by inc_lock_ref

The model runner passes the token positionally, as the interface asks; the
mamba cache raised TypeError on every unlock.
---
 pymllm/mem_cache/mamba_radix_cache.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymllm/mem_cache/mamba_radix_cache.py b/pymllm/mem_cache/mamba_radix_cache.py
index 11221e4..7dd22ea 100644
--- a/pymllm/mem_cache/mamba_radix_cache.py
+++ b/pymllm/mem_cache/mamba_radix_cache.py
@@ -502,7 +502,9 @@ class MambaRadixCache(BasePrefixCache):
             cur = cur.parent
         return None
 
-    def dec_lock_ref(self, node: MambaTreeNode, **kwargs: Any) -> None:
+    def dec_lock_ref(
+        self, node: MambaTreeNode, lock_token: Optional[Any] = None, **kwargs: Any
+    ) -> None:
         """Unlock full KV and Mamba state."""
         if node is None:
             return
-- 
2.43.0


From 8cb5200a6d6d17d1a08c5c9064844bd8d080707b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 09/24] fix: MambaRadixCache.evict reports the state entries it
 freed

Evicting a leaf added its token count to mamba_evicted instead of the number
of state entries, so the state eviction phase could stop too early.
---
 pymllm/mem_cache/mamba_radix_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymllm/mem_cache/mamba_radix_cache.py b/pymllm/mem_cache/mamba_radix_cache.py
index 7dd22ea..90001f3 100644
--- a/pymllm/mem_cache/mamba_radix_cache.py
+++ b/pymllm/mem_cache/mamba_radix_cache.py
@@ -441,7 +441,7 @@ class MambaRadixCache(BasePrefixCache):
                 self._free_full_indices(node.value)
                 if node.mamba_value is not None:
                     self._free_mamba_value(node.mamba_value)
-                    mamba_evicted += n
+                    mamba_evicted += len(node.mamba_value)
                 full_evicted += n
                 self._delete_leaf(node)
 
-- 
2.43.0


From 0a1b478e52084d060cfe94150ffffcc3b08b57ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 10/24] fix: splitting a MambaRadixCache node leaves the mamba
 state with its tokens' end

The state indices of a node were sliced by token count on a split, which moved
the recurrent state recorded after the whole segment to a shorter prefix (and
out of reach of the lock that protects it).
---
 pymllm/mem_cache/mamba_radix_cache.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/pymllm/mem_cache/mamba_radix_cache.py b/pymllm/mem_cache/mamba_radix_cache.py
index 90001f3..2d5ffb5 100644
--- a/pymllm/mem_cache/mamba_radix_cache.py
+++ b/pymllm/mem_cache/mamba_radix_cache.py
@@ -565,16 +565,8 @@ class MambaRadixCache(BasePrefixCache):
         new_node.key = child.key[:split_len]
         new_node.value = child.value[:split_len].clone()
 
-        # Split mamba value
-        if child.mamba_value is not None:
-            new_node.mamba_value = child.mamba_value[:split_len].clone()
-            child.mamba_value = child.mamba_value[split_len:].clone()
-            # A mamba lock belongs to the locked node only (dec_lock_ref does
-            # not walk up), so the new parent's share starts unlocked.
-            if child.mamba_lock_ref > 0:
-                moved = len(new_node.mamba_value)
-                self._mamba_protected -= moved
-                self._mamba_evictable += moved
+        # A mamba state is the recurrent state at the *end* of a node's tokens:
+        # it cannot be split, so it (and its lock) stays with *child*.
 
         child.parent = new_node
         child.key = child.key[split_len:]
@@ -583,8 +575,6 @@ class MambaRadixCache(BasePrefixCache):
 
         # Update LRU lists: insert new_node, keep child
         self.full_lru.insert_mru(new_node)
-        if new_node.mamba_value is not None:
-            self.mamba_lru.insert_mru(new_node)
 
         return new_node
 
-- 
2.43.0


From 4945db451551ffc39ff0c19d4ad73c6e3f8c6b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 11/24] fix: a finished request's last sampled token has no KV
 slot to cache or free

---
 pymllm/orchestrator/model_runner_process.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index d7b6585..05d0461 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -1037,7 +1037,9 @@ class ModelRunnerProcess:
         # Phase 1: Read all KV indices BEFORE freeing anything.
         # ----------------------------------------------------------
         prompt_len = len(input_ids) if input_ids is not None else 0
-        decode_len = len(output_ids) if output_ids else 0
+        # The last sampled token was never fed back to the model, so it has no
+        # KV entry: only output_ids[:-1] occupy req_to_token_pool positions.
+        decode_len = len(output_ids) - 1 if output_ids else 0
         total_len = prompt_len + decode_len
 
         all_kv_indices: Optional[torch.Tensor] = None
@@ -1073,7 +1075,7 @@ class ModelRunnerProcess:
                 # Non-hybrid or no decode tokens: insert full sequence
                 full_token_ids = list(input_ids)
                 if output_ids:
-                    full_token_ids.extend(output_ids)
+                    full_token_ids.extend(output_ids[:decode_len])
                 key = RadixKey(full_token_ids)
                 result = cache.insert(key, all_kv_indices)
                 new_prefix_len = result.prefix_len
-- 
2.43.0


From 3eb0d1259320791234e4f7b8cc2ed25b4652afa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 12/24] fix: a fully cached one-token prompt still extends by
 one token

---
 pymllm/orchestrator/model_runner_process.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index 05d0461..1d162a5 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -723,8 +723,9 @@ class ModelRunnerProcess:
             #    where s1 (log-partition) is computed incorrectly, causing
             #    the cascade merge to produce wrong logits → EOS.
             # By ensuring extend_len >= 2, we avoid both issues.
-            if prefix_len >= full_seq_len - 1 and full_seq_len >= 2:
-                prefix_len = full_seq_len - 2
+            max_prefix_len = max(full_seq_len - 2, 0)
+            if prefix_len > max_prefix_len:
+                prefix_len = max_prefix_len
                 if cached_indices is not None:
                     cached_indices = cached_indices[:prefix_len]
 
-- 
2.43.0


From 894d3f6f50ccbb3ba9a798fff78a60c43e39fd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 13/24] fix: shortened prefix hits do not restore a later GDN
 state

---
 pymllm/orchestrator/model_runner_process.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index 1d162a5..c852968 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -725,6 +725,10 @@ class ModelRunnerProcess:
             # By ensuring extend_len >= 2, we avoid both issues.
             max_prefix_len = max(full_seq_len - 2, 0)
             if prefix_len > max_prefix_len:
+                # The GDN snapshot holds the state at the end of the matched
+                # node, not at the shortened prefix: start from scratch.
+                if gdn_pool is not None:
+                    max_prefix_len = 0
                 prefix_len = max_prefix_len
                 if cached_indices is not None:
                     cached_indices = cached_indices[:prefix_len]
-- 
2.43.0


From bf566e87f2f7ecd6550c737fbf54880ab5feb964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 14/24] fix: no GDN track slot is taken when the prefix cache
 is disabled

---
 pymllm/orchestrator/model_runner_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index c852968..c119460 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -875,7 +875,7 @@ class ModelRunnerProcess:
                 # Allocate a track slot only when the radix cache is enabled;
                 # track slots are freed via the eviction callback so they must
                 # be associated with a node, which only happens when cache is on.
-                if cache is not None:
+                if cache is not None and not isinstance(cache, ChunkCache):
                     ts = gdn_pool.alloc_track_slot()
                     if ts is not None:
                         self._rid_to_gdn_track_slot[rid] = ts
-- 
2.43.0


From 2f7551f2f01654c031578e3c99a66c25b8f6c3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 15/24] fix: sliding-window insert frees only the caller's own
 duplicates

---
 pymllm/mem_cache/radix_cache.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index 47b1280..8ec06f5 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -596,18 +596,24 @@ class RadixCache(BasePrefixCache):
                 node = self._split_node(node.key, node, plen)
 
             beyond_protected = prev_prefix_len < total_prefix + plen
+            # Tokens before prev_prefix_len carry the tree's own slots.
+            dup_start = max(prev_prefix_len - total_prefix, 0)
             if beyond_protected and node.swa_tombstone:
                 # A locked node's slots are still being read by a running
                 # request: keep them and drop the incoming duplicate instead.
-                if swa_evicted_seqlen <= total_prefix and node.lock_ref == 0:
+                if (
+                    swa_evicted_seqlen <= total_prefix
+                    and node.lock_ref == 0
+                    and dup_start == 0
+                ):
                     self._free_indices(node.value[:plen])
                     node.value = value[:plen].clone()
                     node.swa_tombstone = False
                     self._swa_evictable_size += len(node.value)
                 else:
-                    self._free_indices(value[:plen])
+                    self._free_indices(value[dup_start:plen])
             elif beyond_protected:
-                self._free_indices(value[:plen])
+                self._free_indices(value[dup_start:plen])
 
             total_prefix += plen
             key = key[plen:]
-- 
2.43.0


From 002c647d2d3ee8cb70a749da1b32b62a857bf169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 16/24] fix: model runner no longer frees duplicates a
 sliding-window insert already freed

---
 pymllm/orchestrator/model_runner_process.py | 31 +++++++++++++++------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index c119460..142803f 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -554,11 +554,11 @@ class ModelRunnerProcess:
                 )
 
             key = RadixKey(input_ids)
-            result = cache.insert(key, kv_indices)
+            cache_protected_len = self._rid_to_cache_protected_len.get(rid, 0)
+            result = cache.insert(key, kv_indices, prev_prefix_len=cache_protected_len)
             new_prefix_len = result.prefix_len
 
             # --- Step 2: free duplicates ---
-            cache_protected_len = self._rid_to_cache_protected_len.get(rid, 0)
             if _dbg:
                 logger.debug(
                     "[CACHE INSERT] rid=%s insert prefix_len=%d cache_protected=%d",
@@ -566,7 +566,10 @@ class ModelRunnerProcess:
                     new_prefix_len,
                     cache_protected_len,
                 )
-            if new_prefix_len > cache_protected_len:
+            # (a sliding-window cache has already freed them)
+            if new_prefix_len > cache_protected_len and not getattr(
+                cache, "supports_swa", False
+            ):
                 dup_indices = kv_indices[cache_protected_len:new_prefix_len]
                 if _dbg:
                     logger.debug(
@@ -1064,11 +1067,16 @@ class ModelRunnerProcess:
                 prompt_kv = all_kv_indices[:prompt_len]
                 decode_kv = all_kv_indices[prompt_len:]
                 key = RadixKey(list(input_ids))
-                result = cache.insert(key, prompt_kv)
+                result = cache.insert(
+                    key, prompt_kv, prev_prefix_len=cache_protected_len
+                )
                 new_prefix_len = result.prefix_len
 
-                # Free duplicate KV indices in the overlap region.
-                if new_prefix_len > cache_protected_len:
+                # Free duplicate KV indices in the overlap region
+                # (a sliding-window cache has already freed them).
+                if new_prefix_len > cache_protected_len and not getattr(
+                    cache, "supports_swa", False
+                ):
                     dup_indices = prompt_kv[cache_protected_len:new_prefix_len]
                     if dup_indices.numel() > 0:
                         runner.token_to_kv_pool_allocator.free(dup_indices)
@@ -1082,11 +1090,16 @@ class ModelRunnerProcess:
                 if output_ids:
                     full_token_ids.extend(output_ids[:decode_len])
                 key = RadixKey(full_token_ids)
-                result = cache.insert(key, all_kv_indices)
+                result = cache.insert(
+                    key, all_kv_indices, prev_prefix_len=cache_protected_len
+                )
                 new_prefix_len = result.prefix_len
 
-                # Free duplicate KV indices in the overlap region.
-                if new_prefix_len > cache_protected_len:
+                # Free duplicate KV indices in the overlap region
+                # (a sliding-window cache has already freed them).
+                if new_prefix_len > cache_protected_len and not getattr(
+                    cache, "supports_swa", False
+                ):
                     dup_indices = all_kv_indices[cache_protected_len:new_prefix_len]
                     if dup_indices.numel() > 0:
                         runner.token_to_kv_pool_allocator.free(dup_indices)
-- 
2.43.0


From fe554e93b39b7edb766bada63a04b19013005b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:01 +0000
Subject: [PATCH 17/24] fix: create the sync buffer pool before the first chunk
 takes a buffer from it

MmItemMemoryPool.__init__ called _new_sync_buffer() before _sync_pool existed,
so constructing the pool always raised AttributeError.
---
 pymllm/orchestrator/cuda_ipc_transport.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/cuda_ipc_transport.py b/pymllm/orchestrator/cuda_ipc_transport.py
index 938132c..4444809 100644
--- a/pymllm/orchestrator/cuda_ipc_transport.py
+++ b/pymllm/orchestrator/cuda_ipc_transport.py
@@ -205,11 +205,11 @@ class MmItemMemoryPool:
                 memory_size, dtype=torch.int8, device=f"cuda:{device}"
             ).contiguous()
 
+        # Pool of reusable ShmSyncBuffer objects (returned from recycled chunks)
+        self._sync_pool: List[ShmSyncBuffer] = []
         init_chunk = MmItemMemoryChunk((0, memory_size), self._new_sync_buffer())
         self.available_chunks: List[MmItemMemoryChunk] = [init_chunk]
         self.occupied_chunks: List[MmItemMemoryChunk] = []
-        # Pool of reusable ShmSyncBuffer objects (returned from recycled chunks)
-        self._sync_pool: List[ShmSyncBuffer] = []
 
         self._recycler = threading.Thread(
             target=self._recycle_loop,
-- 
2.43.0


From 6695866f0add02f6ddb4c6548c3b902f430b3560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:35 +0000
Subject: [PATCH 18/24] fix: direct-tensor fallback of the CUDA IPC proxy sends
 the tensor and releases its chunk

When _share_cuda_() fails the proxy carried the flat int8 pool slice, so the
receiver got a tensor of the wrong dtype and shape, and the sync flag was never
incremented, so the chunk was never recycled.
---
 pymllm/orchestrator/cuda_ipc_transport.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymllm/orchestrator/cuda_ipc_transport.py b/pymllm/orchestrator/cuda_ipc_transport.py
index 4444809..a5b7955 100644
--- a/pymllm/orchestrator/cuda_ipc_transport.py
+++ b/pymllm/orchestrator/cuda_ipc_transport.py
@@ -400,7 +400,7 @@ class CudaIpcTensorTransportProxy:
                 "falling back to direct tensor.",
                 exc,
             )
-            return {"ipc_handle": None, "tensor_data": data}
+            return {"ipc_handle": None, "tensor_data": info_data}
 
     def reconstruct_on_device(self, device_index: Optional[int] = None) -> torch.Tensor:
         """Map IPC memory and copy into a new local tensor.
@@ -442,6 +442,9 @@ class CudaIpcTensorTransportProxy:
             result = state["tensor_data"]
             if device_index is not None:
                 result = result.to(f"cuda:{device_index}", non_blocking=True)
+
+            # The pool chunk is not read on this path, but it is still reserved
+            _increment_sync_flag(self.sync_data_meta)
         else:
             raise RuntimeError("CudaIpcTensorTransportProxy: invalid state")
 
-- 
2.43.0


From 5d465b35c136b5d70c834cd68156ea5b62091b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:05 +0000
Subject: [PATCH 19/24] fix: model file header records the model name it was
 given

The header of a v2 model file always carried an empty model name.
---
 pymllm/mobile/convertor/model_file_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymllm/mobile/convertor/model_file_v2.py b/pymllm/mobile/convertor/model_file_v2.py
index 976c044..949b9f1 100644
--- a/pymllm/mobile/convertor/model_file_v2.py
+++ b/pymllm/mobile/convertor/model_file_v2.py
@@ -112,7 +112,7 @@ class ModelFileV2:
             )
         self.v2_param_descriptor: List[ModelFileV2ParamsDescriptor] = []
         self.v2_file_header = ModelFileV2Descriptor(
-            model_name="",
+            model_name=model_name,
             num_params=0
             if update_mode == "Static"
             else self.max_params_descriptor_buffer_num,
-- 
2.43.0


From 25d7a5f9f76c13058627c25954f7e5fbb303f922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:05 +0000
Subject: [PATCH 20/24] fix: refuse a streamed tensor for which no descriptor
 was reserved

With the descriptor table full, the next descriptor was written over the
first tensor's data.
---
 pymllm/mobile/convertor/model_file_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymllm/mobile/convertor/model_file_v2.py b/pymllm/mobile/convertor/model_file_v2.py
index 949b9f1..3a17d65 100644
--- a/pymllm/mobile/convertor/model_file_v2.py
+++ b/pymllm/mobile/convertor/model_file_v2.py
@@ -159,7 +159,7 @@ class ModelFileV2:
 
         tensor_size = len(tensor_data)
 
-        assert len(self.v2_param_descriptor) <= self.max_params_descriptor_buffer_num
+        assert len(self.v2_param_descriptor) < self.max_params_descriptor_buffer_num
         desc = ModelFileV2ParamsDescriptor(
             param_id=len(self.v2_param_descriptor),
             param_type=true_dtype,
-- 
2.43.0


From 14123b2758752e059663dc91eacd3980c0590bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:05 +0000
Subject: [PATCH 21/24] fix: a streamed model file without tensors declares
 zero parameters

finalize() without any write declared max_params_descriptor_buffer_num
parameters, all of them empty descriptors.
---
 pymllm/mobile/convertor/model_file_v2.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pymllm/mobile/convertor/model_file_v2.py b/pymllm/mobile/convertor/model_file_v2.py
index 3a17d65..a679ede 100644
--- a/pymllm/mobile/convertor/model_file_v2.py
+++ b/pymllm/mobile/convertor/model_file_v2.py
@@ -113,9 +113,7 @@ class ModelFileV2:
         self.v2_param_descriptor: List[ModelFileV2ParamsDescriptor] = []
         self.v2_file_header = ModelFileV2Descriptor(
             model_name=model_name,
-            num_params=0
-            if update_mode == "Static"
-            else self.max_params_descriptor_buffer_num,
+            num_params=0,
         )
 
         # Open file
-- 
2.43.0


From ed8d5ed3f607318efe2741bf67196b9a881685c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:05 +0000
Subject: [PATCH 22/24] fix: look up numpy dtypes by their scalar type when
 writing model files

MLLM_TYPE_MAPPING is keyed by np.float32 etc.; a dtype object hashes
differently, so every numpy tensor raised KeyError.
---
 pymllm/mobile/convertor/model_file_v2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymllm/mobile/convertor/model_file_v2.py b/pymllm/mobile/convertor/model_file_v2.py
index a679ede..41ac0a6 100644
--- a/pymllm/mobile/convertor/model_file_v2.py
+++ b/pymllm/mobile/convertor/model_file_v2.py
@@ -144,7 +144,7 @@ class ModelFileV2:
             # Numpy array
             shape = list(tensor_obj.shape)
             tensor_data = tensor_obj.tobytes()
-            true_dtype = MLLM_TYPE_MAPPING[tensor_obj.dtype]
+            true_dtype = MLLM_TYPE_MAPPING[tensor_obj.dtype.type]
         elif isinstance(tensor_obj, Tensor):
             # Mllm Tensor
             shape = list(tensor_obj.shape)
@@ -215,7 +215,7 @@ class ModelFileV2:
                 # Numpy array
                 shape = list(tensor.shape)
                 tensor_data = tensor.tobytes()
-                true_dtype = MLLM_TYPE_MAPPING[tensor.dtype]
+                true_dtype = MLLM_TYPE_MAPPING[tensor.dtype.type]
             elif isinstance(tensor, Tensor):
                 # Mllm Tensor
                 shape = list(tensor.shape)
-- 
2.43.0


From 895650a97ac5f9a4fb60be4e1fe43fb8c0531db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:56 +0000
Subject: [PATCH 23/24] fix: do not write before the stride array when a tensor
 view has no dimensions

---
 mllm/core/TensorViewImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mllm/core/TensorViewImpl.cpp b/mllm/core/TensorViewImpl.cpp
index 048c0a1..6db3f46 100644
--- a/mllm/core/TensorViewImpl.cpp
+++ b/mllm/core/TensorViewImpl.cpp
@@ -92,7 +92,7 @@ TensorViewImpl::ptr_t TensorViewImpl::create(const TensorViewImpl::shape_t& shap
   int _cnt = 0;
   for (unsigned int it : shape) { ret->shape_[_cnt++] = (int32_t)it; }
   int _acc = 1;
-  ret->stride_[ret->shape_len_ - 1] = 1;
+  if (ret->shape_len_ > 0) { ret->stride_[ret->shape_len_ - 1] = 1; }
   for (int i = ret->shape_len_ - 1; i > 0; i--) {
     ret->stride_[i - 1] = _acc * ret->shape_[i];
     _acc *= ret->shape_[i];
@@ -111,7 +111,7 @@ TensorViewImpl::ptr_t TensorViewImpl::create(int32_t storage_offset, const Tenso
   int _cnt = 0;
   for (unsigned int it : shape) { ret->shape_[_cnt++] = (int32_t)it; }
   int _acc = 1;
-  ret->stride_[ret->shape_len_ - 1] = 1;
+  if (ret->shape_len_ > 0) { ret->stride_[ret->shape_len_ - 1] = 1; }
   for (int i = ret->shape_len_ - 1; i > 0; i--) {
     ret->stride_[i - 1] = _acc * ret->shape_[i];
     _acc *= ret->shape_[i];
-- 
2.43.0


From dbd20702c34fa2b64f5275c02d11520da419c42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:48 +0000
Subject: [PATCH 24/24] fix: write contiguous torch tensors whose last stride
 is not 1

A contiguous tensor can have any stride on a dimension of size 1, e.g. a
transposed (1, 3) tensor; view(torch.uint8) raised RuntimeError for it.
---
 pymllm/mobile/convertor/model_file_v2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymllm/mobile/convertor/model_file_v2.py b/pymllm/mobile/convertor/model_file_v2.py
index 41ac0a6..9ddaf2a 100644
--- a/pymllm/mobile/convertor/model_file_v2.py
+++ b/pymllm/mobile/convertor/model_file_v2.py
@@ -27,8 +27,8 @@ MLLM_MODEL_FILE_V2_TENSOR_SHAPE_LENGTH = 16
 def _torch_tensor_bytes(tensor: "torch.Tensor") -> bytes:
     # Use uint8 view to preserve raw bytes for dtypes not supported by numpy.
     t = tensor.detach().cpu().contiguous()
-    if t.dim() == 0:
-        t = t.reshape(1)
+    # A contiguous tensor may still have stride(-1) != 1 (dimensions of size 1), which view(dtype) rejects.
+    t = t.as_strided((t.numel(),), (1,))
     return t.view(torch.uint8).numpy().tobytes()
 
 
-- 
2.43.0

