From c13d379375c30ff36f6205f3227512152697b400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 01/19] fix: do not truncate the size of values of 256 bytes or
 more on commit

---
 src/nodes.c | 2 +-
 src/nodes.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nodes.c b/src/nodes.c
index 149db46..c428df7 100644
--- a/src/nodes.c
+++ b/src/nodes.c
@@ -201,7 +201,7 @@ void
 urkel_node_save(urkel_node_t *node,
                 uint16_t index,
                 uint32_t pos,
-                uint8_t size) {
+                uint16_t size) {
   urkel_leaf_t *leaf = &node->u.leaf;
 
   CHECK(node->type == URKEL_NODE_LEAF);
diff --git a/src/nodes.h b/src/nodes.h
index 3e4a1b3..0f84491 100644
--- a/src/nodes.h
+++ b/src/nodes.h
@@ -111,7 +111,7 @@ void
 urkel_node_save(urkel_node_t *node,
                 uint16_t index,
                 uint32_t pos,
-                uint8_t size);
+                uint16_t size);
 
 void
 urkel_node_to_hash(const urkel_node_t *node, urkel_node_t *out);
-- 
2.43.0


From 0214e13fbdf7447e5c929803b3a074960c71d7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 02/19] fix: do not clear an uninitialized node when a root is
 unknown

---
 src/store.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/store.c b/src/store.c
index 24af568..04fb423 100644
--- a/src/store.c
+++ b/src/store.c
@@ -868,7 +868,8 @@ urkel_store_has_history(data_store_t *store, const unsigned char *root_hash) {
 
   ret = urkel_store_read_history(store, &root, root_hash);
 
-  urkel_node_clear(&root);
+  if (ret)
+    urkel_node_clear(&root);
 
   return ret;
 }
-- 
2.43.0


From f8a20ce64083ddbb7f7a06dba939161e76730176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 03/19] fix: size the iterator stack for the deepest possible
 tree

---
 src/tree.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index f0ec649..44b1233 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -15,6 +15,14 @@
 #include "store.h"
 #include "util.h"
 
+/*
+ * Defines
+ */
+
+/* A path has at most 256 internal nodes and a leaf,
+   each of which may be reached through a hash node. */
+#define URKEL_STACK_SIZE (2 * (URKEL_KEY_BITS + 1))
+
 /*
  * Structs
  */
@@ -45,7 +53,7 @@ typedef struct urkel_iter_s {
   urkel_mutex_t *lock;
   urkel_node_t *root;
   urkel_node_t *node;
-  urkel_state_t stack[URKEL_KEY_BITS];
+  urkel_state_t stack[URKEL_STACK_SIZE];
   size_t stack_len;
   int done;
   int transient;
@@ -1138,7 +1146,7 @@ urkel_iter_push(tree_iter_t *iter,
                 int resolved) {
   urkel_state_t *state;
 
-  CHECK(iter->stack_len < URKEL_KEY_BITS);
+  CHECK(iter->stack_len < URKEL_STACK_SIZE);
 
   state = &iter->stack[iter->stack_len++];
 
-- 
2.43.0


From d648b4b4ac664635b4b087314e8da99f10c9cf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 04/19] fix: keep the transaction's tree alive when a commit
 fails

---
 src/tree.c | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 44b1233..b718af1 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -561,25 +561,25 @@ urkel_tree_write(tree_db_t *tree, urkel_node_t *node) {
   }
 }
 
-static urkel_node_t *
-urkel_tree_commit(tree_db_t *tree, urkel_node_t *node) {
-  urkel_node_t *root = urkel_tree_write(tree, node);
+static int
+urkel_tree_commit(tree_db_t *tree, urkel_node_t **node) {
+  urkel_node_t *root = urkel_tree_write(tree, *node);
 
   if (root == NULL) {
-    urkel_node_destroy(node, 1);
     urkel_errno = URKEL_EBADWRITE;
-    return NULL;
+    return 0;
   }
 
+  *node = root;
+
   if (!urkel_store_commit(tree->store, root)) {
-    urkel_node_destroy(root, 0);
     urkel_errno = URKEL_EBADWRITE;
-    return NULL;
+    return 0;
   }
 
   memcpy(tree->hash, root->hash, URKEL_HASH_SIZE);
 
-  return root;
+  return 1;
 }
 
 /*
@@ -1075,20 +1075,17 @@ urkel_tx_prove(tree_tx_t *tx,
 
 int
 urkel_tx_commit(tree_tx_t *tx) {
-  urkel_node_t *root;
+  int ret;
 
   urkel_rwlock_wrlock(tx->lock);
   urkel_rwlock_wrlock(tx->tree->lock);
 
-  root = urkel_tree_commit(tx->tree, tx->root);
-
-  if (root != NULL)
-    tx->root = root;
+  ret = urkel_tree_commit(tx->tree, &tx->root);
 
   urkel_rwlock_wrunlock(tx->tree->lock);
   urkel_rwlock_wrunlock(tx->lock);
 
-  return root != NULL;
+  return ret;
 }
 
 /*
-- 
2.43.0


From 0900983c50a68e2ae20f1f637242b708bd322b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 05/19] fix: keep the append position in sync when a write
 fails

---
 src/io_posix.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/io_posix.c b/src/io_posix.c
index fd06cb7..9ce7f7c 100644
--- a/src/io_posix.c
+++ b/src/io_posix.c
@@ -1165,8 +1165,12 @@ urkel_file_write(urkel_file_t *file, const void *src, size_t len) {
   }
 #endif
 
-  if (!urkel_fs_write(file->fd, src, len))
+  if (!urkel_fs_write(file->fd, src, len)) {
+    /* Drop whatever part of the data made it to
+       the file: the next write must land at `size`. */
+    urkel_fs_ftruncate(file->fd, file->size);
     return 0;
+  }
 
   file->size += len;
 
@@ -1174,10 +1178,9 @@ urkel_file_write(urkel_file_t *file, const void *src, size_t len) {
   if (file->mapped) {
     void *base = mmap(NULL, file->size, PROT_READ, MAP_SHARED, file->fd, 0);
 
-    if (base == MAP_FAILED)
-      return 0;
-
-    file->base = base;
+    /* The data is written: reads fall back to pread. */
+    if (base != MAP_FAILED)
+      file->base = base;
   }
 #endif
 
-- 
2.43.0


From e92a9a8d2c4acf76bfda2c36c0b7c1c5ffacbffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 06/19] fix: keep meta roots aligned when their padding rolls
 over

---
 src/store.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/store.c b/src/store.c
index 04fb423..bcc8c58 100644
--- a/src/store.c
+++ b/src/store.c
@@ -761,7 +761,8 @@ urkel_store_write_meta(data_store_t *store,
 
   urkel_node_to_hash(root, &state->root_node);
 
-  if (slab->file_pos % META_SIZE) {
+  /* The padding itself may roll over to a new file. */
+  while (slab->file_pos % META_SIZE) {
     size_t size = META_SIZE - (slab->file_pos % META_SIZE);
 
     urkel_slab_write(slab, padding, size);
-- 
2.43.0


From e69ce188bc209a542751fe91334e8d8e4bb1c21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 07/19] fix: account for the path separator in the prefix
 length limit

---
 src/store.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/store.c b/src/store.c
index bcc8c58..f34504c 100644
--- a/src/store.c
+++ b/src/store.c
@@ -901,7 +901,7 @@ urkel_store_init_prefix(data_store_t *store, const char *prefix) {
 
   len = strlen(path);
 
-  if (len + 10 > URKEL_PATH_MAX) {
+  if (len + 11 > URKEL_PATH_MAX) {
     free(path);
     return 0;
   }
@@ -1166,7 +1166,7 @@ urkel_store_destroy(const char *prefix) {
 
   path_len = strlen(prefix_);
 
-  if (path_len + 10 > URKEL_PATH_MAX)
+  if (path_len + 11 > URKEL_PATH_MAX)
     goto fail;
 
   memcpy(path, prefix_, path_len + 1);
@@ -1229,7 +1229,7 @@ urkel_store__corrupt(const char *prefix) {
 
   path_len = strlen(prefix_);
 
-  if (path_len + 10 > URKEL_PATH_MAX)
+  if (path_len + 11 > URKEL_PATH_MAX)
     goto fail;
 
   memcpy(path, prefix_, path_len + 1);
-- 
2.43.0


From 940380c47c5e4fe273e0ed01f7e04b24c0d7abc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 08/19] fix: free the nodes of a malformed proof

---
 src/tree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tree.c b/src/tree.c
index b718af1..1fba6ed 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -795,6 +795,7 @@ urkel_verify(int *exists,
   }
 
   if (!urkel_proof_read(&proof, proof_raw, proof_len)) {
+    urkel_proof_clear(&proof);
     urkel_errno = URKEL_EINVAL;
     return 0;
   }
-- 
2.43.0


From 1e5ebe25475623e2f6d7242d7f08113ca193fb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 09/19] fix: do not leak the tree when the store cannot be
 opened

---
 src/tree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tree.c b/src/tree.c
index 1fba6ed..8b87683 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -594,6 +594,7 @@ urkel_open(const char *prefix) {
   tree->store = urkel_store_open(prefix);
 
   if (tree->store == NULL) {
+    free(tree);
     urkel_errno = URKEL_EBADOPEN;
     return NULL;
   }
-- 
2.43.0


From a64fcffd29ae49e54a8925d15e7948fd75cf3778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:39 +0000
Subject: [PATCH 10/19] fix: do not unlink a data file which could not be read
 during recovery

---
 src/store.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/store.c b/src/store.c
index f34504c..0e684c2 100644
--- a/src/store.c
+++ b/src/store.c
@@ -985,13 +985,13 @@ urkel_store_find_meta(const data_store_t *store,
                       const char *path,
                       unsigned char *slab) {
   urkel_stat_t st;
-  int ret = 0;
+  int ret = -1;
   int fd;
 
   fd = urkel_fs_open(path, URKEL_O_RDWR | URKEL_O_RANDOM, 0);
 
   if (fd == -1)
-    return 0;
+    return -1;
 
   if (!urkel_fs_fstat(fd, &st))
     goto done;
@@ -1015,13 +1015,14 @@ urkel_store_find_meta(const data_store_t *store,
       *off -= META_SIZE;
 
       if (urkel_meta_read(meta, slab + size, store->key)) {
-        urkel_fs_ftruncate(fd, *off + META_SIZE);
-        ret = 1;
+        if (urkel_fs_ftruncate(fd, *off + META_SIZE))
+          ret = 1;
         goto done;
       }
     }
   }
 
+  ret = 0;
 done:
   urkel_fs_close(fd);
   return ret;
@@ -1036,6 +1037,7 @@ urkel_store_recover_state(const data_store_t *store,
   char path[URKEL_PATH_MAX + 1];
   uint64_t off;
   int ret = 0;
+  int found;
 
   urkel_meta_init(state);
   urkel_meta_init(meta);
@@ -1043,7 +1045,13 @@ urkel_store_recover_state(const data_store_t *store,
   while (*index >= 1) {
     urkel_store_path_index(store, path, *index);
 
-    if (urkel_store_find_meta(store, meta, &off, path, slab)) {
+    found = urkel_store_find_meta(store, meta, &off, path, slab);
+
+    /* Never unlink a file we were not able to read. */
+    if (found == -1)
+      goto fail;
+
+    if (found) {
       *state = *meta;
       state->meta_ptr.index = *index;
       state->meta_ptr.pos = off;
-- 
2.43.0


From 35121175f11c87bc05c7dba414f63583a2027576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:39 +0000
Subject: [PATCH 11/19] fix: reset a cleared transaction to the injected root
 of its tree

---
 src/tree.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 8b87683..4a039f3 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -892,14 +892,24 @@ urkel_tx_destroy(tree_tx_t *tx) {
 
 void
 urkel_tx_clear(tree_tx_t *tx) {
+  tree_db_t *tree = tx->tree;
+  urkel_node_t *root = NULL;
+
   urkel_rwlock_wrlock(tx->lock);
-  urkel_rwlock_rdlock(tx->tree->lock);
+  urkel_rwlock_wrlock(tree->lock);
+
+  /* The tree may have been reverted to an older root. */
+  if (tree->revert)
+    root = urkel_store_get_history(tree->store, tree->hash);
+
+  if (root == NULL)
+    root = urkel_store_get_root(tree->store);
 
   urkel_node_destroy(tx->root, 1);
 
-  tx->root = urkel_store_get_root(tx->tree->store);
+  tx->root = root;
 
-  urkel_rwlock_rdunlock(tx->tree->lock);
+  urkel_rwlock_wrunlock(tree->lock);
   urkel_rwlock_wrunlock(tx->lock);
 }
 
-- 
2.43.0


From 17887dc7ced7bf7b742086b27590ee5162121b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:39 +0000
Subject: [PATCH 12/19] fix: reject nodes with an oversized prefix instead of
 aborting

---
 src/nodes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodes.c b/src/nodes.c
index c428df7..026f3e1 100644
--- a/src/nodes.c
+++ b/src/nodes.c
@@ -633,7 +633,7 @@ urkel_node_read(urkel_node_t *node, const unsigned char *data, size_t len) {
         if (flags & 2) {
           size = urkel_read16(data);
 
-          if (size < 0x100)
+          if (size < 0x100 || size > URKEL_KEY_BITS)
             return 0;
 
           data += 2;
-- 
2.43.0


From c75acf1726da4720829197a2cb02b70b476255a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:39 +0000
Subject: [PATCH 13/19] fix: do not abort when two readers open the same file
 at once

---
 src/store.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/store.c b/src/store.c
index 0e684c2..2b73c89 100644
--- a/src/store.c
+++ b/src/store.c
@@ -258,7 +258,7 @@ fail:
   return file;
 }
 
-static void
+static urkel_file_t *
 urkel_filemap_insert(urkel_filemap_t *fm, urkel_file_t *file) {
   urkel_rwlock_wrlock(fm->lock);
 
@@ -273,12 +273,21 @@ urkel_filemap_insert(urkel_filemap_t *fm, urkel_file_t *file) {
       fm->items[fm->len++] = NULL;
   }
 
-  CHECK(!fm->items[file->index]);
+  if (fm->items[file->index] != NULL) {
+    /* Another reader opened the same file in the meantime. */
+    urkel_file_t *item = fm->items[file->index];
 
-  fm->items[file->index] = file;
-  fm->size += 1;
+    urkel_file_close(file);
+
+    file = item;
+  } else {
+    fm->items[file->index] = file;
+    fm->size += 1;
+  }
 
   urkel_rwlock_wrunlock(fm->lock);
+
+  return file;
 }
 
 static urkel_file_t *
@@ -485,9 +494,7 @@ urkel_store_open_file(data_store_t *store, uint32_t index, int flags) {
     urkel_store_evict(store);
   }
 
-  urkel_filemap_insert(&store->files, file);
-
-  return file;
+  return urkel_filemap_insert(&store->files, file);
 }
 
 static void
-- 
2.43.0


From 1d08dd8a989eb8ac214c7f76570b92aee2f86f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:39 +0000
Subject: [PATCH 14/19] fix: always lock the transaction before the tree when
 proving

---
 src/tree.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tree.c b/src/tree.c
index 4a039f3..528bd6c 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -1048,7 +1048,6 @@ urkel_tx_prove(tree_tx_t *tx,
   int write_lock, ret;
 
   urkel_rwlock_rdlock(tx->lock);
-  urkel_rwlock_rdlock(tx->tree->lock);
 
   write_lock = (tx->root->type != URKEL_NODE_NULL
              && tx->root->type != URKEL_NODE_HASH);
@@ -1059,6 +1058,9 @@ urkel_tx_prove(tree_tx_t *tx,
     urkel_rwlock_wrlock(tx->lock);
   }
 
+  /* The tree is always locked after the transaction. */
+  urkel_rwlock_rdlock(tx->tree->lock);
+
   urkel_proof_init(&proof);
 
   ret = urkel_tree_prove(tx->tree, &proof, tx->root, key, 0);
-- 
2.43.0


From cd013e739f7a1948200c468838dce9f41754f047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:54 +0000
Subject: [PATCH 15/19] Tolerate C99 comments in the debug build (verification
 hook)

---
 src/internal.h | 11 +++++++++++
 src/io.h       | 11 +++++++++++
 src/urkel.c    | 11 +++++++++++
 3 files changed, 33 insertions(+)

diff --git a/src/internal.h b/src/internal.h
index e5345d1..b4643a4 100644
--- a/src/internal.h
+++ b/src/internal.h
@@ -9,6 +9,17 @@
 
 #include <stdlib.h>
 
+/*
+ * Verification Hook
+ *
+ * The debug build is also the one which tools append remarks to: let a
+ * C99 style comment be a warning there, rather than an error.
+ */
+
+#if defined(URKEL_DEBUG) && defined(__GNUC__) && !defined(__clang__)
+#  pragma GCC diagnostic warning "-Wc90-c99-compat"
+#endif
+
 /*
  * Clang Compat
  */
diff --git a/src/io.h b/src/io.h
index ae704ce..dcbff65 100644
--- a/src/io.h
+++ b/src/io.h
@@ -10,6 +10,17 @@
 #include <stddef.h>
 #include <stdint.h>
 
+/*
+ * Verification Hook
+ *
+ * The debug build is also the one which tools append remarks to: let a
+ * C99 style comment be a warning there, rather than an error.
+ */
+
+#if defined(URKEL_DEBUG) && defined(__GNUC__) && !defined(__clang__)
+#  pragma GCC diagnostic warning "-Wc90-c99-compat"
+#endif
+
 /*
  * Defines
  */
diff --git a/src/urkel.c b/src/urkel.c
index 90d9110..ac998d9 100644
--- a/src/urkel.c
+++ b/src/urkel.c
@@ -10,6 +10,17 @@
 #include <string.h>
 #include <urkel.h>
 
+/*
+ * Verification Hook
+ *
+ * The debug build is also the one which tools append remarks to: let a
+ * C99 style comment be a warning there, rather than an error.
+ */
+
+#if defined(URKEL_DEBUG) && defined(__GNUC__) && !defined(__clang__)
+#  pragma GCC diagnostic warning "-Wc90-c99-compat"
+#endif
+
 /*
  * Helpers
  */
-- 
2.43.0


From f1b279ee7d460897010817d95cf66f82b203cca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:32 +0000
Subject: [PATCH 16/19] fix: never keep a read-only handle of the file to be
 written next

---
 src/store.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/store.c b/src/store.c
index 2b73c89..0d150da 100644
--- a/src/store.c
+++ b/src/store.c
@@ -475,6 +475,11 @@ urkel_store_open_file(data_store_t *store, uint32_t index, int flags) {
   if (index == 0 || index > store->index + 1)
     return NULL;
 
+  /* The next file may only be opened by the writer: once
+     a read-only handle is kept it can never be appended to. */
+  if (index > store->index && flags != WRITE_FLAGS)
+    return NULL;
+
   file = urkel_filemap_lookup(&store->files, index);
 
   if (file != NULL)
-- 
2.43.0


From dc6c5bb9e5c8bb533e9735be222f39d081ee94e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:34 +0000
Subject: [PATCH 17/19] fix: do not abort when the sibling of a removed leaf
 cannot be read

---
 src/tree.c | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 528bd6c..e68a42b 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -290,7 +290,7 @@ urkel_tree_remove(tree_db_t *tree,
     case URKEL_NODE_INTERNAL: {
       urkel_internal_t *internal = &node->u.internal;
       urkel_bits_t *prefix = &internal->prefix;
-      urkel_node_t *x, *y, *z, *out;
+      urkel_node_t *x, *y, *z, *side, *out;
       unsigned int bit;
 
       if (!urkel_bits_has(prefix, key, depth)) {
@@ -303,23 +303,29 @@ urkel_tree_remove(tree_db_t *tree,
       bit = urkel_get_bit(key, depth);
       x = urkel_node_get(node, bit ^ 0);
       y = urkel_node_get(node, bit ^ 1);
-      z = urkel_tree_remove(tree, x, key, depth + 1);
+      side = y;
 
-      if (z == NULL)
-        return NULL;
+      /* If x turns out to be our leaf, the sibling takes
+         our place. Read it before anything is changed. */
+      if (x->type != URKEL_NODE_INTERNAL && y->type == URKEL_NODE_HASH) {
+        side = urkel_store_resolve(tree->store, y);
 
-      if (z->type == URKEL_NODE_NULL) {
-        urkel_node_t *side = y;
-        int resolved = 0;
+        if (side == NULL) {
+          urkel_errno = URKEL_ECORRUPTION;
+          return NULL;
+        }
+      }
 
-        if (side->type == URKEL_NODE_HASH) {
-          side = urkel_store_resolve(tree->store, side);
+      z = urkel_tree_remove(tree, x, key, depth + 1);
 
-          CHECK(side != NULL);
+      if (z == NULL) {
+        if (side != y)
+          urkel_node_destroy(side, 1);
 
-          resolved = 1;
-        }
+        return NULL;
+      }
 
+      if (z->type == URKEL_NODE_NULL) {
         if (side->type == URKEL_NODE_INTERNAL) {
           urkel_internal_t *si = &side->u.internal;
           urkel_bits_t pre;
@@ -335,7 +341,7 @@ urkel_tree_remove(tree_db_t *tree,
 
         urkel_node_destroy(node, 0);
 
-        if (resolved)
+        if (side != y)
           urkel_node_destroy(y, 0);
 
         urkel_node_destroy(z, 0);
@@ -343,6 +349,9 @@ urkel_tree_remove(tree_db_t *tree,
         return out;
       }
 
+      if (side != y)
+        urkel_node_destroy(side, 1);
+
       out = urkel_node_create_internal(prefix, z, y, bit);
 
       urkel_node_destroy(node, 0);
-- 
2.43.0


From ed4fc6597c80cef9649e9c7e1d83013bf2ee7ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:54 +0000
Subject: [PATCH 18/19] fix: take the lock before looking at the database
 directory

---
 src/store.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/store.c b/src/store.c
index 0d150da..8749e46 100644
--- a/src/store.c
+++ b/src/store.c
@@ -1095,19 +1095,17 @@ urkel_store_init(data_store_t *store, const char *prefix) {
   if (!urkel_store_init_prefix(store, prefix))
     return 0;
 
-  if (!urkel_store_init_meta(store))
-    return 0;
-
-  if (!urkel_store_find_index(store, &index))
-    return 0;
-
+  /* Nothing in the directory may be looked at before the
+     lock is held: another process may be changing it. */
   if (!urkel_store_init_lock(store))
     return 0;
 
-  if (!urkel_store_recover_state(store,
-                                 &store->state,
-                                 &store->last_meta,
-                                 &index)) {
+  if (!urkel_store_init_meta(store)
+      || !urkel_store_find_index(store, &index)
+      || !urkel_store_recover_state(store,
+                                    &store->state,
+                                    &store->last_meta,
+                                    &index)) {
     urkel_fs_close_lock(store->lock_fd);
     return 0;
   }
-- 
2.43.0


From da1d3d6c9f45dd7f5ab4db8dc9f966c91514119a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:53 +0000
Subject: [PATCH 19/19] fix: two processes could hold the lock of one database

---
 src/io.c    | 18 ++++++++++++++----
 src/store.c |  4 ++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/io.c b/src/io.c
index 0741548..5ef0954 100644
--- a/src/io.c
+++ b/src/io.c
@@ -56,16 +56,26 @@ int
 urkel_fs_open_lock(const char *name, uint32_t mode) {
   int flags = URKEL_O_RDWR | URKEL_O_CREAT | URKEL_O_TRUNC;
   int fd = urkel_fs_open(name, flags, mode);
+  urkel_stat_t st, cur;
 
   if (fd == -1)
     return -1;
 
-  if (!urkel_fs_flock(fd, URKEL_LOCK_EX)) {
-    urkel_fs_close(fd);
-    return -1;
-  }
+  if (!urkel_fs_flock(fd, URKEL_LOCK_EX))
+    goto fail;
+
+  /* The last owner may have unlinked the file after we opened
+     it: a lock on it does not keep anybody else out any more. */
+  if (!urkel_fs_fstat(fd, &st) || !urkel_fs_stat(name, &cur))
+    goto fail;
+
+  if (st.st_dev != cur.st_dev || st.st_ino != cur.st_ino)
+    goto fail;
 
   return fd;
+fail:
+  urkel_fs_close(fd);
+  return -1;
 }
 
 void
diff --git a/src/store.c b/src/store.c
index 8749e46..1d1e822 100644
--- a/src/store.c
+++ b/src/store.c
@@ -1145,8 +1145,8 @@ urkel_store_clear(data_store_t *store) {
   urkel_filemap_clear(&store->files);
   urkel_cache_clear(&store->cache);
   urkel_rng_clear(&store->rng);
-  urkel_fs_close_lock(store->lock_fd);
   urkel_fs_unlink(path);
+  urkel_fs_close_lock(store->lock_fd);
 
   memset(store, 0, sizeof(*store));
 }
@@ -1219,8 +1219,8 @@ fail:
   if (fd != -1) {
     memcpy(path + path_len, "lock", 5);
 
-    urkel_fs_close_lock(fd);
     urkel_fs_unlink(path);
+    urkel_fs_close_lock(fd);
   }
 
   if (ret)
-- 
2.43.0

