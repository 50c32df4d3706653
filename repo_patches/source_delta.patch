From 179d14667d9f1656633d87801caf135d2476c831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:10 +0000
Subject: [PATCH 01/20] fix: shrinking a file keeps the data below the new size

Setting a size that is a multiple of the chunk size zeroed the last
remaining V1 chunk, or allocated a stray V2 chunk above the new size.
Zero only the tail of the last remaining chunk, and only if it exists.
---
 stable-fs/src/storage/stable.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index f9ad4bf..1c7f674 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -643,10 +643,10 @@ impl<M: Memory> StableStorage<M> {
             self.filechunk.remove(&(node, idx));
         }
 
-        // fill with zeros the last chunk memory above the file size
-        if first_deletable_index > 0 {
-            let offset = new_size as FileSize % chunk_size as FileSize;
+        // fill with zeros the part of the last remaining chunk above the file size (if there is any)
+        let offset = new_size as FileSize % chunk_size as FileSize;
 
+        if offset > 0 && self.filechunk.contains_key(&(node, first_deletable_index - 1)) {
             self.write_filechunk_v1(
                 node,
                 first_deletable_index - 1,
@@ -676,9 +676,15 @@ impl<M: Memory> StableStorage<M> {
             }
         }
 
-        // fill with zeros the last chunk memory above the file size
-        if first_deletable_index > 0 {
-            let offset = new_size as FileSize % chunk_size as FileSize;
+        // fill with zeros the part of the last remaining chunk above the file size (if there is any)
+        let offset = new_size as FileSize % chunk_size as FileSize;
+
+        if offset > 0
+            && self
+                .v2_filechunk
+                .v2_chunk_ptr
+                .contains_key(&(node, first_deletable_index - 1))
+        {
             self.write_chunks_v2(node, new_size, &ZEROES[0..(chunk_size - offset as usize)])?;
         }
 
-- 
2.43.0


From a91414ad52679a5f87e21b1bae204af5299135ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:51 +0000
Subject: [PATCH 02/20] fix: shrinking a file on the transient storage drops
 the data above the new size

Only the size was changed, the removed bytes came back when the file grew
again. Share the chunk removal with resize_file, which deleted all chunks
of the file and left its size unchanged.
---
 stable-fs/src/storage/transient.rs | 87 ++++++++++++++++++------------
 1 file changed, 53 insertions(+), 34 deletions(-)

diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 313dbe0..a2747ca 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -101,6 +101,42 @@ impl TransientStorage {
         }
     }
 
+    // Delete the chunks above the new file size.
+    fn resize_file_internal(&mut self, node: Node, new_size: FileSize) {
+        let chunk_size = FILE_CHUNK_SIZE_V1;
+
+        let first_deletable_index = (new_size.div_ceil(chunk_size as FileSize)) as FileChunkIndex;
+
+        let range = (node, first_deletable_index)..(node, MAX_FILE_CHUNK_COUNT);
+
+        // delete v1 chunks
+        let mut chunks: Vec<(Node, FileChunkIndex)> = Vec::new();
+        for (k, _v) in self.filechunk.range(range) {
+            chunks.push((k.0, k.1));
+        }
+
+        for (nd, idx) in chunks.into_iter() {
+            assert!(nd == node);
+            self.filechunk.remove(&(node, idx));
+        }
+
+        // fill with zeros the part of the last remaining chunk above the file size (if there is any)
+        let offset = new_size as FileSize % chunk_size as FileSize;
+
+        if offset > 0
+            && self
+                .filechunk
+                .contains_key(&(node, first_deletable_index - 1))
+        {
+            self.write_filechunk(
+                node,
+                first_deletable_index - 1,
+                offset,
+                &ZEROES[0..(chunk_size - offset as usize)],
+            );
+        }
+    }
+
     fn validate_metadata_update(
         old_meta: Option<&Metadata>,
         new_meta: &Metadata,
@@ -156,20 +192,28 @@ impl Storage for TransientStorage {
 
     // Update the metadata associated with the node.
     fn put_metadata(&mut self, node: Node, metadata: &Metadata) -> Result<(), Error> {
-        let meta_storage = if self.is_mounted(node) {
+        let is_mounted = self.is_mounted(node);
+
+        let meta_storage = if is_mounted {
             &mut self.mounted_meta
         } else {
             &mut self.metadata
         };
 
-        if let Some(existing) = meta_storage.get(&node) {
-            Self::validate_metadata_update(Some(existing), metadata)?;
-        } else {
-            Self::validate_metadata_update(None, metadata)?;
-        }
+        let existing = meta_storage.get(&node);
+
+        Self::validate_metadata_update(existing, metadata)?;
+
+        let is_shrinking = existing.is_some_and(|existing| metadata.size < existing.size);
 
         meta_storage.insert(node, metadata.clone());
 
+        // if the size was reduced, we need to delete the file chunks above the file size,
+        // the chunks are not used by the mounted files
+        if is_shrinking && !is_mounted {
+            self.resize_file_internal(node, metadata.size);
+        }
+
         Ok(())
     }
 
@@ -280,36 +324,11 @@ impl Storage for TransientStorage {
     }
 
     fn resize_file(&mut self, node: Node, new_size: FileSize) -> Result<(), Error> {
-        let chunk_size = FILE_CHUNK_SIZE_V1;
-
-        let first_deletable_index = (new_size.div_ceil(chunk_size as FileSize)) as FileChunkIndex;
+        let mut meta = self.get_metadata(node)?;
 
-        let range = (node, 0)..(node, MAX_FILE_CHUNK_COUNT);
+        meta.size = new_size;
 
-        // delete v1 chunks
-        let mut chunks: Vec<(Node, FileChunkIndex)> = Vec::new();
-        for (k, _v) in self.filechunk.range(range) {
-            chunks.push((k.0, k.1));
-        }
-
-        for (nd, idx) in chunks.into_iter() {
-            assert!(nd == node);
-            self.filechunk.remove(&(node, idx));
-        }
-
-        // fill with zeros the last chunk memory above the file size
-        if first_deletable_index > 0 {
-            let offset = new_size as FileSize % chunk_size as FileSize;
-
-            self.write_filechunk(
-                node,
-                first_deletable_index - 1,
-                offset,
-                &ZEROES[0..(chunk_size - offset as usize)],
-            );
-        }
-
-        Ok(())
+        self.put_metadata(node, &meta)
     }
 
     fn rm_file(&mut self, node: Node) -> Result<(), Error> {
-- 
2.43.0


From 6137a26bc1ea9a239c66a6dc08305934eb5f72a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:38 +0000
Subject: [PATCH 03/20] fix: a refused hard link or rename leaves the tree
 unchanged

Linking a directory was refused only after the destination had been
removed and the missing path created. A path denoting the starting
directory itself was taken for the entry 0 of that directory.
---
 stable-fs/src/runtime/structure_helpers.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index 61c0fdd..f76d2f8 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -122,6 +122,16 @@ pub fn create_hard_link(
     let src_node: Node = find_node(src_dir_node, src_path, names_cache, storage)?;
     let mut metadata = storage.get_metadata(src_node)?;
 
+    // only allow creating a hardlink on a folder if it is a part of renaming and another link will be removed
+    if !is_renaming && metadata.file_type == FileType::Directory {
+        return Err(Error::OperationNotPermitted);
+    }
+
+    // an empty path denotes the starting directory itself, it is not an entry that can be linked or replaced
+    if get_path_parts(src_path)?.0.is_empty() || get_path_parts(new_path)?.0.is_empty() {
+        return Err(Error::InvalidArgument);
+    }
+
     match find_node(parent_dir_node, new_path, names_cache, storage) {
         Err(Error::NoSuchFileOrDirectory) => {}
         Ok(dst_node) => {
@@ -161,11 +171,6 @@ pub fn create_hard_link(
     //
     let (dir_node, leaf_name) = create_path(parent_dir_node, new_path, None, ctime, storage)?;
 
-    // only allow creating a hardlink on a folder if it is a part of renaming and another link will be removed
-    if !is_renaming && metadata.file_type == FileType::Directory {
-        return Err(Error::OperationNotPermitted);
-    }
-
     metadata.link_count += 1;
     storage.put_metadata(src_node, &metadata)?;
 
-- 
2.43.0


From 2fb934e589c95cf5325dbf600afff507cfa20697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 04/20] fix: renaming or linking a file onto itself keeps the
 file

The existing destination was removed first, which dropped the only name
of the node (or one of its names) before the node was linked again.
---
 stable-fs/src/fs.rs                        | 14 +++++++++++++-
 stable-fs/src/runtime/structure_helpers.rs |  6 ++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/stable-fs/src/fs.rs b/stable-fs/src/fs.rs
index dcd8d5c..fc6949e 100644
--- a/stable-fs/src/fs.rs
+++ b/stable-fs/src/fs.rs
@@ -872,7 +872,7 @@ impl FileSystem {
         let dst_dir = self.get_dir(new_fd)?;
 
         // create a new link
-        create_hard_link(
+        let is_linked = create_hard_link(
             dst_dir.node,
             new_path,
             src_dir.node,
@@ -883,6 +883,18 @@ impl FileSystem {
             self.storage.as_mut(),
         )?;
 
+        if !is_linked {
+            // both paths lead to the same node, there is nothing to rename
+            let node = find_node(
+                src_dir.node,
+                old_path,
+                &mut self.names_cache,
+                self.storage.as_ref(),
+            )?;
+
+            return self.open_internal(node, FdStat::default(), OpenFlags::empty());
+        }
+
         // now unlink the older entry
         let (node, _metadata) = rm_dir_entry(
             src_dir.node,
diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index f76d2f8..c853ce1 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -107,6 +107,7 @@ pub fn find_node(
 }
 
 // Create a hard link to an existing node
+// returns false if both paths lead to the same node already, nothing is changed in this case
 #[allow(clippy::too_many_arguments)]
 pub fn create_hard_link(
     parent_dir_node: Node,
@@ -117,7 +118,7 @@ pub fn create_hard_link(
     node_refcount: &BTreeMap<Node, usize>,
     names_cache: &mut FilenameCache,
     storage: &mut dyn Storage,
-) -> Result<(), Error> {
+) -> Result<bool, Error> {
     // Get the node and metadata, the node must exist in the source folder.
     let src_node: Node = find_node(src_dir_node, src_path, names_cache, storage)?;
     let mut metadata = storage.get_metadata(src_node)?;
@@ -134,6 +135,7 @@ pub fn create_hard_link(
 
     match find_node(parent_dir_node, new_path, names_cache, storage) {
         Err(Error::NoSuchFileOrDirectory) => {}
+        Ok(dst_node) if dst_node == src_node => return Ok(false),
         Ok(dst_node) => {
             let dst_meta = storage.get_metadata(dst_node)?;
 
@@ -182,7 +184,7 @@ pub fn create_hard_link(
         metadata.file_type,
     )?;
 
-    Ok(())
+    Ok(true)
 }
 
 pub fn create_dir_entry(
-- 
2.43.0


From 2ca04aba05e9fecebd41fd0e90da05a5c33379c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:44 +0000
Subject: [PATCH 05/20] fix: renaming a mounted file is refused before the new
 link is created

---
 stable-fs/src/runtime/structure_helpers.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index c853ce1..e2341e1 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -133,9 +133,19 @@ pub fn create_hard_link(
         return Err(Error::InvalidArgument);
     }
 
-    match find_node(parent_dir_node, new_path, names_cache, storage) {
+    let dst_result = find_node(parent_dir_node, new_path, names_cache, storage);
+
+    if matches!(dst_result, Ok(dst_node) if dst_node == src_node) {
+        return Ok(false);
+    }
+
+    // the old entry of a mounted file cannot be removed
+    if is_renaming && storage.is_mounted(src_node) {
+        return Err(Error::TextFileBusy);
+    }
+
+    match dst_result {
         Err(Error::NoSuchFileOrDirectory) => {}
-        Ok(dst_node) if dst_node == src_node => return Ok(false),
         Ok(dst_node) => {
             let dst_meta = storage.get_metadata(dst_node)?;
 
-- 
2.43.0


From 3e8755e96c7d90b3067c842d4cf3434461277433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:37 +0000
Subject: [PATCH 06/20] fix: a folder cannot be renamed into its own subtree

The folder became unreachable together with everything in it.
---
 stable-fs/src/runtime/structure_helpers.rs | 66 ++++++++++++++++++++++
 1 file changed, 66 insertions(+)

diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index e2341e1..954cc6f 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -106,6 +106,63 @@ pub fn find_node(
     }
 }
 
+// Check if the existing part of the path contains a given node.
+fn path_visits_node(
+    parent_dir_node: Node,
+    path: &str,
+    node: Node,
+    storage: &dyn Storage,
+) -> Result<bool, Error> {
+    let (parts, _must_be_dir) = get_path_parts(path)?;
+
+    let mut cur_node = parent_dir_node;
+
+    for part in parts {
+        if cur_node == node {
+            return Ok(true);
+        }
+
+        match find_entry_index(cur_node, part.as_bytes(), storage) {
+            Ok(index) => cur_node = storage.get_direntry(cur_node, index)?.node,
+            Err(Error::NoSuchFileOrDirectory) => break,
+            Err(err) => return Err(err),
+        }
+    }
+
+    Ok(cur_node == node)
+}
+
+// Check if a folder node is located somewhere inside the subtree folder.
+fn is_in_subtree(node: Node, subtree: Node, storage: &dyn Storage) -> Result<bool, Error> {
+    // everything is inside of the root folder, but the root folder is never inside of another folder
+    if node == storage.root_node() {
+        return Ok(false);
+    }
+
+    let mut folders = vec![subtree];
+
+    while let Some(folder) = folders.pop() {
+        if folder == node {
+            return Ok(true);
+        }
+
+        let mut children = vec![];
+
+        storage.with_direntries(folder, Some(0), &mut |_index, entry| {
+            children.push(entry.node);
+            true
+        });
+
+        for child in children {
+            if storage.get_metadata(child)?.file_type == FileType::Directory {
+                folders.push(child);
+            }
+        }
+    }
+
+    Ok(false)
+}
+
 // Create a hard link to an existing node
 // returns false if both paths lead to the same node already, nothing is changed in this case
 #[allow(clippy::too_many_arguments)]
@@ -144,6 +201,15 @@ pub fn create_hard_link(
         return Err(Error::TextFileBusy);
     }
 
+    // a folder cannot be moved into its own subtree
+    if metadata.file_type == FileType::Directory
+        && (path_visits_node(parent_dir_node, new_path, src_node, storage)?
+            || (parent_dir_node != src_dir_node
+                && is_in_subtree(parent_dir_node, src_node, storage)?))
+    {
+        return Err(Error::InvalidArgument);
+    }
+
     match dst_result {
         Err(Error::NoSuchFileOrDirectory) => {}
         Ok(dst_node) => {
-- 
2.43.0


From 846e0c2f39f39e7b8f4d205be925aa9cb5432219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:37 +0000
Subject: [PATCH 07/20] fix: a file or folder replaced by a rename or a link is
 deleted

Only its directory entry was removed, its metadata and chunks stayed
allocated for ever.
---
 stable-fs/src/runtime/structure_helpers.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index 954cc6f..ba79f28 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -231,7 +231,7 @@ pub fn create_hard_link(
             }
 
             // if the operation is allowed so far, try to delete the existing destination entry
-            rm_dir_entry(
+            let (removed_node, removed_metadata) = rm_dir_entry(
                 parent_dir_node,
                 new_path,
                 None,
@@ -240,6 +240,10 @@ pub fn create_hard_link(
                 names_cache,
                 storage,
             )?;
+
+            if removed_metadata.link_count == 0 {
+                storage.rm_file(removed_node)?;
+            }
         }
         Err(err) => return Err(err),
     }
-- 
2.43.0


From e28d5199cf2b382f5bc68916b8d6335f3fb60a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 08/20] fix: hard links of a mounted file are counted by the
 host file

The host file kept its own link count, it was deleted with the first of
its remaining names once the memory was unmounted.
---
 stable-fs/src/storage/stable.rs    | 32 ++++++++++++++++++++++++++++++
 stable-fs/src/storage/transient.rs |  8 ++++++++
 2 files changed, 40 insertions(+)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 1c7f674..5186f87 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -617,6 +617,30 @@ impl<M: Memory> StableStorage<M> {
         Ok(())
     }
 
+    // set the link count of the host file
+    fn update_host_link_count(&mut self, node: Node, link_count: u64) {
+        let host_rec = self.meta_provider.get_metadata(
+            node,
+            false,
+            &self.v2_filechunk.v2_chunk_ptr,
+            &self.v2_filechunk.v2_chunks,
+        );
+
+        if let Some((mut host_meta, meta_ptr)) = host_rec
+            && host_meta.link_count != link_count
+        {
+            host_meta.link_count = link_count;
+
+            self.meta_provider.put_metadata(
+                node,
+                false,
+                &host_meta,
+                meta_ptr,
+                &mut self.v2_filechunk,
+            );
+        }
+    }
+
     fn resize_file_internal(&mut self, node: Node, new_size: FileSize) -> Result<(), Error> {
         // anyone calling this function should also clear pointer cache for this node
 
@@ -763,6 +787,11 @@ impl<M: Memory> Storage for StableStorage<M> {
             &mut self.v2_filechunk,
         );
 
+        // the number of links is the property of the node, the host file shares it with the mounted one
+        if is_mounted {
+            self.update_host_link_count(node, metadata.link_count);
+        }
+
         Ok(())
     }
 
@@ -999,6 +1028,7 @@ impl<M: Memory> Storage for StableStorage<M> {
         // do extra meta preparation
         // get the file metadata (we are not mounted at this point)
         let mut file_meta = self.get_metadata(node)?;
+        let link_count = file_meta.link_count;
 
         let memory_size = memory.size();
 
@@ -1016,6 +1046,8 @@ impl<M: Memory> Storage for StableStorage<M> {
         let new_size = policy.get_mounted_file_size(old_size, memory_size);
 
         file_meta.size = new_size;
+        // the links could have changed since the last time the memory was mounted
+        file_meta.link_count = link_count;
 
         // update mounted metadata
         self.put_metadata(node, &file_meta)?;
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index a2747ca..5e95e47 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -214,6 +214,11 @@ impl Storage for TransientStorage {
             self.resize_file_internal(node, metadata.size);
         }
 
+        // the number of links is the property of the node, the host file shares it with the mounted one
+        if is_mounted && let Some(host_meta) = self.metadata.get_mut(&node) {
+            host_meta.link_count = metadata.link_count;
+        }
+
         Ok(())
     }
 
@@ -358,6 +363,7 @@ impl Storage for TransientStorage {
         // do extra meta preparation
         // get the file metadata (we are not mounted at this point)
         let mut file_meta = self.get_metadata(node)?;
+        let link_count = file_meta.link_count;
 
         let memory_size = memory.size();
 
@@ -375,6 +381,8 @@ impl Storage for TransientStorage {
         let new_size = policy.get_mounted_file_size(old_size, memory_size);
 
         file_meta.size = new_size;
+        // the links could have changed since the last time the memory was mounted
+        file_meta.link_count = link_count;
 
         // update mounted metadata
         self.put_metadata(node, &file_meta)?;
-- 
2.43.0


From 265f3cdc971b469643fa2e987967eb24a36d3443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:13 +0000
Subject: [PATCH 09/20] fix: an opened file never gets a descriptor number that
 is in use

A descriptor renumbered to a closed or to a not yet used number was
handed out again by a later open, and the root descriptor could be
replaced by renumbering.
---
 stable-fs/src/runtime/fd.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/stable-fs/src/runtime/fd.rs b/stable-fs/src/runtime/fd.rs
index 98762ec..c5ba921 100644
--- a/stable-fs/src/runtime/fd.rs
+++ b/stable-fs/src/runtime/fd.rs
@@ -85,6 +85,11 @@ impl FdTable {
         let fd = match self.free_fds.pop() {
             Some(fd) => fd,
             None => {
+                // skip the numbers taken by the renumbered file descriptors
+                while self.table.contains_key(&self.next_fd) {
+                    self.next_fd += 1;
+                }
+
                 let fd = self.next_fd;
                 self.next_fd += 1;
                 fd
@@ -103,6 +108,11 @@ impl FdTable {
             return Ok(());
         }
 
+        // the root file descriptor cannot be replaced
+        if dst == ROOT_FD {
+            return Err(Error::BadFileDescriptor);
+        }
+
         // cannot do renumbering between a file and a folder
         let src_entry: Option<&FdEntry> = self.table.get(&src);
         let dst_entry: Option<&FdEntry> = self.table.get(&dst);
@@ -123,10 +133,10 @@ impl FdTable {
         let old_entry = self.close(src).ok_or(Error::BadFileDescriptor)?;
 
         // quietly close the destination file descriptor
-        if let Some(_old_dst_entry) = self.close(dst) {
-            // dst should not be reused by anyone else, so we must undo the fd marked for reusal
-            self.free_fds.retain(|value| *value != dst);
-        }
+        self.close(dst);
+
+        // dst should not be reused by anyone else (it could also be closed before), so we must undo the fd marked for reusal
+        self.free_fds.retain(|value| *value != dst);
 
         self.insert(dst, old_entry);
 
-- 
2.43.0


From c15cf1671cb84d0490d547194734ca8f93a126eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:32 +0000
Subject: [PATCH 10/20] fix: a path with a too long name is refused before
 anything is created

The missing folders of the path were created, and a node without a name
was left behind.
---
 stable-fs/src/runtime/structure_helpers.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index ba79f28..65f25ce 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -8,7 +8,7 @@ use crate::{
         Storage,
         types::{
             ChunkHandle, DirEntry, DirEntryIndex, FileChunkIndex, FileName, FileSize, FileType,
-            Metadata, Node, Times,
+            MAX_FILE_NAME, Metadata, Node, Times,
         },
     },
 };
@@ -51,6 +51,11 @@ fn get_path_parts(path: &str) -> Result<(Vec<String>, bool), Error> {
         must_be_dir = false;
     }
 
+    // refuse long names early, before any part of the path is created
+    if parts.iter().any(|part| part.len() > MAX_FILE_NAME) {
+        return Err(Error::FilenameTooLong);
+    }
+
     Ok((parts, must_be_dir))
 }
 
-- 
2.43.0


From 9771c13df8d189e6876b14e04dda0f7217eac7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:18 +0000
Subject: [PATCH 11/20] fix: a refused mount does not leave the memory mounted

---
 stable-fs/src/storage/stable.rs    | 9 +++++++--
 stable-fs/src/storage/transient.rs | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 5186f87..86f5f4f 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -1050,9 +1050,14 @@ impl<M: Memory> Storage for StableStorage<M> {
         file_meta.link_count = link_count;
 
         // update mounted metadata
-        self.put_metadata(node, &file_meta)?;
+        let result = self.put_metadata(node, &file_meta);
 
-        Ok(())
+        // do not leave the memory mounted, if its size was refused
+        if result.is_err() {
+            self.active_mounts.remove(&node);
+        }
+
+        result
     }
 
     fn unmount_node(&mut self, node: Node) -> Result<Box<dyn Memory>, Error> {
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 5e95e47..d827c1b 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -385,9 +385,14 @@ impl Storage for TransientStorage {
         file_meta.link_count = link_count;
 
         // update mounted metadata
-        self.put_metadata(node, &file_meta)?;
+        let result = self.put_metadata(node, &file_meta);
 
-        Ok(())
+        // do not leave the memory mounted, if its size was refused
+        if result.is_err() {
+            self.active_mounts.remove(&node);
+        }
+
+        result
     }
 
     fn unmount_node(&mut self, node: Node) -> Result<Box<dyn Memory>, Error> {
-- 
2.43.0


From 2066c455aa367da5541c46939d7f5fc649db69cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:37 +0000
Subject: [PATCH 12/20] fix: storing a memory file is not stopped by the old
 limit of the host file

The copying failed halfway at the old limit of the host file, with the
memory unmounted and lost.
---
 stable-fs/src/storage/stable.rs    | 5 +++--
 stable-fs/src/storage/transient.rs | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 86f5f4f..90422d4 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -1118,6 +1118,9 @@ impl<M: Memory> Storage for StableStorage<M> {
         // temporary disable mount to activate access to the original file
         let memory: Box<dyn Memory> = self.unmount_node(node)?;
 
+        // the host file takes over the size and the size limit first, its old limit must not prevent the copying
+        self.put_metadata(node, &meta)?;
+
         // grow memory if needed
         grow_memory(memory.as_ref(), file_size);
 
@@ -1141,8 +1144,6 @@ impl<M: Memory> Storage for StableStorage<M> {
             remainder -= to_read;
         }
 
-        self.put_metadata(node, &meta)?;
-
         self.mount_node(node, memory, MountedFileSizePolicy::PreviousOrZero)?;
 
         Ok(())
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index d827c1b..4023d13 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -453,6 +453,9 @@ impl Storage for TransientStorage {
         // temporary disable mount to activate access to the original file
         let memory: Box<dyn Memory> = self.unmount_node(node)?;
 
+        // the host file takes over the size and the size limit first, its old limit must not prevent the copying
+        self.put_metadata(node, &meta)?;
+
         // grow memory if needed
         grow_memory(memory.as_ref(), file_size);
 
@@ -473,8 +476,6 @@ impl Storage for TransientStorage {
             remainder -= to_read;
         }
 
-        self.put_metadata(node, &meta)?;
-
         self.mount_node(node, memory, MountedFileSizePolicy::PreviousOrZero)?;
 
         Ok(())
-- 
2.43.0


From ee7a139e83d84ec92abc6a4b8ee1493c98654619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:44 +0000
Subject: [PATCH 13/20] fix: seeking by extreme offsets returns an error
 instead of overflowing

---
 stable-fs/src/runtime/file.rs | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/stable-fs/src/runtime/file.rs b/stable-fs/src/runtime/file.rs
index d979d91..ed89b4d 100644
--- a/stable-fs/src/runtime/file.rs
+++ b/stable-fs/src/runtime/file.rs
@@ -50,22 +50,14 @@ impl File {
                 delta as FileSize
             }
             Whence::CUR => {
-                let back = if delta < 0 {
-                    (-delta).try_into().map_err(|_| Error::InvalidArgument)?
-                } else {
-                    0
-                };
-                let fwd = if delta >= 0 { delta as FileSize } else { 0 };
-
-                if self.cursor < back {
-                    // seeking before zero position
-                    return Err(Error::InvalidArgument);
-                }
-                self.cursor + fwd - back
+                // seeking before zero position or behind the maximum position is an error
+                self.cursor
+                    .checked_add_signed(delta)
+                    .ok_or(Error::InvalidArgument)?
             }
             Whence::END => {
-                let back: FileSize = (-delta).try_into().map_err(|_| Error::InvalidSeek)?;
-                if back > size {
+                let back: FileSize = delta.unsigned_abs();
+                if delta > 0 || back > size {
                     return Err(Error::InvalidSeek);
                 }
                 size - back
-- 
2.43.0


From 40b2728f6cd9498e205d4701778d97069ae10a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:02 +0000
Subject: [PATCH 14/20] fix: no file gets bigger than the maximum file size

A size or a limit above the maximum was accepted, and the end of a write
could overflow, the chunk indices were truncated then.
---
 stable-fs/src/fs.rs                |  9 ++++++++-
 stable-fs/src/storage/stable.rs    | 20 ++++++++++++--------
 stable-fs/src/storage/transient.rs | 20 +++++++++++++-------
 3 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/stable-fs/src/fs.rs b/stable-fs/src/fs.rs
index fc6949e..3794206 100644
--- a/stable-fs/src/fs.rs
+++ b/stable-fs/src/fs.rs
@@ -12,7 +12,9 @@ use crate::{
     },
     storage::{
         Storage,
-        types::{DirEntry, DirEntryIndex, FileType, Metadata, MountedFileSizePolicy, Node},
+        types::{
+            DirEntry, DirEntryIndex, FileType, MAX_FILE_SIZE, Metadata, MountedFileSizePolicy, Node,
+        },
     },
 };
 
@@ -189,6 +191,11 @@ impl FileSystem {
     ) -> Result<(), Error> {
         let filename = filename.strip_prefix('/').unwrap_or(filename);
 
+        // do not create the file, if it cannot have the requested size
+        if matches!(policy, MountedFileSizePolicy::Explicit(size) if size > MAX_FILE_SIZE) {
+            return Err(Error::FileTooLarge);
+        }
+
         // create a file for the mount
         let fd = self.open(
             self.root_fd,
diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 90422d4..603a411 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -608,9 +608,9 @@ impl<M: Memory> StableStorage<M> {
             }
         }
 
-        if let Some(max_size) = new_meta.maximum_size_allowed
-            && new_meta.size > max_size
-        {
+        let max_size = new_meta.maximum_size_allowed.unwrap_or(MAX_FILE_SIZE);
+
+        if new_meta.size > max_size.min(MAX_FILE_SIZE) {
             return Err(Error::FileTooLarge);
         }
 
@@ -942,9 +942,16 @@ impl<M: Memory> Storage for StableStorage<M> {
             return Ok(0);
         }
 
-        let max_size = metadata.maximum_size_allowed.unwrap_or(MAX_FILE_SIZE);
+        let max_size = metadata
+            .maximum_size_allowed
+            .unwrap_or(MAX_FILE_SIZE)
+            .min(MAX_FILE_SIZE);
 
-        if offset + buf.len() as FileSize > max_size {
+        let end = offset
+            .checked_add(buf.len() as FileSize)
+            .ok_or(Error::FileTooLarge)?;
+
+        if end > max_size {
             return Err(Error::FileTooLarge);
         }
 
@@ -953,8 +960,6 @@ impl<M: Memory> Storage for StableStorage<M> {
 
             buf.len() as FileSize
         } else {
-            let end = offset + buf.len() as FileSize;
-
             let use_v2 = self.use_v2(&metadata, node);
 
             if use_v2 {
@@ -979,7 +984,6 @@ impl<M: Memory> Storage for StableStorage<M> {
             }
         };
 
-        let end = offset + buf.len() as FileSize;
         if end > metadata.size {
             metadata.size = end;
             self.put_metadata(node, &metadata)?;
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 4023d13..52c3c00 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -19,6 +19,7 @@ use crate::{
 use super::types::{
     DUMMY_DOT_DOT_ENTRY, DUMMY_DOT_DOT_ENTRY_INDEX, DUMMY_DOT_ENTRY, DUMMY_DOT_ENTRY_INDEX,
     FILE_CHUNK_SIZE_V1, Header, MAX_FILE_CHUNK_COUNT, MAX_FILE_ENTRY_INDEX,
+    MAX_FILE_SIZE,
 };
 
 // The root node ID.
@@ -141,9 +142,9 @@ impl TransientStorage {
         old_meta: Option<&Metadata>,
         new_meta: &Metadata,
     ) -> Result<(), Error> {
-        if let Some(max_size) = new_meta.maximum_size_allowed
-            && new_meta.size > max_size
-        {
+        let max_size = new_meta.maximum_size_allowed.unwrap_or(MAX_FILE_SIZE);
+
+        if new_meta.size > max_size.min(MAX_FILE_SIZE) {
             return Err(Error::FileTooLarge);
         }
 
@@ -489,11 +490,16 @@ impl Storage for TransientStorage {
             return Ok(0);
         }
 
-        let end = offset + buf.len() as FileSize;
+        let max_size = metadata
+            .maximum_size_allowed
+            .unwrap_or(MAX_FILE_SIZE)
+            .min(MAX_FILE_SIZE);
 
-        if let Some(max_size) = metadata.maximum_size_allowed
-            && end > max_size
-        {
+        let end = offset
+            .checked_add(buf.len() as FileSize)
+            .ok_or(Error::FileTooLarge)?;
+
+        if end > max_size {
             return Err(Error::FileTooLarge);
         }
 
-- 
2.43.0


From 000d022363d537fd1c4096c95e97ea7352c85627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:21 +0000
Subject: [PATCH 15/20] fix: chunk indices do not overflow close to the maximum
 file size

---
 stable-fs/src/storage/chunk_iterator.rs | 5 ++++-
 stable-fs/src/storage/ptr_cache.rs      | 4 ++--
 stable-fs/src/storage/stable.rs         | 5 +++--
 stable-fs/src/storage/transient.rs      | 5 +++--
 4 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/stable-fs/src/storage/chunk_iterator.rs b/stable-fs/src/storage/chunk_iterator.rs
index fb97569..ac8f3ca 100644
--- a/stable-fs/src/storage/chunk_iterator.rs
+++ b/stable-fs/src/storage/chunk_iterator.rs
@@ -2,6 +2,7 @@ use crate::storage::FileSize;
 use crate::storage::Node;
 use crate::storage::types::FileChunkIndex;
 use crate::storage::types::FileChunkPtr;
+use crate::storage::types::MAX_FILE_CHUNK_COUNT;
 use ic_stable_structures;
 use ic_stable_structures::BTreeMap;
 use ic_stable_structures::Memory;
@@ -28,7 +29,9 @@ impl<'a, M: Memory> ChunkV2Iterator<'a, M> {
         v2_chunk_ptr: &'a mut BTreeMap<(Node, FileChunkIndex), FileChunkPtr, VirtualMemory<M>>,
     ) -> Self {
         let cur_index = (offset / chunk_size) as FileChunkIndex;
-        let last_index_excluded = (last_address / chunk_size + 1) as FileChunkIndex;
+        // there are no file chunks behind the maximum index
+        let last_index_excluded =
+            (last_address / chunk_size + 1).min(MAX_FILE_CHUNK_COUNT as FileSize) as FileChunkIndex;
 
         Self {
             node,
diff --git a/stable-fs/src/storage/ptr_cache.rs b/stable-fs/src/storage/ptr_cache.rs
index 87660d8..f768e72 100644
--- a/stable-fs/src/storage/ptr_cache.rs
+++ b/stable-fs/src/storage/ptr_cache.rs
@@ -48,8 +48,8 @@ impl PtrCache {
         to_index: FileChunkIndex,
         v2_chunk_ptr: &BTreeMap<(Node, FileChunkIndex), FileChunkPtr, VirtualMemory<M>>,
     ) {
-        let to_index = to_index.min(from_index + MAX_CACHE_CHUNKS);
-        let to_index = to_index.max(from_index + MIN_CACHE_CHUNKS);
+        let to_index = to_index.min(from_index.saturating_add(MAX_CACHE_CHUNKS));
+        let to_index = to_index.max(from_index.saturating_add(MIN_CACHE_CHUNKS));
         let to_index = to_index.min(MAX_FILE_CHUNK_COUNT);
 
         if from_index >= to_index {
diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 603a411..cb024eb 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -436,8 +436,9 @@ impl<M: Memory> StableStorage<M> {
         buf: &mut [u8],
     ) -> Result<FileSize, Error> {
         let start_index = (offset / FILE_CHUNK_SIZE_V1 as FileSize) as FileChunkIndex;
-        let end_index = ((offset + buf.len() as FileSize) / FILE_CHUNK_SIZE_V1 as FileSize + 1)
-            as FileChunkIndex;
+        // nothing is read above the file size
+        let end_offset = offset.saturating_add(buf.len() as FileSize).min(file_size);
+        let end_index = (end_offset / FILE_CHUNK_SIZE_V1 as FileSize + 1) as FileChunkIndex;
 
         let mut chunk_offset = offset - start_index as FileSize * FILE_CHUNK_SIZE_V1 as FileSize;
 
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 52c3c00..48f88a8 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -266,8 +266,9 @@ impl Storage for TransientStorage {
         } else {
             let start_index = (offset / FILE_CHUNK_SIZE_V1 as FileSize) as FileChunkIndex;
 
-            let end_index = ((offset + buf.len() as FileSize) / FILE_CHUNK_SIZE_V1 as FileSize + 1)
-                as FileChunkIndex;
+            // nothing is read above the file size
+            let end_offset = offset.saturating_add(buf.len() as FileSize).min(file_size);
+            let end_index = (end_offset / FILE_CHUNK_SIZE_V1 as FileSize + 1) as FileChunkIndex;
 
             let mut chunk_offset =
                 offset - start_index as FileSize * FILE_CHUNK_SIZE_V1 as FileSize;
-- 
2.43.0


From 3b67cbe002e48d3025b5e08c22655a3b20a6908f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:40 +0000
Subject: [PATCH 16/20] fix: transient storage refuses a new file type and
 accepts any start index

The start index above the maximum made the directory scan panic, and the
file type could be changed, unlike in the stable storage.
---
 stable-fs/src/storage/transient.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 48f88a8..a8bf487 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -154,6 +154,13 @@ impl TransientStorage {
             return Err(Error::InvalidArgument);
         }
 
+        // do not allow changing file type
+        if let Some(old_meta) = old_meta
+            && old_meta.file_type != new_meta.file_type
+        {
+            return Err(Error::FunctionNotSupported);
+        }
+
         Ok(())
     }
 }
@@ -606,6 +613,9 @@ impl Storage for TransientStorage {
 
         let max_index = MAX_FILE_ENTRY_INDEX;
 
+        // there are no entries behind the maximum index
+        let initial_index = initial_index.min(max_index);
+
         for ((_node, index), entry) in self
             .direntry
             .range((node, initial_index)..(node, max_index))
-- 
2.43.0


From 9fc691c9b210ab641c7521a67f7e2051787dd4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:34 +0000
Subject: [PATCH 17/20] fix: a standard channel redirected by renumbering
 reports the metadata of its file

---
 stable-fs/src/fs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stable-fs/src/fs.rs b/stable-fs/src/fs.rs
index 3794206..16f11a3 100644
--- a/stable-fs/src/fs.rs
+++ b/stable-fs/src/fs.rs
@@ -473,7 +473,8 @@ impl FileSystem {
     // Get the metadata for a given file descriptor
     pub fn metadata(&self, fd: Fd) -> Result<Metadata, Error> {
         // return fake metadata for the std channels, it is read-only
-        if fd <= STDERR_FD {
+        // (unless the channel is redirected to an actual file or folder)
+        if fd <= STDERR_FD && self.fd_table.get(fd).is_none() {
             return Ok(Metadata {
                 node: u64::MAX, // return fake, unusable node here
                 file_type: FileType::RegularFile,
-- 
2.43.0


From 259061a9f22e51891bfabd7148ab1c6367f81d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:01 +0000
Subject: [PATCH 18/20] fix: removing a very deep folder does not overflow the
 stack

---
 stable-fs/src/fs.rs | 105 +++++++++++++++++++++++++++++++-------------
 1 file changed, 75 insertions(+), 30 deletions(-)

diff --git a/stable-fs/src/fs.rs b/stable-fs/src/fs.rs
index 16f11a3..c593e3a 100644
--- a/stable-fs/src/fs.rs
+++ b/stable-fs/src/fs.rs
@@ -32,6 +32,15 @@ pub struct FileSystem {
     pub storage: Box<dyn Storage>,
 }
 
+/// A directory being removed together with its content.
+struct DirRemoval {
+    parent: Fd,
+    path: String,
+    dir_fd: Fd,
+    children: std::vec::IntoIter<(Node, String)>,
+    result: Result<(), Error>,
+}
+
 impl FileSystem {
     // Create a new file system hosted on a given storage implementation.
     pub fn new(storage: Box<dyn Storage>) -> Result<Self, Error> {
@@ -797,43 +806,79 @@ impl FileSystem {
             return self.remove_file(parent, path);
         }
 
-        // Open the target directory. We use `OpenFlags::DIRECTORY` to ensure
-        //    the path is interpreted as a directory (or fail if it doesn't exist).
-        let dir_fd = self.open(parent, path, FdStat::default(), OpenFlags::DIRECTORY, 0)?;
+        // The directories being emptied, the innermost is the last one. An explicit stack is used, so that
+        // the depth of the tree is not limited by the size of the call stack.
+        let mut stack = vec![self.start_removal(parent, path)?];
 
-        let result = (|| {
-            // Find all directory children
-            let children = self.list_dir_internal(dir_fd, None)?;
-
-            // For each child, figure out if it's a subdirectory or file and remove accordingly.
-            for (child_node, child_name) in children {
-                let child_meta = self.storage.get_metadata(child_node)?;
-
-                match child_meta.file_type {
-                    FileType::Directory => {
-                        // Recurse into the subdirectory.
-                        self.remove_recursive(dir_fd, &child_name)?;
-                    }
-                    FileType::RegularFile => {
-                        // Remove the file.
-                        self.remove_file(dir_fd, &child_name)?;
-                    }
-                    FileType::SymbolicLink => {
-                        unimplemented!("Symbolic links are not supported yet");
-                    }
+        while let Some(removal) = stack.last_mut() {
+            let next_child = if removal.result.is_ok() {
+                removal.children.next()
+            } else {
+                None
+            };
+
+            if let Some((child_node, child_name)) = next_child {
+                // Figure out if the child is a subdirectory or a file and remove accordingly.
+                let dir_fd = removal.dir_fd;
+
+                let child_result = match self.storage.get_metadata(child_node) {
+                    Ok(child_meta) => match child_meta.file_type {
+                        FileType::Directory => self
+                            .start_removal(dir_fd, &child_name)
+                            .map(|child_removal| stack.push(child_removal)),
+                        FileType::RegularFile => self.remove_file(dir_fd, &child_name),
+                        FileType::SymbolicLink => {
+                            unimplemented!("Symbolic links are not supported yet");
+                        }
+                    },
+                    Err(err) => Err(err),
+                };
+
+                if let (Err(err), Some(removal)) = (child_result, stack.last_mut()) {
+                    removal.result = Err(err);
                 }
+
+                continue;
             }
 
-            Ok(())
-        })();
+            if let Some(removal) = stack.pop() {
+                // close the folder itself before its deletion
+                self.close(removal.dir_fd)?;
 
-        // close the folder itself before its deletion
-        self.close(dir_fd)?;
+                // Now that it is empty, remove the directory entry from its parent.
+                let result = self
+                    .remove_dir(removal.parent, &removal.path)
+                    .and(removal.result);
 
-        // Now that it is empty, remove the directory entry from its parent.
-        self.remove_dir(parent, path)?;
+                match stack.last_mut() {
+                    Some(outer) => outer.result = result,
+                    None => return result,
+                }
+            }
+        }
 
-        result
+        Ok(())
+    }
+
+    // Open a directory that is going to be removed and list its children.
+    fn start_removal(&mut self, parent: Fd, path: &str) -> Result<DirRemoval, Error> {
+        // Open the target directory. We use `OpenFlags::DIRECTORY` to ensure
+        //    the path is interpreted as a directory (or fail if it doesn't exist).
+        let dir_fd = self.open(parent, path, FdStat::default(), OpenFlags::DIRECTORY, 0)?;
+
+        // Find all directory children
+        let (children, result) = match self.list_dir_internal(dir_fd, None) {
+            Ok(children) => (children, Ok(())),
+            Err(err) => (vec![], Err(err)),
+        };
+
+        Ok(DirRemoval {
+            parent,
+            path: path.to_string(),
+            dir_fd,
+            children: children.into_iter(),
+            result,
+        })
     }
 
     // Create a hard link to an existing file.
-- 
2.43.0


From 176e7a285c3294345b6ccc389930127f9a93c2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 19/20] fix: a directory listing resumed at a dot entry
 continues with the entries

---
 stable-fs/src/storage/stable.rs    | 16 +++++++++++-----
 stable-fs/src/storage/transient.rs | 16 +++++++++++-----
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index cb024eb..be2aa99 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -846,7 +846,7 @@ impl<M: Memory> Storage for StableStorage<M> {
             }
         }
 
-        let initial_index = initial_index.unwrap_or(0);
+        let mut initial_index = initial_index.unwrap_or(0);
 
         if initial_index == DUMMY_DOT_ENTRY_INDEX {
             let mut dot_entry = DUMMY_DOT_ENTRY;
@@ -859,12 +859,18 @@ impl<M: Memory> Storage for StableStorage<M> {
             if !f(&DUMMY_DOT_DOT_ENTRY.0, &DUMMY_DOT_DOT_ENTRY.1) {
                 return;
             }
+
+            // the entries of the directory follow
+            initial_index = 0;
         }
 
-        if initial_index == DUMMY_DOT_DOT_ENTRY_INDEX
-            && !f(&DUMMY_DOT_DOT_ENTRY.0, &DUMMY_DOT_DOT_ENTRY.1)
-        {
-            return;
+        if initial_index == DUMMY_DOT_DOT_ENTRY_INDEX {
+            if !f(&DUMMY_DOT_DOT_ENTRY.0, &DUMMY_DOT_DOT_ENTRY.1) {
+                return;
+            }
+
+            // the entries of the directory follow
+            initial_index = 0;
         }
 
         let max_index = MAX_FILE_ENTRY_INDEX;
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index a8bf487..a429898 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -590,7 +590,7 @@ impl Storage for TransientStorage {
             }
         }
 
-        let initial_index = initial_index.unwrap_or(0);
+        let mut initial_index = initial_index.unwrap_or(0);
 
         if initial_index == DUMMY_DOT_ENTRY_INDEX {
             let mut dot_entry = DUMMY_DOT_ENTRY;
@@ -603,12 +603,18 @@ impl Storage for TransientStorage {
             if !f(&DUMMY_DOT_DOT_ENTRY.0, &DUMMY_DOT_DOT_ENTRY.1) {
                 return;
             }
+
+            // the entries of the directory follow
+            initial_index = 0;
         }
 
-        if initial_index == DUMMY_DOT_DOT_ENTRY_INDEX
-            && !f(&DUMMY_DOT_DOT_ENTRY.0, &DUMMY_DOT_DOT_ENTRY.1)
-        {
-            return;
+        if initial_index == DUMMY_DOT_DOT_ENTRY_INDEX {
+            if !f(&DUMMY_DOT_DOT_ENTRY.0, &DUMMY_DOT_DOT_ENTRY.1) {
+                return;
+            }
+
+            // the entries of the directory follow
+            initial_index = 0;
         }
 
         let max_index = MAX_FILE_ENTRY_INDEX;
-- 
2.43.0


From 30394814864bc9e21be3c5308798a91903019175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:29 +0000
Subject: [PATCH 20/20] fix: an inverted range of memory indices is refused

---
 stable-fs/src/storage/stable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index be2aa99..f237b71 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -154,7 +154,7 @@ impl<M: Memory> StableStorage<M> {
         memory_manager: &MemoryManager<M>,
         memory_indices: Range<u8>,
     ) -> StableStorage<M> {
-        if memory_indices.end - memory_indices.start < MEMORY_INDEX_COUNT {
+        if memory_indices.len() < MEMORY_INDEX_COUNT as usize {
             panic!("The memory index range must include at least {MEMORY_INDEX_COUNT} incides");
         }
 
-- 
2.43.0

