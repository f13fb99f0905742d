From 9a8031f4bea0020af8bcfe135992c1ef2e52c67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 01/21] fix: read leaf blocks which do not record their file
 size

The size of a leaf defaults to the length of its data when determining where
the block ends, but recording the file size unwrapped the missing value and
panicked.
---
 src/file/reader.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/file/reader.rs b/src/file/reader.rs
index f23f419..5b3ed00 100644
--- a/src/file/reader.rs
+++ b/src/file/reader.rs
@@ -130,13 +130,13 @@ impl<'a> FileReader<'a> {
                 .into());
             }
 
-            let end = if inner.links.is_empty() {
-                // can unwrap because `data` is all of the data
+            let (end, file_size) = if inner.links.is_empty() {
+                // the default is fine because `data` is all of the data
                 let filesize = inner.data.filesize.unwrap_or(data.len() as u64);
-                Ending::Chunk(offset + filesize)
+                (Ending::Chunk(offset + filesize), filesize)
             } else {
                 match inner.data.filesize {
-                    Some(filesize) => Ending::TreeCoverage(offset + filesize),
+                    Some(filesize) => (Ending::TreeCoverage(offset + filesize), filesize),
                     None => return Err(FileError::IntermediateNodeWithoutFileSize.into()),
                 }
             };
@@ -148,7 +148,7 @@ impl<'a> FileReader<'a> {
                 data,
                 blocksizes: inner.data.blocksizes,
                 metadata,
-                file_size: inner.data.filesize.unwrap(),
+                file_size,
             })
         }
     }
-- 
2.43.0


From 990d6be8a61dfffcf2af2ec0e5dcaf72222af06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:15 +0000
Subject: [PATCH 02/21] fix: keep reporting the size of the whole file during a
 visit

After the first step FileVisit::file_size returned the size recorded on the
latest visited block instead of the size of the file.
---
 src/file/reader.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/file/reader.rs b/src/file/reader.rs
index 5b3ed00..f4e4185 100644
--- a/src/file/reader.rs
+++ b/src/file/reader.rs
@@ -96,7 +96,11 @@ impl<'a> FileReader<'a> {
             return Err(FileError::NonRootDefinesMetadata(metadata).into());
         }
 
-        Self::from_parts(inner, offset, traversal.metadata)
+        let file_size = traversal.file_size;
+        let mut reader = Self::from_parts(inner, offset, traversal.metadata)?;
+        // the block is only a part of the file whose traversal is being continued
+        reader.file_size = file_size;
+        Ok(reader)
     }
 
     fn from_parts(
-- 
2.43.0


From ee407a2fda45cc95459cb47e70baa79db06672a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:16 +0000
Subject: [PATCH 03/21] fix: report a bucket below a sharded root with its own
 Cid

The first continuation bucket directly following the sharded directory at the
root of the walk was reported with the Cid of the root.
---
 src/walk.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/walk.rs b/src/walk.rs
index a3daa93..5f2e2fe 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -465,10 +465,7 @@ impl InnerEntry {
     fn as_bucket(&mut self, cid: Cid, name: &str, depth: usize) {
         use InnerKind::*;
         match self.kind {
-            BucketAtRoot => {
-                assert_eq!(self.depth, depth, "{:?}", self.path);
-            }
-            RootBucket | Bucket | File(None, _) | Symlink => {
+            BucketAtRoot | RootBucket | Bucket | File(None, _) | Symlink => {
                 self.cid = cid;
                 self.kind = Bucket;
 
-- 
2.43.0


From 3a57d04c0ffb4a72bb389a978846af42a538b4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:16 +0000
Subject: [PATCH 04/21] fix: walk buckets which follow an empty directory

An empty plain directory listed in a sharded directory right before a
continuation bucket made the walk panic as unreachable.
---
 src/walk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/walk.rs b/src/walk.rs
index 5f2e2fe..a8c4a8d 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -465,7 +465,7 @@ impl InnerEntry {
     fn as_bucket(&mut self, cid: Cid, name: &str, depth: usize) {
         use InnerKind::*;
         match self.kind {
-            BucketAtRoot | RootBucket | Bucket | File(None, _) | Symlink => {
+            BucketAtRoot | RootBucket | Bucket | Directory | File(None, _) | Symlink => {
                 self.cid = cid;
                 self.kind = Bucket;
 
-- 
2.43.0


From a75720aa600ca9fbf89d2a9ea625161312bdf46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 05/21] fix: return an error for undecodable later blocks of a
 file in a walk

Blocks after the first one of a file are parsed by the FileVisit, so a failure
to parse one is reachable with unexpected input and must not panic.
---
 src/walk.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/walk.rs b/src/walk.rs
index a8c4a8d..f9d8170 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -686,7 +686,9 @@ impl From<FileReadFailed> for Error {
         match e {
             File(e) => Error::File(e),
             UnexpectedType(ut) => Error::UnexpectedType(ut),
-            Read(_) => unreachable!("FileVisit does not parse any blocks"),
+            // the later blocks of a file are parsed by the FileVisit
+            Read(Some(e)) => Error::DagPbParsingFailed(e),
+            Read(None) => Error::EmptyDagPbNode,
             InvalidCid(l) => Error::InvalidCid(l),
         }
     }
-- 
2.43.0


From c6e9fb6b80d1d1e0bd3b019cec6e60fa8d041e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 06/21] fix: return errors for unusable link names in a walk

Links without a name, with a name which cannot be split after the bucket
prefix, or with a name which is not a single path component made the
walk panic.
---
 src/walk.rs | 59 +++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 18 deletions(-)

diff --git a/src/walk.rs b/src/walk.rs
index f9d8170..9caa7d6 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -28,23 +28,26 @@ pub struct Walker {
     should_continue: bool,
 }
 
+/// Returns `true` if the name can be used as a single component of a path.
+fn is_valid_name(name: &str) -> bool {
+    !name.is_empty() && name != "." && !name.contains('/')
+}
+
 /// Converts a link of specifically a Directory (and not a link of a HAMTShard).
 fn convert_link(
     nested_depth: usize,
     nth: usize,
     link: PBLink<'_>,
-) -> Result<(Cid, String, usize), InvalidCidInLink> {
+) -> Result<(Cid, String, usize), Error> {
     let hash = link.Hash.as_deref().unwrap_or_default();
     let cid = match Cid::try_from(hash) {
         Ok(cid) => cid,
-        Err(e) => return Err(InvalidCidInLink::from((nth, link, e))),
-    };
-    let name = match link.Name {
-        Some(Cow::Borrowed(s)) if !s.is_empty() => s.to_owned(),
-        None | Some(Cow::Borrowed(_)) => todo!("link cannot be empty"),
-        Some(Cow::Owned(_s)) => unreachable!("FlatUnixFs is never transformed to owned"),
+        Err(e) => return Err(InvalidCidInLink::from((nth, link, e)).into()),
     };
-    assert!(!name.contains('/'));
+    let name = link.Name.as_deref().unwrap_or_default().to_owned();
+    if !is_valid_name(&name) {
+        return Err(Error::InvalidLinkName { nth, name });
+    }
     Ok((cid, name, nested_depth))
 }
 
@@ -54,20 +57,21 @@ fn convert_sharded_link(
     sibling_depth: usize,
     nth: usize,
     link: PBLink<'_>,
-) -> Result<(Cid, String, usize), InvalidCidInLink> {
+) -> Result<(Cid, String, usize), Error> {
     let hash = link.Hash.as_deref().unwrap_or_default();
     let cid = match Cid::try_from(hash) {
         Ok(cid) => cid,
-        Err(e) => return Err(InvalidCidInLink::from((nth, link, e))),
-    };
-    let (depth, name) = match link.Name {
-        Some(Cow::Borrowed(s)) if s.len() > 2 => (nested_depth, s[2..].to_owned()),
-        Some(Cow::Borrowed(s)) if s.len() == 2 => (sibling_depth, String::from("")),
-        None | Some(Cow::Borrowed(_)) => todo!("link cannot be empty"),
-        Some(Cow::Owned(_s)) => unreachable!("FlatUnixFs is never transformed to owned"),
+        Err(e) => return Err(InvalidCidInLink::from((nth, link, e)).into()),
     };
-    assert!(!name.contains('/'));
-    Ok((cid, name, depth))
+    let full_name = link.Name.as_deref().unwrap_or_default();
+    match full_name.get(2..) {
+        Some("") => Ok((cid, String::from(""), sibling_depth)),
+        Some(name) if is_valid_name(name) => Ok((cid, name.to_owned(), nested_depth)),
+        _ => Err(Error::InvalidLinkName {
+            nth,
+            name: full_name.to_owned(),
+        }),
+    }
 }
 
 impl Walker {
@@ -153,6 +157,14 @@ impl Walker {
         let flat = FlatUnixFs::try_from(bytes)?;
         let metadata = Metadata::from(&flat.data);
 
+        if current.is_some()
+            && flat.data.Type != UnixFsType::HAMTShard
+            && matches!(next, Some((_, name, _)) if name.is_empty())
+        {
+            // after the root only the continuation buckets are without a name
+            return Err(Error::UnexpectedType(flat.data.Type.into()));
+        }
+
         match flat.data.Type {
             UnixFsType::Directory => {
                 let flat = crate::dir::check_directory_supported(flat)?;
@@ -653,6 +665,14 @@ pub enum Error {
     /// dag-pb link could not be converted to a Cid
     InvalidCid(InvalidCidInLink),
 
+    /// Name of a dag-pb link in a directory cannot be used as a path segment
+    InvalidLinkName {
+        /// The index of the link, from zero
+        nth: usize,
+        /// Name of the link as it is on the block
+        name: String,
+    },
+
     /// A File has an invalid structure
     File(FileError),
 
@@ -717,6 +737,9 @@ impl fmt::Display for Error {
             UnixFsParsingFailed(e) => write!(fmt, "failed to parse the inner UnixFs: {}", e),
             EmptyDagPbNode => write!(fmt, "failed to parse the inner UnixFs: no data"),
             InvalidCid(e) => write!(fmt, "link contained an invalid Cid: {}", e),
+            InvalidLinkName { nth, name } => {
+                write!(fmt, "link #{} has an invalid name: {:?}", nth, name)
+            }
             File(e) => write!(fmt, "invalid file: {}", e),
             UnsupportedDirectory(udp) => write!(fmt, "unsupported directory: {}", udp),
             UnsupportedHAMTShard(se) => write!(fmt, "unsupported hamtshard: {}", se),
-- 
2.43.0


From a7a94fe9649ca8b23308e314be24210a12b300ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:04 +0000
Subject: [PATCH 07/21] fix: return an error for file sizes which overflow the
 offset

Adding up the file size or the blocksizes of a block overflowed, which
panicked or wrapped the ranges around.
---
 src/file/reader.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/file/reader.rs b/src/file/reader.rs
index f4e4185..1d87a62 100644
--- a/src/file/reader.rs
+++ b/src/file/reader.rs
@@ -134,17 +134,32 @@ impl<'a> FileReader<'a> {
                 .into());
             }
 
+            // a file cannot extend past the largest possible offset
+            let end_of = |filesize| {
+                offset
+                    .checked_add(filesize)
+                    .ok_or(FileError::TreeExpandsOnLinks)
+            };
+
             let (end, file_size) = if inner.links.is_empty() {
                 // the default is fine because `data` is all of the data
                 let filesize = inner.data.filesize.unwrap_or(data.len() as u64);
-                (Ending::Chunk(offset + filesize), filesize)
+                (Ending::Chunk(end_of(filesize)?), filesize)
             } else {
                 match inner.data.filesize {
-                    Some(filesize) => (Ending::TreeCoverage(offset + filesize), filesize),
+                    Some(filesize) => (Ending::TreeCoverage(end_of(filesize)?), filesize),
                     None => return Err(FileError::IntermediateNodeWithoutFileSize.into()),
                 }
             };
 
+            // `RangeLinks` will be adding these up
+            inner
+                .data
+                .blocksizes
+                .iter()
+                .try_fold(offset, |end, blocksize| end.checked_add(*blocksize))
+                .ok_or(FileError::TreeExpandsOnLinks)?;
+
             Ok(Self {
                 offset,
                 end,
-- 
2.43.0


From a2a05b68ed044388d371bd4dd5e7877c37b32639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:25 +0000
Subject: [PATCH 08/21] fix: do not panic when a leaf has less content than its
 range

Slicing a short leaf with a target range was out of bounds.
---
 src/file/visit.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/file/visit.rs b/src/file/visit.rs
index 4d96275..10bd5c4 100644
--- a/src/file/visit.rs
+++ b/src/file/visit.rs
@@ -273,6 +273,10 @@ fn target_slice<'a>(content: &'a [u8], block: &Range<u64>, target: &Range<u64>)
             end = start + (target.end - target.start) as usize;
         }
 
+        // the block might have less content than what was recorded for it in the tree
+        let end = min(end, content.len());
+        let start = min(start, end);
+
         &content[start..end]
     }
 }
-- 
2.43.0


From 652356ab1be188d621cfdc4f71f42974925b1af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:27 +0000
Subject: [PATCH 09/21] fix: end the visit when no link is in the target range

A link block without any links in the target range, as the last pending
block, left behind a visit without pending links. Accessing those or
continuing the visit panicked.
---
 src/file/visit.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/file/visit.rs b/src/file/visit.rs
index 10bd5c4..be29e6f 100644
--- a/src/file/visit.rs
+++ b/src/file/visit.rs
@@ -189,8 +189,13 @@ impl FileVisit {
                 // reverse to keep the next link we need to traverse as last, where pop() operates.
                 (&mut self.pending[before..]).reverse();
 
-                self.state = traversal;
-                Ok((&[][..], Some(self)))
+                if !self.pending.is_empty() {
+                    self.state = traversal;
+                    Ok((&[][..], Some(self)))
+                } else {
+                    *cache = Some(self.pending.into());
+                    Ok((&[][..], None))
+                }
             }
         }
     }
-- 
2.43.0


From a95f77fab55c190880267574060553d4bbad5c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 10/21] fix: do not panic looking up from shards with non-ascii
 link prefixes

The name of a link in a shard was sliced inside of a character.
---
 src/dir/sharded_lookup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dir/sharded_lookup.rs b/src/dir/sharded_lookup.rs
index 57aceb1..75a3e16 100644
--- a/src/dir/sharded_lookup.rs
+++ b/src/dir/sharded_lookup.rs
@@ -169,7 +169,7 @@ impl<'needle> ShardedLookup<'needle> {
         for (i, link) in iter.enumerate() {
             let name = link.Name.as_deref().unwrap_or_default();
 
-            if name.len() > 2 && &name[2..] == needle {
+            if name.len() > 2 && name.get(2..) == Some(needle) {
                 if let Some(first) = found.take() {
                     return Err(MultipleMatchingLinks::from((first, (i, link))).into());
                 } else {
-- 
2.43.0


From db79a2d8af21b2c6c30f3bbdd17fffece0f81366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 11/21] fix: wrap nodes with an empty data field at the end of
 the block

wrap_node_data panicked as an empty slice at the end of the block was
not considered to be in range.
---
 src/dagpb.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dagpb.rs b/src/dagpb.rs
index 6d24139..51486e1 100644
--- a/src/dagpb.rs
+++ b/src/dagpb.rs
@@ -50,7 +50,8 @@ fn subslice_to_range(full: &[u8], sub: &[u8]) -> Option<Range<usize>> {
         //
         // if there are two slices of a continuous chunk, [A|B] we need to make sure B will not be
         // calculated as subslice of A
-        .and_then(|start| if start >= max { None } else { Some(start) })
+        // empty subslice can start at the very end
+        .and_then(|start| if start > max - amt { None } else { Some(start) })
         .map(|start| start..(start + amt))
 }
 
-- 
2.43.0


From e6d0d9747ec1e335db9fcb3ff71c7dad88732465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 12/21] fix: end the tree construction at the first error

Continuing to poll the iterator panicked when getting to the parent of
the node which failed, for example because of being too large.
---
 src/dir/builder/iter.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dir/builder/iter.rs b/src/dir/builder/iter.rs
index ee18b25..819b2d6 100644
--- a/src/dir/builder/iter.rs
+++ b/src/dir/builder/iter.rs
@@ -235,7 +235,11 @@ impl PostOrderIterator {
                         &self.opts.block_size_limit,
                     ) {
                         Ok(leaf) => leaf,
-                        Err(e) => return Some(Err(e)),
+                        Err(e) => {
+                            // the parents cannot be constructed without this node
+                            self.pending.clear();
+                            return Some(Err(e));
+                        }
                     };
 
                     self.cid = Some(leaf.link);
@@ -282,7 +286,11 @@ impl PostOrderIterator {
                         &self.opts.block_size_limit,
                     ) {
                         Ok(leaf) => leaf,
-                        Err(e) => return Some(Err(e)),
+                        Err(e) => {
+                            // the parents cannot be constructed without this node
+                            self.pending.clear();
+                            return Some(Err(e));
+                        }
                     };
 
                     self.cid = Some(leaf.link);
-- 
2.43.0


From 2cf8ff72aff31f470d14b65affeed97ca3225686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 13/21] fix: render the metadata which was set for a directory

Metadata given to BufferingTreeBuilder::set_metadata was only stored
and never ended up on the blocks of the directories.
---
 src/dir/builder/dir_builder.rs |  2 +-
 src/dir/builder/iter.rs        | 21 ++++++++++++++++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/dir/builder/dir_builder.rs b/src/dir/builder/dir_builder.rs
index 406b74e..12b7910 100644
--- a/src/dir/builder/dir_builder.rs
+++ b/src/dir/builder/dir_builder.rs
@@ -12,7 +12,7 @@ pub(super) struct DirBuilder {
     /// Immediate files, symlinks or directories in this directory
     pub nodes: BTreeMap<String, Entry>,
     /// Metadata for this directory
-    metadata: Metadata,
+    pub metadata: Metadata,
     /// Id of the parent; None for the root node
     pub parent_id: Option<u64>,
     /// Internal id, used for propagating Cids back from children during post order visit.
diff --git a/src/dir/builder/iter.rs b/src/dir/builder/iter.rs
index 819b2d6..c2162e8 100644
--- a/src/dir/builder/iter.rs
+++ b/src/dir/builder/iter.rs
@@ -1,4 +1,5 @@
 use crate::pb::DAG_PB;
+use crate::Metadata;
 
 use super::{
     CustomFlatUnixFs, DirBuilder, Entry, Leaf, NamedLeaf, TreeConstructionFailed, TreeOptions,
@@ -58,9 +59,11 @@ enum Visited {
         /// Leaves will be stored directly in this field when there are no DirBuilder descendants,
         /// in the `PostOrderIterator::persisted_cids` otherwise.
         leaves: LeafStorage,
+        metadata: Metadata,
     },
     PostRoot {
         leaves: LeafStorage,
+        metadata: Metadata,
     },
 }
 
@@ -82,10 +85,11 @@ impl PostOrderIterator {
 
     fn render_directory(
         links: &[Option<NamedLeaf>],
+        metadata: &Metadata,
         buffer: &mut Vec<u8>,
         block_size_limit: &Option<u64>,
     ) -> Result<Leaf, TreeConstructionFailed> {
-        use crate::pb::{UnixFs, UnixFsType};
+        use crate::pb::{unixfs::UnixTime, UnixFs, UnixFsType};
         use quick_protobuf::{BytesWriter, MessageWrite, Writer};
 
         // FIXME: ideas on how to turn this into a HAMT sharding on some heuristic. we probably
@@ -106,6 +110,11 @@ impl PostOrderIterator {
             links,
             data: UnixFs {
                 Type: UnixFsType::Directory,
+                mode: metadata.mode(),
+                mtime: metadata.mtime().map(|(seconds, nanos)| UnixTime {
+                    Seconds: seconds,
+                    FractionalNanoseconds: Some(nanos).filter(|nanos| *nanos != 0),
+                }),
                 ..Default::default()
             },
         };
@@ -177,6 +186,7 @@ impl PostOrderIterator {
 
             match visited {
                 Visited::DescentRoot(node) => {
+                    let metadata = node.metadata;
                     let children = &mut self.reused_children;
                     let leaves = partition_children_leaves(depth, node.nodes.into_iter(), children);
                     let any_children = !children.is_empty();
@@ -188,7 +198,7 @@ impl PostOrderIterator {
                         leaves.into()
                     };
 
-                    self.pending.push(Visited::PostRoot { leaves });
+                    self.pending.push(Visited::PostRoot { leaves, metadata });
                     self.pending.append(children);
                 }
                 Visited::Descent {
@@ -197,6 +207,7 @@ impl PostOrderIterator {
                     depth,
                     index,
                 } => {
+                    let metadata = node.metadata;
                     let children = &mut self.reused_children;
                     let leaves = partition_children_leaves(depth, node.nodes.into_iter(), children);
                     let any_children = !children.is_empty();
@@ -215,6 +226,7 @@ impl PostOrderIterator {
                         depth,
                         leaves,
                         index,
+                        metadata,
                     });
 
                     self.pending.append(children);
@@ -224,6 +236,7 @@ impl PostOrderIterator {
                     name,
                     leaves,
                     index,
+                    metadata,
                     ..
                 } => {
                     let leaves = leaves.into_inner(&mut self.persisted_cids);
@@ -231,6 +244,7 @@ impl PostOrderIterator {
 
                     let leaf = match Self::render_directory(
                         &leaves,
+                        &metadata,
                         buffer,
                         &self.opts.block_size_limit,
                     ) {
@@ -271,7 +285,7 @@ impl PostOrderIterator {
                         block: &self.block_buffer,
                     }));
                 }
-                Visited::PostRoot { leaves } => {
+                Visited::PostRoot { leaves, metadata } => {
                     let leaves = leaves.into_inner(&mut self.persisted_cids);
 
                     if !self.opts.wrap_with_directory {
@@ -282,6 +296,7 @@ impl PostOrderIterator {
 
                     let leaf = match Self::render_directory(
                         &leaves,
+                        &metadata,
                         buffer,
                         &self.opts.block_size_limit,
                     ) {
-- 
2.43.0


From 13e6e736b9d53894af11e24bc3eb3335df58eee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 14/21] fix: tell apart existing and excess root level entries

Without wrapping, repeating the path of the only root level entry was
reported as TooManyRootLevelEntries instead of the kind of conflict, and
the metadata of an existing root level directory could not be set.
---
 src/dir/builder/buffered.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dir/builder/buffered.rs b/src/dir/builder/buffered.rs
index 4ef7f94..62ebb1c 100644
--- a/src/dir/builder/buffered.rs
+++ b/src/dir/builder/buffered.rs
@@ -122,7 +122,11 @@ impl BufferingTreeBuilder {
             }
 
             // our first level can be full, depending on the options given
-            let full = depth == 0 && !self.opts.wrap_with_directory && !dir_builder.is_empty();
+            // but anything already there can still be looked up
+            let full = depth == 0
+                && !self.opts.wrap_with_directory
+                && !dir_builder.is_empty()
+                && !dir_builder.nodes.contains_key(next);
 
             if last {
                 let mut next_id = Some(*counter);
-- 
2.43.0


From c49681f85c2d06a1ecd83eb4b678264f6c6daacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:10 +0000
Subject: [PATCH 15/21] fix: deny branching factor of one

The adder never finishes compressing links into a single root when a
link block contains only a single link.
---
 src/file/adder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/file/adder.rs b/src/file/adder.rs
index 3ab0384..8ac9b22 100644
--- a/src/file/adder.rs
+++ b/src/file/adder.rs
@@ -423,8 +423,13 @@ impl From<BalancedCollector> for Collector {
 
 impl BalancedCollector {
     /// Configure Balanced collector with the given branching factor.
+    ///
+    /// # Panics
+    ///
+    /// If the branching factor is less than two: the links would never get collected into a
+    /// single root.
     pub fn with_branching_factor(branching_factor: usize) -> Self {
-        assert!(branching_factor > 0);
+        assert!(branching_factor > 1);
 
         Self {
             branching_factor,
-- 
2.43.0


From 055227fae64b4d115b8a4f831323d4a2c46069d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 16/21] fix: walk from a root name with multiple components

The depth of the path was expected to always match the depth given for
the root, which failed a debug assertion for a name such as "a/b".
---
 src/walk.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/walk.rs b/src/walk.rs
index 9caa7d6..7977450 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -77,8 +77,8 @@ fn convert_sharded_link(
 impl Walker {
     /// Returns a new instance of a walker, ready to start from the given `Cid`.
     pub fn new(cid: Cid, root_name: String) -> Walker {
-        // 1 == Path::ancestors().count() for an empty path
-        let depth = if root_name.is_empty() { 1 } else { 2 };
+        // 1 for an empty path, the name might also have multiple components
+        let depth = Path::new(&root_name).ancestors().count();
         let next = Some((cid, root_name, depth));
 
         Walker {
-- 
2.43.0


From 4642287dddd19268d9f5d8aa011f8e3e76aba2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 17/21] fix: check the length of skipped unknown protobuf
 fields

The length of an unknown field could overflow the position of the
reader: a panic, or with overflow checks disabled an endless loop.
---
 src/pb.rs           | 13 +++++++++++++
 src/pb/merkledag.rs |  4 ++--
 src/pb/unixfs.rs    |  6 +++---
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/pb.rs b/src/pb.rs
index 1206990..a509874 100644
--- a/src/pb.rs
+++ b/src/pb.rs
@@ -82,6 +82,19 @@ impl<'a> TryFrom<&'a [u8]> for merkledag::PBNode<'a> {
     }
 }
 
+/// Skips the value of an unknown field, which must fit in the given bytes.
+///
+/// `BytesReader::read_unknown` does not check the length: it could overflow, or even get back to
+/// an earlier position on the message.
+fn skip_unknown(r: &mut quick_protobuf::BytesReader, bytes: &[u8], tag: u32) -> ProtobufResult<()> {
+    match tag & 0x7 {
+        1 => r.read_fixed64(bytes).map(|_| ()),
+        2 => r.read_bytes(bytes).map(|_| ()),
+        5 => r.read_fixed32(bytes).map(|_| ()),
+        _ => r.read_unknown(bytes, tag),
+    }
+}
+
 /// Combined dag-pb (or MerkleDAG) with UnixFs payload.
 #[derive(Debug)]
 pub struct FlatUnixFs<'a> {
diff --git a/src/pb/merkledag.rs b/src/pb/merkledag.rs
index e55e5de..07df01d 100644
--- a/src/pb/merkledag.rs
+++ b/src/pb/merkledag.rs
@@ -30,7 +30,7 @@ impl<'a> MessageRead<'a> for PBLink<'a> {
                 Ok(18) => msg.Name = Some(r.read_string(bytes).map(Cow::Borrowed)?),
                 Ok(24) => msg.Tsize = Some(r.read_uint64(bytes)?),
                 Ok(t) => {
-                    r.read_unknown(bytes, t)?;
+                    skip_unknown(r, bytes, t)?;
                 }
                 Err(e) => return Err(e),
             }
@@ -73,7 +73,7 @@ impl<'a> MessageRead<'a> for PBNode<'a> {
                 Ok(18) => msg.Links.push(r.read_message::<PBLink<'a>>(bytes)?),
                 Ok(10) => msg.Data = Some(r.read_bytes(bytes).map(Cow::Borrowed)?),
                 Ok(t) => {
-                    r.read_unknown(bytes, t)?;
+                    skip_unknown(r, bytes, t)?;
                 }
                 Err(e) => return Err(e),
             }
diff --git a/src/pb/unixfs.rs b/src/pb/unixfs.rs
index 0027a29..1fda0f2 100644
--- a/src/pb/unixfs.rs
+++ b/src/pb/unixfs.rs
@@ -41,7 +41,7 @@ impl<'a> MessageRead<'a> for Data<'a> {
                 Ok(56) => msg.mode = Some(r.read_uint32(bytes)?),
                 Ok(66) => msg.mtime = Some(r.read_message::<UnixTime>(bytes)?),
                 Ok(t) => {
-                    r.read_unknown(bytes, t)?;
+                    skip_unknown(r, bytes, t)?;
                 }
                 Err(e) => return Err(e),
             }
@@ -173,7 +173,7 @@ impl<'a> MessageRead<'a> for UnixTime {
                 Ok(8) => msg.Seconds = r.read_int64(bytes)?,
                 Ok(21) => msg.FractionalNanoseconds = Some(r.read_fixed32(bytes)?),
                 Ok(t) => {
-                    r.read_unknown(bytes, t)?;
+                    skip_unknown(r, bytes, t)?;
                 }
                 Err(e) => return Err(e),
             }
@@ -206,7 +206,7 @@ impl<'a> MessageRead<'a> for Metadata<'a> {
             match r.next_tag(bytes) {
                 Ok(10) => msg.MimeType = Some(r.read_string(bytes).map(Cow::Borrowed)?),
                 Ok(t) => {
-                    r.read_unknown(bytes, t)?;
+                    skip_unknown(r, bytes, t)?;
                 }
                 Err(e) => return Err(e),
             }
-- 
2.43.0


From 437f97e048d2b1c64cca903be85749d9c9b58e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 18/21] fix: read blocksizes which are packed on the block

Protobuf parsers must accept both representations of repeated fields,
the packed one was skipped as an unknown field.
---
 src/pb/unixfs.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pb/unixfs.rs b/src/pb/unixfs.rs
index 1fda0f2..045980e 100644
--- a/src/pb/unixfs.rs
+++ b/src/pb/unixfs.rs
@@ -36,6 +36,8 @@ impl<'a> MessageRead<'a> for Data<'a> {
                 Ok(18) => msg.Data = Some(r.read_bytes(bytes).map(Cow::Borrowed)?),
                 Ok(24) => msg.filesize = Some(r.read_uint64(bytes)?),
                 Ok(32) => msg.blocksizes.push(r.read_uint64(bytes)?),
+                // parsers are required to accept also the packed representation
+                Ok(34) => msg.blocksizes.extend(r.read_packed(bytes, |r, b| r.read_uint64(b))?),
                 Ok(40) => msg.hashType = Some(r.read_uint64(bytes)?),
                 Ok(48) => msg.fanout = Some(r.read_uint64(bytes)?),
                 Ok(56) => msg.mode = Some(r.read_uint32(bytes)?),
-- 
2.43.0


From 32c95d5fccb1e9ae922d1cb72689c00c94e9d523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:04 +0000
Subject: [PATCH 19/21] fix: do not allocate for more links than there are

A large branching factor made the first push or finish allocate memory for that
many links, aborting the process or panicking even for a one byte file.
---
 src/file/adder.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/file/adder.rs b/src/file/adder.rs
index 8ac9b22..027a335 100644
--- a/src/file/adder.rs
+++ b/src/file/adder.rs
@@ -493,14 +493,15 @@ impl BalancedCollector {
         let mut reused_links = core::mem::take(&mut self.reused_links);
         let mut reused_blocksizes = core::mem::take(&mut self.reused_blocksizes);
 
-        if let Some(need) = self.branching_factor.checked_sub(reused_links.capacity()) {
+        // no more than the pending links can end up in a single link block, however large the
+        // branching factor is
+        let most = self.branching_factor.min(pending.len());
+
+        if let Some(need) = most.checked_sub(reused_links.capacity()) {
             reused_links.reserve(need);
         }
 
-        if let Some(need) = self
-            .branching_factor
-            .checked_sub(reused_blocksizes.capacity())
-        {
+        if let Some(need) = most.checked_sub(reused_blocksizes.capacity()) {
             reused_blocksizes.reserve(need);
         }
 
-- 
2.43.0


From 812bdf6faf28a37d9dd77e9b0b83142ab6d426e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 20/21] fix: do not allocate a whole chunk up front

A large chunk size made the first push that does not complete a chunk allocate memory for
that many bytes, aborting the process or panicking even for a one byte input.
---
 src/file/adder.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/file/adder.rs b/src/file/adder.rs
index 027a335..4f83282 100644
--- a/src/file/adder.rs
+++ b/src/file/adder.rs
@@ -5,6 +5,9 @@ use libipld::multihash::{Code, MultihashDigest};
 use libipld::Cid;
 use quick_protobuf::{MessageWrite, Writer};
 
+/// How many bytes are reserved for the internal buffer at most before there is any input.
+const MAX_INITIAL_BUFFER: usize = 1024 * 1024;
+
 /// File tree builder. Implements [`core::default::Default`] which tracks the recent defaults.
 ///
 /// Custom file tree builder can be created with [`FileAdder::builder()`] and configuring the
@@ -179,8 +182,10 @@ impl FileAdder {
 
             if self.block_buffer.capacity() == 0 {
                 // delay the internal buffer creation until this point, as the caller clearly wants
-                // to use it.
-                self.block_buffer.reserve(self.size_hint());
+                // to use it. larger chunks than the usual block size limit grow the buffer as
+                // needed, the input might be a lot shorter than a chunk.
+                self.block_buffer
+                    .reserve(self.size_hint().min(MAX_INITIAL_BUFFER));
             }
 
             self.block_buffer.extend_from_slice(accepted);
-- 
2.43.0


From 1021422d89ba027867305371a5be1635c7f7ae96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:30 +0000
Subject: [PATCH 21/21] fix: drop deep directory trees without recursion

Dropping a builder, or its iterator, after adding a path of some ten thousand segments
overflowed the stack and aborted the process.
---
 src/dir/builder/dir_builder.rs | 24 ++++++++++++++++++++++++
 src/dir/builder/iter.rs        | 14 ++++++++------
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/dir/builder/dir_builder.rs b/src/dir/builder/dir_builder.rs
index 12b7910..6def125 100644
--- a/src/dir/builder/dir_builder.rs
+++ b/src/dir/builder/dir_builder.rs
@@ -76,3 +76,27 @@ impl DirBuilder {
         self.metadata = metadata;
     }
 }
+
+impl Drop for DirBuilder {
+    fn drop(&mut self) {
+        // by default the nested directories would be dropped recursively, which overflows the
+        // stack if a long enough path has been added.
+        let mut pending = Vec::new();
+        let mut nodes = core::mem::take(&mut self.nodes);
+
+        loop {
+            for (_, entry) in nodes {
+                if let Entry::Directory(mut dir) = entry {
+                    if !dir.is_empty() {
+                        pending.push(core::mem::take(&mut dir.nodes));
+                    }
+                }
+            }
+
+            nodes = match pending.pop() {
+                Some(next) => next,
+                None => break,
+            };
+        }
+    }
+}
diff --git a/src/dir/builder/iter.rs b/src/dir/builder/iter.rs
index c2162e8..4672cba 100644
--- a/src/dir/builder/iter.rs
+++ b/src/dir/builder/iter.rs
@@ -185,10 +185,11 @@ impl PostOrderIterator {
             update_full_path((&mut self.full_path, &mut self.old_depth), name, depth);
 
             match visited {
-                Visited::DescentRoot(node) => {
-                    let metadata = node.metadata;
+                Visited::DescentRoot(mut node) => {
+                    let metadata = core::mem::take(&mut node.metadata);
+                    let nodes = core::mem::take(&mut node.nodes);
                     let children = &mut self.reused_children;
-                    let leaves = partition_children_leaves(depth, node.nodes.into_iter(), children);
+                    let leaves = partition_children_leaves(depth, nodes.into_iter(), children);
                     let any_children = !children.is_empty();
 
                     let leaves = if any_children {
@@ -202,14 +203,15 @@ impl PostOrderIterator {
                     self.pending.append(children);
                 }
                 Visited::Descent {
-                    node,
+                    mut node,
                     name,
                     depth,
                     index,
                 } => {
-                    let metadata = node.metadata;
+                    let metadata = core::mem::take(&mut node.metadata);
+                    let nodes = core::mem::take(&mut node.nodes);
                     let children = &mut self.reused_children;
-                    let leaves = partition_children_leaves(depth, node.nodes.into_iter(), children);
+                    let leaves = partition_children_leaves(depth, nodes.into_iter(), children);
                     let any_children = !children.is_empty();
                     let parent_id = node.parent_id.expect("only roots parent_id is None");
 
-- 
2.43.0

