#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

ADD="src/file/adder.rs"; VIS="src/file/visit.rs"; RD="src/file/reader.rs"; WALK="src/walk.rs"; PB="src/pb.rs"
UX="src/pb/unixfs.rs"; MD="src/pb/merkledag.rs"; DIR="src/dir.rs"; SH="src/dir/sharded_lookup.rs"
BUF="src/dir/builder/buffered.rs"; IT="src/dir/builder/iter.rs"; CP="src/dir/builder/custom_pb.rs"; DB="src/dir/builder/dir_builder.rs"
BB="src/dir/builder.rs"; DD="src/dir/directory.rs"; SY="src/symlink.rs"; DP="src/dagpb.rs"; LIB="src/lib.rs"; FILE="src/file.rs"

p("C01","Importing a file and reading it back returns its exact bytes",
  "For every byte string, every chunk size of at least one byte and every branching factor of at least two, reading the blocks produced by the file import starting from the last produced block yields exactly the original bytes in order, and the reported file size is the original length. This holds both for the block-by-block file visit and for the tree walker, and for input pushed in any slicing.",
  ["inputs","configurations","histories"],"all contents, chunk sizes >= 1, branching factors >= 2, push slicings",
  "The tests import three fixed texts with chunk sizes 1, 2 and 32 and compare root CIDs only; no test reads back what was imported, and no tree deeper than three levels or with another branching factor is ever built.",
  [ADD,VIS,RD,WALK],[("chunking and leaf creation","FileAdder::push/finish"),("link block compaction","BalancedCollector::flush_links"),("depth-first reading","FileVisit::continue_walk")],
  [("unflushed_links","links not yet covered by a link block, with their depth",ADD),("block_buffer","bytes pushed but not yet a leaf",ADD)],
  ["blocks returned by push/finish","bytes returned by file visit / walker"])
p("C02","File import produces the canonical balanced UnixFS layout",
  "For every content, chunk size and branching factor the produced blocks are, byte for byte, those of the balanced layout: leaves of exactly the chunk size (only the last may be shorter), grouped left to right into link nodes of at most the branching factor, level by level, until one root remains; empty content is a single leaf and content of one chunk is its own root. Each block is canonical dag-pb (links before data, each link with hash, empty name and cumulative size; node with type File, its file size and one block size per link) addressed by a version 1 dag-pb SHA2-256 CID, so the root CID matches that of other implementations for the same settings.",
  ["inputs","configurations"],"all contents, chunk sizes >= 1, branching factors >= 2, including the defaults",
  "Seven root CIDs from go-ipfs are compared, all with branching factor 174 and at most two link levels; boundary counts such as exact powers of the branching factor, one more or one less, are sampled once.",
  [ADD,PB,MD,UX],[("balanced grouping","BalancedCollector::flush_links, partition_link"),("leaf rendering","FileAdder::flush_buffered_leaf"),("serialisation and hashing","render_and_hash, FlatUnixFs::write_message")],
  None,["(Cid, block) pairs returned by push/finish"])
p("C03","The import result does not depend on how the input was pushed",
  "For fixed content and settings, the concatenated sequence of produced blocks is the same for every way of splitting the input into pushes, including empty pushes and pushes larger than a chunk. Every push of non-empty input consumes at least one byte and no more than it was given, reports exactly what it consumed, and hands out at most two blocks.",
  ["histories","inputs","configurations"],"all sequences of push sizes for all contents and settings",
  "One 240-byte text is pushed in 31 uniform slicings with one chunk size and compared by root CID; irregular slicings, empty pushes and pushes crossing chunk boundaries after a partial buffer are not exercised.",
  [ADD],[("acceptance of a prefix of the input","Chunker::accept"),("direct and buffered leaf paths","FileAdder::push")],
  [("block_buffer","partial chunk carried between pushes",ADD)],["return values of push/finish"])
p("C04","Produced blocks form a complete, self-consistent merkle DAG",
  "Every block handed out by the file import or the directory tree builder is returned with the CID that its bytes hash to, every link points to a block handed out earlier (or, in a directory, to the target the caller supplied), and all blocks are reachable from the last one. Every recorded size is the true one: a link's cumulative size is the serialised size of everything below it, block sizes sum to the file size, and a directory node's reported total size is its own size plus its links' sizes.",
  ["inputs","configurations","histories"],"all imports and all built directory trees",
  "Tests compare root CIDs for a handful of inputs; sizes recorded in links are only covered indirectly, and nothing checks closure, ordering or totals.",
  [ADD,IT,CP],[("total_size/file_size accumulation","partition_link, flush_buffered_leaf"),("directory totals","PostOrderIterator::render_directory")],
  None,["(Cid, block) pairs","TreeNode { cid, total_size, block }"])
p("C05","A range read returns exactly the requested slice of the file",
  "For every well-formed file tree and every byte range, a file visit restricted to that range yields exactly the bytes of the file at the intersection of the range with the file, in order, and nothing else; ranges that are empty, reversed, beyond the end, or spanning any number of blocks and levels included. The reported file size is still that of the whole file.",
  ["inputs","configurations"],"all well-formed file trees (any shape, depth, block sizes, up to 64-bit offsets) and all ranges",
  "Four ranges are tried on one four-leaf file and seven on one helper; the slicing helper itself carries the comment 'these must have bugs'.",
  [VIS,RD],[("link filtering","block_is_in_target_range"),("slicing of leaf content","target_slice"),("range bookkeeping of links","RangeLinks")],
  [("pending","links still to visit with their byte ranges",VIS)],["bytes returned by start/continue_walk"])
p("C06","A file visit asks for the right blocks, in order, and no needless ones",
  "At every step of a file visit the first pending link is the next block in file order, and the remaining pending links are exactly the already known, not yet visited blocks in file order, each visited once. With a target range no block lying entirely outside that range (neither overlapping nor adjacent to it) is ever asked for, and every known block overlapping it is pending until visited.",
  ["inputs","histories"],"all well-formed file trees, all ranges, all steps of a visit",
  "No test looks at the pending links beyond following the first one, nor counts visited blocks for a ranged visit.",
  [VIS,RD],[("reversed pending stack","IdleFileVisit::start_from_reader, FileVisit::continue_walk"),("prefetch listing","FileVisit::pending_links")],
  [("pending","links still to visit, last is next",VIS)],["FileVisit::pending_links"])
p("C07","Any well-formed file tree is readable, whatever its shape",
  "A file DAG whose leaves are Raw or File nodes (with or without an explicit file size) and whose link nodes carry one block size per link is read back as the concatenation of its leaves, regardless of depth, balance, number of links per node, empty leaves, repeated subtrees, link names or CID version of the links. The file size reported on the root and at every later step is the size recorded for the whole file.",
  ["inputs"],"all file trees of arbitrary shape made of well-formed dag-pb UnixFS nodes without inline data in link nodes",
  "Two four-leaf fixtures (balanced and trickle) are read; the total size reported after the first step is never checked.",
  [RD,VIS,WALK],[("node interpretation","FileReader::from_parts"),("range continuity checks","Ending::check_is_suitable_next"),("traversal state","Traversal")],
  [("Traversal","end/offset of the previous node, whole-file size and metadata",RD)],["bytes, file_size() at each step"])
p("C08","A built directory tree contains exactly what was put into it",
  "After any accepted sequence of entries, the emitted directory blocks describe exactly the entered paths: each leaf appears under its full path with its CID and size, each intermediate directory appears once under its full path and nothing else exists. Directories are handed out after all of their descendants, the last one is the root (the wrapping directory if requested, otherwise the single top-level directory), and walking the result finds the same paths and targets.",
  ["inputs","histories","configurations"],"all sequences of put operations over all path sets, with and without wrapping",
  "Tests build a handful of trees with at most one branching point and compare CIDs; deep sibling subtrees, names shared between levels, and unusual characters are not covered.",
  [BUF,IT,DB],[("insertion","BufferingTreeBuilder::modify_with"),("post-order rendering","PostOrderIterator::next_borrowed"),("path tracking","update_full_path")],
  [("persisted_cids","links collected per directory until rendered",IT)],["TreeNode path/cid/block"])
p("C09","Tree builder operations are validated, atomic and order independent",
  "An operation is rejected exactly when its path is rooted, ends in a slash, contains an empty segment, repeats an existing path, goes through (or sets metadata on) an existing leaf, or would create a second top-level entry without wrapping, and the error says which. A rejected operation has no effect on the tree finally built, and the tree depends only on the set of accepted operations, not on their order.",
  ["histories","inputs","configurations"],"all operation sequences (valid and invalid interleaved) and all permutations of accepted ones",
  "Each rejection is tested alone on a fresh builder (several only through should_panic); the code has a FIXME wondering whether a failed operation can leave stale nodes behind.",
  [BUF,DB,BB],[("path validation","BufferingTreeBuilder::modify_with"),("duplicate detection","DirBuilder::put_leaf, add_or_get_node")],
  [("counter","unique directory ids, used to hand children to parents",BUF)],["Result of put_link/set_metadata","blocks of build()"])
p("C10","Directory blocks are canonical and respect the size limit",
  "Each emitted directory block is byte-for-byte the canonical encoding of its entries: links sorted by name bytes, each with the target CID in its own version, codec and hash, name and cumulative size, followed by a Directory node. A block larger than the configured limit is never emitted: building reports the size that was too large instead, a block of exactly the limit is accepted, and after such an error the iteration ends without further blocks.",
  ["inputs","configurations","histories"],"all directory contents, all kinds of CIDs, all size limits",
  "Ten directory CIDs are compared, all far below the size limit and nearly all with version 0 SHA2-256 links; the size limit and the behaviour after an error are never exercised.",
  [IT,CP,BB],[("custom link encoding","CustomFlatUnixFs, NamedLeafAsPBLink, WriteableCid"),("size limit and buffer reuse","PostOrderIterator::render_directory")],
  [("block_buffer","buffer reused between directories of different sizes",IT)],["TreeNode block, TreeConstructionFailed"])
p("C11","Resolving a name in a plain directory finds exactly that entry",
  "Resolving a segment on a Directory block, or on a dag-pb block without UnixFS content, gives the CID of the one link whose name equals the segment byte for byte, says not found when there is none, and reports an error naming both positions when there is more than one. No other link influences the answer.",
  ["inputs"],"all directory blocks and all segments, including empty, prefix-sharing and non-ASCII names",
  "One plain dag-pb block with three links is queried for five names, and duplicates are never tested.",
  [DIR],[("link matching","dir::resolve"),("fallback to outer dag-pb links","dir::resolve on InvalidUnixFs/NoData")],
  None,["MaybeResolved / ResolveError"])
p("C12","Looking up a name in a sharded directory finds it if and only if it is there",
  "For every HAMT-sharded directory, of any number of entries and bucket nesting, following the lookup to its end finds the CID stored under the name exactly when the directory contains that name, and otherwise ends as not found after visiting each bucket at most once. The pending links always name the unvisited buckets found so far, the outcome is the same with an owned name, and a bucket that is not a supported shard is an error.",
  ["inputs","histories"],"all sharded directories (any entries, depth, bucket layout) and all looked-up names",
  "One block of a kernel tree is queried for two names and no lookup is ever continued successfully past the first block.",
  [SH,DIR],[("partition into match and buckets","ShardedLookup::partition"),("bucket queue","ShardedLookup::continue_walk, lookup_or_start")],
  [("links","buckets still to search",SH)],["MaybeResolved, pending_links"])
p("C13","Walking a tree visits every entry exactly once under its right path",
  "For every tree of plain directories, sharded directories, files and symlinks, the walk reports each entry of the tree exactly once in depth-first link order, with the kind, CID, full path (root name followed by the link names), symlink target and file size of that entry, then ends. Continuation buckets of sharded directories are reported as such under the path of their directory with their own CID.",
  ["inputs"],"all well-formed trees mixing all node kinds, nesting and root names",
  "Five fixture trees are walked counting paths only; no tree mixes sharded and plain directories with siblings after them, and the CIDs reported are never compared.",
  [WALK],[("pending stack with depths","Walker::next, convert_link, convert_sharded_link"),("path maintenance","InnerEntry::set_path, as_bucket")],
  [("current/next/pending","entry being reported, next block, remaining links",WALK)],["ContinuedWalk items"])
p("C14","Walking hands out each file's content in order and lists what comes next",
  "During a walk the segments of each file, concatenated from the one marked first to the one marked last, are exactly the file's bytes, with exactly one first and one last segment and no segment of another entry between them. At every step the first pending link is the block expected next and the other pending links are exactly the known remaining blocks in walk order, and the walk says it is finished exactly when none is left.",
  ["inputs","histories"],"all well-formed trees containing single and multi-block files at any position",
  "First/last flags are checked for one trickle file at the root; no test checks file bytes inside a directory walk or the prefetch list.",
  [WALK,VIS],[("ongoing file visit","Walker::next"),("segment flags","FileSegment::first/later"),("prefetch list","Walker::pending_links")],
  [("should_continue","whether more blocks are expected",WALK)],["ContinuedWalk::File, pending_links, should_continue"])
p("C15","Untrusted blocks never crash the library",
  "Whatever bytes are given as blocks, at the start or at any later step, with any segment name or byte range, resolving, sharded lookups, file visits, walks, message parsing and dag-pb data access return either a result or an error that can be displayed; they never panic, and whatever they hand back can be used for the next step. After an error a walk reports that it will not continue.",
  ["inputs","fault_sequences","histories"],"all byte strings as blocks in all sequences of steps, all names and ranges",
  "Only well-formed fixtures are fed except for two wrong-type blocks; arbitrary, truncated, corrupted or hostile blocks (overflowing sizes, odd link names, mismatching content) are never tried.",
  [WALK,VIS,RD,DIR,SH,DP,PB,UX,MD],[("fallible parsing","TryFrom for FlatUnixFs/PBNode/UnixFs"),("checked arithmetic and name validation","FileReader::from_parts, convert_link, convert_sharded_link, partition"),("error conversion","walk::Error from FileReadFailed")],
  None,["Result of every public reading entry point"])
p("C16","Inconsistent or unsupported nodes are rejected with the matching error",
  "A node that breaks the rules is reported as an error of the right kind instead of being misread: files with mismatching links and block sizes, missing sizes, content that does not line up with the next block, shard properties, metadata below the root or non-file children; directories with file or shard properties; shards with another fanout or hash or with file properties; Metadata nodes; and undecodable or empty blocks. Everything delivered before that node is correct, and the walk or visit does not continue past it.",
  ["inputs","fault_sequences"],"all well-formed trees with one rule-breaking change at any node",
  "Only the two shard property errors and the type error of a lookup are tested, each on a single block; the continuity checks are tested on an internal helper, not on trees.",
  [RD,VIS,WALK,DD,SH,DIR,FILE],[("file node validation","FileReader::from_parts, Ending::check_is_suitable_next, from_continued"),("directory validation","check_directory_supported"),("shard validation","ShardedLookup::check_supported")],
  None,["FileReadFailed, walk::Error, ResolveError, LookupError"])
p("C17","Message encoding and decoding are inverse and follow the protobuf schema",
  "Every dag-pb node, link and UnixFS message decodes to the field values the protobuf schema assigns to its bytes, with unknown fields skipped, fields in any order accepted and absent fields left absent. Encoding any message value gives the canonical bytes, of exactly the announced size, and decoding those gives the same value back.",
  ["inputs"],"all field values of all messages (full integer ranges, any bytes and names, any number of links and block sizes)",
  "One content block and one link block are decoded in tests; encoding is covered only through root CIDs, and modification times, modes and hash parameters are never encoded.",
  [PB,MD,UX,"src/pb/merkledag.proto","src/pb/unixfs.proto"],[("generated codecs","MessageRead/MessageWrite impls"),("combined writing","FlatUnixFs::write_message/get_size")],
  None,["TryFrom<&[u8]>, MessageWrite"])
p("C18","Symlink blocks carry their target unchanged",
  "For every target string the serialised symlink block is the canonical Symlink node with exactly the target bytes, appended to whatever the buffer already held without disturbing it. Walking to the block, at the root or inside a directory, reports a symlink with exactly that target.",
  ["inputs"],"all target strings (any length, empty, non-ASCII) and all prior buffer contents",
  "One one-character target is serialised into an empty buffer.",
  [SY,WALK],[("serialisation","serialize_symlink_block"),("walking","Walker::next")],None,["block_buffer, ContinuedWalk::Symlink"])
p("C19","Mode and modification time are reported exactly as recorded",
  "The mode and modification time recorded on the root of a file, directory, sharded directory or symlink are reported unchanged (any 32-bit mode, negative or large seconds, any nanoseconds, absent when absent) by walks and file visits, for every segment of a file and only for the entry they belong to. Metadata given for a directory to the tree builder appears on that directory and no other.",
  ["inputs","histories"],"all metadata values on all nodes of a tree, and all metadata settings on built trees",
  "No test ever contains a mode or modification time; the builder test sets only empty metadata.",
  [LIB,WALK,VIS,RD,UX,BUF,IT],[("conversion","From<&UnixFs> for Metadata"),("carrying metadata through a file","Traversal.metadata"),("setting metadata","BufferingTreeBuilder::set_metadata")],
  None,["Metadata::mode/mtime/mtime_as_filetime"])
p("C20","dag-pb data access returns exactly the node's data field",
  "For every valid dag-pb block the data accessor returns exactly the bytes of the data field, or nothing when there is none, and the wrapping accessor gives the same bytes (empty when absent) while returning the original block untouched, wherever the field lies in the block and even if it is empty. Bytes that are not a dag-pb node are an error for both.",
  ["inputs"],"all dag-pb blocks (field order, empty or missing data) and all other byte strings",
  "Only the internal offset helper is tested, on ten bytes; the accessors themselves are used once on a block without data.",
  [DP],[("data extraction","node_data"),("offset computation","wrap_node_data, subslice_to_range")],None,["node_data, NodeData"])
p("C21","Reusing caches never changes any result",
  "Passing the cache left by earlier visits, walks or lookups, finished or failed, gives exactly the same results, requested blocks and errors as passing no cache at all.",
  ["histories","inputs"],"all sequences of lookups, visits and walks over all trees, including ones that fail midway, sharing one cache",
  "Tests share a cache only across resolves on one plain block and never compare against running without it.",
  [SH,VIS,WALK,DIR],[("clearing on reuse","From<Vec<_>>/From<VecDeque<_>> for Cache"),("taking the cache","start_from_reader, lookup_or_start")],
  [("Cache","work queue kept for its allocation",VIS+", "+SH)],["results with and without cache"])
p("C22","Resolving and walking agree on every path",
  "For every tree, resolving the segments of any path one after the other from the root leads to the CID which the walk reports for that path, and a path the walk does not report is not found. This holds for trees produced by this library's own importers and builders and for trees containing sharded directories.",
  ["inputs"],"all trees and all existing and non-existing paths in them",
  "No test resolves and walks the same tree, or resolves a path in a tree built by the library.",
  [DIR,SH,WALK,BUF,IT,ADD],[("step-wise resolution","dir::resolve, ShardedLookup"),("walking","Walker::next")],None,["MaybeResolved, ContinuedWalk"])
p("C23","Link errors identify the offending link",
  "When a link cannot be turned into a CID, the error reports that link's position among the node's links, its raw hash bytes and its name, whether met while resolving, looking up in shards, visiting a file or walking. When a name matches several links, the error reports the positions and CIDs of the first two and the first can be taken from it.",
  ["inputs","fault_sequences"],"all nodes with one invalid or duplicated link at any position, reached through every reading interface",
  "No test contains an invalid CID or a duplicated name.",
  [LIB,DIR,SH,VIS,WALK],[("error construction","InvalidCidInLink, MultipleMatchingLinks, to_pending, convert_link")],None,["InvalidCidInLink fields, MultipleMatchingLinks"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
