//! C16 and C23: one change at one node of a well-formed tree, and the error it must give.

use crate::builder::real_meta;
use crate::dtree::{self, *};
use crate::ftree::*;
use crate::gen::*;
use crate::pbx::{self, Link, Node, UData};
use crate::resolve::{bad_hash, needle, pick, HashSpec, Pick};
use crate::runner::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::ops::Range;
use std::sync::Arc;
use unixfs_v1::dir::{MultipleMatchingLinks, ShardError};
use unixfs_v1::file::{FileError, FileReadFailed};
use unixfs_v1::walk::Error as WalkError;
use unixfs_v1::{resolve, InvalidCidInLink, LookupError, MaybeResolved, ResolveError, UnexpectedNodeType};

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Fault {
    // files
    Blocksizes(u8),
    NoContent(bool),
    NoSize,
    ShardProps(Option<u64>, Option<u64>),
    Metadata(Meta),
    /// content which does not line up with what follows
    Align { how: u8, at: u16, by: i32 },
    // any
    Type(u8),
    DagGarbage(u8),
    DataGarbage(u8),
    NoData(bool),
    // directories
    DirProps { filesize: Option<u64>, blocksizes: Vec<u64>, hash_type: Option<u64>, fanout: Option<u64>, data: Option<Vec<u8>> },
    // shards
    Fanout(Option<u64>),
    HashType(Option<u64>),
    FileProps(Option<u64>, Vec<u64>),
    // links
    BadLinks(Vec<(u16, HashSpec)>),
    /// (position, hash) of links added with the looked-up name
    Twins(Vec<(u16, u8, HashSpec)>),
    /// links which get a name no entry can have
    BadNames(Vec<(u16, u8)>),
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum At {
    /// first block of a file
    FileRoot,
    /// later block of a file
    FilePart,
    Dir,
    /// first block of a sharded directory
    Shard,
    Bucket,
    Symlink,
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Via {
    Walk,
    Visit,
    /// of a plain root
    Resolve,
    /// of a sharded root
    Lookup,
}

/// The error which must come.
#[derive(Debug, Clone, PartialEq)]
enum Expect {
    LinksAndBlocksizes,
    NoLinksNoContent,
    NoSize,
    ShardProps(Option<u64>, Option<u64>),
    Metadata(Meta),
    Align,
    Type(u64),
    DagPb,
    UnixFs,
    NoData,
    Directory,
    Unsupported(Option<u64>, Option<u64>),
    Unexpected(Option<u64>, Vec<u64>),
    /// position, hash and name of the links it may be about
    Link(Vec<(usize, Vec<u8>, String)>),
    /// positions and CIDs of the first two matches
    Two((usize, Cidb), (usize, Cidb)),
    OneValid((usize, Cidb), (usize, Vec<u8>, String)),
    /// a CID
    Found(Cidb),
    /// position and name of the links it may be about
    Name(Vec<(usize, String)>),
}

fn garbage_node(k: u8) -> Vec<u8> {
    let all: &[&[u8]] = &[
        &[0x12, 0x7f, 0x0a],
        &[0x0a],
        &[0x0a, 5, 1, 2],
        &[0x12, 3, 0x0a, 9, 1],
        &[0x12, 4, 0x12, 2, 0xff, 0xfe],
        &[0x80],
        &[0xff; 12],
        &[0x0f, 0, 0],
        &[0x12, 2, 0x18, 0x80],
        b"hello world, this is no dag-pb block",
    ];
    all[k as usize % all.len()].to_vec()
}

fn garbage_data(k: u8) -> Vec<u8> {
    let all: &[&[u8]] = &[
        &[0xff],
        &[0x08],
        &[0x12, 5, 1],
        &[0x08, 2, 0x0f],
        &[0x08, 2, 0x80, 0x80],
        &[0x08, 2, 0x42, 3, 8],
        &[0x08, 2, 0x1a, 0xff, 1],
        &[0x08, 2, 0x22, 9, 1],
    ];
    all[k as usize % all.len()].to_vec()
}

/// A name which is not a single component of a path, made of the one there was.
fn bad_name(old: &str, shard: bool, k: u8) -> Option<String> {
    if shard && k % 16 >= 12 {
        // without a prefix of two bytes
        let all = [None, Some(""), Some("0"), Some("/"), Some("."), Some("日"), Some("aé"), Some("🦀b")];
        return all[k as usize / 16 % all.len()].map(str::to_string);
    }
    let (digits, rest) = if shard { (old.get(..2).unwrap_or("00"), old.get(2..).unwrap_or_default()) } else { ("", old) };
    let rest = match k % 16 {
        0 if !shard => return None,
        1 if !shard => String::new(),
        0..=2 => ".".into(),
        3 => "/".into(),
        4 => format!("{}/", rest),
        5 => format!("/{}", rest),
        6 => format!("../{}", rest),
        7 => format!("./{}", rest),
        8 => format!("{}/.", rest),
        9 => format!("{}/x", rest),
        10 => "//".into(),
        11 => {
            let mut r: Vec<char> = rest.chars().collect();
            r.insert(r.len() / 2, '/');
            r.into_iter().collect()
        }
        12 => "/etc/passwd".into(),
        13 => format!("{}/", "n".repeat(255)),
        14 => "日本/語".into(),
        _ => "a/../../b".into(),
    };
    Some(format!("{}{}", digits, rest))
}

fn bad_cid(h: &HashSpec) -> Vec<u8> {
    match h {
        HashSpec::Bad(b) => b.clone(),
        _ => vec![],
    }
}

/// Applies the fault to a block, if it can be there.
fn spoil(f: &Fault, block: &[u8], at: At, via: Via, root: bool, seg: &str) -> Option<(Vec<u8>, Expect)> {
    let (mut links, mut u) = pbx::strict(block).expect("reference block");
    let file = at == At::FileRoot || at == At::FilePart;
    let shard = at == At::Shard || at == At::Bucket;
    let inner = file && !links.is_empty();
    let leaf = file && links.is_empty();
    let reads_links = match via {
        Via::Resolve => at == At::Dir,
        Via::Lookup => shard,
        _ => true,
    };
    let reads_as_file = file && (via == Via::Walk || via == Via::Visit);
    let expect = match f {
        Fault::Blocksizes(k) if reads_as_file => {
            match k % 4 {
                0 if inner => {
                    u.blocksizes.pop();
                }
                1 if inner => u.blocksizes.clear(),
                2 if inner && links.len() > 1 => {
                    links.pop();
                }
                _ => u.blocksizes.push(*u.blocksizes.last().unwrap_or(&0)),
            }
            Expect::LinksAndBlocksizes
        }
        Fault::NoContent(empty) if reads_as_file && leaf && u.data.as_ref().map_or(false, |d| !d.is_empty()) => {
            u.filesize = Some(u.data.as_ref().unwrap().len() as u64);
            u.data = if *empty { Some(vec![]) } else { None };
            Expect::NoLinksNoContent
        }
        Fault::NoSize if reads_as_file && inner => {
            u.filesize = None;
            Expect::NoSize
        }
        Fault::ShardProps(h, n) if reads_as_file && (h.is_some() || n.is_some()) => {
            u.hash_type = *h;
            u.fanout = *n;
            Expect::ShardProps(*h, *n)
        }
        Fault::Metadata(m) if at == At::FilePart && !m.is_none() => {
            m.apply(&mut u);
            Expect::Metadata(m.clone())
        }
        Fault::Align { how, at: i, by } if reads_as_file => {
            let n = links.len();
            let i = *i as usize;
            let shift = |v: u64| -> Option<u64> {
                let w = v as i128 + *by as i128;
                if *by == 0 || w < 0 || w > u64::MAX as i128 / 4 {
                    None
                } else {
                    Some(w as u64)
                }
            };
            match how % 4 {
                0 if inner => {
                    let b = &mut u.blocksizes[i % n];
                    *b = shift(*b)?;
                }
                1 if at == At::FilePart && leaf => {
                    let mut d = u.data.take().unwrap_or_default();
                    let len = shift(d.len() as u64)?.min(d.len() as u64 + 5000) as usize;
                    d.resize(len, 0x5a);
                    if u.filesize.is_some() || len == 0 {
                        u.filesize = Some(len as u64);
                    }
                    u.data = Some(d);
                }
                2 if inner && n > 1 && u.blocksizes[i % n] > 0 => {
                    links.remove(i % n);
                    u.blocksizes.remove(i % n);
                }
                3 if inner && u.blocksizes[i % n] > 0 => {
                    let (l, b) = (links[i % n].clone(), u.blocksizes[i % n]);
                    links.insert(i % n, l);
                    u.blocksizes.insert(i % n, b);
                }
                _ => return None,
            }
            Expect::Align
        }
        Fault::Type(t) => {
            let t = *t as u64 % 6;
            let ok = match (via, at) {
                // a file part or bucket must be one; a root decides itself what it is
                (Via::Walk, At::FilePart) | (Via::Visit, _) => t != pbx::RAW && t != pbx::FILE,
                (Via::Walk, At::Bucket) | (Via::Lookup, At::Bucket) => t != pbx::HAMT,
                (Via::Walk, _) => t == pbx::METADATA,
                (Via::Resolve, _) | (Via::Lookup, _) => t != pbx::DIRECTORY && t != pbx::HAMT,
            };
            if !ok || u.typ == Some(t) {
                return None;
            }
            u.typ = Some(t);
            Expect::Type(t)
        }
        Fault::DagGarbage(k) => return Some((garbage_node(*k), Expect::DagPb)),
        // a root without UnixFS data resolves by its links
        Fault::DataGarbage(k) if !(root && (via == Via::Resolve || via == Via::Lookup)) => {
            let data = Some(garbage_data(*k));
            return Some((Node { links, data }.encode(), Expect::UnixFs));
        }
        Fault::NoData(empty) if !(root && (via == Via::Resolve || via == Via::Lookup)) => {
            let data = if *empty { Some(vec![]) } else { None };
            return Some((Node { links, data }.encode(), Expect::NoData));
        }
        Fault::DirProps { filesize, blocksizes, hash_type, fanout, data } if at == At::Dir => {
            let some_data = data.as_ref().map_or(false, |d| !d.is_empty());
            if filesize.is_none() && blocksizes.is_empty() && hash_type.is_none() && fanout.is_none() && !some_data {
                return None;
            }
            u.filesize = *filesize;
            u.blocksizes = blocksizes.clone();
            u.hash_type = *hash_type;
            u.fanout = *fanout;
            if data.is_some() {
                u.data = data.clone();
            }
            Expect::Directory
        }
        Fault::Fanout(n) if shard && *n != Some(256) => {
            u.fanout = *n;
            Expect::Unsupported(u.hash_type, *n)
        }
        Fault::HashType(h) if shard && *h != Some(0x22) => {
            u.hash_type = *h;
            Expect::Unsupported(*h, u.fanout)
        }
        Fault::FileProps(s, b) if shard && (s.is_some() || !b.is_empty()) => {
            u.filesize = *s;
            u.blocksizes = b.clone();
            Expect::Unexpected(*s, b.clone())
        }
        Fault::BadLinks(bad) if !links.is_empty() && !bad.is_empty() && at != At::Symlink && reads_links => {
            for (i, h) in bad {
                let i = *i as usize % links.len();
                links[i].hash = h.bytes();
            }
            let used = |l: &Link| match via {
                Via::Walk | Via::Visit => true,
                Via::Resolve => l.name.as_deref() == Some(seg),
                Via::Lookup => {
                    let n = l.name.as_deref().unwrap_or_default();
                    n.len() == 2 || n.get(2..) == Some(seg)
                }
            };
            let mut is: Vec<usize> = bad.iter().map(|(i, _)| *i as usize % links.len()).collect();
            is.sort_unstable();
            is.dedup();
            let which: Vec<_> = is
                .into_iter()
                .filter(|i| used(&links[*i]))
                .map(|i| {
                    let l = &links[i];
                    (i, l.hash.clone().unwrap_or_default(), l.name.clone().unwrap_or_default())
                })
                .collect();
            if which.is_empty() {
                return None;
            }
            Expect::Link(which)
        }
        Fault::BadNames(bad) if via == Via::Walk && (at == At::Dir || shard) && !links.is_empty() && !bad.is_empty() => {
            let mut which = vec![];
            for (i, k) in bad {
                let i = *i as usize % links.len();
                if which.iter().all(|(j, _)| *j != i) {
                    let name = bad_name(links[i].name.as_deref().unwrap_or_default(), shard, *k);
                    which.push((i, name.clone().unwrap_or_default()));
                    links[i].name = name;
                }
            }
            Expect::Name(which)
        }
        Fault::Twins(twins) if via == Via::Lookup && shard || via == Via::Resolve && at == At::Dir => {
            if seg.is_empty() && via == Via::Lookup {
                return None;
            }
            for (p, prefix, h) in twins {
                let name = if via == Via::Lookup { format!("{:02X}{}", prefix, seg) } else { seg.to_string() };
                let at = *p as usize % (links.len() + 1);
                let matching = |l: &&Link| l.name.as_deref().map_or(false, |n| n == name || via == Via::Lookup && n.get(2..) == Some(seg));
                // now and then with the same target
                let hash = match links.iter().find(matching) {
                    Some(l) if p % 5 == 0 => l.hash.clone(),
                    _ => h.bytes(),
                };
                links.insert(at, Link { hash, name: Some(name), tsize: Some(1) });
            }
            let mut m = links.iter().enumerate().filter(|(_, l)| {
                let n = l.name.as_deref().unwrap_or_default();
                match via {
                    Via::Lookup => n.len() > 2 && n.get(2..) == Some(seg),
                    _ => n == seg,
                }
            });
            let valid = |l: &Link| libipld::Cid::read_bytes(&l.hash.clone().unwrap_or_default()[..]).is_ok();
            let describe = |(i, l): (usize, &Link)| (i, l.hash.clone().unwrap_or_default(), l.name.clone().unwrap_or_default());
            match (m.next(), m.next()) {
                (Some((_, a)), None) if valid(a) => Expect::Found(a.hash.clone().unwrap()),
                (Some(a), None) => Expect::Link(vec![describe(a)]),
                (Some(a), Some(b)) if !valid(a.1) => {
                    let mut v = vec![describe(a)];
                    if !valid(b.1) {
                        v.push(describe(b));
                    }
                    Expect::Link(v)
                }
                (Some((i, a)), Some((j, b))) if valid(b) => Expect::Two((i, a.hash.clone().unwrap()), (j, b.hash.clone().unwrap())),
                (Some((i, a)), Some(b)) => Expect::OneValid((i, a.hash.clone().unwrap()), describe(b)),
                _ => return None,
            }
        }
        _ => return None,
    };
    Some((Node::new(links, &u).encode(), expect))
}

// ---- judging errors ----

fn file_error(got: &FileError, want: &Expect) -> bool {
    match want {
        Expect::LinksAndBlocksizes => *got == FileError::LinksAndBlocksizesMismatch,
        Expect::NoLinksNoContent => *got == FileError::NoLinksNoContent,
        Expect::NoSize => *got == FileError::IntermediateNodeWithoutFileSize,
        Expect::ShardProps(hash_type, fanout) => {
            *got == FileError::UnexpectedRawOrFileProperties { hash_type: *hash_type, fanout: *fanout }
        }
        Expect::Metadata(m) => *got == FileError::NonRootDefinesMetadata(real_meta(m)),
        Expect::Align => matches!(
            got,
            FileError::TreeExpandsOnLinks
                | FileError::TreeOverlapsBetweenLinks
                | FileError::TreeJumpsBetweenLinks
                | FileError::EarlierLink
        ),
        _ => false,
    }
}

fn type_is(got: &UnexpectedNodeType, t: u64) -> bool {
    let _ = format!("{:?}", got);
    got.is_directory() == (t == pbx::DIRECTORY || t == pbx::HAMT) && got.is_file() == (t == pbx::FILE)
}

fn link_is(got: &InvalidCidInLink, want: &[(usize, Vec<u8>, String)]) -> bool {
    let text = format!("{} {:?}", got, std::error::Error::source(got).map(|s| s.to_string()));
    !text.is_empty() && want.iter().any(|(n, h, s)| got.nth == *n && got.hash[..] == h[..] && got.name == s.as_str())
}

fn shard_is(got: &ShardError, want: &Expect) -> bool {
    match (got, want) {
        (ShardError::UnsupportedProperties { hash_type, fanout }, Expect::Unsupported(h, n)) => hash_type == h && fanout == n,
        (ShardError::UnexpectedProperties { filesize, blocksizes }, Expect::Unexpected(s, b)) => filesize == s && blocksizes == b,
        _ => false,
    }
}

fn walk_error(got: &WalkError, want: &Expect, at: At) -> bool {
    match (got, want) {
        (WalkError::File(e), w) => file_error(e, w),
        (WalkError::UnsupportedType(t), Expect::Type(w)) => *w == pbx::METADATA && at != At::FilePart && type_is(t, *w),
        (WalkError::UnexpectedType(t), Expect::Type(w)) => (at == At::FilePart || at == At::Bucket) && type_is(t, *w),
        (WalkError::DagPbParsingFailed(_), Expect::DagPb) => true,
        (WalkError::UnixFsParsingFailed(_), Expect::UnixFs) => true,
        // the file visit does not tell them apart
        (WalkError::DagPbParsingFailed(_), Expect::UnixFs) | (WalkError::UnixFsParsingFailed(_), Expect::DagPb) => at == At::FilePart,
        (WalkError::EmptyDagPbNode, Expect::NoData) => true,
        (WalkError::UnsupportedDirectory(_), Expect::Directory) => true,
        (WalkError::UnsupportedHAMTShard(s), w) => shard_is(s, w),
        (WalkError::InvalidCid(e), Expect::Link(w)) => link_is(e, w),
        (WalkError::InvalidLinkName { nth, name }, Expect::Name(w)) => w.iter().any(|(n, s)| n == nth && s == name),
        _ => false,
    }
}

fn visit_error(got: &FileReadFailed, want: &Expect) -> bool {
    match (got, want) {
        (FileReadFailed::File(e), w) => file_error(e, w),
        (FileReadFailed::UnexpectedType(t), Expect::Type(w)) => type_is(t, *w),
        (FileReadFailed::Read(Some(_)), Expect::DagPb) | (FileReadFailed::Read(Some(_)), Expect::UnixFs) => true,
        (FileReadFailed::Read(None), Expect::NoData) => true,
        (FileReadFailed::InvalidCid(e), Expect::Link(w)) => link_is(e, w),
        _ => false,
    }
}

/// Takes the error: the CID of a repeated name is to be had from it.
fn lookup_error(got: LookupError, want: &Expect) -> bool {
    match (got, want) {
        (LookupError::UnexpectedBucketType(t), Expect::Type(w)) => type_is(&t, *w),
        (LookupError::Shard(s), w) => shard_is(&s, w),
        (LookupError::Read(Some(_)), Expect::DagPb) | (LookupError::Read(Some(_)), Expect::UnixFs) => true,
        (LookupError::Read(None), Expect::NoData) => true,
        (LookupError::InvalidCid(e), Expect::Link(w)) => link_is(&e, w),
        (LookupError::Multiple(m), w) => {
            let ok = match (&m, w) {
                (MultipleMatchingLinks::Two { first, second }, Expect::Two(a, b)) => {
                    (first.0, first.1.to_bytes()) == *a && (second.0, second.1.to_bytes()) == *b
                }
                (MultipleMatchingLinks::OneValid { first, second }, Expect::OneValid(a, b)) => {
                    (first.0, first.1.to_bytes()) == *a && link_is(second, &[b.clone()])
                }
                _ => false,
            };
            let first = match w {
                Expect::Two(a, _) | Expect::OneValid(a, _) => a.1.clone(),
                _ => return false,
            };
            ok && m.into_inner().to_bytes() == first
        }
        _ => false,
    }
}

fn resolve_error(got: ResolveError, want: &Expect) -> bool {
    match (got, want) {
        (ResolveError::UnexpectedType(t), Expect::Type(w)) => type_is(&t, *w),
        (ResolveError::UnexpectedDirProperties(_), Expect::Directory) => true,
        (ResolveError::Read(_), Expect::DagPb) => true,
        (ResolveError::Lookup(l), w) => lookup_error(l, w),
        _ => false,
    }
}

// ---- cases ----

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Mode {
    Walk { cache: bool },
    Visit { range: Option<RangeSpec>, cache: bool },
    /// resolve, or lookup when the root is sharded
    Name { pick: Pick, owned: bool, into: bool },
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Broken {
    pub root: TNode,
    pub name: String,
    pub style: u8,
    pub mode: Mode,
    /// picks among the blocks where the fault can be
    pub at: u16,
    pub fault: Fault,
}

/// When the blocks of a file, in order, stop lining up: the block after a leaf must start where
/// the leaf ends. `blocks` gives the block of step n.
fn misaligned(steps: usize, mut block: impl FnMut(usize, &Cidb) -> Option<Arc<Vec<u8>>>, root: &Cidb) -> Option<usize> {
    let mut stack: Vec<(Cidb, u64)> = vec![(root.clone(), 0)];
    let mut n = 0;
    while let Some((cid, start)) = stack.pop() {
        if n > steps + 64 {
            return None;
        }
        let b = block(n, &cid)?;
        let (links, u) = pbx::strict(&b).ok()?;
        if links.is_empty() {
            let end = start + u.filesize.unwrap_or(u.data.map_or(0, |d| d.len() as u64));
            if let Some((_, s)) = stack.last() {
                if *s != end {
                    return Some(n + 1);
                }
            }
        } else {
            let mut at = start;
            let mut kids = Vec::new();
            for (l, b) in links.iter().zip(&u.blocksizes) {
                kids.push((l.hash.clone()?, at));
                at += b;
            }
            kids.reverse();
            stack.extend(kids);
        }
        n += 1;
    }
    None
}

/// Prefix before the fault, and the step at which the error must have come.
fn position(e: usize, k: usize, until: Option<usize>, align: bool) -> Res {
    if e < k {
        return Err(format!("error at block {}, before the changed block {}", e, k));
    }
    match until {
        Some(j) if e > j => Err(format!("error only at block {}, expected by {}", e, j)),
        None if align => Ok(()),
        _ => Ok(()),
    }
}

fn run_walk(case: &Broken, cache_first: bool, ctx: &mut Ctx) -> Res {
    let mut store = Store::new();
    let model = case.root.build(&mut store);
    let root = pbx::cid_style(case.style, &model.block);
    store.insert(root.clone(), model.block.clone());
    let want = reference_walk(&model, &root, &case.name);
    let place = |i: usize| {
        let s = &want[i];
        match &s.ev {
            Ev::Dir => At::Dir,
            Ev::Bucket => At::Bucket,
            Ev::Symlink(_) => At::Symlink,
            Ev::File { first: true, .. } => At::FileRoot,
            Ev::File { .. } => At::FilePart,
            Ev::RootDir => {
                let (_, u) = pbx::strict(&store[&s.pending[0]]).expect("reference block");
                if u.typ == Some(pbx::HAMT) {
                    At::Shard
                } else {
                    At::Dir
                }
            }
        }
    };
    let usable: Vec<usize> = (0..want.len())
        .filter(|i| spoil(&case.fault, &store[&want[*i].pending[0]], place(*i), Via::Walk, *i == 0, "").is_some())
        .collect();
    if usable.is_empty() {
        ctx.class("the change cannot be made in this tree");
        return Ok(());
    }
    let k = usable[case.at as usize * usable.len() / 65536];
    let at = place(k);
    let (bad, expect) = spoil(&case.fault, &store[&want[k].pending[0]], at, Via::Walk, k == 0, "").expect("filtered");
    let bad = Arc::new(bad);
    note(&expect, at, Via::Walk, k, ctx);
    let mut until = Some(k);
    if expect == Expect::Align {
        // the file's own blocks: from its first one
        let f = (0..=k).rev().find(|i| matches!(want[*i].ev, Ev::File { first: true, .. })).expect("inside a file");
        let len = want[f..].iter().position(|s| matches!(s.ev, Ev::File { last: true, .. })).expect("file ends") + 1;
        until = misaligned(
            len,
            |n, c| if n == k - f { Some(bad.clone()) } else { store.get(c).cloned() },
            &want[f].pending[0],
        )
        .map(|n| n + f);
        ctx.class_if(until.is_none(), "size change nothing follows");
    }
    let mut cache = None;
    if cache_first {
        let _ = dtree::walk(&root, "x", &store, &mut cache, want.len() + 4);
    }
    let (got, end) = walk_served(
        &root,
        &case.name,
        |n, c| if n == k { Some(bad.clone()) } else { store.get(c).cloned() },
        &mut cache,
        want.len() * 2 + 100,
    );
    for (i, (g, w)) in got.iter().zip(&want).enumerate().take(k) {
        if g != w {
            return Err(format!("block {} before the changed block {}: got {}, expected {}", i, k, show(g), show(w)));
        }
    }
    match end {
        End::Failed(e) => {
            let text = format!("{:?} / {}", e, e);
            position(got.len(), k, until, expect == Expect::Align).map_err(|x| format!("{}: {}", x, text))?;
            if walk_error(&e, &expect, at) {
                Ok(())
            } else {
                Err(format!("walk, {:?} at block {}: error {}, expected {:?}", at, k, text, expect))
            }
        }
        End::Done if until.is_none() => Ok(()),
        End::Done => Err(format!("walk, {:?} at block {}: no error, expected {:?}", at, k, expect)),
        End::Other(e) => Err(e),
    }
}

fn note(expect: &Expect, at: At, via: Via, k: usize, ctx: &mut Ctx) {
    ctx.nontrivial = true;
    ctx.class(match via {
        Via::Walk => "walk",
        Via::Visit => "visit",
        Via::Resolve => "resolve",
        Via::Lookup => "lookup",
    });
    ctx.class_if(k == 0, "at the first block");
    ctx.class_if(k >= 10, "ten blocks in or more");
    ctx.class(match at {
        At::FileRoot => "in the root of a file",
        At::FilePart => "in a later block of a file",
        At::Dir => "in a directory",
        At::Shard => "in the root of a shard",
        At::Bucket => "in a bucket",
        At::Symlink => "in a symlink",
    });
    ctx.class(match expect {
        Expect::LinksAndBlocksizes => "links and block sizes differ",
        Expect::NoLinksNoContent => "size without content",
        Expect::NoSize => "links without size",
        Expect::ShardProps(..) => "file with shard properties",
        Expect::Metadata(_) => "metadata below the root",
        Expect::Align => "sizes do not line up",
        Expect::Type(_) => "another type",
        Expect::DagPb => "no dag-pb",
        Expect::UnixFs => "no UnixFS",
        Expect::NoData => "no data",
        Expect::Directory => "directory with other properties",
        Expect::Unsupported(..) => "shard with another fanout or hash",
        Expect::Unexpected(..) => "shard with file properties",
        Expect::Link(_) => "link without a CID",
        Expect::Two(..) => "two matching links",
        Expect::OneValid(..) => "two matching links, one without a CID",
        Expect::Found(_) => "one matching link added",
        Expect::Name(w) if w.iter().any(|(_, n)| n.starts_with("../") || n.contains("/../") || n.starts_with('/')) => "a name which leads out of the directory",
        Expect::Name(_) => "another unusable name",
    });
}

fn run_visit(case: &Broken, range: &Option<RangeSpec>, cache_first: bool, ctx: &mut Ctx) -> Res {
    let mut store = Store::new();
    let model = case.root.build(&mut store);
    let file = match &model.kind {
        TKind::File(f) => f.clone(),
        _ => {
            ctx.class("no file to visit");
            return Ok(());
        }
    };
    let range: Option<Range<u64>> = range.as_ref().map(|r| r.range(&file.boundaries(40), file.size));
    let cap = 400_000;
    // what an unchanged visit gives; other checks judge that
    let (base, end) = visit_served(&file.block, |_, c| store.get(c).cloned(), range.clone(), &mut None, cap);
    if !matches!(end, End::Done) {
        return Err(format!("the unchanged file cannot be visited: {:?}", end));
    }
    let block = |i: usize| if i == 0 { file.block.clone() } else { store[&base[i - 1].pending[0]].clone() };
    let place = |i: usize| if i == 0 { At::FileRoot } else { At::FilePart };
    let align = matches!(case.fault, Fault::Align { .. });
    if align && range.is_some() {
        ctx.class("the change cannot be made in this tree");
        return Ok(());
    }
    let usable: Vec<usize> = (0..base.len())
        .filter(|i| spoil(&case.fault, &block(*i), place(*i), Via::Visit, *i == 0, "").is_some())
        .collect();
    if usable.is_empty() {
        ctx.class("the change cannot be made in this tree");
        return Ok(());
    }
    let k = usable[case.at as usize * usable.len() / 65536];
    let at = place(k);
    let (bad, mut expect) = spoil(&case.fault, &block(k), at, Via::Visit, k == 0, "").expect("filtered");
    let bad = Arc::new(bad);
    let mut until = Some(k);
    if align {
        until = misaligned(
            base.len(),
            |n, c| {
                if n == k {
                    Some(bad.clone())
                } else if n == 0 {
                    Some(file.block.clone())
                } else {
                    store.get(c).cloned()
                }
            },
            &vec![],
        );
        ctx.class_if(until.is_none(), "size change nothing follows");
    }
    if let (Expect::Link(which), Some(r)) = (&mut expect, &range) {
        // links out of the range are not looked at, which touch it maybe
        let (links, u) = pbx::strict(&block(k)).expect("reference block");
        let Some(start) = start_of(&file, r, &base, k) else {
            ctx.class("the range is visited in a way which does not tell offsets");
            return Ok(());
        };
        let mut at = start;
        let (mut must, mut may) = (vec![], vec![]);
        for i in 0..links.len() {
            let b = at..at + u.blocksizes[i];
            at = b.end;
            if let Some(w) = which.iter().find(|w| w.0 == i) {
                if b.start.max(r.start) < b.end.min(r.end) {
                    must.push(w.clone());
                    may.push(w.clone());
                } else if touches(0, &b, r) || touches(1, &b, r) || touches(2, &b, r) || touches(3, &b, r) {
                    may.push(w.clone());
                }
            }
        }
        if must.is_empty() {
            until = None;
        }
        if may.is_empty() {
            // must not make a difference
            let (got, end) = visit_served(
                if k == 0 { &bad } else { &file.block },
                |n, c| if n == k { Some(bad.clone()) } else { store.get(c).cloned() },
                Some(r.clone()),
                &mut None,
                cap,
            );
            ctx.nontrivial = true;
            ctx.class("link without a CID outside the range");
            let bytes = |v: &[Rec]| v.iter().flat_map(|r| r.bytes.clone()).collect::<Vec<u8>>();
            return match end {
                End::Done if bytes(&got) == bytes(&base) => Ok(()),
                End::Done => Err("a link outside of the range changes the content".into()),
                e => Err(format!("a link outside of the range fails the visit: {:?}", e)),
            };
        }
        *which = may;
    }
    note(&expect, at, Via::Visit, k, ctx);
    ctx.class_if(range.is_some(), "visit of a range");
    let mut cache = None;
    if cache_first {
        let _ = visit(&file.block, &store, None, &mut cache, cap);
    }
    let (got, end) = visit_served(
        if k == 0 { &bad } else { &file.block },
        |n, c| if n == k { Some(bad.clone()) } else { store.get(c).cloned() },
        range.clone(),
        &mut cache,
        cap,
    );
    for (i, (g, w)) in got.iter().zip(&base).enumerate().take(k) {
        let same = g.bytes == w.bytes && g.pending == w.pending && g.file_size == w.file_size && g.mode == w.mode && g.mtime == w.mtime;
        if !same {
            return Err(format!("block {} before the changed block {} differs", i, k));
        }
    }
    match end {
        End::Failed(e) => {
            let text = format!("{:?} / {}", e, e);
            position(got.len(), k, until, align).map_err(|x| format!("{}: {}", x, text))?;
            if visit_error(&e, &expect) {
                Ok(())
            } else {
                Err(format!("visit, {:?} at block {}: error {}, expected {:?}", at, k, text, expect))
            }
        }
        End::Done if until.is_none() => Ok(()),
        End::Done => Err(format!("visit, {:?} at block {}: no error, expected {:?}", at, k, expect)),
        End::Other(e) => Err(e),
    }
}

/// Offset in the file of the block visited at step `k`, if that can be told.
fn start_of(file: &Arc<FModel>, target: &Range<u64>, base: &[Rec], k: usize) -> Option<u64> {
    let mut starts: Vec<u64> = (0..4)
        .map(|v| simulate(file, Some(target), v))
        .filter(|s| s.len() == base.len() && s.iter().zip(base).all(|(s, b)| s.bytes == b.bytes && s.pending == b.pending))
        .map(|s| s[k].start)
        .collect();
    starts.dedup();
    match starts[..] {
        [one] => Some(one),
        _ => None,
    }
}

fn run_name(case: &Broken, p: &Pick, owned: bool, into: bool, ctx: &mut Ctx) -> Res {
    let mut store = Store::new();
    let model = case.root.build(&mut store);
    let entries = model.entries();
    let names: Vec<String> = entries.iter().map(|e| e.name.clone()).collect();
    let seg = needle(p, &names);
    let (via, root_at) = match &model.kind {
        TKind::Hamt(_) => (Via::Lookup, At::Shard),
        TKind::Dir(_) => (Via::Resolve, At::Dir),
        TKind::File(_) => (Via::Resolve, At::FileRoot),
        TKind::Symlink(_) => (Via::Resolve, At::Symlink),
    };
    // which buckets an unchanged lookup loads
    let visited = std::cell::RefCell::new(Vec::<Cidb>::new());
    if via == Via::Lookup {
        let r = crate::resolve::lookup_full(&model.block, &seg, &store, false, &mut None, |_| Ok(()), |c| visited.borrow_mut().push(c.clone()))?;
        if let Err(e) = r {
            return Err(format!("the unchanged directory cannot be searched: {}", e));
        }
    }
    let visited = visited.into_inner();
    let block = |i: usize| if i == 0 { model.block.clone() } else { store[&visited[i - 1]].clone() };
    let place = |i: usize| if i == 0 { root_at } else { At::Bucket };
    let usable: Vec<usize> = (0..=visited.len())
        .filter(|i| spoil(&case.fault, &block(*i), place(*i), via, *i == 0, &seg).is_some())
        .collect();
    if usable.is_empty() {
        ctx.class("the change cannot be made in this tree");
        return Ok(());
    }
    let k = usable[case.at as usize * usable.len() / 65536];
    let at = place(k);
    let (bad, expect) = spoil(&case.fault, &block(k), at, via, k == 0, &seg).expect("filtered");
    note(&expect, at, via, k, ctx);
    let fail = |what: String| Err(format!("{:?} of {:?}, {:?} at block {}: {}, expected {:?}", via, seg, at, k, what, expect));
    // a CID found before the link is looked at is as good
    let early = match &expect {
        Expect::Link(v) => v.iter().all(|(_, _, n)| n.len() == 2 && via == Via::Lookup && *n != seg),
        _ => false,
    };
    let good = entries.iter().find(|e| e.name == seg).map(|e| e.cid.clone());
    let mut cache = None;
    let root_block = if k == 0 { bad.clone() } else { model.block.to_vec() };
    let mut n = 0;
    let mut step = match resolve(&root_block, &seg, &mut cache) {
        Ok(s) => s,
        Err(e) => {
            if k != 0 {
                return fail(format!("error before the changed block: {:?}", e));
            }
            crate::inspect::current().error(0, &e);
            let text = format!("{:?} / {} / {:?}", e, e, std::error::Error::source(&e).map(|s| s.to_string()));
            return if resolve_error(e, &expect) { Ok(()) } else { fail(text) };
        }
    };
    loop {
        match step {
            MaybeResolved::Found(c) => {
                let c = c.to_bytes();
                if n < k {
                    return if Some(&c) == good.as_ref() { Err(format!("found at block {}, later when unchanged", n)) } else { fail("found another CID".into()) };
                }
                return match &expect {
                    Expect::Found(w) if *w == c => Ok(()),
                    _ if early && Some(&c) == good.as_ref() => Ok(()),
                    _ => fail(format!("found {}", pbx::hex(&c))),
                };
            }
            MaybeResolved::NotFound => return fail("not found".into()),
            MaybeResolved::NeedToLoadMore(l) => {
                if n >= k {
                    return fail("wants to go on".into());
                }
                n += 1;
                let next = l.pending_links().0.to_bytes();
                if next != visited[n - 1] {
                    return fail(format!("another bucket as number {}", n));
                }
                let b = if n == k { bad.clone() } else { store[&next].to_vec() };
                let l = if owned { l.with_owned_needle() } else { l };
                crate::inspect::current().debug(n, &l);
                step = match l.continue_walk(&b, &mut cache) {
                    Ok(s) => s,
                    Err(e) => {
                        if n != k {
                            return fail(format!("error at block {}: {:?}", n, e));
                        }
                        crate::inspect::current().error(0, &e);
                        let text = format!("{:?} / {} / {:?}", e, e, std::error::Error::source(&e).map(|s| s.to_string()));
                        let ok = if into { resolve_error(e.into_resolve_error(), &expect) } else { lookup_error(e, &expect) };
                        return if ok { Ok(()) } else { fail(text) };
                    }
                };
            }
        }
    }
}

pub fn run_broken(case: &Broken, ctx: &mut Ctx) -> Res {
    match &case.mode {
        Mode::Walk { cache } => run_walk(case, *cache, ctx),
        Mode::Visit { range, cache } => run_visit(case, range, *cache, ctx),
        Mode::Name { pick, owned, into } => run_name(case, pick, *owned, *into, ctx),
    }
}

// ---- strategies ----

fn small_or_any() -> BoxedStrategy<u64> {
    prop_oneof![prop::sample::select(vec![0u64, 1, 8, 16, 33, 34, 35, 128, 255, 256, 257, 512, 0xb2, u64::MAX]), any::<u64>()].boxed()
}

pub fn rule_fault() -> BoxedStrategy<Fault> {
    let o = |s: BoxedStrategy<u64>| prop::option::of(s);
    prop_oneof![
        2 => any::<u8>().prop_map(Fault::Blocksizes),
        2 => any::<bool>().prop_map(Fault::NoContent),
        2 => Just(Fault::NoSize),
        2 => (o(small_or_any()), o(small_or_any())).prop_map(|(a, b)| Fault::ShardProps(a, b)),
        2 => meta_strong().prop_map(Fault::Metadata),
        5 => (any::<u8>(), any::<u16>(), prop_oneof![2 => prop::sample::select(vec![1i32, -1, 2, -2]), 1 => -300i32..300]).prop_map(|(how, at, by)| Fault::Align { how, at, by }),
        4 => (0u8..6).prop_map(Fault::Type),
        2 => any::<u8>().prop_map(Fault::DagGarbage),
        2 => any::<u8>().prop_map(Fault::DataGarbage),
        2 => any::<bool>().prop_map(Fault::NoData),
        2 => (o(small_or_any()), prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(0u64..10, 1..4)], o(small_or_any()), o(small_or_any()),
              prop_oneof![2 => Just(None), 1 => prop::collection::vec(any::<u8>(), 0..5).prop_map(Some)])
            .prop_map(|(filesize, blocksizes, hash_type, fanout, data)| Fault::DirProps { filesize, blocksizes, hash_type, fanout, data }),
        1 => prop_oneof![
            small_or_any().prop_map(|v| Fault::DirProps { filesize: Some(v), blocksizes: vec![], hash_type: None, fanout: None, data: None }),
            small_or_any().prop_map(|v| Fault::DirProps { filesize: None, blocksizes: vec![v], hash_type: None, fanout: None, data: None }),
            small_or_any().prop_map(|v| Fault::DirProps { filesize: None, blocksizes: vec![], hash_type: Some(v), fanout: None, data: None }),
            small_or_any().prop_map(|v| Fault::DirProps { filesize: None, blocksizes: vec![], hash_type: None, fanout: Some(v), data: None }),
            Just(Fault::DirProps { filesize: None, blocksizes: vec![], hash_type: None, fanout: None, data: Some(vec![0]) }),
        ],
        2 => o(small_or_any()).prop_map(Fault::Fanout),
        2 => o(small_or_any()).prop_map(Fault::HashType),
        2 => (o(small_or_any()), prop_oneof![1 => Just(vec![]), 1 => prop::collection::vec(any::<u64>(), 1..4)]).prop_map(|(a, b)| Fault::FileProps(a, b)),
    ]
    .boxed()
}

pub fn link_fault() -> BoxedStrategy<Fault> {
    let h = prop_oneof![2 => cid_spec().prop_map(HashSpec::Cid), 1 => bad_hash()];
    prop_oneof![
        3 => prop_oneof![3 => Just(1usize), 1 => Just(3)].prop_flat_map(|n| prop::collection::vec((any::<u16>(), bad_hash()), 1..=n)).prop_map(Fault::BadLinks),
        1 => prop::collection::vec((any::<u16>(), any::<u8>(), h), 1..4).prop_map(Fault::Twins),
    ]
    .boxed()
}

pub fn broken(fault: BoxedStrategy<Fault>, tier: Tier) -> BoxedStrategy<Broken> {
    let mode = prop_oneof![
        4 => any::<bool>().prop_map(|cache| Mode::Walk { cache }),
        4 => (prop::option::weighted(0.3, range_spec()), any::<bool>()).prop_map(|(range, cache)| Mode::Visit { range, cache }),
        4 => (pick(), any::<bool>(), any::<bool>()).prop_map(|(pick, owned, into)| Mode::Name { pick, owned, into }),
    ];
    broken_by(mode.boxed(), fault, tier)
}

fn broken_by(mode: BoxedStrategy<Mode>, fault: BoxedStrategy<Fault>, tier: Tier) -> BoxedStrategy<Broken> {
    let (d, s) = if tier == Tier::Quick { (4, 24) } else { (6, 80) };
    let name = prop_oneof![Just(String::new()), Just("root".to_string()), Just("a/b".to_string())];
    let hamt = (20..60u16, any::<u32>(), 0u8..4).prop_map(|(n, seed, deepen)| TNode::Wide { n, hamt: true, seed, deepen });
    mode.prop_flat_map(move |mode| {
        let root = match &mode {
            Mode::Visit { .. } => prop_oneof![
                8 => ftree_mid().prop_map(TNode::File),
                1 => tleaf(),
            ]
            .boxed(),
            Mode::Walk { .. } => prop_oneof![6 => ttree(d, s), 2 => ftree_mid().prop_map(TNode::File), 1 => hamt.clone()].boxed(),
            Mode::Name { .. } => prop_oneof![
                6 => hamt_of(tleaf(), 12),
                2 => hamt.clone(),
                4 => dir_of(tleaf(), 8),
                1 => tleaf(),
            ]
            .boxed(),
        };
        (root, Just(mode))
    })
    .prop_flat_map(move |(root, mode)| (Just(root), Just(mode), name.clone(), 0u8..4, any::<u16>(), fault.clone()))
    .prop_map(|(root, mode, name, style, at, fault)| Broken { root, name, style, mode, at, fault })
    .boxed()
}

/// Files of some blocks, but not hundreds.
fn ftree_mid() -> BoxedStrategy<FTree> {
    let node = leaf(small_len()).prop_recursive(4, 24, 5, |inner| {
        (prop::collection::vec(kid(inner.boxed()), 1..=5), prop::bool::weighted(0.9))
            .prop_map(|(kids, file)| FNode::Inner { kids, file })
            .boxed()
    });
    (node, meta_some()).prop_map(|(root, meta)| FTree { root, meta }).boxed()
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Case16 {
    Broken(Broken),
    /// node of a type the schema does not know, with content
    UnknownType { typ: u32, len: u8, in_dir: bool },
    /// link node with content of its own
    Inline { own: u8, kids: Vec<u8>, counted: bool },
}

pub const K1: &str = "K1 a node of a UnixFS type the schema does not define (6 or more) is read as the content of a Raw node";
pub const K2: &str = "K2 content held by a file node which also has links is left out without an error";

fn unknown_type(typ: u32, len: u8, in_dir: bool, ctx: &mut Ctx) -> Res {
    let typ = (typ % 0x7fff_ffff).max(6) as u64;
    let data = Content { len: len as u32 + 1, seed: 9, kind: 0 }.expand();
    let mut u = UData::of(typ);
    u.data = Some(data.clone());
    u.filesize = Some(data.len() as u64);
    let block = Arc::new(Node::new(vec![], &u).encode());
    let cid = pbx::cid_v1(&block);
    let mut store = Store::new();
    store.insert(cid.clone(), block.clone());
    let mut root = cid.clone();
    if in_dir {
        let d = Arc::new(Node::new(vec![Link::new(&cid, "n", block.len() as u64)], &UData::of(pbx::DIRECTORY)).encode());
        root = pbx::cid_v1(&d);
        store.insert(root.clone(), d);
    }
    ctx.nontrivial = true;
    ctx.class("undefined type");
    let (steps, end) = walk_served(&root, "", |_, c| store.get(c).cloned(), &mut None, 10);
    match (end, steps.last().map(|s| s.ev.clone())) {
        (End::Failed(_), _) if steps.len() == in_dir as usize => {}
        (End::Done, Some(Ev::File { bytes, first: true, last: true, size })) if bytes == data && size == data.len() as u64 => {
            ctx.known_finding("C16", K1)?
        }
        (e, s) => return Err(format!("walk over a node of type {}: {:?} {:?}", typ, s, e)),
    }
    match visit(&block, &store, None, &mut None, 10) {
        Err(_) => {}
        Ok(r) if r.len() == 1 && r[0].bytes == data => ctx.known_finding("C16", K1)?,
        Ok(r) => return Err(format!("visit of a node of type {}: {:?}", typ, r.len())),
    }
    match resolve(&block, "x", &mut None) {
        // as a node without (known) UnixFS data, or as one which cannot be resolved
        Err(_) | Ok(MaybeResolved::NotFound) => Ok(()),
        Ok(r) => Err(format!("resolving in a node of type {}: {:?}", typ, r)),
    }
}

fn inline(own: u8, kids: &[u8], counted: bool, ctx: &mut Ctx) -> Res {
    let own = vec![0xaau8; own as usize + 1];
    let mut store = Store::new();
    let mut u = UData::of(pbx::FILE);
    let mut links = vec![];
    let mut below = vec![];
    for (i, k) in kids.iter().enumerate() {
        let d = vec![i as u8; *k as usize % 20 + 1];
        let mut l = UData::of(pbx::RAW);
        l.data = Some(d.clone());
        l.filesize = Some(d.len() as u64);
        let b = Arc::new(Node::new(vec![], &l).encode());
        let c = pbx::cid_v1(&b);
        links.push(Link::new(&c, "", b.len() as u64));
        store.insert(c, b);
        u.blocksizes.push(d.len() as u64);
        below.extend(d);
    }
    u.filesize = Some(below.len() as u64 + if counted { own.len() as u64 } else { 0 });
    u.data = Some(own.clone());
    let block = Node::new(links, &u).encode();
    let all = [own, below.clone()].concat();
    ctx.nontrivial = true;
    ctx.class("content and links in one node");
    match visit(&block, &store, None, &mut None, 100) {
        Err(_) => Ok(()),
        Ok(r) => {
            let got: Vec<u8> = r.iter().flat_map(|r| r.bytes.clone()).collect();
            if got == all {
                Ok(())
            } else if got == below {
                ctx.known_finding("C16", K2)
            } else {
                Err(format!("{} bytes of a file of {} own and {} linked bytes", got.len(), all.len() - below.len(), below.len()))
            }
        }
    }
}

pub struct C16;

impl Check for C16 {
    type Case = Case16;
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "A case is a generated well-formed tree, a way of reading it (walk, file visit with or without a range, resolving or a sharded lookup), and one rule-breaking change made to one of the blocks that reading passes, wherever that change is possible. The reading must give what the unchanged tree gives before that block, then the error for that change with its fields (sizes which do not line up: at the latest at the block after the first leaf whose end is not the next block's start), and not go on. Non-trivial: the change could be made."
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Case16> {
        prop_oneof![
            60 => broken(rule_fault(), tier).prop_map(Case16::Broken),
            1 => (prop_oneof![6u32..300, any::<u32>()], any::<u8>(), any::<bool>()).prop_map(|(typ, len, in_dir)| Case16::UnknownType { typ, len, in_dir }),
            1 => (any::<u8>(), prop::collection::vec(any::<u8>(), 1..5), any::<bool>()).prop_map(|(own, kids, counted)| Case16::Inline { own, kids, counted }),
        ]
        .boxed()
    }
    fn fixed(&self, _tier: Tier) -> Vec<Case16> {
        vec![
            Case16::UnknownType { typ: 6, len: 3, in_dir: false },
            Case16::UnknownType { typ: 7, len: 3, in_dir: true },
            Case16::Inline { own: 3, kids: vec![4, 5], counted: false },
            Case16::Inline { own: 3, kids: vec![4, 5], counted: true },
        ]
    }
    fn cases(&self, tier: Tier) -> u32 {
        if tier == Tier::Quick {
            160_000
        } else {
            6_000_000
        }
    }
    fn run(&self, case: &Case16, ctx: &mut Ctx) -> Res {
        match case {
            Case16::Broken(b) => run_broken(b, ctx),
            Case16::UnknownType { typ, len, in_dir } => unknown_type(*typ, *len, *in_dir, ctx),
            Case16::Inline { own, kids, counted } => inline(*own, kids, *counted, ctx),
        }
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "Not judged: sizes no later block contradicts (the last leaf, the content length of a leaf with an explicit size).",
            "For later blocks of a file a walk may report undecodable data as either parsing error.",
            "A nameless shard link to a Metadata node may be an unexpected or an unsupported type.",
        ]
    }
}

pub struct C23;

impl Check for C23 {
    type Case = Broken;
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        "A case is a generated well-formed tree, a way of reading it, and one block in which one to three links get a hash that is no CID, or in which links with the looked-up name are added. The error must name one of the changed links which that reading looks at, by position, raw hash and name, or the first two matching ones and their CIDs. Non-trivial: the change could be made."
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Broken> {
        broken(link_fault(), tier)
    }
    fn cases(&self, tier: Tier) -> u32 {
        if tier == Tier::Quick {
            160_000
        } else {
            6_000_000
        }
    }
    fn run(&self, case: &Broken, ctx: &mut Ctx) -> Res {
        run_broken(case, ctx)
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "With several unusable links in one block the error may be about any of them.",
            "A file link which only touches the range may be looked at or not; one outside of it must not matter.",
        ]
    }
}

pub struct C26;

impl Check for C26 {
    type Case = Broken;
    fn id(&self) -> &'static str {
        "C26"
    }
    fn rule(&self) -> &'static str {
        "A case is a generated well-formed tree and one block of a directory, shard or bucket in it in which one to three links get a name that is no single component of a path: none or empty, '.', with a slash anywhere (absolute, leading upwards, trailing), or in a shard with a prefix which is too short or ends inside a character. The walk must report what the unchanged tree has before that block (each path the root name and one component for each level), then the error with position and name of a changed link, and not go on. Non-trivial: the change could be made."
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Broken> {
        let fault = prop_oneof![3 => Just(1usize), 1 => Just(3)]
            .prop_flat_map(|n| prop::collection::vec((any::<u16>(), any::<u8>()), 1..=n))
            .prop_map(Fault::BadNames);
        broken_by(any::<bool>().prop_map(|cache| Mode::Walk { cache }).boxed(), fault.boxed(), tier)
    }
    fn cases(&self, tier: Tier) -> u32 {
        if tier == Tier::Quick {
            50_000
        } else {
            3_000_000
        }
    }
    fn run(&self, case: &Broken, ctx: &mut Ctx) -> Res {
        run_broken(case, ctx)
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "'..' is taken as a name like any other: the walk does not interpret it.",
            "With several unusable names in one block the error may be about any of them.",
        ]
    }
}
