//! C15: blocks nobody can trust, at every step of every reading interface.

use crate::codec::{self, Edit};
use crate::dtree::*;
use crate::ftree::*;
use crate::gen::*;
use crate::mem;
use crate::pbx::{self, Link, Node, UData};
use crate::resolve::{bad_hash, HashSpec};
use crate::runner::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::convert::TryFrom;
use std::error::Error as StdError;
use std::sync::Arc;
use unixfs_v1::dagpb::{node_data, wrap_node_data};
use unixfs_v1::file::visit::{Cache as VisitCache, IdleFileVisit};
use unixfs_v1::walk::{ContinuedWalk, Walker};
use unixfs_v1::{dir, resolve, FlatUnixFs, LookupError, MaybeResolved, Metadata, PBNode, UnixFs};

/// What is read, and how.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Walk { name: String },
    Visit { range: Option<(u64, u64)> },
    /// a needle; owned at each step or not
    Look { seg: String, owned: bool },
    /// bytes given as one block to everything which takes one
    Parse,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Size {
    /// the size the link to this block gave
    Fit,
    Absent,
    Is(u64),
    Off(i8),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct HLink {
    name: Option<String>,
    /// put in the place of a CID
    bad: Option<HashSpec>,
    /// a CID which was given before
    again: Option<u16>,
    style: u8,
    tsize: Option<u64>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Shape {
    /// as long as its link says, if that is not long
    Leaf { file: bool, size: Size, fallback: u8, absent: bool },
    /// data of another length than the size says
    Lie { file: bool, size: Size, len: u16 },
    /// shares of the size this block should have
    Parts { cuts: Vec<u16>, size: Size, inline: bool },
    /// any sizes
    Sizes { sizes: Vec<u64>, links: u8, size: Size, sum: bool },
    Dir(Vec<HLink>),
    Hamt(Vec<HLink>, Option<u64>, Option<u64>),
    Symlink(Option<Vec<u8>>),
    Typed { typ: u64, links: Vec<HLink> },
    /// nothing or something else in the place of UnixFS
    Alien(Option<Vec<u8>>, Vec<HLink>),
    Bytes(Vec<u8>),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Spec {
    shape: Shape,
    meta: Meta,
    /// properties which the shape does not have by itself
    extra: Option<(Option<u64>, Option<u64>, Vec<u64>, Option<u64>)>,
    edits: Vec<Edit>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Swap {
    Edits(Vec<Edit>),
    /// the block of another step
    Other(u16),
    Spec(Spec),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Case15 {
    /// The n-th block asked for is made of the n-th description.
    /// With `suited`, of the next one which is of a kind the reader can go on with.
    Server { ops: Vec<Op>, size: u64, specs: Vec<Spec>, suited: bool, cap: u16 },
    /// A well-formed tree with some blocks replaced.
    Tree { root: TNode, op: Op, swaps: Vec<(u8, Swap)> },
    Noise { op: Op, blocks: Vec<Vec<u8>> },
}

// ---- making blocks ----

#[derive(Debug, Clone, Copy, PartialEq)]
enum Role {
    Any,
    File,
    Bucket,
    Dir,
}

impl Shape {
    fn suits(&self, r: Role) -> bool {
        let file = matches!(self, Shape::Leaf { .. } | Shape::Lie { .. } | Shape::Parts { .. } | Shape::Sizes { .. });
        let shard = matches!(self, Shape::Hamt(..));
        match r {
            Role::Any => true,
            Role::File => file,
            Role::Bucket => shard,
            Role::Dir => shard || matches!(self, Shape::Dir(_)),
        }
    }
}

#[derive(Default)]
struct Server {
    /// size which the link to a CID gave it, and what it must be
    sizes: HashMap<Cidb, (u64, Role)>,
    given: Vec<Cidb>,
}

impl Server {
    fn fresh(&mut self, style: u8, size: u64, role: Role) -> Cidb {
        let seed = format!("block {}", self.given.len());
        let c = pbx::cid_style(style, seed.as_bytes());
        self.sizes.insert(c.clone(), (size, role));
        self.given.push(c.clone());
        c
    }

    fn links(&mut self, hs: &[HLink], shard: bool) -> Vec<Link> {
        hs.iter()
            .map(|h| {
                let hash = match (&h.bad, h.again) {
                    (Some(b), _) => b.bytes(),
                    (None, Some(i)) if !self.given.is_empty() => Some(self.given[i as usize % self.given.len()].clone()),
                    _ => {
                        let bucket = shard && h.name.as_ref().map_or(false, |n| n.len() == 2);
                        let role = if bucket { Role::Bucket } else { Role::Any };
                        Some(self.fresh(h.style, h.tsize.unwrap_or(7) % 5000, role))
                    }
                };
                Link { hash, name: h.name.clone(), tsize: h.tsize }
            })
            .collect()
    }

    fn block(&mut self, spec: &Spec, fit: u64) -> Vec<u8> {
        let sized = |s: &Size, default: u64| match s {
            Size::Fit => Some(default),
            Size::Absent => None,
            Size::Is(n) => Some(*n),
            Size::Off(d) => Some(default.wrapping_add(*d as i64 as u64)),
        };
        let mut links = Vec::new();
        let mut u = UData::default();
        match &spec.shape {
            Shape::Leaf { file, size, fallback, absent } => {
                let len = if fit <= 2000 { fit } else { *fallback as u64 };
                u.typ = Some(if *file { pbx::FILE } else { pbx::RAW });
                u.filesize = sized(size, fit);
                u.data = if *absent { None } else { Some(vec![0x61; len as usize]) };
            }
            Shape::Lie { file, size, len } => {
                u.typ = Some(if *file { pbx::FILE } else { pbx::RAW });
                u.filesize = sized(size, fit);
                u.data = Some(vec![0x62; *len as usize % 600]);
            }
            Shape::Parts { cuts, size, inline } => {
                u.typ = Some(pbx::FILE);
                u.filesize = sized(size, fit);
                let mut at: Vec<u64> = cuts.iter().map(|c| (fit as u128 * *c as u128 / 65535) as u64).collect();
                at.sort_unstable();
                at.push(fit);
                let mut start = 0;
                for end in at {
                    u.blocksizes.push(end - start);
                    let hash = self.fresh((start % 5) as u8, end - start, Role::File);
                    links.push(Link { hash: Some(hash), name: Some(String::new()), tsize: Some(end - start) });
                    start = end;
                }
                if *inline {
                    u.data = Some(vec![0x63; 5]);
                }
            }
            Shape::Sizes { sizes, links: n, size, sum } => {
                u.typ = Some(pbx::FILE);
                let total = sizes.iter().fold(0u64, |a, b| a.wrapping_add(*b));
                u.filesize = sized(size, if *sum { total } else { fit });
                u.blocksizes = sizes.clone();
                for i in 0..*n as usize {
                    let hash = self.fresh(i as u8, sizes.get(i).copied().unwrap_or(3), Role::File);
                    links.push(Link { hash: Some(hash), name: None, tsize: None });
                }
            }
            Shape::Dir(hs) => {
                u.typ = Some(pbx::DIRECTORY);
                links = self.links(hs, u.typ == Some(pbx::HAMT));
            }
            Shape::Hamt(hs, fanout, hash) => {
                u.typ = Some(pbx::HAMT);
                u.fanout = *fanout;
                u.hash_type = *hash;
                u.data = Some(vec![0xff; hs.len() % 33]);
                links = self.links(hs, u.typ == Some(pbx::HAMT));
            }
            Shape::Symlink(t) => {
                u.typ = Some(pbx::SYMLINK);
                u.data = t.clone();
            }
            Shape::Typed { typ, links: hs } => {
                u.typ = Some(*typ);
                links = self.links(hs, u.typ == Some(pbx::HAMT));
            }
            Shape::Alien(data, hs) => {
                let links = self.links(hs, u.typ == Some(pbx::HAMT));
                let mut b = Node { links, data: data.clone() }.encode();
                spec.edits.iter().for_each(|e| e.apply(&mut b));
                return b;
            }
            Shape::Bytes(b) => {
                let mut b = b.clone();
                spec.edits.iter().for_each(|e| e.apply(&mut b));
                return b;
            }
        }
        if !spec.meta.is_none() {
            spec.meta.apply(&mut u);
        }
        if let Some((filesize, fanout, blocksizes, hash)) = &spec.extra {
            u.filesize = filesize.or(u.filesize);
            u.fanout = fanout.or(u.fanout);
            u.hash_type = hash.or(u.hash_type);
            u.blocksizes.extend(blocksizes);
        }
        let mut b = Node::new(links, &u).encode();
        spec.edits.iter().for_each(|e| e.apply(&mut b));
        b
    }

    fn expected(&self, c: &Cidb) -> (u64, Role) {
        self.sizes.get(c).copied().unwrap_or((0, Role::Any))
    }
}

// ---- driving the crate ----

/// Shows everything an error can show.
fn shown<E: StdError>(e: &E) -> Res {
    let text = format!("{}", e);
    let debug = format!("{:?} {:#?}", e, e);
    let mut s: Option<&(dyn StdError + 'static)> = StdError::source(e);
    let mut n = 0;
    while let Some(x) = s {
        let _ = format!("{} {:?}", x, x);
        s = x.source();
        n += 1;
        if n > 20 {
            return Err("the sources of an error do not end".into());
        }
    }
    if text.is_empty() || debug.is_empty() {
        return Err(format!("error without a text: {:?}", e));
    }
    Ok(())
}

fn metadata(m: &Metadata) {
    let _ = format!("{:?} {:?} {:?} {:?}", m, m.mode(), m.mtime(), m.mtime_as_filetime());
    assert!(m.clone() == *m);
}

/// Caches which live through all reads of a case.
#[derive(Default)]
struct Caches {
    visit: Option<VisitCache>,
    look: Option<dir::Cache>,
}

/// How a read ended and after how many blocks.
struct Outcome {
    blocks: usize,
    error: bool,
    capped: bool,
    bytes: usize,
    /// bytes given so far: names, needles and blocks
    given: usize,
    /// the call which took most memory compared to what was allowed: its number, the memory,
    /// the bytes given until then
    most: (usize, usize, usize),
}

/// What a call may allocate when this many bytes were given until then, itself included.
fn allowance(given: usize) -> usize {
    MEM_BASE + MEM_FACTOR * given
}

const MEM_BASE: usize = 16 * 1024;
const MEM_FACTOR: usize = 512;

impl Outcome {
    fn call<T>(&mut self, f: impl FnOnce() -> T) -> T {
        let (r, m) = mem::measure(f);
        let (_, most, given) = self.most;
        if m as u128 * allowance(given) as u128 > most as u128 * allowance(self.given) as u128 {
            self.most = (self.blocks, m, self.given);
        }
        r
    }
}

type Serve<'a> = dyn FnMut(usize, Option<&Cidb>) -> Option<Arc<Vec<u8>>> + 'a;

fn within(bytes: &[u8], block: &[u8]) -> Res {
    if bytes.is_empty() {
        return Ok(());
    }
    if bytes.len() > block.len() || !block.windows(bytes.len()).any(|w| w == bytes) {
        return Err(format!("{} bytes handed out are not in the block of {}", bytes.len(), block.len()));
    }
    Ok(())
}

fn read(op: &Op, serve: &mut Serve<'_>, caches: &mut Caches, cap: usize) -> Result<Outcome, String> {
    let mut out = Outcome { blocks: 0, error: false, capped: false, bytes: 0, given: 0, most: (0, 0, 0) };
    match op {
        Op::Parse => {
            while out.blocks < cap {
                let Some(b) = serve(out.blocks, None) else { break };
                out.blocks += 1;
                out.given = b.len();
                parse(&b, &mut out)?;
            }
        }
        Op::Walk { name } => {
            let root = pbx::cid_v1(b"root");
            out.given = name.len();
            let mut w = Walker::new(pbx::to_cid(&root), name.clone());
            if !w.should_continue() {
                return Err("a new walk does not continue".into());
            }
            while w.should_continue() {
                if out.blocks >= cap {
                    out.capped = true;
                    break;
                }
                let pending = cids(w.pending_links());
                let Some(b) = serve(out.blocks, Some(&pending[0])) else { break };
                out.blocks += 1;
                out.given += b.len();
                match out.call(|| w.next(&b, &mut caches.visit)) {
                    Ok(c) => {
                        let _ = format!("{:?}", c);
                        match c {
                            ContinuedWalk::File(s, c, p, m, size) => {
                                within(s.as_bytes(), &b)?;
                                out.bytes += s.as_bytes().len();
                                let _ = (s.is_first(), s.is_last(), c.to_bytes(), p.to_path_buf(), size);
                                metadata(m);
                            }
                            ContinuedWalk::Directory(c, p, m) | ContinuedWalk::RootDirectory(c, p, m) => {
                                let _ = (c.to_bytes(), p.to_path_buf());
                                metadata(m);
                            }
                            ContinuedWalk::Bucket(c, p) => {
                                let _ = (c.to_bytes(), p.to_path_buf());
                            }
                            ContinuedWalk::Symlink(t, c, p, m) => {
                                within(t, &b)?;
                                let _ = (c.to_bytes(), p.to_path_buf());
                                metadata(m);
                            }
                        }
                    }
                    Err(e) => {
                        shown(&e)?;
                        if w.should_continue() {
                            return Err(format!("the walk would continue after {:?}", e));
                        }
                        out.error = true;
                    }
                }
                let _ = format!("{:?}", w);
            }
        }
        Op::Visit { range } => {
            let mut idle = IdleFileVisit::default();
            if let Some((a, b)) = range {
                idle = idle.with_target_range(*a..*b);
            }
            let Some(b) = serve(0, None) else { return Ok(out) };
            out.blocks = 1;
            out.given = b.len();
            let mut step = match out.call(|| idle.start(&b)) {
                Ok((bytes, size, m, step)) => {
                    within(bytes, &b)?;
                    out.bytes += bytes.len();
                    metadata(&m);
                    if let Some(s) = &step {
                        if s.file_size() != size {
                            return Err(format!("sizes {} and {} of the same file", s.file_size(), size));
                        }
                    }
                    step
                }
                Err(e) => {
                    shown(&e)?;
                    out.error = true;
                    None
                }
            };
            while let Some(v) = step {
                if out.blocks >= cap {
                    out.capped = true;
                    break;
                }
                let _ = format!("{:?}", v);
                metadata(v.as_ref());
                let pending = cids(v.pending_links());
                let Some(b) = serve(out.blocks, Some(&pending[0])) else { break };
                out.blocks += 1;
                out.given += b.len();
                step = match out.call(|| v.continue_walk(&b, &mut caches.visit)) {
                    Ok((bytes, s)) => {
                        within(bytes, &b)?;
                        out.bytes += bytes.len();
                        s
                    }
                    Err(e) => {
                        shown(&e)?;
                        out.error = true;
                        None
                    }
                };
            }
        }
        Op::Look { seg, owned } => {
            fn step<'a>(
                l: dir::ShardedLookup<'a>,
                b: &[u8],
                c: &mut Option<dir::Cache>,
            ) -> Result<MaybeResolved<'a>, LookupError> {
                l.continue_walk(b, c)
            }
            let Some(b) = serve(0, None) else { return Ok(out) };
            out.blocks = 1;
            out.given = seg.len() + b.len();
            let mut at = match out.call(|| resolve(&b, seg, &mut caches.look)) {
                Ok(m) => m,
                Err(e) => {
                    shown(&e)?;
                    out.error = true;
                    return Ok(out);
                }
            };
            while let MaybeResolved::NeedToLoadMore(l) = at {
                if out.blocks >= cap {
                    out.capped = true;
                    break;
                }
                let _ = format!("{:?}", l);
                let pending = cids(l.pending_links());
                let Some(b) = serve(out.blocks, Some(&pending[0])) else { break };
                out.blocks += 1;
                out.given += b.len();
                let r = out.call(|| if *owned {
                    step(l.with_owned_needle(), &b, &mut caches.look)
                } else {
                    step(l, &b, &mut caches.look)
                });
                at = match r {
                    Ok(m) => m,
                    Err(e) => {
                        shown(&e)?;
                        shown(&e.into_resolve_error())?;
                        out.error = true;
                        break;
                    }
                };
            }
        }
    }
    Ok(out)
}

/// Everything which takes one block or message.
fn parse(b: &[u8], out: &mut Outcome) -> Res {
    match out.call(|| PBNode::try_from(b)) {
        Ok(n) => {
            let _ = format!("{:?}", n);
        }
        Err(e) => shown(&e)?,
    }
    match out.call(|| UnixFs::try_from(Some(b))) {
        Ok(u) => metadata(&Metadata::from(&u)),
        Err(e) => shown(&e)?,
    }
    match out.call(|| FlatUnixFs::try_from(b)) {
        Ok(f) => {
            let _ = format!("{:?}", f);
        }
        Err(e) => shown(&e)?,
    }
    let data = match out.call(|| node_data(b)) {
        Ok(d) => {
            within(d.unwrap_or_default(), b)?;
            Some(d.unwrap_or_default())
        }
        Err(e) => {
            shown(&e)?;
            None
        }
    };
    match (out.call(|| wrap_node_data(b)), data) {
        (Ok(w), Some(d)) => {
            let _ = format!("{:?}", w);
            if w.node_data() != d || *w.get_ref() != b || w.into_inner() != b {
                return Err("the wrapped block is another".into());
            }
            match out.call(|| UnixFs::try_from(Some(d))) {
                Ok(u) => metadata(&Metadata::from(&u)),
                Err(e) => shown(&e)?,
            }
        }
        (Err(e), None) => shown(&e)?,
        _ => return Err("node_data and wrap_node_data disagree".into()),
    }
    Ok(())
}

// ---- generating ----

fn hostile_size() -> BoxedStrategy<u64> {
    prop_oneof![
        4 => 0u64..20,
        1 => 100u64..5000,
        2 => prop::sample::select(vec![
            u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, u32::MAX as u64, 1 << 32, (1 << 31) - 1, 1 << 31, 1 << 62,
        ]),
        1 => any::<u64>(),
    ]
    .boxed()
}

fn size() -> BoxedStrategy<Size> {
    prop_oneof![
        8 => Just(Size::Fit),
        1 => Just(Size::Absent),
        1 => hostile_size().prop_map(Size::Is),
        1 => (-3i8..=3).prop_map(Size::Off),
    ]
    .boxed()
}

fn hostile_name() -> BoxedStrategy<Option<String>> {
    prop_oneof![
        1 => Just(None),
        6 => prop::sample::select(vec![
            "a", "b", "", ".", "..", "...", "/", "//", "a/b", "/a", "a/", "../a", "é", "aé", "日本", "\u{10ffff}", "\0", "a\0", " ", "\\", "~", "-",
            "0", "x", "CON", "\u{200b}", "\n",
        ]).prop_map(|s| Some(s.to_string())),
        1 => name().prop_map(Some),
        1 => (1usize..5000).prop_map(|n| Some("n".repeat(n))),
        1 => long_name().prop_map(Some),
    ]
    .boxed()
}

fn shard_name() -> BoxedStrategy<Option<String>> {
    prop_oneof![
        1 => hostile_name(),
        4 => (any::<u8>(), prop_oneof![3 => Just(Some(String::new())), 4 => Just(Some("x".to_string())), 3 => hostile_name()])
            .prop_map(|(p, n)| n.map(|n| format!("{:02X}{}", p, n))),
        1 => prop::sample::select(vec!["F", "é", "Fé", "éx", "日", "aé", "ff", "zz", "  ", "FF/", "FF.", "FF..", "FF/a", "\u{10ffff}", "\u{10ffff}x"])
            .prop_map(|s| Some(s.to_string())),
    ]
    .boxed()
}

fn hlinks(shard: bool) -> BoxedStrategy<Vec<HLink>> {
    let one = move || {
        (
            if shard { shard_name() } else { hostile_name() },
            prop::option::weighted(0.03, bad_hash()),
            prop::option::weighted(0.05, any::<u16>()),
            any::<u8>(),
            prop::option::weighted(0.7, hostile_size()),
        )
            .prop_map(|(name, bad, again, style, tsize)| HLink { name, bad, again, style, tsize })
    };
    let plain = move || {
        (0u8..40, any::<bool>(), 0u8..5).prop_map(move |(n, sub, style)| HLink {
            name: Some(match (shard, sub) {
                (true, true) => format!("{:02X}", n),
                (true, false) => format!("{:02X}{}", n, if n < 20 { "x".to_string() } else { format!("n{}", n) }),
                (false, _) => format!("n{}", n),
            }),
            bad: None,
            again: None,
            style,
            tsize: Some(n as u64),
        })
    };
    prop_oneof![
        6 => vec(plain(), 0..6),
        4 => (vec(plain(), 0..3), one(), vec(plain(), 0..3)).prop_map(|(mut a, b, c)| {
            a.push(b);
            a.extend(c);
            a
        }),
        2 => vec(one(), 0..4),
        1 => (one(), 1usize..60).prop_map(|(l, n)| vec![l; n]),
    ]
    .boxed()
}

fn spec() -> BoxedStrategy<Spec> {
    let shape = prop_oneof![
        10 => (any::<bool>(), size(), any::<u8>(), prop::bool::weighted(0.1))
            .prop_map(|(file, size, fallback, absent)| Shape::Leaf { file, size, fallback, absent }),
        3 => (any::<bool>(), size(), any::<u16>()).prop_map(|(file, size, len)| Shape::Lie { file, size, len }),
        10 => (vec(prop_oneof![3 => any::<u16>(), 1 => Just(0u16), 1 => Just(65535u16)], 0..5), size(), prop::bool::weighted(0.05))
            .prop_map(|(cuts, size, inline)| Shape::Parts { cuts, size, inline }),
        4 => (vec(hostile_size(), 0..5), 0u8..6, any::<bool>(), size(), any::<bool>()).prop_map(|(sizes, n, same, size, sum)| {
            let links = if same { sizes.len() as u8 } else { n };
            Shape::Sizes { sizes, links, size, sum }
        }),
        7 => hlinks(false).prop_map(Shape::Dir),
        7 => (hlinks(true), prop_oneof![20 => Just(Some(256u64)), 1 => hostile_size().prop_map(Some), 1 => Just(None)],
              prop_oneof![20 => Just(Some(0x22u64)), 1 => hostile_size().prop_map(Some), 1 => Just(None)])
            .prop_map(|(l, f, h)| Shape::Hamt(l, f, h)),
        2 => prop::option::weighted(0.8, vec(any::<u8>(), 0..20)).prop_map(Shape::Symlink),
        1 => (prop_oneof![0u64..8, hostile_size()], hlinks(false)).prop_map(|(typ, links)| Shape::Typed { typ, links }),
        1 => (prop::option::of(codec::noise()), hlinks(false)).prop_map(|(d, l)| Shape::Alien(d, l)),
        1 => codec::noise().prop_map(Shape::Bytes),
    ];
    let extra = (
        prop::option::of(hostile_size()),
        prop::option::of(hostile_size()),
        vec(hostile_size(), 0..3),
        prop::option::of(hostile_size()),
    );
    let edits = prop_oneof![12 => Just(vec![]), 1 => vec(codec::edit(), 1..3)];
    (
        shape,
        prop_oneof![8 => Just(Meta::default()), 1 => meta_strong()],
        prop::option::weighted(0.04, extra),
        edits,
    )
        .prop_map(|(shape, meta, extra, edits)| Spec { shape, meta, extra, edits })
        .boxed()
}

fn root_name() -> BoxedStrategy<String> {
    prop_oneof![
        2 => Just(String::new()),
        2 => prop::sample::select(vec![
            ".", "..", "/", "//", "a", "a/b", "/a", "a/", "./a", "a/.", "a/..", "../..", "a//b", "\0", "é", " ", "a/b/c/d", "/./", "\\", "C:\\x",
        ]).prop_map(str::to_string),
        1 => "\\PC{0,12}".prop_map(String::from),
    ]
    .boxed()
}

fn op(parse: bool) -> BoxedStrategy<Op> {
    let bound = || prop_oneof![3 => 0u64..30, 2 => hostile_size(), 1 => 0u64..6000];
    let seg = prop_oneof![
        3 => prop::sample::select(vec!["x", "n1", "n5", "n30", "a"]).prop_map(str::to_string),
        2 => hostile_name().prop_map(|n| n.unwrap_or_default()),
    ];
    prop_oneof![
        5 => root_name().prop_map(|name| Op::Walk { name }),
        4 => prop::option::weighted(0.7, (bound(), bound())).prop_map(|range| Op::Visit { range }),
        4 => (seg, any::<bool>()).prop_map(|(seg, owned)| Op::Look { seg, owned }),
        parse as u32 => Just(Op::Parse),
    ]
    .boxed()
}

pub struct C15;

impl Check for C15 {
    type Case = Case15;
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "A server makes the block for each step of a walk (any root name), file visit (any range), \
         lookup (any needle) or parse from a description: leaves and inner nodes which fit the size \
         their link announced or lie about it, sizes up to the 64-bit limit, directories and shards \
         with odd link names and hashes, other and undefined types, odd properties, damaged bytes; one \
         to three reads share their caches. Also generated trees with blocks damaged or swapped, and \
         sequences of random bytes. Every error is displayed with its sources, everything handed out \
         is read. Non-trivial: a block was read beyond the first, or a first block which parses as \
         dag-pb was refused."
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 500_000,
            Tier::Thorough => 30_000_000,
        }
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Case15> {
        let cap = if tier == Tier::Quick { 60u16 } else { 300 };
        let server = || {
            (
                vec(op(true), 1..4),
                prop_oneof![6 => 0u64..40, 2 => 100u64..10_000, 2 => hostile_size()],
                prop_oneof![6 => vec(spec(), 1..8), 3 => vec(spec(), 8..24)],
                prop::bool::weighted(0.8),
            )
        };
        let swap = prop_oneof![
            3 => vec(codec::edit(), 1..4).prop_map(Swap::Edits),
            2 => any::<u16>().prop_map(Swap::Other),
            2 => spec().prop_map(Swap::Spec),
        ];
        prop_oneof![
            8 => server().prop_map(move |(ops, size, specs, suited)| Case15::Server { ops, size, specs, suited, cap }),
            3 => (ttree(2, 12), op(false), vec((0u8..20, swap), 1..4)).prop_map(|(root, op, swaps)| Case15::Tree { root, op, swaps }),
            1 => (op(true), vec(codec::noise(), 1..4)).prop_map(|(op, blocks)| Case15::Noise { op, blocks }),
        ]
        .boxed()
    }
    fn run(&self, case: &Case15, ctx: &mut Ctx) -> Res {
        run_case(case, ctx).map(|_| ())
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "A walk is not continued, and its pending links are not asked for, once it reports that it will not continue (documented to panic).",
            "Reads are stopped after 60 blocks (400 for trees): endless trees are not told from long ones. A single call which never returns ends the run with an error, not a verdict.",
        ]
    }
}

/// All reads of a case, with how they ended.
fn run_case(case: &Case15, ctx: &mut Ctx) -> Result<Vec<(Op, Outcome)>, String> {
        let mut caches = Caches::default();
        let mut all_reads = vec![];
        let judge = |op: &Op, o: &Outcome, first: &[u8], ctx: &mut Ctx| {
            ctx.nontrivial |= o.blocks > 1 || o.error && PBNode::try_from(first).is_ok();
            ctx.class(match op {
                Op::Walk { .. } => "walk",
                Op::Visit { range: None } => "visit",
                Op::Visit { .. } => "visit of a range",
                Op::Look { .. } => "lookup",
                Op::Parse => "parse",
            });
            if o.error {
                ctx.class(match o.blocks {
                    0 | 1 => "refused at the first block",
                    2 | 3 => "refused at block 2 or 3",
                    4..=9 => "refused at block 4 to 9",
                    _ => "refused at block 10 or later",
                });
            } else if o.capped {
                ctx.class("stopped by the harness");
            } else if *op != Op::Parse {
                ctx.class("read to the end");
                ctx.class_if(o.blocks >= 5, "read to the end, five blocks or more");
            }
            ctx.class_if(o.bytes > 0, "content handed out");
        };
        match case {
            Case15::Server { ops, size, specs, suited, cap } => {
                let mut reads_after_error = false;
                let mut failed = false;
                for op in ops {
                    let mut server = Server::default();
                    let mut first = None;
                    let mut serve = |n: usize, c: Option<&Cidb>| {
                        if *op == Op::Parse && n >= specs.len() {
                            return None;
                        }
                        let root = match op {
                            Op::Visit { .. } => Role::File,
                            Op::Look { .. } => Role::Dir,
                            _ => Role::Any,
                        };
                        let (fit, role) = match c {
                            Some(c) if n > 0 => server.expected(c),
                            _ => (*size, root),
                        };
                        let mut i = n % specs.len();
                        if *suited {
                            let next = (0..specs.len()).map(|k| (n + k) % specs.len());
                            i = next.into_iter().find(|k| specs[*k].shape.suits(role)).unwrap_or(i);
                        }
                        let b = Arc::new(server.block(&specs[i], fit));
                        first.get_or_insert_with(|| b.clone());
                        Some(b)
                    };
                    let o = read(op, &mut serve, &mut caches, *cap as usize)?;
                    reads_after_error |= failed && *op != Op::Parse;
                    failed |= o.error;
                    judge(op, &o, first.as_deref().map(|b| &b[..]).unwrap_or_default(), ctx);
                    all_reads.push((op.clone(), o));
                }
                ctx.class_if(reads_after_error, "read with the caches of a failed read");
            }
            Case15::Tree { root, op, swaps } => {
                let mut store = Store::new();
                let model = root.build(&mut store);
                let all: Vec<Arc<Vec<u8>>> = {
                    let mut v: Vec<_> = store.iter().collect();
                    v.sort();
                    v.into_iter().map(|(_, b)| b.clone()).collect()
                };
                let op = match op {
                    // a name which is there
                    Op::Look { seg, owned } if seg.starts_with('n') => {
                        let e = model.entries();
                        let seg = e.get(seg.len() * 7 % e.len().max(1)).map(|e| e.name.clone()).unwrap_or_default();
                        Op::Look { seg, owned: *owned }
                    }
                    o => o.clone(),
                };
                let mut server = Server::default();
                let mut swapped = 0;
                let mut first = None;
                let mut serve = |n: usize, c: Option<&Cidb>| {
                    let mut b = if n == 0 {
                        model.block.clone()
                    } else {
                        match c.and_then(|c| store.get(c)) {
                            Some(b) => b.clone(),
                            None => all.get(n % all.len().max(1)).cloned().unwrap_or_default(),
                        }
                    };
                    for (at, s) in swaps {
                        if *at as usize != n {
                            continue;
                        }
                        swapped += 1;
                        b = Arc::new(match s {
                            Swap::Edits(es) => {
                                let mut b = b.to_vec();
                                es.iter().for_each(|e| e.apply(&mut b));
                                b
                            }
                            Swap::Other(i) if !all.is_empty() => all[*i as usize % all.len()].to_vec(),
                            Swap::Other(_) => vec![],
                            Swap::Spec(s) => server.block(s, 9),
                        });
                    }
                    first.get_or_insert_with(|| b.clone());
                    Some(b)
                };
                let o = read(&op, &mut serve, &mut caches, 400)?;
                ctx.class_if(swapped > 0, "block of a tree replaced");
                judge(&op, &o, first.as_deref().map(|b| &b[..]).unwrap_or_default(), ctx);
                all_reads.push((op, o));
            }
            Case15::Noise { op, blocks } => {
                let mut serve = |n: usize, _: Option<&Cidb>| blocks.get(n).map(|b| Arc::new(b.clone()));
                let o = read(op, &mut serve, &mut caches, 60)?;
                ctx.class("random bytes");
                judge(op, &o, &blocks[0], ctx);
                all_reads.push((op.clone(), o));
            }
        }
        Ok(all_reads)
}

/// The memory a call takes follows from the bytes given, not from numbers within them.
pub struct C24;

impl Check for C24 {
    type Case = Case15;
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> &'static str {
        "The cases of C15 (hostile, damaged and random blocks with sizes, counts and lengths up to the \
         64-bit limit, read by walks, visits, lookups and parsers), and blocks of very many minimal \
         parts. An allocator counts by how much the memory held grows at most during each call; the \
         allowance is a fixed amount and a fixed multiple of all bytes given so far. Non-trivial: a \
         block was read beyond the first, or a first block which parses as dag-pb was refused."
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 150_000,
            Tier::Thorough => 10_000_000,
        }
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Case15> {
        C15.strategy(tier)
    }
    fn fixed(&self, _tier: Tier) -> Vec<Case15> {
        let mut v = vec![];
        let ops = [
            Op::Walk { name: "n".into() },
            Op::Visit { range: None },
            Op::Visit { range: Some((1, u64::MAX)) },
            Op::Look { seg: "x".into(), owned: true },
            Op::Parse,
        ];
        for n in [10usize, 300, 5000, 40_000] {
            for typ in [pbx::RAW, pbx::DIRECTORY, pbx::FILE, pbx::SYMLINK, pbx::HAMT] {
                for kind in 0..4 {
                    let mut u = UData::of(typ);
                    if typ == pbx::HAMT {
                        u.fanout = Some(256);
                        u.hash_type = Some(0x22);
                    }
                    if typ == pbx::FILE {
                        u.filesize = Some(0);
                        u.blocksizes = vec![0; n];
                    }
                    let cid = vec![1, 0x55, 0, 0];
                    let name = |i: usize| if typ == pbx::HAMT { format!("{:02X}{}", i % 256, i) } else { i.to_string() };
                    let links = match kind {
                        // the smallest there are
                        0 => vec![Link { hash: None, name: None, tsize: None }; n],
                        1 => vec![Link { hash: Some(cid.clone()), name: None, tsize: None }; n],
                        2 => (0..n).map(|i| Link { hash: Some(cid.clone()), name: Some(name(i)), tsize: None }).collect(),
                        _ => (0..n).map(|i| Link { hash: Some(pbx::cid_v1(&[i as u8])), name: Some(name(i)), tsize: Some(0) }).collect(),
                    };
                    let mut data = u.encode();
                    if typ == pbx::FILE && kind % 2 == 0 {
                        // packed: one byte for each size
                        u.blocksizes = vec![];
                        data = u.encode();
                        data.push(0x22);
                        pbx::varint(n as u64, &mut data);
                        data.extend(std::iter::repeat(0).take(n));
                    }
                    let block = Node { links, data: Some(data) }.encode();
                    for op in &ops {
                        v.push(Case15::Noise { op: op.clone(), blocks: vec![block.clone(), block[..block.len() / 2].to_vec()] });
                    }
                }
            }
        }
        v
    }
    fn run(&self, case: &Case15, ctx: &mut Ctx) -> Res {
        // what goes wrong otherwise is judged by C15
        for (op, o) in run_case(case, ctx).unwrap_or_default() {
            let (at, memory, given) = o.most;
            ctx.class_if(memory > MEM_BASE, "a call took more than 16 KiB");
            if memory > allowance(given) {
                return Err(format!("{:?}: at block {} a call took {} bytes of memory, with {} bytes given so far", op, at, memory, given));
            }
        }
        Ok(())
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["Proportional means at most 16 KiB and 512 times the bytes given so far, counting what a reallocation briefly holds twice."]
    }
}
