//! Mixed trees of plain directories, sharded directories, files and symlinks, built with the
//! independent encoder, and the reference walk over them.

use crate::ftree::*;
use crate::gen::*;
use crate::pbx::{self, Link, Node, UData};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::sync::Arc;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum TNode {
    File(FTree),
    Symlink { target: String, meta: Meta },
    Dir { entries: Vec<TEntry>, meta: Meta, sorted: bool, empty_data: bool },
    Hamt { entries: Vec<TEntry>, meta: Meta, bitfield: u8 },
    /// many small entries, to get real bucket collisions; every seventh entry lies `deepen & 0x7f`
    /// buckets deeper than needed, or every entry with the top bit set
    Wide { n: u16, hamt: bool, seed: u32, deepen: u8 },
    /// `depth` directories inside each other, every `hamt`-th one sharded (0: none), with
    /// `side` files in each
    Chain { depth: u16, hamt: u8, side: u8 },
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct TEntry {
    pub name: String,
    /// extend the name until its first hash byte is this
    pub force: Option<u8>,
    /// place it this many buckets deeper than needed (sharded directories)
    pub deepen: u8,
    pub style: u8,
    pub tsize: bool,
    pub node: TNode,
}

/// First 64 bits of murmur3 x64 128, the hash of sharded directories.
pub fn murmur3_64(data: &[u8]) -> u64 {
    const C1: u64 = 0x87c37b91114253d5;
    const C2: u64 = 0x4cf5ad432745937f;
    fn fmix(mut k: u64) -> u64 {
        k ^= k >> 33;
        k = k.wrapping_mul(0xff51afd7ed558ccd);
        k ^= k >> 33;
        k = k.wrapping_mul(0xc4ceb9fe1a85ec53);
        k ^ (k >> 33)
    }
    let (mut h1, mut h2) = (0u64, 0u64);
    let mut chunks = data.chunks_exact(16);
    for c in &mut chunks {
        let k1 = u64::from_le_bytes(c[..8].try_into().unwrap());
        let k2 = u64::from_le_bytes(c[8..].try_into().unwrap());
        h1 ^= k1.wrapping_mul(C1).rotate_left(31).wrapping_mul(C2);
        h1 = h1.rotate_left(27).wrapping_add(h2).wrapping_mul(5).wrapping_add(0x52dce729);
        h2 ^= k2.wrapping_mul(C2).rotate_left(33).wrapping_mul(C1);
        h2 = h2.rotate_left(31).wrapping_add(h1).wrapping_mul(5).wrapping_add(0x38495ab5);
    }
    let tail = chunks.remainder();
    let (mut k1, mut k2) = (0u64, 0u64);
    for (i, b) in tail.iter().enumerate() {
        if i < 8 {
            k1 |= (*b as u64) << (8 * i);
        } else {
            k2 |= (*b as u64) << (8 * (i - 8));
        }
    }
    if tail.len() > 8 {
        h2 ^= k2.wrapping_mul(C2).rotate_left(33).wrapping_mul(C1);
    }
    if !tail.is_empty() {
        h1 ^= k1.wrapping_mul(C1).rotate_left(31).wrapping_mul(C2);
    }
    h1 ^= data.len() as u64;
    h2 ^= data.len() as u64;
    h1 = h1.wrapping_add(h2);
    h2 = h2.wrapping_add(h1);
    h1 = fmix(h1);
    h2 = fmix(h2);
    h1.wrapping_add(h2)
}

pub fn hash_path(name: &str) -> [u8; 8] {
    murmur3_64(name.as_bytes()).to_be_bytes()
}

#[derive(Debug)]
pub struct TModel {
    pub block: Arc<Vec<u8>>,
    pub cum: u64,
    pub meta: Meta,
    pub kind: TKind,
}

#[derive(Debug)]
pub enum TKind {
    File(Arc<FModel>),
    Symlink(Vec<u8>),
    Dir(Vec<TLink>),
    Hamt(Arc<Bucket>),
}

#[derive(Debug, Clone)]
pub struct TLink {
    pub name: String,
    pub cid: Cidb,
    pub node: Arc<TModel>,
}

#[derive(Debug)]
pub struct Bucket {
    pub block: Arc<Vec<u8>>,
    pub cum: u64,
    pub items: Vec<BItem>,
}

#[derive(Debug, Clone)]
pub enum BItem {
    Entry(TLink),
    Sub(Cidb, Arc<Bucket>),
}

impl Bucket {
    pub fn entries(&self) -> Vec<TLink> {
        let mut v = Vec::new();
        for i in &self.items {
            match i {
                BItem::Entry(l) => v.push(l.clone()),
                BItem::Sub(_, b) => v.extend(b.entries()),
            }
        }
        v
    }
    /// Number of buckets below this one.
    pub fn buckets(&self) -> usize {
        self.items
            .iter()
            .map(|i| match i {
                BItem::Entry(_) => 0,
                BItem::Sub(_, b) => 1 + b.buckets(),
            })
            .sum()
    }
    pub fn depth(&self) -> usize {
        self.items
            .iter()
            .map(|i| match i {
                BItem::Entry(_) => 0,
                BItem::Sub(_, b) => 1 + b.depth(),
            })
            .max()
            .unwrap_or(0)
    }
}

impl TModel {
    pub fn entries(&self) -> Vec<TLink> {
        match &self.kind {
            TKind::Dir(l) => l.clone(),
            TKind::Hamt(b) => b.entries(),
            _ => vec![],
        }
    }
    pub fn is_dir(&self) -> bool {
        matches!(self.kind, TKind::Dir(_) | TKind::Hamt(_))
    }
}

fn final_name(e: &TEntry, hamt: bool, used: &mut BTreeSet<String>) -> String {
    let base = fix_name(e.name.clone());
    let fits = |n: &str| !hamt || e.force.map(|f| hash_path(n)[0] == f).unwrap_or(true);
    let mut n = base.clone();
    let mut k = 0u32;
    while used.contains(&n) || !fits(&n) {
        n = format!("{}~{}", base, k);
        k += 1;
    }
    used.insert(n.clone());
    n
}

struct HEntry {
    link: TLink,
    deepen: u8,
    tsize: Option<u64>,
    path: [u8; 8],
}

/// The prefix of a link in a bucket.
fn digits(bitfield: u8, p: u8) -> String {
    if bitfield / 12 % 2 == 1 {
        format!("{:02x}", p)
    } else {
        format!("{:02X}", p)
    }
}

fn build_bucket(entries: Vec<HEntry>, depth: usize, meta: &Meta, bitfield: u8, store: &mut Store) -> Arc<Bucket> {
    let mut groups: Vec<(u8, Vec<HEntry>)> = Vec::new();
    let mut entries = entries;
    entries.sort_by_key(|e| e.path[depth.min(7)]);
    for e in entries {
        let p = e.path[depth.min(7)];
        match groups.last_mut() {
            Some((q, v)) if *q == p => v.push(e),
            _ => groups.push((p, vec![e])),
        }
    }
    let mut links = Vec::new();
    let mut items = Vec::new();
    let mut cum = 0;
    let mut bits = vec![0u8; 32];
    for (p, mut v) in groups {
        bits[31 - (p as usize) / 8] |= 1 << (p % 8);
        let direct = v.len() == 1 && v[0].deepen == 0 || depth >= 7;
        if direct {
            for e in v {
                links.push(Link {
                    hash: Some(e.link.cid.clone()),
                    name: Some(format!("{}{}", digits(bitfield, p), e.link.name)),
                    tsize: e.tsize,
                });
                cum += e.link.node.cum;
                items.push(BItem::Entry(e.link));
            }
        } else {
            for e in v.iter_mut() {
                e.deepen = e.deepen.saturating_sub(1);
            }
            let b = build_bucket(v, depth + 1, &Meta::default(), bitfield, store);
            // all buckets of a directory are linked in the same way
            let cid = pbx::cid_style(bitfield / 3, &b.block);
            store.insert(cid.clone(), b.block.clone());
            links.push(Link {
                hash: Some(cid.clone()),
                name: Some(digits(bitfield, p)),
                tsize: recorded(bitfield / 24 != 1, bitfield / 24, b.cum),
            });
            cum += b.cum;
            items.push(BItem::Sub(cid, b));
        }
    }
    let mut u = UData::of(pbx::HAMT);
    u.data = match bitfield % 3 {
        0 => Some(bits),
        1 => Some(bits.into_iter().skip_while(|b| *b == 0).collect()),
        _ => None,
    };
    u.hash_type = Some(0x22);
    u.fanout = Some(256);
    meta.apply(&mut u);
    let block = Arc::new(Node::new(links, &u).encode());
    Arc::new(Bucket {
        cum: cum + block.len() as u64,
        block,
        items,
    })
}

impl TNode {
    pub fn build(&self, store: &mut Store) -> Arc<TModel> {
        match self {
            TNode::File(f) => {
                let m = f.build(store);
                Arc::new(TModel {
                    block: m.block.clone(),
                    cum: m.cum,
                    meta: f.meta.clone(),
                    kind: TKind::File(m),
                })
            }
            TNode::Symlink { target, meta } => {
                let mut u = UData::of(pbx::SYMLINK);
                u.data = Some(target.as_bytes().to_vec());
                meta.apply(&mut u);
                let block = Arc::new(Node::new(vec![], &u).encode());
                Arc::new(TModel {
                    cum: block.len() as u64,
                    block,
                    meta: meta.clone(),
                    kind: TKind::Symlink(target.as_bytes().to_vec()),
                })
            }
            TNode::Dir { entries, meta, sorted, empty_data } => {
                let mut used = BTreeSet::new();
                let mut ls: Vec<(TLink, Option<u64>)> = entries
                    .iter()
                    .map(|e| {
                        let name = final_name(e, false, &mut used);
                        let node = e.node.build(store);
                        let cid = pbx::cid_style(e.style, &node.block);
                        store.insert(cid.clone(), node.block.clone());
                        let t = recorded(e.tsize, e.style / 4, node.cum);
                        (TLink { name, cid, node }, t)
                    })
                    .collect();
                if *sorted {
                    ls.sort_by(|a, b| a.0.name.as_bytes().cmp(b.0.name.as_bytes()));
                }
                let links = ls
                    .iter()
                    .map(|(l, t)| Link {
                        hash: Some(l.cid.clone()),
                        name: Some(l.name.clone()),
                        tsize: *t,
                    })
                    .collect();
                let mut u = UData::of(pbx::DIRECTORY);
                if *empty_data {
                    u.data = Some(vec![]);
                }
                meta.apply(&mut u);
                let block = Arc::new(Node::new(links, &u).encode());
                Arc::new(TModel {
                    cum: block.len() as u64 + ls.iter().map(|(l, _)| l.node.cum).sum::<u64>(),
                    block,
                    meta: meta.clone(),
                    kind: TKind::Dir(ls.into_iter().map(|(l, _)| l).collect()),
                })
            }
            TNode::Hamt { entries, meta, bitfield } => {
                let mut used = BTreeSet::new();
                let es = entries
                    .iter()
                    .map(|e| {
                        let name = final_name(e, true, &mut used);
                        let node = e.node.build(store);
                        let cid = pbx::cid_style(e.style, &node.block);
                        store.insert(cid.clone(), node.block.clone());
                        HEntry {
                            path: hash_path(&name),
                            tsize: recorded(e.tsize, e.style / 4, node.cum),
                            deepen: e.deepen,
                            link: TLink { name, cid, node },
                        }
                    })
                    .collect();
                let b = build_bucket(es, 0, meta, *bitfield, store);
                Arc::new(TModel {
                    block: b.block.clone(),
                    cum: b.cum,
                    meta: meta.clone(),
                    kind: TKind::Hamt(b),
                })
            }
            TNode::Chain { depth, hamt, side } => {
                let file = |i: u32| {
                    TNode::File(FTree {
                        root: FNode::Leaf { c: Content { len: i % 5, seed: i, kind: 0 }, file: true, size: true, data: false },
                        meta: Meta::default(),
                    })
                };
                let entry = |name: String, node: TNode| TEntry { name, force: None, deepen: 0, style: 1, tsize: true, node };
                let mut node = file(0);
                for i in 0..*depth {
                    let mut entries: Vec<TEntry> = (0..*side).map(|j| entry(format!("f{}", j), file(i as u32 + j as u32))).collect();
                    entries.insert(i as usize % (*side as usize + 1), entry(format!("d{}", i % 10), node));
                    node = if *hamt > 0 && i % *hamt as u16 == 0 {
                        TNode::Hamt { entries, meta: Meta::default(), bitfield: 0 }
                    } else {
                        TNode::Dir { entries, meta: Meta::default(), sorted: false, empty_data: false }
                    };
                }
                node.build(store)
            }
            TNode::Wide { n, hamt, seed, deepen } => {
                let entries = (0..*n)
                    .map(|i| TEntry {
                        name: format!("w{}-{}", seed % 1000, i),
                        force: None,
                        deepen: if i % 7 == 0 || *deepen >= 0x80 { *deepen & 0x7f } else { 0 },
                        style: (i % 4) as u8,
                        tsize: true,
                        node: if i % 5 == 4 {
                            TNode::Symlink { target: format!("t{}", i), meta: Meta::default() }
                        } else {
                            let leaf = |j: u32| FNode::Leaf {
                                c: Content { len: (i as u32 + j) % 9, seed: *seed ^ (i as u32 + j), kind: 0 },
                                file: true,
                                size: true,
                                data: false,
                            };
                            let root = if i % 11 == 3 {
                                let kid = |j| Kid { node: leaf(j), repeat: 1, style: (j % 4) as u8, name: 0, tsize: true };
                                FNode::Inner { kids: (0..2 + i as u32 % 3).map(kid).collect(), file: true }
                            } else {
                                leaf(0)
                            };
                            TNode::File(FTree { root, meta: Meta::default() })
                        },
                    })
                    .collect();
                if *hamt {
                    TNode::Hamt { entries, meta: Meta::default(), bitfield: 0 }.build(store)
                } else {
                    TNode::Dir { entries, meta: Meta::default(), sorted: true, empty_data: false }.build(store)
                }
            }
        }
    }
}

/// What a target may start or end with, and has to keep.
const AFFIXES: &[&str] = &[
    "\0", "\0\0", "\n", "\r\n", "\r", "\t", " ", "  ", "\u{feff}", "\u{a0}", "\u{3000}", "\u{200b}", ".", "..", "/", "//", "/.", "./", "~", "~/", "\\", "\"", "'", "\u{301}", "\u{fffd}",
];

pub fn symlink_target() -> BoxedStrategy<String> {
    let affix = || prop::option::weighted(0.7, prop::sample::select(AFFIXES.to_vec())).prop_map(Option::unwrap_or_default);
    prop_oneof![
        2 => (affix(), "[a-z./]{0,8}", affix()).prop_map(|(a, t, b)| format!("{}{}{}", a, t, b)),
        3 => "[a-z./]{0,20}",
        1 => Just(String::new()),
        1 => prop::sample::select(vec![
            "/", "..", "../../etc/passwd", ".", "a\u{0}b", "\n", "日本語/é", "🦀", "//", "/absolute/path", " ",
        ]).prop_map(str::to_string),
        1 => "\\PC{0,30}",
        1 => prop::sample::select(vec![100usize, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 255, 256, 4096, 16370, 16383, 16384, 16385]).prop_map(|n| "t".repeat(n)),
    ]
    .boxed()
}

pub fn entry(node: BoxedStrategy<TNode>) -> BoxedStrategy<TEntry> {
    (
        name(),
        prop_oneof![2 => Just(None), 2 => prop::sample::select(vec![0u8, 1, 0x7f, 0xff, 0xAB]).prop_map(Some)],
        prop_oneof![6 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 1 => 3u8..=7],
        prop_oneof![9 => 0u8..4, 1 => 8u8..16],
        prop::bool::weighted(0.9),
        node,
    )
        .prop_map(|(name, force, deepen, style, tsize, node)| TEntry { name, force, deepen, style, tsize, node })
        .boxed()
}

/// Repeats the content of one entry elsewhere: in another entry, or one directory further down.
#[derive(Debug, Clone)]
pub struct Again {
    from: u8,
    to: u8,
    name: String,
    under: u8,
    style: Option<u8>,
}

fn again() -> BoxedStrategy<Option<Again>> {
    prop::option::weighted(
        0.12,
        (any::<u8>(), any::<u8>(), name(), 0u8..6, prop::option::weighted(0.2, 0u8..4))
            .prop_map(|(from, to, name, under, style)| Again { from, to, name, under, style }),
    )
    .boxed()
}

/// Gives entries names close to those of others.
fn alike() -> BoxedStrategy<Vec<(u8, u8, u8)>> {
    prop_oneof![4 => Just(vec![]), 1 => prop::collection::vec((any::<u8>(), any::<u8>(), any::<u8>()), 1..4)].boxed()
}

fn renamed(mut entries: Vec<TEntry>, alike: Vec<(u8, u8, u8)>) -> Vec<TEntry> {
    let n = entries.len();
    for (from, to, how) in alike {
        let (from, to) = (from as usize % n.max(1), to as usize % n.max(1));
        if from < n && to < n && from != to {
            entries[from].force = None;
            entries[to].force = None;
            let name = fix_name(entries[from].name.clone());
            entries[to].name = near(&name, &format!("{:02X}", hash_path(&name)[0]), how);
        }
    }
    entries
}

fn repeat(mut entries: Vec<TEntry>, again: Option<Again>) -> Vec<TEntry> {
    let a = match again {
        Some(a) if !entries.is_empty() => a,
        _ => return entries,
    };
    // what can be big or deep is worth more than a leaf
    let from = (0..entries.len())
        .map(|i| (i + a.from as usize) % entries.len())
        .find(|i| !matches!(entries[*i].node, TNode::File(_) | TNode::Symlink { .. }))
        .unwrap_or(a.from as usize % entries.len());
    let mut e = entries[from].clone();
    e.style = a.style.unwrap_or(e.style);
    e.name = a.name;
    for k in 1..a.under {
        let inner = TEntry { name: format!("u{}", k), ..e.clone() };
        e.node = if k % 2 == 1 {
            TNode::Dir { entries: vec![inner], meta: Meta::default(), sorted: false, empty_data: false }
        } else {
            TNode::Hamt { entries: vec![inner], meta: Meta::default(), bitfield: k }
        };
        if k == 2 {
            break;
        }
    }
    let to = a.to as usize % (entries.len() + 1);
    entries.insert(to, e);
    entries
}

pub fn dir_of(node: BoxedStrategy<TNode>, max: usize) -> BoxedStrategy<TNode> {
    (prop::collection::vec(entry(node), 0..=max), meta_some(), any::<bool>(), prop::bool::weighted(0.1), again(), alike())
        .prop_map(|(entries, meta, sorted, empty_data, again, alike)| TNode::Dir { entries: repeat(renamed(entries, alike), again), meta, sorted, empty_data })
        .boxed()
}

pub fn hamt_of(node: BoxedStrategy<TNode>, max: usize) -> BoxedStrategy<TNode> {
    (prop::collection::vec(entry(node), 0..=max), meta_some(), prop_oneof![6 => 0u8..24, 1 => 24u8..96], again(), alike())
        .prop_map(|(entries, meta, bitfield, again, alike)| TNode::Hamt { entries: repeat(renamed(entries, alike), again), meta, bitfield })
        .boxed()
}

pub fn tleaf() -> BoxedStrategy<TNode> {
    prop_oneof![
        3 => ftree_small().prop_map(TNode::File),
        1 => (symlink_target(), meta_some()).prop_map(|(target, meta)| TNode::Symlink { target, meta }),
    ]
    .boxed()
}

/// Trees larger than the generated ones.
pub fn big_trees() -> Vec<TNode> {
    let mut v = vec![];
    for (hamt, side) in [(0, 0), (0, 2), (1, 1), (3, 2)] {
        v.push(TNode::Chain { depth: 130, hamt, side });
    }
    v.push(TNode::Chain { depth: 400, hamt: 2, side: 1 });
    for hamt in [false, true] {
        for n in [513, 1025, 1500] {
            v.push(TNode::Wide { n, hamt, seed: 3, deepen: 1 });
        }
    }
    v.push(TNode::Wide { n: 600, hamt: true, seed: 3, deepen: 0x82 });
    for hamt in [false, true] {
        v.push(TNode::Wide { n: 9000, hamt, seed: 3, deepen: 1 });
    }
    v
}

/// Any tree.
pub fn ttree(depth: u32, size: u32) -> BoxedStrategy<TNode> {
    let rec = tleaf().prop_recursive(depth, size, 5, |inner| {
        let inner = inner.boxed();
        prop_oneof![dir_of(inner.clone(), 6), hamt_of(inner, 6)].boxed()
    });
    let chain = (
        prop::collection::vec((entry(tleaf()), entry(tleaf()), any::<bool>(), any::<bool>(), any::<bool>(), 0u8..24), 1..=20),
        tleaf(),
    )
        .prop_map(|(levels, last)| {
            let mut n = last;
            for (mut e, side, hamt, before, after, bf) in levels {
                e.node = n;
                let mut entries = vec![];
                if before {
                    entries.push(side.clone());
                }
                entries.push(e);
                if after {
                    entries.push(side);
                }
                n = if hamt {
                    TNode::Hamt { entries, meta: Meta::default(), bitfield: bf }
                } else {
                    TNode::Dir { entries, meta: Meta::default(), sorted: false, empty_data: false }
                };
            }
            n
        });
    let wide = (
        prop::sample::select(vec![20u16, 60, 128, 255, 256, 257, 300, 400]),
        any::<bool>(),
        any::<u32>(),
        prop_oneof![3 => 0u8..3, 1 => 0x81u8..0x83],
    )
        .prop_map(|(n, hamt, seed, deepen)| TNode::Wide { n, hamt, seed, deepen });
    let hamtroot = hamt_of(
        tleaf()
            .prop_recursive(2, 12, 4, |inner| {
                let inner = inner.boxed();
                prop_oneof![dir_of(inner.clone(), 3), hamt_of(inner, 4)].boxed()
            })
            .boxed(),
        14,
    );
    prop_oneof![
        1 => tleaf(),
        10 => rec,
        5 => hamtroot,
        2 => chain,
        1 => wide.clone(),
        1 => (entry(wide.boxed()), entry(tleaf()), any::<bool>()).prop_map(|(a, b, hamt)| {
            if hamt {
                TNode::Hamt { entries: vec![a, b], meta: Meta::default(), bitfield: 0 }
            } else {
                TNode::Dir { entries: vec![a, b], meta: Meta::default(), sorted: true, empty_data: false }
            }
        }),
    ]
    .boxed()
}

// ---- reference walk ----

#[derive(Debug, Clone, PartialEq)]
pub enum Ev {
    Dir,
    RootDir,
    Bucket,
    Symlink(Vec<u8>),
    File { bytes: Vec<u8>, first: bool, last: bool, size: u64 },
}

#[derive(Debug, Clone, PartialEq)]
pub struct WStep {
    /// what had to be pending before the step, the next first
    pub pending: Vec<Cidb>,
    pub ev: Ev,
    pub cid: Cidb,
    pub path: String,
    /// not reported for buckets
    pub meta: Option<(Option<u32>, Option<(i64, u32)>)>,
}

#[derive(Clone)]
enum Work {
    Entry { cid: Cidb, node: Arc<TModel>, path: String, top: bool },
    Bucket { cid: Cidb, bucket: Arc<Bucket>, path: String },
    Part { cid: Cidb, part: Arc<FModel>, root_cid: Cidb, size: u64, meta: Meta, path: String, last_part: bool },
}

impl Work {
    fn cid(&self) -> &Cidb {
        match self {
            Work::Entry { cid, .. } | Work::Bucket { cid, .. } | Work::Part { cid, .. } => cid,
        }
    }
}

pub fn join(base: &str, name: &str) -> String {
    if base.is_empty() {
        name.to_string()
    } else if base == "/" {
        format!("/{}", name)
    } else {
        format!("{}/{}", base, name)
    }
}

fn push_bucket(stack: &mut Vec<Work>, b: &Bucket, path: &str) {
    for i in b.items.iter().rev() {
        stack.push(match i {
            BItem::Entry(l) => Work::Entry {
                cid: l.cid.clone(),
                node: l.node.clone(),
                path: join(path, &l.name),
                top: false,
            },
            BItem::Sub(c, b) => Work::Bucket {
                cid: c.clone(),
                bucket: b.clone(),
                path: path.to_string(),
            },
        });
    }
}

/// Pushes the parts of a file node; the very last one carries the mark.
fn push_parts(stack: &mut Vec<Work>, m: &FModel, proto: (&Cidb, u64, &Meta, &str), tail: bool) {
    let n = m.kids.len();
    for (i, (cid, k)) in m.kids.iter().enumerate().rev() {
        stack.push(Work::Part {
            cid: cid.clone(),
            part: k.clone(),
            root_cid: proto.0.clone(),
            size: proto.1,
            meta: proto.2.clone(),
            path: proto.3.to_string(),
            last_part: tail && i + 1 == n,
        });
    }
}

pub fn reference_walk(root: &Arc<TModel>, root_cid: &Cidb, root_name: &str) -> Vec<WStep> {
    let mut steps = Vec::new();
    let mut stack = vec![Work::Entry {
        cid: root_cid.clone(),
        node: root.clone(),
        path: root_name.to_string(),
        top: true,
    }];
    // pending CID lists get long in wide trees; they are built once per step
    while !stack.is_empty() {
        let pending: Vec<Cidb> = stack.iter().rev().take(kept(steps.len())).map(|w| w.cid().clone()).collect();
        let w = stack.pop().unwrap();
        let step = match w {
            Work::Bucket { cid, bucket, path } => {
                push_bucket(&mut stack, &bucket, &path);
                WStep { pending, ev: Ev::Bucket, cid, path, meta: None }
            }
            Work::Part { part, root_cid, size, meta, path, last_part, .. } => {
                if !part.is_leaf() {
                    push_parts(&mut stack, &part, (&root_cid, size, &meta, &path), last_part);
                }
                WStep {
                    pending,
                    ev: Ev::File {
                        bytes: part.content.clone(),
                        first: false,
                        last: last_part && part.is_leaf(),
                        size,
                    },
                    cid: root_cid,
                    path,
                    meta: Some(meta.expected()),
                }
            }
            Work::Entry { cid, node, path, top } => {
                let ev = match &node.kind {
                    TKind::Symlink(t) => Ev::Symlink(t.clone()),
                    TKind::Dir(links) => {
                        for l in links.iter().rev() {
                            stack.push(Work::Entry {
                                cid: l.cid.clone(),
                                node: l.node.clone(),
                                path: join(&path, &l.name),
                                top: false,
                            });
                        }
                        if top {
                            Ev::RootDir
                        } else {
                            Ev::Dir
                        }
                    }
                    TKind::Hamt(b) => {
                        push_bucket(&mut stack, b, &path);
                        Ev::RootDir
                    }
                    TKind::File(m) => {
                        push_parts(&mut stack, m, (&cid, m.size, &node.meta, &path), true);
                        Ev::File {
                            bytes: m.content.clone(),
                            first: true,
                            last: m.is_leaf(),
                            size: m.size,
                        }
                    }
                };
                WStep { pending, ev, cid, path, meta: Some(node.meta.expected()) }
            }
        };
        steps.push(step);
    }
    steps
}

// ---- driving the crate ----

/// How a driven walk or visit ended.
#[derive(Debug)]
pub enum End<E> {
    Done,
    Failed(E),
    /// the harness gave up: nothing the crate said
    Other(String),
}

/// Walks with the crate, at most `cap` blocks, asking `serve` for the block of each step.
pub fn walk_served(
    root_cid: &Cidb,
    root_name: &str,
    mut serve: impl FnMut(usize, &Cidb) -> Option<Arc<Vec<u8>>>,
    cache: &mut Option<unixfs_v1::file::visit::Cache>,
    cap: usize,
) -> (Vec<WStep>, End<unixfs_v1::walk::Error>) {
    use unixfs_v1::walk::{ContinuedWalk, Walker};
    let mut steps = Vec::new();
    let mut w = Walker::new(pbx::to_cid(root_cid), root_name.to_string());
    while w.should_continue() {
        if steps.len() >= cap {
            return (steps, End::Other(format!("walk does not end within {} blocks", cap)));
        }
        let pending = cids_at(steps.len(), w.pending_links());
        let block = match serve(steps.len(), &pending[0]) {
            Some(b) => b,
            None => {
                let e = format!("walk asks for unknown block {}", pbx::hex(&pending[0]));
                return (steps, End::Other(e));
            }
        };
        let m = |m: &unixfs_v1::Metadata| Some((m.mode(), m.mtime()));
        let p = |p: &std::path::Path| p.to_str().expect("utf8 path").to_string();
        let step = match w.next(&block, cache) {
            Err(e) => {
                if w.should_continue() {
                    let e = format!("walk would continue after error {:?} / {}", e, e);
                    return (steps, End::Other(e));
                }
                crate::inspect::current().error(0, &e);
                crate::inspect::current().debug(0, &w);
                return (steps, End::Failed(e));
            }
            Ok(ContinuedWalk::Bucket(c, path)) => WStep { pending, ev: Ev::Bucket, cid: c.to_bytes(), path: p(path), meta: None },
            Ok(ContinuedWalk::Directory(c, path, md)) => WStep { pending, ev: Ev::Dir, cid: c.to_bytes(), path: p(path), meta: m(md) },
            Ok(ContinuedWalk::RootDirectory(c, path, md)) => {
                WStep { pending, ev: Ev::RootDir, cid: c.to_bytes(), path: p(path), meta: m(md) }
            }
            Ok(ContinuedWalk::Symlink(t, c, path, md)) => {
                WStep { pending, ev: Ev::Symlink(t.to_vec()), cid: c.to_bytes(), path: p(path), meta: m(md) }
            }
            Ok(ContinuedWalk::File(seg, c, path, md, size)) => {
                if seg.as_bytes() != seg.as_ref() {
                    return (steps, End::Other("segment accessors disagree".into()));
                }
                WStep {
                    pending,
                    ev: Ev::File {
                        bytes: seg.as_bytes().to_vec(),
                        first: seg.is_first(),
                        last: seg.is_last(),
                        size,
                    },
                    cid: c.to_bytes(),
                    path: p(path),
                    meta: m(md),
                }
            }
        };
        steps.push(step);
    }
    (steps, End::Done)
}

/// Walks with the crate, at most `cap` blocks. `Err` carries the steps before the error.
pub fn walk(
    root_cid: &Cidb,
    root_name: &str,
    store: &Store,
    cache: &mut Option<unixfs_v1::file::visit::Cache>,
    cap: usize,
) -> Result<Vec<WStep>, (Vec<WStep>, String)> {
    let (steps, end) = walk_served(root_cid, root_name, |_, c| store.get(c).cloned(), cache, cap);
    match end {
        End::Done => Ok(steps),
        End::Failed(e) => Err((steps, format!("{:?} / {}", e, e))),
        End::Other(e) => Err((steps, e)),
    }
}

pub fn show(s: &WStep) -> String {
    format!(
        "{:?} cid {} path {:?} meta {:?} pending {:?}",
        match &s.ev {
            Ev::File { bytes, first, last, size } => format!("File[{} bytes {} first {} last {} size {}]", bytes.len(), pbx::hex(&bytes[..bytes.len().min(16)]), first, last, size),
            e => format!("{:?}", e),
        },
        pbx::hex(&s.cid),
        s.path,
        s.meta,
        s.pending.iter().take(8).map(|c| pbx::hex(&c[c.len().saturating_sub(4)..])).collect::<Vec<_>>()
    )
}

/// Number of blocks a full walk visits.
pub fn walk_len(n: &TModel) -> usize {
    fn parts(m: &FModel) -> usize {
        1 + m.kids.iter().map(|(_, k)| parts(k)).sum::<usize>()
    }
    fn bucket(b: &Bucket) -> usize {
        1 + b
            .items
            .iter()
            .map(|i| match i {
                BItem::Entry(l) => walk_len(&l.node),
                BItem::Sub(_, b) => bucket(b),
            })
            .sum::<usize>()
    }
    match &n.kind {
        TKind::File(m) => parts(m),
        TKind::Symlink(_) => 1,
        TKind::Dir(l) => 1 + l.iter().map(|l| walk_len(&l.node)).sum::<usize>(),
        TKind::Hamt(b) => bucket(b),
    }
}
