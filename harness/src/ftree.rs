//! File trees of arbitrary shape, built with the independent encoder, and the reference read.

use crate::dtree::End;
use crate::gen::*;
use crate::pbx::{self, Link, Node, UData};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::ops::Range;
use std::sync::Arc;

pub type Cidb = Vec<u8>;
pub type Store = HashMap<Cidb, Arc<Vec<u8>>>;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum FNode {
    Leaf {
        c: Content,
        file: bool,
        /// record the file size explicitly
        size: bool,
        /// write the data field even if empty
        data: bool,
    },
    Inner {
        kids: Vec<Kid>,
        file: bool,
    },
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Kid {
    pub node: FNode,
    pub repeat: u16,
    pub style: u8,
    /// 0 empty name, 1 no name, 2 some name
    pub name: u8,
    pub tsize: bool,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct FTree {
    pub root: FNode,
    pub meta: Meta,
}

/// A built node.
#[derive(Debug)]
pub struct FModel {
    pub block: Arc<Vec<u8>>,
    pub size: u64,
    /// number of leaves below, with repetition
    pub leaves: u64,
    pub depth: u32,
    /// serialised size of everything below, with repetition
    pub cum: u64,
    /// empty for a leaf
    pub kids: Vec<(Cidb, Arc<FModel>)>,
    pub content: Vec<u8>,
}

impl FModel {
    pub fn is_leaf(&self) -> bool {
        self.kids.is_empty()
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = Vec::new();
        self.collect(&mut v);
        v
    }
    fn collect(&self, out: &mut Vec<u8>) {
        out.extend_from_slice(&self.content);
        for (_, k) in &self.kids {
            k.collect(out);
        }
    }
    /// Ends of the leaves in file order (at most `max`).
    pub fn boundaries(&self, max: usize) -> Vec<u64> {
        fn go(m: &FModel, base: u64, out: &mut Vec<u64>, max: usize) {
            if out.len() >= max {
                return;
            }
            if m.is_leaf() {
                out.push(base + m.size);
            } else {
                let mut b = base;
                for (_, k) in &m.kids {
                    go(k, b, out, max);
                    b += k.size;
                }
            }
        }
        let mut v = vec![0];
        go(self, 0, &mut v, max);
        v
    }
}

pub const MAX_LEAVES: u64 = 1500;

pub fn build_node(n: &FNode, meta: &Meta, store: &mut Store) -> Arc<FModel> {
    match n {
        FNode::Leaf { c, file, size, data } => {
            let content = c.expand();
            let mut u = UData::of(if *file { pbx::FILE } else { pbx::RAW });
            if !content.is_empty() || *data {
                u.data = Some(content.clone());
            }
            if *size {
                u.filesize = Some(content.len() as u64);
            }
            meta.apply(&mut u);
            let block = Node::new(vec![], &u).encode();
            Arc::new(FModel {
                cum: block.len() as u64,
                block: Arc::new(block),
                size: content.len() as u64,
                leaves: 1,
                depth: 0,
                kids: vec![],
                content,
            })
        }
        FNode::Inner { kids, file } => {
            let mut links = Vec::new();
            let mut u = UData::of(if *file { pbx::FILE } else { pbx::RAW });
            let mut mk = Vec::new();
            let (mut size, mut leaves, mut depth, mut cum) = (0, 0, 0, 0);
            for k in kids {
                let m = build_node(&k.node, &Meta::default(), store);
                let cid = pbx::cid_style(k.style, &m.block);
                store.insert(cid.clone(), m.block.clone());
                let room = MAX_LEAVES.saturating_sub(leaves) / m.leaves.max(1);
                let rep = (k.repeat as u64).min(room).max(1);
                for _ in 0..rep {
                    links.push(Link {
                        hash: Some(cid.clone()),
                        name: match k.name {
                            0 => Some(String::new()),
                            1 => None,
                            _ => Some(format!("n{}", links.len())),
                        },
                        tsize: recorded(k.tsize, k.style / 4, m.cum),
                    });
                    u.blocksizes.push(m.size);
                    mk.push((cid.clone(), m.clone()));
                    size += m.size;
                    leaves += m.leaves;
                    cum += m.cum;
                }
                depth = depth.max(m.depth + 1);
            }
            u.filesize = Some(size);
            meta.apply(&mut u);
            let block = Node::new(links, &u).encode();
            Arc::new(FModel {
                cum: cum + block.len() as u64,
                block: Arc::new(block),
                size,
                leaves,
                depth,
                kids: mk,
                content: vec![],
            })
        }
    }
}

impl FTree {
    pub fn build(&self, store: &mut Store) -> Arc<FModel> {
        build_node(&self.root, &self.meta, store)
    }
}

/// The cumulative size a link records: mostly the right one, which readers do not need.
pub fn recorded(some: bool, how: u8, cum: u64) -> Option<u64> {
    match how {
        _ if !some => None,
        2 => Some(0),
        3 => Some(u64::MAX),
        _ => Some(cum),
    }
}

pub fn leaf(len: BoxedStrategy<u32>) -> BoxedStrategy<FNode> {
    (content(len), any::<bool>(), prop::bool::weighted(0.7), any::<bool>())
        .prop_map(|(c, file, size, data)| FNode::Leaf { c, file, size, data })
        .boxed()
}

pub fn kid(node: BoxedStrategy<FNode>) -> BoxedStrategy<Kid> {
    (
        node,
        prop_oneof![16 => Just(1u16), 3 => 2u16..=4, 1 => 5u16..=20],
        prop_oneof![9 => 0u8..4, 1 => 8u8..16],
        prop_oneof![6 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)],
        prop::bool::weighted(0.9),
    )
        .prop_map(|(node, repeat, style, name, tsize)| Kid { node, repeat, style, name, tsize })
        .boxed()
}

pub fn fnode(len: BoxedStrategy<u32>, depth: u32, size: u32) -> BoxedStrategy<FNode> {
    let general = leaf(len.clone()).prop_recursive(depth, size, 6, |inner| {
        (prop::collection::vec(kid(inner.boxed()), 1..=6), prop::bool::weighted(0.9))
            .prop_map(|(kids, file)| FNode::Inner { kids, file })
            .boxed()
    });
    let wide = (
        prop::collection::vec(kid(leaf(len.clone())), 1..=3),
        prop::sample::select(vec![30u16, 60, 127, 128, 174, 175, 255, 256, 257, 300]),
        prop::bool::weighted(0.9),
    )
        .prop_map(|(mut kids, n, file)| {
            let k = kids.len() as u16;
            for kid in kids.iter_mut() {
                kid.repeat = n / k + 1;
            }
            FNode::Inner { kids, file }
        });
    let deep = (
        prop::collection::vec((kid(leaf(len.clone())), any::<bool>(), any::<bool>()), 1..=40),
        leaf(len.clone()),
        0u8..4,
    )
        .prop_map(|(levels, last, style)| {
            let mut n = last;
            for (k, before, after) in levels {
                let mut kids = Vec::new();
                if before {
                    kids.push(k.clone());
                }
                kids.push(Kid { node: n, repeat: 1, style, name: 0, tsize: true });
                if after {
                    kids.push(k);
                }
                n = FNode::Inner { kids, file: true };
            }
            n
        });
    prop_oneof![
        2 => leaf(len),
        12 => general,
        1 => wide,
        2 => deep,
    ]
    .boxed()
}

pub fn ftree() -> BoxedStrategy<FTree> {
    (fnode(wide_len(), 4, 40), meta_some()).prop_map(|(root, meta)| FTree { root, meta }).boxed()
}

pub fn ftree_small() -> BoxedStrategy<FTree> {
    (
        prop_oneof![
            3 => leaf(small_len()),
            3 => leaf(small_len()).prop_recursive(2, 8, 4, |inner| {
                (prop::collection::vec(kid(inner.boxed()), 1..=3), prop::bool::weighted(0.9))
                    .prop_map(|(kids, file)| FNode::Inner { kids, file })
                    .boxed()
            }),
        ],
        meta_some(),
    )
        .prop_map(|(root, meta)| FTree { root, meta })
        .boxed()
}

/// Huge virtual files: a few distinct blocks, offsets far beyond 32 bits.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Huge {
    pub leaf: u32,
    /// fan-out of each level, lowest first
    pub fans: Vec<u16>,
    pub variants: u8,
    pub style: u8,
}

impl Huge {
    /// Builds the tree: at each level `variants` different nodes exist, the j-th child of
    /// variant v being variant (j * 5 + v) of the level below.
    pub fn build(&self, store: &mut Store) -> Arc<FModel> {
        let vars = self.variants.max(1) as usize;
        let mut level: Vec<Arc<FModel>> = (0..vars)
            .map(|v| {
                // different variants have different lengths, so ranges never coincide by luck
                let c = Content { len: self.leaf + v as u32, seed: v as u32 + 7, kind: 0 };
                build_node(
                    &FNode::Leaf { c, file: v % 2 == 0, size: true, data: true },
                    &Meta::default(),
                    store,
                )
            })
            .collect();
        for fan in &self.fans {
            let level_cids: Vec<Cidb> = level.iter().map(|m| pbx::cid_style(self.style, &m.block)).collect();
            for (c, m) in level_cids.iter().zip(&level) {
                store.insert(c.clone(), m.block.clone());
            }
            let mut next = Vec::new();
            for v in 0..vars {
                let mut u = UData::of(pbx::FILE);
                let mut links = vec![];
                let mut kids = vec![];
                let (mut size, mut leaves, mut cum) = (0u64, 0u64, 0u64);
                for j in 0..(*fan).max(1) as usize {
                    let m = &level[(j * 5 + v) % vars];
                    let cid = level_cids[(j * 5 + v) % vars].clone();
                    // stay inside 63 bits
                    let Some(ns) = size.checked_add(m.size).filter(|s| *s < 1 << 62) else {
                        break;
                    };
                    size = ns;
                    leaves += m.leaves;
                    cum = cum.saturating_add(m.cum);
                    u.blocksizes.push(m.size);
                    links.push(Link::new(&cid, "", m.cum));
                    kids.push((cid, m.clone()));
                }
                u.filesize = Some(size);
                let block = Node::new(links, &u).encode();
                next.push(Arc::new(FModel {
                    cum: cum.saturating_add(block.len() as u64),
                    block: Arc::new(block),
                    size,
                    leaves,
                    depth: level[0].depth + 1,
                    kids,
                    content: vec![],
                }));
            }
            level = next;
        }
        level[0].clone()
    }
}

pub fn huge() -> BoxedStrategy<Huge> {
    (
        prop_oneof![
            2 => Just(1u32 << 20), 1 => Just(1 << 16), 1 => 1u32..200_000,
        ],
        prop::collection::vec(prop_oneof![2 => 150u16..=256, 1 => 2u16..20], 2..=5),
        1u8..=3,
        0u8..4,
    )
        .prop_map(|(leaf, fans, variants, style)| Huge { leaf, fans, variants, style })
        .boxed()
}

impl FModel {
    /// Bytes of the file in a (small) range.
    pub fn slice(&self, want: &Range<u64>) -> Vec<u8> {
        let mut out = Vec::new();
        self.slice_into(0, want, &mut out);
        out
    }
    fn slice_into(&self, base: u64, want: &Range<u64>, out: &mut Vec<u8>) {
        let a = want.start.max(base);
        let b = want.end.min(base + self.size);
        if a >= b {
            return;
        }
        if self.is_leaf() {
            out.extend_from_slice(&self.content[(a - base) as usize..(b - base) as usize]);
        } else {
            let mut at = base;
            for (_, k) in &self.kids {
                if at >= want.end {
                    break;
                }
                k.slice_into(at, want, out);
                at += k.size;
            }
        }
    }
    /// Some leaf boundaries near a given offset: the path to it.
    pub fn boundaries_near(&self, at: u64) -> Vec<u64> {
        let mut v = vec![0, self.size];
        let mut m = self;
        let mut base = 0;
        while !m.is_leaf() {
            let mut b = base;
            let mut chosen = None;
            for (_, k) in &m.kids {
                if at < b + k.size || std::ptr::eq(Arc::as_ptr(k), Arc::as_ptr(&m.kids[m.kids.len() - 1].1)) && b + k.size == base + m.size {
                    chosen = Some((k, b));
                    break;
                }
                b += k.size;
            }
            let Some((k, b)) = chosen else { break };
            v.push(b);
            v.push(b + k.size);
            m = k;
            base = b;
        }
        v
    }
}

// ---- reference traversal ----

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Step {
    /// bytes handed out by this block
    pub bytes: Vec<u8>,
    /// pending after this block, the next first
    pub pending: Vec<Cidb>,
    /// offset of this block in the file
    pub start: u64,
}

/// Which blocks are "in" a target range. The property allows, but does not ask for, blocks which
/// only touch the range, so four readings are accepted.
pub fn touches(variant: u8, b: &Range<u64>, t: &Range<u64>) -> bool {
    let lo = b.start.max(t.start);
    let hi = b.end.min(t.end);
    match variant {
        0 => lo <= hi,
        1 => lo < hi,
        2 => t.start <= t.end && b.start < t.end && b.end >= t.start,
        _ => t.start <= t.end && b.start <= t.end && b.end > t.start,
    }
}

pub fn part(content: &[u8], start: u64, target: Option<&Range<u64>>) -> Vec<u8> {
    match target {
        None => content.to_vec(),
        Some(t) => {
            let end = start + content.len() as u64;
            let a = t.start.max(start);
            let b = t.end.min(end);
            if a < b {
                content[(a - start) as usize..(b - start) as usize].to_vec()
            } else {
                vec![]
            }
        }
    }
}

/// The expected trace of a visit.
pub fn simulate(root: &Arc<FModel>, target: Option<&Range<u64>>, variant: u8) -> Vec<Step> {
    simulate_some(root, target, variant, usize::MAX)
}

/// The first steps of it, at most `max`.
pub fn simulate_some(root: &Arc<FModel>, target: Option<&Range<u64>>, variant: u8, max: usize) -> Vec<Step> {
    let mut steps = Vec::new();
    let mut stack: Vec<(Cidb, Arc<FModel>, u64)> = vec![(vec![], root.clone(), 0)];
    while let Some((_, m, start)) = stack.pop() {
        if steps.len() == max {
            break;
        }
        let mut bytes = Vec::new();
        if m.is_leaf() {
            bytes = part(&m.content, start, target);
        } else {
            let mut kids = Vec::new();
            let mut at = start;
            for (cid, k) in &m.kids {
                let r = at..at + k.size;
                if target.map(|t| touches(variant, &r, t)).unwrap_or(true) {
                    kids.push((cid.clone(), k.clone(), at));
                }
                at += k.size;
            }
            stack.extend(kids.into_iter().rev());
        }
        steps.push(Step {
            bytes,
            pending: stack.iter().rev().map(|(c, _, _)| c.clone()).collect(),
            start,
        });
    }
    steps
}

// ---- driving the crate ----

#[derive(Debug, Clone, PartialEq)]
pub struct Rec {
    pub bytes: Vec<u8>,
    pub pending: Vec<Cidb>,
    pub file_size: u64,
    pub mode: Option<u32>,
    pub mtime: Option<(i64, u32)>,
}

thread_local! {
    static KEPT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}

/// Runs `f` recording only the first few pending links of each step, where there are very many.
pub fn few_pending<T>(f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            KEPT.with(|k| k.set(usize::MAX))
        }
    }
    let _reset = Reset;
    KEPT.with(|k| k.set(8));
    f()
}

/// The number of pending links to record before a step: all of them before the first few.
pub fn kept(step: usize) -> usize {
    if step < 12 {
        usize::MAX
    } else {
        KEPT.with(|k| k.get())
    }
}

pub fn cids_at<'a>(step: usize, (f, rest): (&'a libipld::Cid, impl Iterator<Item = &'a libipld::Cid>)) -> Vec<Cidb> {
    std::iter::once(f).chain(rest).take(kept(step)).map(|c| c.to_bytes()).collect()
}

pub fn cids<'a>((f, rest): (&'a libipld::Cid, impl Iterator<Item = &'a libipld::Cid>)) -> Vec<Cidb> {
    std::iter::once(f).chain(rest).take(KEPT.with(|k| k.get())).map(|c| c.to_bytes()).collect()
}

/// Visits a file with the crate, at most `cap` blocks, asking `serve` for the block of each step;
/// the root is step 0.
pub fn visit_served(
    root: &[u8],
    mut serve: impl FnMut(usize, &Cidb) -> Option<Arc<Vec<u8>>>,
    target: Option<Range<u64>>,
    cache: &mut Option<unixfs_v1::file::visit::Cache>,
    cap: usize,
) -> (Vec<Rec>, End<unixfs_v1::file::FileReadFailed>) {
    use unixfs_v1::file::visit::IdleFileVisit;
    let eye = crate::inspect::current();
    let mut recs: Vec<Rec> = Vec::new();
    let mut idle = IdleFileVisit::default();
    if let Some(t) = target {
        idle = idle.with_target_range(t);
    }
    let (bytes, size, meta, mut step) = match idle.start(root) {
        Ok(x) => x,
        Err(e) => {
            eye.error(0, &e);
            return (recs, End::Failed(e));
        }
    };
    recs.push(Rec {
        bytes: bytes.to_vec(),
        pending: step.as_ref().map(|v| cids(v.pending_links())).unwrap_or_default(),
        file_size: size,
        mode: meta.mode(),
        mtime: meta.mtime(),
    });
    if let Some(v) = &step {
        if v.file_size() != size {
            let e = format!("visit reports file size {} after start reported {}", v.file_size(), size);
            return (recs, End::Other(e));
        }
    }
    while let Some(v) = step {
        if recs.len() > cap {
            return (recs, End::Other(format!("visit does not end within {} blocks", cap)));
        }
        eye.debug(recs.len(), &v);
        let next = v.pending_links().0.to_bytes();
        let block = match serve(recs.len(), &next) {
            Some(b) => b,
            None => return (recs, End::Other(format!("visit asks for unknown block {}", pbx::hex(&next)))),
        };
        match v.continue_walk(&block, cache) {
            Ok((bytes, s)) => {
                let rec = match &s {
                    Some(v) => Rec {
                        bytes: bytes.to_vec(),
                        pending: cids(v.pending_links()),
                        file_size: v.file_size(),
                        mode: v.as_ref().mode(),
                        mtime: v.as_ref().mtime(),
                    },
                    None => Rec {
                        bytes: bytes.to_vec(),
                        pending: vec![],
                        file_size: recs[0].file_size,
                        mode: recs[0].mode,
                        mtime: recs[0].mtime,
                    },
                };
                recs.push(rec);
                step = s;
            }
            Err(e) => {
                eye.error(0, &e);
                return (recs, End::Failed(e));
            }
        }
    }
    (recs, End::Done)
}

/// Visits a file with the crate, at most `cap` blocks. `Err` carries the steps before it.
pub fn visit(
    root: &[u8],
    store: &Store,
    target: Option<Range<u64>>,
    cache: &mut Option<unixfs_v1::file::visit::Cache>,
    cap: usize,
) -> Result<Vec<Rec>, (Vec<Rec>, String)> {
    let (recs, end) = visit_served(root, |_, c| store.get(c).cloned(), target, cache, cap);
    match end {
        End::Done => Ok(recs),
        End::Failed(e) => {
            let at = if recs.is_empty() { "start".to_string() } else { format!("block {}", recs.len()) };
            Err((recs, format!("{}: {:?} / {}", at, e, e)))
        }
        End::Other(e) => Err((recs, e)),
    }
}
