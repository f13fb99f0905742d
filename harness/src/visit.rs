//! C05, C06, C07: reading files of any shape, with and without a range.

use crate::dtree::{self, End, Ev};
use crate::ftree::*;
use crate::gen::*;
use crate::pbx;
use crate::runner::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::ops::Range;
use std::sync::Arc;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Src {
    Tree(FTree),
    /// a huge virtual file; ranges are placed near this thousandth of it and kept short
    Huge(Huge, u16),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Ranged {
    pub src: Src,
    pub ranges: Vec<RangeSpec>,
    /// reuse one cache over the reads
    pub cache: bool,
}

impl Ranged {
    fn build(&self, store: &mut Store) -> Arc<FModel> {
        match &self.src {
            Src::Tree(t) => t.build(store),
            Src::Huge(h, _) => h.build(store),
        }
    }
    /// The concrete ranges. Those of huge files cover a bounded number of leaves.
    fn concrete(&self, m: &FModel) -> Vec<Range<u64>> {
        match &self.src {
            Src::Huge(..) if m.leaves <= 20_000 && m.size <= 1 << 20 => {
                let b = m.boundaries(4000);
                self.ranges.iter().map(|r| r.range(&b, m.size)).collect()
            }
            Src::Tree(_) => {
                let b = m.boundaries(4000);
                self.ranges.iter().map(|r| r.range(&b, m.size)).collect()
            }
            Src::Huge(h, f) => {
                let at = ((m.size as u128) * (*f as u128) / 1000) as u64;
                let b = m.boundaries_near(at);
                let max = (h.leaf as u64 + 3) * 6;
                self.ranges
                    .iter()
                    .map(|r| {
                        let x = r.range(&b, m.size);
                        if x.start < x.end && x.end - x.start > max {
                            if x.start % 2 == 0 {
                                x.start..x.start + max
                            } else {
                                x.end - max..x.end
                            }
                        } else {
                            x
                        }
                    })
                    .collect()
            }
        }
    }
}

fn ranged(tier: Tier) -> BoxedStrategy<Ranged> {
    let n = if tier == Tier::Quick { 6 } else { 10 };
    let src = prop_oneof![
        60 => ftree().prop_map(Src::Tree),
        1 => (huge(), 0u16..=1000).prop_map(|(h, f)| Src::Huge(h, f)),
    ];
    (src, prop::collection::vec(range_spec(), 1..=n), any::<bool>())
        .prop_map(|(src, ranges, cache)| Ranged { src, ranges, cache })
        .boxed()
}

fn classify(case: &Ranged, m: &FModel, ranges: &[Range<u64>], ctx: &mut Ctx) {
    ctx.class_if(m.is_leaf(), "single block");
    ctx.class_if(m.depth == 1, "two levels");
    ctx.class_if((2..10).contains(&m.depth), "three to ten levels");
    ctx.class_if(m.depth >= 10, "more than ten levels");
    ctx.class_if(m.leaves >= 128, "128 leaves or more");
    ctx.class_if(m.size > u32::MAX as u64, "file beyond 4 GiB");
    ctx.class_if(case.cache, "cache reused between reads");
    for r in ranges {
        ctx.class_if(r.start > r.end, "reversed range");
        ctx.class_if(r.start == r.end, "empty range");
        ctx.class_if(r.start >= m.size && r.start < r.end, "range beyond the end");
        ctx.class_if(r.start < m.size && r.end > m.size, "range over the end");
        ctx.class_if(r.start == 0 && r.end >= m.size, "whole file");
        ctx.class_if(r.start > 0 && r.start < r.end && r.end < m.size, "range inside");
        if !m.is_leaf() && r.start < r.end && r.start < m.size && (r.start > 0 || r.end < m.size) {
            ctx.nontrivial = true;
        }
    }
}

const RANGE_RULE: &str = "A case is a file tree of any shape (recursive, wide, deep, repeated subtrees, Raw and File leaves, empty leaves, all link styles; or a huge virtual file beyond 4 GiB) and several ranges placed on and around leaf boundaries, the end, fractions, u64::MAX, reversed and empty ones. Non-trivial: a tree with links and a non-empty proper range intersecting the file.";

/// Nodes with thousands of links, at the root and below, read as a whole and in part.
fn wide() -> Vec<Ranged> {
    let mut v = vec![];
    for fans in [vec![6000u16], vec![5000, 3], vec![2, 4500], vec![1, 9000, 2]] {
        for cache in [false, true] {
            let whole = RangeSpec { a: Pos::Abs(0), b: Pos::Max(0), sort: true, span: None };
            let part = RangeSpec { a: Pos::Frac(250), b: Pos::Frac(980), sort: true, span: None };
            v.push(Ranged { src: Src::Huge(Huge { leaf: 2, fans: fans.clone(), variants: 3, style: 1 }, 500), ranges: vec![part, whole], cache });
        }
    }
    v
}

pub struct C05;

impl Check for C05 {
    type Case = Ranged;
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        RANGE_RULE
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Ranged> {
        ranged(tier)
    }
    fn cases(&self, tier: Tier) -> u32 {
        if tier == Tier::Quick {
            120_000
        } else {
            6_000_000
        }
    }
    fn fixed(&self, _tier: Tier) -> Vec<Ranged> {
        wide()
    }
    fn run(&self, case: &Ranged, ctx: &mut Ctx) -> Res {
        let mut store = Store::new();
        let m = case.build(&mut store);
        let ranges = case.concrete(&m);
        classify(case, &m, &ranges, ctx);
        let mut cache = None;
        for r in ranges {
            if !case.cache {
                cache = None;
            }
            let recs = few_pending(|| visit(&m.block, &store, Some(r.clone()), &mut cache, 200_000))
                .map_err(|(recs, e)| format!("range {:?} of {} bytes: after {} blocks: {}", r, m.size, recs.len(), e))?;
            let got: Vec<u8> = recs.iter().flat_map(|r| r.bytes.iter().copied()).collect();
            let want = if r.start < r.end { m.slice(&r) } else { vec![] };
            if got != want {
                return Err(format!("range {:?} of {} bytes: {}", r, m.size, crate::import::diff(&got, &want)));
            }
            for (i, rec) in recs.iter().enumerate() {
                if rec.file_size != m.size {
                    return Err(format!("range {:?}: file size {} reported at block {}, the file has {}", r, rec.file_size, i, m.size));
                }
            }
        }
        Ok(())
    }
}

pub struct C06;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Ordered {
    pub ranged: Ranged,
}

fn check_trace(recs: &[Rec], sims: &[Vec<Step>], what: &str) -> Res {
    let same = |s: &Vec<Step>| s.len() == recs.len() && s.iter().zip(recs).all(|(a, b)| a.pending == b.pending);
    if sims.iter().any(same) {
        return Ok(());
    }
    // describe against the closest one
    let agree = |s: &Vec<Step>| s.iter().zip(recs).take_while(|(a, b)| a.pending == b.pending).count();
    let best = sims.iter().max_by_key(|s| agree(s)).unwrap();
    let i = agree(best);
    let short = |p: Option<&Vec<Cidb>>| {
        p.map(|p| format!("{} blocks {:?}", p.len(), p.iter().take(6).map(|c| pbx::hex(&c[c.len() - 4..])).collect::<Vec<_>>()))
            .unwrap_or_else(|| "the end".into())
    };
    Err(format!(
        "{}: after block {} pending is {} instead of {}",
        what,
        i,
        short(recs.get(i).map(|r| &r.pending)),
        short(best.get(i).map(|r| &r.pending))
    ))
}

/// How many blocks of a huge file are followed.
const BEGINNING: usize = 24;

impl Check for C06 {
    type Case = Ordered;
    fn fixed(&self, _tier: Tier) -> Vec<Ordered> {
        wide().into_iter().map(|ranged| Ordered { ranged }).collect()
    }
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        RANGE_RULE
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Ordered> {
        ranged(tier).prop_map(|ranged| Ordered { ranged }).boxed()
    }
    fn cases(&self, tier: Tier) -> u32 {
        if tier == Tier::Quick {
            50_000
        } else {
            2_500_000
        }
    }
    fn run(&self, case: &Ordered, ctx: &mut Ctx) -> Res {
        let case = &case.ranged;
        let mut store = Store::new();
        let m = case.build(&mut store);
        let ranges = case.concrete(&m);
        classify(case, &m, &ranges, ctx);
        let mut cache = None;
        if matches!(case.src, Src::Tree(_)) {
            let recs = visit(&m.block, &store, None, &mut cache, 200_000).map_err(|(r, e)| format!("no range, after {} blocks: {}", r.len(), e))?;
            check_trace(&recs, &[simulate(&m, None, 0)], "no range")?;
        } else {
            // the beginning of it, with all that is pending
            let far = ranges.iter().map(|r| r.start).max().unwrap_or(0).min(m.size);
            for r in [None, Some(far..u64::MAX)] {
                let mut sims: Vec<_> = (0..4).map(|v| simulate_some(&m, r.as_ref(), v, BEGINNING)).collect();
                sims.truncate(if r.is_none() { 1 } else { 4 });
                let (mut recs, end) = visit_served(&m.block, |_, c| store.get(c).cloned(), r.clone(), &mut cache, BEGINNING);
                if let End::Failed(e) = end {
                    return Err(format!("range {:?}, after {} blocks: {:?}", r, recs.len(), e));
                }
                recs.truncate(BEGINNING);
                check_trace(&recs, &sims, &format!("the beginning of range {:?} of {} bytes", r, m.size))?;
            }
        }
        if m.leaves > 2000 && m.size <= 1 << 20 {
            return Ok(());
        }
        for r in ranges {
            if !case.cache {
                cache = None;
            }
            let recs = visit(&m.block, &store, Some(r.clone()), &mut cache, 200_000)
                .map_err(|(recs, e)| format!("range {:?} of {} bytes: after {} blocks: {}", r, m.size, recs.len(), e))?;
            // the most likely reading first
            let first = simulate(&m, Some(&r), 0);
            if check_trace(&recs, std::slice::from_ref(&first), "").is_ok() {
                continue;
            }
            let mut sims = vec![first];
            for v in 1..4 {
                sims.push(simulate(&m, Some(&r), v));
            }
            check_trace(&recs, &sims, &format!("range {:?} of {} bytes", r, m.size))?;
        }
        Ok(())
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["Blocks that only touch the range may or may not be asked for: the four consistent readings (inclusive, strict, and the two half-open ones) are accepted."]
    }
}

// ---------------------------------------------------------------- C07

pub struct C07;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Shape {
    pub tree: FTree,
    pub style: u8,
    pub name: String,
    /// read the beginning of a huge virtual file instead
    pub huge: Option<Huge>,
}

/// How many blocks of a huge file are read.
const PREFIX: usize = 150;

fn run_huge(h: &Huge, case: &Shape, ctx: &mut Ctx) -> Res {
    let mut store = Store::new();
    let m = h.build(&mut store);
    ctx.nontrivial = true;
    let prefix = PREFIX + h.fans.len();
    ctx.class("beginning of a huge file");
    ctx.class_if(m.size > u32::MAX as u64, "file beyond 4 GiB");
    ctx.class_if(m.kids.len() > 1000, "more than 1000 links in a node");
    let beginning = |what: &str, got: Vec<u8>, blocks: usize| {
        let want = m.slice(&(0..got.len() as u64));
        if got != want {
            return Err(format!("{}: {}", what, crate::import::diff(&got, &want)));
        }
        if got.is_empty() {
            return Err(format!("{}: no content in the first {} blocks", what, blocks));
        }
        Ok(())
    };
    let (recs, end) = visit_served(&m.block, |_, c| store.get(c).cloned(), None, &mut None, prefix);
    if recs.len() <= prefix {
        return Err(format!("visit: ends after {} blocks: {}", recs.len(), end_text(end)));
    }
    if let Some(r) = recs.iter().find(|r| r.file_size != m.size) {
        return Err(format!("visit: file size {} reported, the file has {}", r.file_size, m.size));
    }
    beginning("visit", recs.iter().flat_map(|r| r.bytes.iter().copied()).collect(), recs.len())?;
    // parts of it far from the beginning
    for part in 1..=4u128 {
        let start = (m.size as u128 * part / 4) as u64;
        let len = (h.leaf as u64 + 3) * 8;
        let r = start.saturating_sub(len)..start.saturating_sub(len / 3);
        let recs = visit(&m.block, &store, Some(r.clone()), &mut None, 4000).map_err(|(recs, e)| format!("visit of {:?}, after {} blocks: {}", r, recs.len(), e))?;
        let got: Vec<u8> = recs.iter().flat_map(|r| r.bytes.iter().copied()).collect();
        if got != m.slice(&r) {
            return Err(format!("visit of {:?}: {}", r, crate::import::diff(&got, &m.slice(&r))));
        }
    }
    let cid = pbx::cid_style(case.style, &m.block);
    store.insert(cid.clone(), m.block.clone());
    let (steps, end) = dtree::walk_served(&cid, &case.name, |_, c| store.get(c).cloned(), &mut None, prefix);
    if steps.len() < prefix {
        return Err(format!("walk: ends after {} blocks: {}", steps.len(), end_text(end)));
    }
    let mut got = Vec::new();
    for s in &steps {
        match &s.ev {
            Ev::File { bytes, size, .. } if *size == m.size => got.extend_from_slice(bytes),
            e => return Err(format!("walk: block of a file of {} bytes reported as {:?}", m.size, e)),
        }
    }
    beginning("walk", got, steps.len())
}

fn end_text<E: std::fmt::Debug + std::fmt::Display>(e: End<E>) -> String {
    match e {
        End::Done => "done".into(),
        End::Failed(e) => format!("{:?} / {}", e, e),
        End::Other(e) => e,
    }
}

impl Check for C07 {
    type Case = Shape;
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "A case is a file tree of any shape: Raw or File nodes, explicit or implied leaf sizes, absent or empty data, empty leaves, repeated subtrees, 1 to 300 (in virtual files 65535) links per node, depth up to 40 (virtual: 301), any CID style, link names and sizes present or absent; read by the file visit and by the walker. Non-trivial: it has links."
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Shape> {
        // enough leaves for the prefix, small ones
        let small_huge = (huge(), 1u32..2000).prop_map(|(mut h, leaf)| {
            h.leaf = leaf;
            h.fans.push(200);
            h
        });
        (ftree(), 0u8..4, prop_oneof![Just(String::new()), name()], prop_oneof![80 => Just(None), 1 => small_huge.prop_map(Some)])
            .prop_map(|(tree, style, name, huge)| Shape { tree, style, name, huge })
            .boxed()
    }
    fn fixed(&self, _tier: Tier) -> Vec<Shape> {
        let mut v = vec![];
        for fans in [vec![20_000u16], vec![256, 256, 256], vec![2, 65_535], vec![60_000, 60_000, 60_000], vec![300; 7], [vec![400u16], vec![1; 300]].concat(), vec![2; 40]] {
            for (leaf, variants) in [(1u32, 1u8), (1000, 3), (3000, 2)] {
                v.push(Shape {
                    tree: FTree { root: FNode::Leaf { c: Content { len: 0, seed: 0, kind: 0 }, file: true, size: true, data: true }, meta: Meta::default() },
                    style: 1,
                    name: "n".into(),
                    huge: Some(Huge { leaf, fans: fans.clone(), variants, style: 0 }),
                });
            }
        }
        v
    }
    fn cases(&self, tier: Tier) -> u32 {
        if tier == Tier::Quick {
            60_000
        } else {
            3_000_000
        }
    }
    fn run(&self, case: &Shape, ctx: &mut Ctx) -> Res {
        if let Some(h) = &case.huge {
            return few_pending(|| run_huge(h, case, ctx));
        }
        let mut store = Store::new();
        let m = case.tree.build(&mut store);
        let want = m.bytes();
        ctx.nontrivial = !m.is_leaf();
        ctx.class_if(m.is_leaf(), "single block");
        ctx.class_if(m.depth == 1, "two levels");
        ctx.class_if((2..10).contains(&m.depth), "three to ten levels");
        ctx.class_if(m.depth >= 10, "more than ten levels");
        ctx.class_if(m.leaves >= 128, "128 leaves or more");
        fn any(n: &FNode, f: &dyn Fn(&FNode) -> bool) -> bool {
            f(n) || matches!(n, FNode::Inner { kids, .. } if kids.iter().any(|k| any(&k.node, f)))
        }
        ctx.class_if(any(&case.tree.root, &|n| matches!(n, FNode::Leaf { size: false, .. })), "leaf without file size");
        ctx.class_if(any(&case.tree.root, &|n| matches!(n, FNode::Leaf { c, .. } if c.len == 0)), "empty leaf");
        ctx.class_if(any(&case.tree.root, &|n| matches!(n, FNode::Leaf { file: false, .. })), "Raw leaf");
        ctx.class_if(any(&case.tree.root, &|n| matches!(n, FNode::Inner { kids, .. } if kids.iter().any(|k| k.repeat > 1))), "repeated subtree");
        let recs = visit(&m.block, &store, None, &mut None, 200_000).map_err(|(r, e)| format!("visit, after {} blocks: {}", r.len(), e))?;
        let got: Vec<u8> = recs.iter().flat_map(|r| r.bytes.iter().copied()).collect();
        if got != want {
            return Err(format!("visit: {}", crate::import::diff(&got, &want)));
        }
        for (i, rec) in recs.iter().enumerate() {
            if rec.file_size != m.size {
                return Err(format!("visit: file size {} reported at block {}, the file has {}", rec.file_size, i, m.size));
            }
        }
        let cid = pbx::cid_style(case.style, &m.block);
        store.insert(cid.clone(), m.block.clone());
        let steps = dtree::walk(&cid, &case.name, &store, &mut None, 200_000).map_err(|(r, e)| format!("walk, after {} blocks: {}", r.len(), e))?;
        let mut got = Vec::new();
        for (i, s) in steps.iter().enumerate() {
            match &s.ev {
                Ev::File { bytes, size, .. } => {
                    got.extend_from_slice(bytes);
                    if *size != m.size {
                        return Err(format!("walk: file size {} reported at block {}, the file has {}", size, i, m.size));
                    }
                }
                e => return Err(format!("walk: block {} of a file reported as {:?}", i, e)),
            }
        }
        if got != want {
            return Err(format!("walk: {}", crate::import::diff(&got, &want)));
        }
        Ok(())
    }
}
