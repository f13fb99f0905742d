//! C01, C02, C03 and the file half of C04: the file import.

use crate::ftree::{Cidb, Store};
use crate::gen::*;
use crate::pbx::{self, Link, Node, UData};
use crate::runner::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};
use std::sync::Arc;
use unixfs_v1::file::adder::{BalancedCollector, Chunker, Collector, FileAdder};

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Push {
    /// this many bytes, 0 is an empty push
    Fixed(u32),
    /// as many as `size_hint` says
    Hint,
    /// everything that is left
    Rest,
    /// up to the next chunk boundary, plus delta
    Boundary(i8),
    /// this many whole chunks
    Chunks(u8),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Import {
    pub content: Content,
    pub chunk: u64,
    pub bf: u64,
    pub pushes: Vec<Push>,
    /// use the library's defaults where they match
    pub defaults: bool,
}

pub fn adder(case: &Import) -> FileAdder {
    let dc = case.chunk == 256 * 1024;
    let db = case.bf == 174;
    if case.defaults && dc && db {
        return FileAdder::default();
    }
    let collector = BalancedCollector::with_branching_factor(case.bf as usize);
    let collector: Collector = if case.content.seed % 3 == 0 { collector.clone().into() } else { collector.into() };
    let mut b = FileAdder::builder();
    // the order of the builder calls does not matter
    let chunker_first = case.content.seed % 2 == 0;
    if chunker_first && !(case.defaults && dc) {
        b = b.with_chunker(Chunker::Size(case.chunk as usize));
    }
    if !(case.defaults && db) {
        b = b.with_collector(collector);
    }
    if !chunker_first && !(case.defaults && dc) {
        b = b.with_chunker(Chunker::Size(case.chunk as usize));
    }
    b.build()
}

pub struct Pushed {
    pub blocks: Vec<(Cidb, Vec<u8>)>,
    pub pushes: usize,
    pub empty_pushes: usize,
}

/// Pushes everything as the case says, checking the contract of each push.
pub fn drive(case: &Import, content: &[u8], pushes: &[Push]) -> Result<Pushed, String> {
    drive_looking(case, content, pushes, |_| ())
}

/// The same, with a look at the importer before each step.
pub fn drive_looking(case: &Import, content: &[u8], pushes: &[Push], mut look: impl FnMut(&FileAdder)) -> Result<Pushed, String> {
    let mut a = adder(case);
    let chunk = case.chunk as usize;
    let mut blocks = Vec::new();
    let mut off = 0;
    let mut count = 0;
    let mut empty_pushes = 0;
    let mut i = 0;
    let mut idle = 0;
    while off < content.len() {
        let left = content.len() - off;
        let step = if idle > pushes.len() || pushes.is_empty() {
            Push::Rest
        } else {
            pushes[i % pushes.len()].clone()
        };
        i += 1;
        let want = match step {
            Push::Fixed(n) => n as usize,
            Push::Hint => a.size_hint(),
            Push::Rest => left,
            Push::Boundary(d) => {
                let b = chunk - off % chunk;
                b.saturating_add_signed(d as isize)
            }
            Push::Chunks(n) => chunk.saturating_mul(n as usize),
        }
        .min(left);
        let input = &content[off..off + want];
        look(&a);
        let (it, n) = a.push(input);
        let new: Vec<(Cidb, Vec<u8>)> = it.map(|(c, b)| (c.to_bytes(), b)).collect();
        count += 1;
        if n > input.len() {
            return Err(format!("push of {} bytes says it consumed {}", input.len(), n));
        }
        if n == 0 && !input.is_empty() {
            return Err(format!("push of {} bytes at offset {} made no progress", input.len(), off));
        }
        if new.len() > 2 {
            return Err(format!("push handed out {} blocks", new.len()));
        }
        if input.is_empty() {
            empty_pushes += 1;
        }
        if n == 0 {
            idle += 1;
        } else {
            idle = 0;
        }
        blocks.extend(new);
        off += n;
        if count > (content.len() + 2) * (pushes.len() + 3) {
            return Err("too many pushes".into());
        }
    }
    for p in pushes.iter().take(3) {
        if *p == Push::Fixed(0) {
            let (it, n) = a.push(&[]);
            let new: Vec<_> = it.map(|(c, b)| (c.to_bytes(), b)).collect();
            if n != 0 || new.len() > 2 {
                return Err(format!("empty push at the end consumed {} and gave {} blocks", n, new.len()));
            }
            blocks.extend(new);
            empty_pushes += 1;
        }
    }
    look(&a);
    blocks.extend(a.finish().map(|(c, b)| (c.to_bytes(), b)));
    Ok(Pushed { blocks, pushes: count, empty_pushes })
}

/// The balanced layout, level by level, written independently.
pub struct Layout {
    pub leaves: Vec<(Cidb, Vec<u8>)>,
    pub inner: Vec<(Cidb, Vec<u8>)>,
    pub root: Cidb,
    pub levels: usize,
}

pub fn layout(content: &[u8], chunk: usize, bf: usize) -> Layout {
    struct L {
        cid: Cidb,
        cum: u64,
        size: u64,
    }
    let mut leaves = Vec::new();
    let mut level = Vec::new();
    let chunks: Vec<&[u8]> = if content.is_empty() { vec![&[]] } else { content.chunks(chunk).collect() };
    for c in chunks {
        let mut u = UData::of(pbx::FILE);
        if !c.is_empty() {
            u.data = Some(c.to_vec());
        }
        u.filesize = Some(c.len() as u64);
        let b = Node::new(vec![], &u).encode();
        let cid = pbx::cid_v1(&b);
        level.push(L { cid: cid.clone(), cum: b.len() as u64, size: c.len() as u64 });
        leaves.push((cid, b));
    }
    let mut inner = Vec::new();
    let mut levels = 1;
    while level.len() > 1 {
        levels += 1;
        let mut next = Vec::new();
        for g in level.chunks(bf) {
            let mut u = UData::of(pbx::FILE);
            u.filesize = Some(g.iter().map(|l| l.size).sum());
            u.blocksizes = g.iter().map(|l| l.size).collect();
            let links = g.iter().map(|l| Link::new(&l.cid, "", l.cum)).collect();
            let b = Node::new(links, &u).encode();
            let cid = pbx::cid_v1(&b);
            next.push(L {
                cid: cid.clone(),
                cum: b.len() as u64 + g.iter().map(|l| l.cum).sum::<u64>(),
                size: u.filesize.unwrap(),
            });
            inner.push((cid, b));
        }
        level = next;
    }
    Layout { leaves, inner, root: level[0].cid.clone(), levels }
}

fn push_step() -> BoxedStrategy<Push> {
    prop_oneof![
        2 => Just(Push::Fixed(0)),
        3 => Just(Push::Fixed(1)),
        4 => (1u32..30).prop_map(Push::Fixed),
        1 => (30u32..5000).prop_map(Push::Fixed),
        2 => Just(Push::Hint),
        1 => Just(Push::Rest),
        4 => (-2i8..=2).prop_map(Push::Boundary),
        2 => (0u8..5).prop_map(Push::Chunks),
    ]
    .boxed()
}

fn leaf_counts(bf: u64, max: u64) -> Vec<u64> {
    let mut v = vec![0, 1, 2, 3];
    let mut p = bf;
    while p <= max {
        for m in [1, 2, 3, bf - 1] {
            for d in -2i64..=2 {
                let x = (p * m) as i64 + d;
                if x >= 0 && x as u64 <= max {
                    v.push(x as u64);
                }
            }
        }
        // a full level plus a partial one below it
        let q = p + p / bf;
        for d in -1i64..=1 {
            let x = q as i64 + d;
            if x >= 0 && x as u64 <= max {
                v.push(x as u64);
            }
        }
        p *= bf;
    }
    v.sort();
    v.dedup();
    v
}

pub fn strategy(tier: Tier) -> BoxedStrategy<Import> {
    let max = if tier == Tier::Quick { 420 } else { 1300 };
    let bf = prop_oneof![6 => Just(2u32), 5 => Just(3u32), 3 => Just(4u32), 4 => 5u32..=11, 1 => 12u32..=40, 2 => Just(174u32), 1 => 41u32..=400];
    let chunk = prop_oneof![
        4 => 1u32..=4,
        4 => 5u32..=16,
        1 => prop::sample::select(vec![63u32, 64, 100, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 255, 256, 257, 1000]),
    ];
    let small = (bf, chunk).prop_flat_map(move |(bf, chunk)| {
        let counts = leaf_counts(bf as u64, max);
        (
            prop_oneof![
                3 => prop::sample::select(counts),
                2 => 0u64..=max,
                2 => 0u64..=24,
            ],
            prop_oneof![2 => Just(0u32), 2 => Just(1u32), 1 => Just(chunk - 1), 2 => 0..chunk],
        )
            .prop_map(move |(leaves, short)| (((leaves * chunk as u64) as u32).saturating_sub(short), chunk, bf))
    });
    // few leaves of a large size, around the varint boundaries of lengths
    let large = (
        prop::sample::select(vec![16370u32, 16375, 16376, 16380, 16383, 16384, 16385, 65536, 262144, 262144]),
        1u32..=4,
        prop_oneof![Just(0i64), Just(-1), Just(1), -3000i64..3000],
        prop_oneof![Just(2u32), Just(3), Just(174)],
    )
        .prop_map(|(chunk, n, d, bf)| (((chunk * n) as i64 + d).max(0) as u32, chunk, bf));
    // many links to a block, few levels
    let wide = (
        prop_oneof![
            prop::sample::select(vec![127u32, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4096, 8192]),
            175u32..=3000,
        ],
        1u32..=3,
        prop_oneof![Just(0u32), Just(1), Just(2), 0u32..400],
        any::<bool>(),
    )
        .prop_map(|(bf, chunk, d, less)| {
            (if less { bf.saturating_sub(d) } else { bf + d } * chunk, chunk, bf)
        });
    // deep trees
    let deep = (2u32..=3, 900u32..=4200).prop_map(|(bf, n)| (n, 1, bf));
    let params = prop_oneof![600 => small.boxed(), 15 => large.boxed(), 6 => wide.boxed(), 3 => deep.boxed()]
        .prop_map(|(len, chunk, bf)| (len, chunk as u64, bf as u64));
    // no limit at all; what does not fit a usize cannot be reserved either
    let limit = prop::sample::select(vec![u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1]);
    let unlimited = (0u32..600, prop_oneof![limit.clone(), 1u64..20], limit, any::<bool>()).prop_map(|(len, a, b, swap)| {
        if swap {
            (len, b, a.max(2))
        } else {
            (len, a, b)
        }
    });
    let params = prop_oneof![150 => params.boxed(), 1 => unlimited.boxed()];
    (params, any::<u32>(), prop_oneof![5 => Just(0u8), 1 => 1u8..4], prop::collection::vec(push_step(), 0..6), any::<bool>())
        .prop_map(|((len, chunk, bf), seed, kind, pushes, defaults)| Import {
            content: Content { len, seed, kind },
            chunk,
            bf,
            pushes,
            defaults,
        })
        .boxed()
}

pub fn fixed(tier: Tier) -> Vec<Import> {
    let mut v = Vec::new();
    let mut add = |len: u32, chunk: u32, bf: u32, pushes: Vec<Push>| {
        let (chunk, bf) = (chunk as u64, bf as u64);
        v.push(Import { content: Content { len, seed: len, kind: 0 }, chunk, bf, pushes, defaults: true })
    };
    // the default branching factor over one, two and three levels
    for n in [173u32, 174, 175, 347, 348, 349, 350, 174 * 174 - 1, 174 * 174, 174 * 174 + 1, 174 * 175 + 1, 2 * 174 * 174 + 1] {
        add(n, 1, 174, vec![Push::Rest]);
        add(3 * n - 1, 3, 174, vec![Push::Fixed(7)]);
    }
    // wide link blocks
    for bf in [175u32, 255, 256, 257, 512, 1000, 1024, 1025, 2048, 4096, 8192, 16384] {
        for n in [bf - 1, bf, bf + 1, bf + 300] {
            add(n, 1, bf, vec![Push::Rest]);
        }
    }
    for n in [1u32, 2, 700, 3000] {
        add(n, 1, 65536, vec![Push::Rest]);
    }
    // a very wide link block
    add(160_001, 1, 160_000, vec![Push::Rest]);
    // deep trees
    for (bf, n) in [(2u32, 1024u32), (2, 2047), (2, 4097), (2, 8193), (3, 2188), (3, 6562), (4, 4097), (5, 3126), (7, 2402), (10, 10_001)] {
        add(n, 1, bf, vec![Push::Rest]);
    }
    // large chunks
    for chunk in [1u32 << 19, 1 << 20, (1 << 20) + 1, 2_097_120, 2_097_151, 2_097_152, 2_097_153, 3_000_000] {
        add(chunk, chunk, 174, vec![Push::Rest]);
        add(2 * chunk + 5, chunk, 2, vec![Push::Fixed(300_001)]);
    }
    // the library's defaults around one chunk
    for d in [-1i64, 0, 1] {
        for n in [1i64, 2, 3] {
            add((n * 262144 + d) as u32, 262144, 174, vec![Push::Hint]);
            add((n * 262144 + d) as u32, 262144, 174, vec![Push::Fixed(100_000)]);
        }
    }
    add(0, 262144, 174, vec![]);
    add(0, 262144, 174, vec![Push::Fixed(0)]);
    // the defaults past the first link block (45 MB)
    add(174 * 262144 + 1, 262144, 174, vec![Push::Hint]);
    if tier == Tier::Thorough {
        add(349 * 262144 + 17, 262144, 174, vec![Push::Fixed(1 << 20)]);
        for bf in 2..=7u32 {
            for n in 0..=600 {
                add(n, 1, bf, vec![Push::Rest]);
                add(n, 3, bf, vec![Push::Fixed(1)]);
            }
        }
    } else {
        for bf in 2..=5u32 {
            for n in 0..=140 {
                add(n, 1, bf, vec![Push::Rest]);
            }
        }
    }
    v
}

fn classify(case: &Import, ctx: &mut Ctx, pushes: usize, empty: usize, levels: usize) {
    let leaves = (case.content.len as u64).div_ceil(case.chunk);
    ctx.nontrivial = leaves > 1;
    ctx.class_if(leaves == 0, "empty content");
    ctx.class_if(leaves == 1, "one chunk");
    ctx.class_if(levels == 2, "two levels");
    ctx.class_if(levels == 3, "three levels");
    ctx.class_if(levels >= 4, "four or more levels");
    ctx.class_if(leaves > case.bf && case.content.len as u64 % case.chunk != 0, "short last chunk");
    ctx.class_if(pushes > 1 && empty > 0, "has empty pushes");
    ctx.class_if(pushes as u64 > leaves, "pushes smaller than chunks");
    ctx.class_if(case.bf == 174, "default branching factor");
    ctx.class_if(case.bf > 1 << 60 || case.chunk > 1 << 60, "unlimited chunk size or branching factor");
    ctx.class_if(case.bf > 300 && leaves > 300, "more than 300 links to a block");
    ctx.class_if(leaves > 900 && case.bf <= 10, "more than 900 chunks, small branching factor");
}

const IMPORT_RULE: &str = "A case is a content description, a chunk size, a branching factor and a cycle of push sizes (fixed, empty, to a chunk boundary plus or minus, whole chunks, the rest). Leaf counts favour powers of the branching factor and their neighbours. Non-trivial: the content has more than one chunk, so at least one link block is built.";

/// Reads a file with the file visit, keeping nothing but its content.
fn read_visit(root: &[u8], store: &Store, len: u64, cap: usize) -> Result<Vec<u8>, String> {
    use unixfs_v1::file::visit::IdleFileVisit;
    let mut got = vec![];
    let (bytes, size, _, mut step) = IdleFileVisit::default().start(root).map_err(|e| format!("start: {:?} / {}", e, e))?;
    got.extend_from_slice(bytes);
    if size != len {
        return Err(format!("reports size {} for {} bytes", size, len));
    }
    let mut count = 1;
    let mut cache = None;
    while let Some(v) = step {
        if v.file_size() != len {
            return Err(format!("reports size {} for {} bytes", v.file_size(), len));
        }
        let next = v.pending_links().0.to_bytes();
        let block = store.get(&next).ok_or_else(|| format!("asks for unknown block {}", pbx::hex(&next)))?;
        count += 1;
        if count > cap {
            return Err(format!("does not end within {} blocks", cap));
        }
        let (bytes, s) = v.continue_walk(block, &mut cache).map_err(|e| format!("block {}: {:?} / {}", count, e, e))?;
        got.extend_from_slice(bytes);
        step = s;
    }
    Ok(got)
}

/// Reads a file with the walker, keeping nothing but its content.
fn read_walk(root: &Cidb, store: &Store, len: u64, cap: usize) -> Result<Vec<u8>, String> {
    use unixfs_v1::walk::{ContinuedWalk, Walker};
    let mut got = vec![];
    let mut w = Walker::new(pbx::to_cid(root), "name".into());
    let mut count = 0;
    let mut cache = None;
    while w.should_continue() {
        let next = w.pending_links().0.to_bytes();
        let block = store.get(&next).ok_or_else(|| format!("asks for unknown block {}", pbx::hex(&next)))?;
        count += 1;
        if count > cap {
            return Err(format!("does not end within {} blocks", cap));
        }
        match w.next(block, &mut cache).map_err(|e| format!("block {}: {:?} / {}", count, e, e))? {
            ContinuedWalk::File(seg, _, _, _, size) => {
                if size != len {
                    return Err(format!("reports size {} for {} bytes", size, len));
                }
                got.extend_from_slice(seg.as_ref());
            }
            other => return Err(format!("a file is reported as {:?}", other)),
        }
    }
    Ok(got)
}

// ---------------------------------------------------------------- C01

pub struct C01;

impl Check for C01 {
    type Case = Import;
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        IMPORT_RULE
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Import> {
        strategy(tier)
    }
    fn fixed(&self, tier: Tier) -> Vec<Import> {
        fixed(tier)
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 60_000,
            Tier::Thorough => 2_000_000,
        }
    }
    fn run(&self, case: &Import, ctx: &mut Ctx) -> Res {
        let content = case.content.expand();
        let p = drive(case, &content, &case.pushes)?;
        let leaves = content.len().div_ceil(case.chunk as usize).max(1);
        let bf = case.bf as usize;
        let mut levels = 1;
        let mut n = leaves;
        let mut blocks = leaves;
        while n > 1 {
            n = n.div_ceil(bf);
            blocks += n;
            levels += 1;
        }
        classify(case, ctx, p.pushes, p.empty_pushes, levels);
        // reading cannot need more than this many blocks in any sensible layout
        let cap = 3 * blocks + 16;
        let store: Store = p.blocks.iter().map(|(c, b)| (c.clone(), Arc::new(b.clone()))).collect();
        let (root_cid, root) = p.blocks.last().ok_or("no blocks were produced")?;

        let len = content.len() as u64;
        let got = read_visit(root, &store, len, cap).map_err(|e| format!("file visit: {}", e))?;
        if got != content {
            return Err(format!("file visit returned {}", diff(&got, &content)));
        }
        let got = read_walk(root_cid, &store, len, cap).map_err(|e| format!("walk: {}", e))?;
        if got != content {
            return Err(format!("walk returned {}", diff(&got, &content)));
        }
        Ok(())
    }
}

pub fn diff(got: &[u8], want: &[u8]) -> String {
    let at = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    format!(
        "{} bytes instead of {}, first difference at {} (got {} want {})",
        got.len(),
        want.len(),
        at,
        pbx::hex(&got[at..got.len().min(at + 8)]),
        pbx::hex(&want[at..want.len().min(at + 8)])
    )
}

// ---------------------------------------------------------------- C02

pub struct C02;

impl Check for C02 {
    type Case = Import;
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        IMPORT_RULE
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Import> {
        strategy(tier)
    }
    fn fixed(&self, tier: Tier) -> Vec<Import> {
        fixed(tier)
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 60_000,
            Tier::Thorough => 2_000_000,
        }
    }
    fn run(&self, case: &Import, ctx: &mut Ctx) -> Res {
        let content = case.content.expand();
        let p = drive(case, &content, &case.pushes)?;
        let l = layout(&content, case.chunk as usize, case.bf as usize);
        classify(case, ctx, p.pushes, p.empty_pushes, l.levels);
        match p.blocks.last() {
            None => return Err("no blocks were produced".into()),
            Some((cid, _)) if *cid != l.root => {
                return Err(format!("root is {} instead of {}", pbx::hex(cid), pbx::hex(&l.root)));
            }
            _ => {}
        }
        // leaves in file order, link blocks as a multiset
        let mut want_inner: HashMap<&(Cidb, Vec<u8>), usize> = HashMap::new();
        for b in &l.inner {
            *want_inner.entry(b).or_insert(0) += 1;
        }
        let mut leaf = 0;
        for (i, b) in p.blocks.iter().enumerate() {
            if leaf < l.leaves.len() && *b == l.leaves[leaf] {
                leaf += 1;
            } else if let Some(n) = want_inner.get_mut(b).filter(|n| **n > 0) {
                *n -= 1;
            } else {
                let (cid, bytes) = b;
                return Err(format!(
                    "produced block {} of {} does not belong to the balanced layout (next leaf {} of {}): cid {} bytes {}",
                    i,
                    p.blocks.len(),
                    leaf,
                    l.leaves.len(),
                    pbx::hex(cid),
                    pbx::hex(bytes)
                ));
            }
        }
        if leaf != l.leaves.len() {
            return Err(format!("{} leaves instead of {}", leaf, l.leaves.len()));
        }
        let missing: usize = want_inner.values().sum();
        if missing > 0 {
            return Err(format!("{} link blocks of the balanced layout were not produced", missing));
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C03

pub struct C03;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Slicings {
    pub import: Import,
    pub other: Vec<Push>,
}

impl Check for C03 {
    type Case = Slicings;
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "A case is one import (content, chunk size, branching factor) and two cycles of push sizes; the block sequences of both and of a single push loop over all the input must be equal. Non-trivial: more than one chunk and the slicings differ."
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Slicings> {
        (strategy(tier), prop::collection::vec(push_step(), 0..8))
            .prop_map(|(import, other)| Slicings { import, other })
            .boxed()
    }
    fn fixed(&self, _tier: Tier) -> Vec<Slicings> {
        // every two-way and every fixed slicing of small inputs
        let mut v = vec![];
        for chunk in 1..=5u32 {
            for len in 0..=22u32 {
                for first in 0..=len {
                    v.push(Slicings {
                        import: Import { content: Content { len, seed: 5, kind: 0 }, chunk: chunk as u64, bf: 2, pushes: vec![Push::Fixed(first), Push::Rest], defaults: false },
                        other: vec![Push::Fixed(first + 1)],
                    });
                }
            }
        }
        v.push(Slicings {
            import: Import { content: Content { len: 600_001, seed: 5, kind: 0 }, chunk: 262144, bf: 174, pushes: vec![Push::Fixed(4096)], defaults: true },
            other: vec![Push::Hint],
        });
        v
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 60_000,
            Tier::Thorough => 2_000_000,
        }
    }
    fn run(&self, case: &Slicings, ctx: &mut Ctx) -> Res {
        let content = case.import.content.expand();
        let whole = drive(&case.import, &content, &[Push::Rest])?;
        let a = drive(&case.import, &content, &case.import.pushes)?;
        let b = drive(&case.import, &content, &case.other)?;
        classify(&case.import, ctx, a.pushes.max(b.pushes), a.empty_pushes + b.empty_pushes, 0);
        ctx.nontrivial = ctx.nontrivial && case.import.pushes != case.other;
        for (name, p) in [("first", &a), ("second", &b)] {
            if p.blocks != whole.blocks {
                let at = p.blocks.iter().zip(&whole.blocks).take_while(|(x, y)| x == y).count();
                return Err(format!(
                    "{} slicing gave {} blocks, unsliced {}; they differ from block {}",
                    name,
                    p.blocks.len(),
                    whole.blocks.len(),
                    at
                ));
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C04 (file half)

struct Known {
    cum: u64,
    size: u64,
    kids: Vec<Cidb>,
}

/// Everything C04 says about the blocks of a file import, block by block.
#[derive(Default)]
struct Integrity {
    known: HashMap<Cidb, Known>,
    root: Option<Cidb>,
    blocks: usize,
}

impl Integrity {
    fn add(&mut self, cid: &Cidb, b: &[u8]) -> Res {
        let i = self.blocks;
        self.blocks += 1;
        self.root = Some(cid.clone());
        if *cid != pbx::cid_v1(b) {
            return Err(format!("block {} is handed out as {} but hashes to {}", i, pbx::hex(cid), pbx::hex(&pbx::cid_v1(b))));
        }
        let (links, u) = pbx::strict(b).map_err(|e| format!("block {}: {}", i, e))?;
        let mut cum = b.len() as u64;
        let mut kids = vec![];
        if links.len() != u.blocksizes.len() {
            return Err(format!("block {}: {} links, {} block sizes", i, links.len(), u.blocksizes.len()));
        }
        for (n, l) in links.iter().enumerate() {
            let h = l.hash.clone().ok_or("link without hash")?;
            let k = self
                .known
                .get(&h)
                .ok_or_else(|| format!("block {} link {} points to {} which was not handed out before", i, n, pbx::hex(&h)))?;
            if l.tsize != Some(k.cum) {
                return Err(format!("block {} link {} has cumulative size {:?} instead of {}", i, n, l.tsize, k.cum));
            }
            if u.blocksizes[n] != k.size {
                return Err(format!("block {} block size {} is {} instead of {}", i, n, u.blocksizes[n], k.size));
            }
            cum += k.cum;
            kids.push(h);
        }
        let size = if links.is_empty() {
            u.data.as_ref().map(|d| d.len()).unwrap_or(0) as u64
        } else {
            u.blocksizes.iter().sum()
        };
        if u.filesize != Some(size) {
            return Err(format!("block {} records file size {:?} instead of {}", i, u.filesize, size));
        }
        self.known.insert(cid.clone(), Known { cum, size, kids });
        Ok(())
    }

    fn finish(self, len: u64) -> Res {
        let known = self.known;
        let root = self.root.ok_or("no blocks")?;
        if known[&root].size != len {
            return Err(format!("root has file size {} instead of {}", known[&root].size, len));
        }
        let mut seen = HashSet::new();
        let mut todo = vec![root];
        while let Some(c) = todo.pop() {
            if seen.insert(c.clone()) {
                todo.extend(known[&c].kids.iter().cloned());
            }
        }
        if seen.len() != known.len() {
            return Err(format!("only {} of {} blocks are reachable from the last one", seen.len(), known.len()));
        }
        Ok(())
    }
}

pub fn run_file_integrity(case: &Import, ctx: &mut Ctx) -> Res {
    let content = case.content.expand();
    let p = drive(case, &content, &case.pushes)?;
    classify(case, ctx, p.pushes, p.empty_pushes, 0);
    let mut all = Integrity::default();
    for (c, b) in &p.blocks {
        all.add(c, b)?;
    }
    all.finish(content.len() as u64)
}

/// An import too large for memory: `chunks` times the same chunk, and `tail` more bytes.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Stream {
    pub chunk: u32,
    pub chunks: u32,
    pub tail: u32,
    pub bf: u16,
    /// bytes of each push
    pub push: u32,
}

pub fn run_stream(case: &Stream, ctx: &mut Ctx) -> Res {
    let len = case.chunk as u64 * case.chunks as u64 + case.tail as u64;
    let one = Content { len: case.chunk.max(1), seed: case.chunks, kind: 0 }.expand();
    let mut buf = one.clone();
    while buf.len() < one.len() + case.push as usize {
        buf.extend_from_slice(&one);
    }
    let mut a = FileAdder::builder()
        .with_chunker(Chunker::Size(one.len()))
        .with_collector(BalancedCollector::with_branching_factor((case.bf as usize).max(2)))
        .build();
    let mut all = Integrity::default();
    let mut off = 0u64;
    let (mut leaves, mut nodes) = (0u64, 0u64);
    let mut add = |(c, b): (libipld::Cid, Vec<u8>)| {
        if b.len() >= one.len() {
            leaves += 1;
        } else {
            nodes += 1;
        }
        all.add(&c.to_bytes(), &b)
    };
    while off < len {
        let from = (off % one.len() as u64) as usize;
        let n = (case.push.max(1) as u64).min(len - off) as usize;
        let (it, n) = a.push(&buf[from..from + n]);
        for b in it {
            add(b)?;
        }
        if n == 0 {
            return Err(format!("push at offset {} made no progress", off));
        }
        off += n as u64;
    }
    for b in a.finish() {
        add(b)?;
    }
    if leaves != case.chunks as u64 {
        return Err(format!("{} full leaves instead of {}", leaves, case.chunks));
    }
    ctx.nontrivial = nodes > 0;
    ctx.class_if(len >> 32 != 0, "import of 4 GiB or more");
    all.finish(len)
}
