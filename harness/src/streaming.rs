//! C30: imports, visits and walks work on a stream of blocks: they hand out what is complete and
//! keep no more than what is still needed.

use crate::dtree::{TEntry, TNode};
use crate::ftree::*;
use crate::gen::*;
use crate::import::{self, Import, Push};
use crate::mem;
use crate::pbx;
use crate::runner::*;
use crate::walkc::{self, Walked};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::ops::Range;
use std::sync::Arc;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Flow {
    /// `take` says for each push, two bits at a time, when its blocks are taken: at once (0, 1),
    /// after everything else (2) or never (3)
    Import { what: Import, take: u64 },
    /// the parts are reached through a visit or, without a range, a walk
    File { tree: Huge, range: Option<(u16, u32)>, walk: bool, cache: bool },
    Tree(Walked),
}

/// What calls of the crate left allocated, and the most they needed meanwhile.
struct Held {
    now: isize,
    peak: isize,
}

impl Held {
    fn new() -> Held {
        Held { now: 0, peak: 0 }
    }
    fn call<T>(&mut self, f: impl FnOnce() -> T) -> T {
        let before = mem::held();
        let (r, peak) = mem::measure(f);
        self.peak = self.now + peak as isize;
        self.now += mem::held() - before;
        r
    }
    fn check(&self, what: &str, most: u64, during: u64) -> Res {
        if self.now > most as isize {
            return Err(format!("{}: {} bytes are held, there is need for at most {}", what, self.now, most));
        }
        if self.peak > (most + during) as isize {
            return Err(format!("{}: {} bytes are in use, there is need for at most {}", what, self.peak, most + during));
        }
        Ok(())
    }
    fn released(&self, what: &str) -> Res {
        if self.now > 4096 {
            return Err(format!("{}: {} bytes are never released", what, self.now));
        }
        Ok(())
    }
}

const FIXED: u64 = 16 << 10;
const PER_LINK: u64 = 1024;
/// the importer may start with a buffer of this size
const BUFFER: u64 = 1 << 20;

type Blocks = Vec<(libipld::Cid, Vec<u8>)>;

fn wanted(p: &Push, off: usize, left: usize, chunk: usize) -> usize {
    match p {
        Push::Fixed(n) => (*n as usize).max(1),
        Push::Hint => chunk,
        Push::Rest => left,
        Push::Boundary(d) => (chunk - off % chunk).saturating_add_signed(*d as isize).max(1),
        Push::Chunks(n) => chunk.saturating_mul((*n as usize).max(1)),
    }
    .min(left)
}

fn run_import(case: &Import, take: u64, ctx: &mut Ctx) -> Res {
    let content = case.content.expand();
    let (chunk, bf) = (case.chunk as usize, case.bf as usize);
    let step = |i: usize, off: usize| {
        let rest = Push::Rest;
        let p = if case.pushes.is_empty() { &rest } else { &case.pushes[i % case.pushes.len()] };
        wanted(p, off, content.len() - off, chunk)
    };
    let stuck = |n: usize, want: usize| if n == 0 || n > want { Err(format!("push of {} bytes consumed {}", want, n)) } else { Ok(()) };

    // what each push hands out, and when
    let mut a = import::adder(case);
    let mut all: Vec<Blocks> = Vec::new();
    let (mut off, mut i, mut leaves, mut nodes) = (0, 0, 0usize, 0usize);
    let mut handed = 0usize;
    while off < content.len() {
        let want = step(i, off);
        let (it, n) = a.push(&content[off..off + want]);
        stuck(n, want)?;
        let new: Blocks = it.collect();
        off += n;
        i += 1;
        for (_, b) in &new {
            let (links, u) = pbx::strict(b).map(|(n, u)| (n.len(), u)).map_err(|e| format!("push {}: {}", i, e))?;
            if links == 0 {
                leaves += 1;
                handed += u.data.map_or(0, |d| d.len());
            } else {
                nodes += 1;
            }
        }
        all.push(new);
        if off - handed.min(off) >= chunk {
            return Err(format!("after {} bytes, in chunks of {}, only {} were handed out", off, chunk, handed));
        }
        let need = leaves.saturating_sub(bf.saturating_add(1)) / bf;
        if nodes < need {
            return Err(format!("after {} leaves, {} to a node, only {} link nodes were handed out", leaves, bf, nodes));
        }
    }
    all.push(a.finish().collect());

    // blocks which are taken later, or not at all
    let when = |i: usize| take >> (i % 32 * 2) & 3;
    let mut a = import::adder(case);
    let mut later = Vec::new();
    let (mut off, mut i) = (0, 0);
    while off < content.len() {
        let want = step(i, off);
        let (it, n) = a.push(&content[off..off + want]);
        stuck(n, want)?;
        off += n;
        match when(i) {
            0 | 1 => {
                let new: Blocks = it.collect();
                if all.get(i) != Some(&new) {
                    return Err(format!("push {} gives other blocks when those of others are not taken at once", i));
                }
            }
            2 => later.push((i, it)),
            _ => drop(it),
        }
        i += 1;
    }
    let last: Blocks = a.finish().collect();
    if all.last() != Some(&last) || i + 1 != all.len() {
        return Err("the last blocks are others when those of the pushes are not taken at once".into());
    }
    let put_off = later.len();
    for (i, it) in later.into_iter().rev() {
        let new: Blocks = it.collect();
        if all.get(i) != Some(&new) {
            return Err(format!("push {} gives other blocks when they are taken later", i));
        }
    }
    drop(all);

    // what it needs meanwhile
    let mut h = Held::new();
    let mut a = h.call(|| import::adder(case));
    let (mut off, mut i) = (0, 0);
    while off < content.len() {
        let want = step(i, off);
        let n = h.call(|| {
            let (it, n) = a.push(&content[off..off + want]);
            it.for_each(drop);
            n
        });
        stuck(n, want)?;
        off += n;
        i += 1;
        let chunk = (chunk as u64).min(BUFFER.max(off as u64));
        let leaves = off as u64 / chunk + 1;
        let node = leaves.min(bf as u64);
        let most = FIXED + 3 * chunk + PER_LINK * (node + leaves / bf as u64);
        h.check(&format!("importing, after {} bytes", off), most, 3 * chunk + PER_LINK * node)?;
    }
    h.call(|| a.finish().for_each(drop));
    h.released("importing")?;
    ctx.nontrivial = leaves > 1;
    ctx.class("import");
    ctx.class_if(nodes > 0, "import which hands out link nodes before its end");
    ctx.class_if(put_off > 0, "blocks of pushes taken later");
    ctx.class_if(content.len() as u64 > 4 * FIXED + 8 * case.chunk.min(1 << 40), "import of far more than it may hold");
    Ok(())
}

fn pending<'a>((_, rest): (&'a libipld::Cid, impl Iterator<Item = &'a libipld::Cid>)) -> u64 {
    1 + rest.count() as u64
}

fn run_visit(m: &FModel, store: &Store, range: Option<Range<u64>>, cached: bool, cap: usize, ctx: &mut Ctx) -> Res {
    use unixfs_v1::file::visit::IdleFileVisit;
    let mut h = Held::new();
    let mut cache = None;
    let mut known = 0u64;
    let mut given = m.block.len() as u64;
    let mut step = h.call(|| {
        let mut idle = IdleFileVisit::default();
        if let Some(r) = range.clone() {
            idle = idle.with_target_range(r);
        }
        idle.start(&m.block).map(|(_, _, _, s)| s)
    })
    .map_err(|e| format!("start: {}", e))?;
    let mut n = 0;
    let mut last = m.block.len() as u64;
    while let Some(v) = step {
        known = known.max(pending(v.pending_links()));
        h.check(&format!("visiting, after {} blocks", n + 1), FIXED + PER_LINK * known, FIXED + 256 * last)?;
        if n >= cap {
            step = Some(v);
            break;
        }
        let next = v.pending_links().0.to_bytes();
        let b = store.get(&next).cloned().ok_or("visit asks for an unknown block")?;
        given += b.len() as u64;
        last = b.len() as u64;
        let c = &mut cache;
        step = h
            .call(|| if cached { v.continue_walk(&b, c).map(|r| r.1) } else { v.continue_walk(&b, &mut None).map(|r| r.1) })
            .map_err(|e| format!("block {}: {}", n, e))?;
        n += 1;
    }
    h.call(|| drop(step));
    h.check("a visit which ended", FIXED + PER_LINK * known, FIXED + 256 * last)?;
    h.call(|| drop(cache.take()));
    h.released("visiting")?;
    classify(given, known, n, ctx);
    Ok(())
}

fn classify(given: u64, known: u64, n: usize, ctx: &mut Ctx) {
    ctx.nontrivial = n >= 3;
    ctx.class_if(given > 4 * (FIXED + PER_LINK * known), "given far more than it may hold");
    ctx.class_if(n >= 1000, "1000 blocks or more");
}

/// `name`: the longest name in the tree
fn run_walk(root: &Cidb, root_name: &str, store: &Store, name: u64, cached: bool, cap: usize, ctx: &mut Ctx) -> Res {
    use unixfs_v1::walk::Walker;
    let mut h = Held::new();
    let mut cache = None;
    let cid = pbx::to_cid(root);
    let mut w = h.call(|| Walker::new(cid, root_name.to_string()));
    let (mut known, mut given, mut n, mut last, mut path) = (1u64, 0u64, 0, 0u64, root_name.len() as u64);
    while w.should_continue() && n < cap {
        known = known.max(pending(w.pending_links()));
        let next = w.pending_links().0.to_bytes();
        let b = store.get(&next).cloned().ok_or("walk asks for an unknown block")?;
        given += b.len() as u64;
        last = b.len() as u64;
        let c = &mut cache;
        let len = h
            .call(|| {
                use unixfs_v1::walk::ContinuedWalk::*;
                let r = if cached { w.next(&b, c) } else { w.next(&b, &mut None) };
                r.map(|s| match s {
                    Bucket(_, p) | Directory(_, p, _) | RootDirectory(_, p, _) | File(_, _, p, _, _) | Symlink(_, _, p, _) => p.as_os_str().len(),
                })
            })
            .map_err(|e| format!("block {}: {}", n, e))?;
        path = path.max(len as u64);
        n += 1;
        if w.should_continue() {
            known = known.max(pending(w.pending_links()));
        }
        let most = FIXED + (PER_LINK + 4 * name) * known + 16 * path;
        h.check(&format!("walking, after {} blocks", n), most, FIXED + 256 * last)?;
    }
    h.call(|| drop(w));
    h.check("a walk which ended", FIXED + (PER_LINK + 4 * name) * known + 16 * path, FIXED + 256 * last)?;
    h.call(|| drop(cache.take()));
    h.released("walking")?;
    classify(given, known, n, ctx);
    Ok(())
}

fn names(n: &crate::dtree::TModel) -> usize {
    n.entries().iter().map(|l| l.name.len().max(names(&l.node))).max().unwrap_or(0)
}

pub struct C30;

impl Check for C30 {
    type Case = Flow;
    fn id(&self) -> &'static str {
        "C30"
    }
    fn rule(&self) -> &'static str {
        "A case is an import (content, settings, pushes, when the blocks of each push are taken), a visit (whole or of a \
         range) or walk of a file of many parts, or a walk of a tree. After every call the blocks handed out and the \
         memory it left allocated, as counted by the allocator, are judged. Non-trivial: an import of more than one \
         chunk, a visit or walk of at least three blocks."
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 24_000,
            Tier::Thorough => 800_000,
        }
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Flow> {
        let long = (
            (50u32..2000, 100u32..6000, prop_oneof![Just(2u64), Just(3), 4u64..40, Just(174)], 0u32..6000),
            any::<u32>(),
            prop::collection::vec(
                prop_oneof![2 => Just(Push::Hint), 1 => (1u8..4).prop_map(Push::Chunks), 2 => (-2i8..=2).prop_map(Push::Boundary), 1 => (50u32..9000).prop_map(Push::Fixed)],
                1..4,
            ),
        )
            .prop_map(|((n, chunk, bf, less), seed, pushes)| Import {
                content: Content { len: (n * chunk).saturating_sub(less).min(2_000_000), seed, kind: 0 },
                chunk: chunk as u64,
                bf,
                pushes,
                defaults: false,
            });
        let what = prop_oneof![12 => import::strategy(tier), 1 => long];
        let tree = (
            prop_oneof![1 => 0u32..40, 1 => 1000u32..20_000],
            prop_oneof![
                4 => prop::collection::vec(2u16..9, 1..6),
                1 => (100u16..400, 1u16..4).prop_map(|(a, b)| vec![a, b]),
                1 => (100u16..400, 1u16..4).prop_map(|(a, b)| vec![b, a]),
                1 => prop::collection::vec(1u16..3, 10..60),
            ],
            1u8..=3,
            0u8..4,
        )
            .prop_map(|(leaf, fans, variants, style)| Huge { leaf, fans, variants, style });
        prop_oneof![
            3 => (what, any::<u64>(), any::<bool>()).prop_map(|(what, a, all)| Flow::Import { what, take: if all { a } else { 0xaaaa_aaaa_aaaa_aaaa & a } }),
            2 => (tree, prop::option::weighted(0.3, (any::<u16>(), any::<u32>())), any::<bool>(), any::<bool>())
                .prop_map(|(tree, range, walk, cache)| Flow::File { tree, range, walk, cache }),
            2 => walkc::walked(tier).prop_map(Flow::Tree),
        ]
        .boxed()
    }
    fn fixed(&self, _tier: Tier) -> Vec<Flow> {
        let mut v = vec![];
        let import = |len, chunk, bf, pushes| Flow::Import {
            what: Import { content: Content { len, seed: 5, kind: 0 }, chunk, bf, pushes, defaults: true },
            take: 0x9,
        };
        for pushes in [vec![Push::Hint], vec![Push::Fixed(4096)], vec![Push::Fixed(300_000)], vec![Push::Rest], vec![Push::Fixed(1), Push::Rest]] {
            v.push(import(12_000_000, 262_144, 174, pushes.clone()));
            v.push(import(8_000_000, 4096, 10, pushes.clone()));
            v.push(import(3_000_000, 100, 174, pushes.clone()));
            v.push(import(3_500_000, 1_500_000, 2, pushes));
        }
        for (leaf, fans) in [(20_000, vec![10u16, 10, 10]), (30, vec![174, 60]), (5, vec![100, 3, 40]), (262_144, vec![20, 10]), (40_000, vec![2; 10])] {
            for (range, walk) in [(None, false), (None, true), (Some((3, 700)), false)] {
                for cache in [false, true] {
                    v.push(Flow::File { tree: Huge { leaf, fans: fans.clone(), variants: 2, style: 1 }, range, walk, cache });
                }
            }
        }
        // directories whose files and links are large in total
        let file = |i: u32, len: u32| {
            TNode::File(FTree {
                root: FNode::Leaf { c: Content { len, seed: i % 7, kind: 0 }, file: true, size: true, data: false },
                meta: Meta::default(),
            })
        };
        let entry = |name: String, node: TNode| TEntry { name, force: None, deepen: 0, style: 1, tsize: true, node };
        for hamt in [false, true] {
            let dir = |entries: Vec<TEntry>| match hamt {
                true => TNode::Hamt { entries, meta: Meta::default(), bitfield: 0 },
                false => TNode::Dir { entries, meta: Meta::default(), sorted: true, empty_data: false },
            };
            let files = dir((0..250u32).map(|i| entry(format!("f{}", i), file(i, 40_000))).collect());
            let dirs = dir((0..60u32).map(|j| entry(format!("d{}", j), dir((0..60u32).map(|i| entry(format!("{}-{}", j, i), file(i, i))).collect()))).collect());
            for root in [files, dirs] {
                v.push(Flow::Tree(Walked { root, name: "all".into(), style: 1, cache: hamt }));
            }
        }
        v
    }
    fn run(&self, case: &Flow, ctx: &mut Ctx) -> Res {
        match case {
            Flow::Import { what, take } => run_import(what, *take, ctx),
            Flow::File { tree, range, walk, cache } => {
                let mut store = Store::new();
                let m: Arc<FModel> = tree.build(&mut store);
                let root = pbx::cid_style(tree.style, &m.block);
                store.insert(root.clone(), m.block.clone());
                if *walk {
                    ctx.class("walk of a file");
                    return run_walk(&root, "", &store, 0, *cache, 12_000, ctx);
                }
                ctx.class("visit");
                let range = range.map(|(at, len)| {
                    let start = (m.size as u128 * at as u128 / 65_536) as u64;
                    start..start.saturating_add(len as u64)
                });
                run_visit(&m, &store, range, *cache, 12_000, ctx)
            }
            Flow::Tree(walked) => {
                let mut store = Store::new();
                let m = walked.root.build(&mut store);
                let root = pbx::cid_style(walked.style, &m.block);
                store.insert(root.clone(), m.block.clone());
                ctx.class("walk of a tree");
                run_walk(&root, &walked.name, &store, names(&m) as u64, walked.cache, 12_000, ctx)
            }
        }
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "Memory is what goes through the global allocator on the thread of the calls. What may be held: 16 KiB, 1 KiB \
             per link known at a time (and four times the longest name in a walk), three chunks of an import.",
        ]
    }
}
