//! C28: several operations in progress at the same time.

use crate::builder::{self, Build, Simple};
use crate::ftree::FModel;
use crate::gen::*;
use crate::import::{self, Import};
use crate::pbx;
use crate::runner::*;
use crate::walkc::{self, DCache, Fault, Needle, VCache, Walked, World};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use unixfs_v1::dir::builder::{BufferingTreeBuilder, PostOrderIterator};
use unixfs_v1::dir::ShardedLookup;
use unixfs_v1::file::adder::FileAdder;
use unixfs_v1::file::visit::{FileVisit, IdleFileVisit};
use unixfs_v1::walk::Walker;
use unixfs_v1::MaybeResolved;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    Visit { src: u8, range: Option<RangeSpec>, fault: Fault },
    Walk { name: String, fault: Fault },
    Resolve { src: u8, needle: Needle, fault: Fault },
    /// slices of these lengths in turn; dropped after so many pushes
    Import { what: Import, slices: Vec<u8>, stop: Option<u8> },
    /// dropped after so many steps
    Build { what: Build, stop: Option<u8> },
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Woven {
    pub tree: Walked,
    pub kinds: Vec<Kind>,
    /// which of those in progress takes how many steps next; in turns after these
    pub order: Vec<(u8, u8)>,
    /// the steps which are taken on a thread of their own
    pub hops: u64,
    /// all use the same caches
    pub shared: bool,
    /// asking for a block and giving it are steps of their own
    pub apart: bool,
}

const CAP: usize = 400;

/// Something in progress: what it gave so far, and how to go on.
struct Task<'w> {
    w: &'w World<'w>,
    kind: &'w Kind,
    at: At,
    n: usize,
    trace: Vec<String>,
    apart: bool,
    asked: Option<Option<Vec<u8>>>,
}

enum At {
    Start,
    Visit(Box<FileVisit>),
    Walk(Box<Walker>),
    Look(ShardedLookup<'static>),
    Import(Box<FileAdder>, Vec<u8>, usize),
    Adding(Box<BufferingTreeBuilder>, Vec<Simple>),
    Building(Box<PostOrderIterator>),
    End,
}

fn block_of(b: &[u8]) -> String {
    format!("{} bytes {}", b.len(), pbx::hex(&pbx::sha256(b)[..8]))
}

fn owned(r: Result<MaybeResolved<'_>, impl std::fmt::Debug>, trace: &mut Vec<String>) -> At {
    trace.push(format!("{:?}", r));
    match r {
        Ok(MaybeResolved::NeedToLoadMore(l)) => At::Look(l.with_owned_needle()),
        _ => At::End,
    }
}

impl<'w> Task<'w> {
    fn new(w: &'w World<'w>, kind: &'w Kind, apart: bool) -> Self {
        Task { w, kind, at: At::Start, n: 0, trace: vec![], apart, asked: None }
    }
    fn done(&self) -> bool {
        matches!(self.at, At::End)
    }
    /// The block to go on with, notes what is asked for.
    fn serve<'c>(&mut self, links: (&'c libipld::Cid, impl Iterator<Item = &'c libipld::Cid>), fault: &Fault) -> Option<Vec<u8>> {
        let first = links.0.to_bytes();
        let mut all = String::new();
        for c in std::iter::once(links.0).chain(links.1) {
            let c = c.to_bytes();
            all.push_str(&pbx::hex(&c[c.len().saturating_sub(4)..]));
        }
        self.trace.push(all);
        walkc::faulty(fault, self.n + 1, self.w.block(&first)?, self.w.every())
    }
    /// Asks for the next block. True when there was one to ask for.
    fn ask(&mut self) -> bool {
        let at = std::mem::replace(&mut self.at, At::End);
        let asked = match (&at, self.kind) {
            (At::Visit(v), Kind::Visit { fault, .. }) => Some(self.serve(v.pending_links(), fault)),
            (At::Walk(k), Kind::Walk { fault, .. }) => Some(self.serve(k.pending_links(), fault)),
            (At::Look(l), Kind::Resolve { fault, .. }) => Some(self.serve(l.pending_links(), fault)),
            _ => None,
        };
        self.at = at;
        self.asked = asked;
        self.asked.is_some()
    }
    fn step(&mut self, vc: &mut VCache, dc: &mut DCache) {
        if self.asked.is_none() && self.ask() && self.apart {
            return;
        }
        let asked = self.asked.take().flatten();
        self.n += 1;
        let n = self.n;
        let at = std::mem::replace(&mut self.at, At::End);
        if n > CAP {
            return;
        }
        self.at = match (at, self.kind) {
            (At::Start, Kind::Visit { src, range, fault }) => {
                let Some(f): Option<Arc<FModel>> = self.w.file(*src) else { return };
                let mut idle = IdleFileVisit::default();
                if let Some(r) = range {
                    idle = idle.with_target_range(r.range(&f.boundaries(500), f.size));
                }
                let Some(block) = walkc::faulty(fault, 1, &f.block, self.w.every()) else { return };
                match idle.start(&block) {
                    Ok((b, size, md, v)) => {
                        self.trace.push(format!("{} {} {:?}", block_of(b), size, md));
                        v.map_or(At::End, |v| At::Visit(Box::new(v)))
                    }
                    Err(e) => {
                        self.trace.push(format!("{:?}", e));
                        At::End
                    }
                }
            }
            (At::Visit(v), Kind::Visit { .. }) => {
                let Some(block) = asked else { return };
                match v.continue_walk(&block, vc) {
                    Ok((b, v)) => {
                        self.trace.push(format!("{} {:?}", block_of(b), v.as_ref().map(|v| v.file_size())));
                        v.map_or(At::End, |v| At::Visit(Box::new(v)))
                    }
                    Err(e) => {
                        self.trace.push(format!("{:?}", e));
                        At::End
                    }
                }
            }
            (At::Start, Kind::Walk { name, .. }) => At::Walk(Box::new(Walker::new(pbx::to_cid(&self.w.b.cid), name.clone()))),
            (At::Walk(mut k), Kind::Walk { .. }) => {
                let Some(block) = asked else { return };
                let r = k.next(&block, vc);
                self.trace.push(match &r {
                    Ok(unixfs_v1::walk::ContinuedWalk::File(s, ..)) => format!("{:?} {}", r, block_of(s.as_bytes())),
                    r => format!("{:?}", r),
                });
                if k.should_continue() {
                    At::Walk(k)
                } else {
                    At::End
                }
            }
            (At::Start, Kind::Resolve { src, needle, fault }) => {
                let Some((block, names)) = self.w.dir(*src) else { return };
                let name = match needle {
                    Needle::Entry(i) if !names.is_empty() => names[*i as usize % names.len()].clone(),
                    Needle::Entry(_) => "x".into(),
                    Needle::Other(s) => s.clone(),
                };
                let Some(block) = walkc::faulty(fault, 1, block, self.w.every()) else { return };
                owned(unixfs_v1::resolve(&block, &name, dc), &mut self.trace)
            }
            (At::Look(l), Kind::Resolve { .. }) => {
                let Some(block) = asked else { return };
                owned(l.continue_walk(&block, dc), &mut self.trace)
            }
            (At::Start, Kind::Import { what, .. }) => At::Import(Box::new(import::adder(what)), what.content.expand(), 0),
            (At::Import(_, ..), Kind::Import { stop: Some(s), .. }) if *s as usize == n => At::End,
            (At::Import(a, content, off), Kind::Import { .. }) if off == content.len() => {
                for (c, b) in a.finish() {
                    self.trace.push(format!("{} {}", c, block_of(&b)));
                }
                At::End
            }
            (At::Import(mut a, content, off), Kind::Import { slices, .. }) => {
                let want = if slices.is_empty() { content.len() } else { slices[n % slices.len()] as usize + 1 };
                // the last steps are not for so few bytes at a time
                let want = if n > CAP / 2 { content.len() } else { want };
                let (blocks, used) = a.push(&content[off..content.len().min(off.saturating_add(want))]);
                for (c, b) in blocks {
                    self.trace.push(format!("{} {}", c, block_of(&b)));
                }
                self.trace.push(format!("used {}", used));
                At::Import(a, content, off + used)
            }
            (At::Start, Kind::Build { what, .. }) => {
                let mut todo = builder::flatten(what);
                todo.reverse();
                At::Adding(Box::new(BufferingTreeBuilder::new(builder::options(what.wrap, None))), todo)
            }
            (At::Adding(..) | At::Building(_), Kind::Build { stop: Some(s), .. }) if *s as usize == n => At::End,
            (At::Adding(mut b, mut todo), Kind::Build { .. }) => {
                // long lists go faster towards their end
                for _ in 0..1 + todo.len() / 40 {
                    if let Some(op) = todo.pop() {
                        let r = builder::raw_op(&mut b, &op);
                        self.trace.push(format!("{:?}", r));
                    }
                }
                if todo.is_empty() {
                    At::Building(Box::new(b.build()))
                } else {
                    At::Adding(b, todo)
                }
            }
            (At::Building(mut it), Kind::Build { what, .. }) => {
                let next = if what.turns() >> (n % 8) & 1 == 1 {
                    it.next_borrowed().map(|r| r.map(|t| t.into_owned()))
                } else {
                    it.next()
                };
                match next {
                    Some(Ok(t)) => {
                        self.trace.push(format!("{:?} {} {} {}", t.path, t.cid, t.total_size, block_of(&t.block)));
                        At::Building(it)
                    }
                    Some(Err(e)) => {
                        self.trace.push(format!("{:?}", e));
                        At::Building(it)
                    }
                    None => At::End,
                }
            }
            _ => unreachable!("no such state"),
        };
    }
}

fn kind() -> BoxedStrategy<Kind> {
    let import = (0u32..120, any::<u32>(), 1u64..20, 2u64..5, prop::collection::vec(0u8..40, 0..4), any::<bool>()).prop_map(
        |(len, seed, chunk, bf, slices, _)| {
            let what = Import { content: Content { len, seed, kind: 0 }, chunk, bf, pushes: vec![], defaults: false };
            (what, slices)
        },
    );
    let stop = || prop_oneof![3 => Just(None), 1 => (2u8..12).prop_map(Some)];
    let build = builder::build(1).prop_filter_map("no long lists", |mut b| {
        b.ops.retain(|o| !matches!(o, builder::Op::Many { .. }));
        Some(b)
    });
    prop_oneof![
        4 => (any::<u8>(), prop::option::of(range_spec()), walkc::fault()).prop_map(|(src, range, fault)| Kind::Visit { src, range, fault }),
        3 => (prop_oneof![2 => Just(String::new()), 1 => name()], walkc::fault()).prop_map(|(name, fault)| Kind::Walk { name, fault }),
        4 => (any::<u8>(), prop_oneof![4 => any::<u16>().prop_map(Needle::Entry), 1 => name().prop_map(Needle::Other)], walkc::fault())
            .prop_map(|(src, needle, fault)| Kind::Resolve { src, needle, fault }),
        3 => (import, stop()).prop_map(|((what, slices), stop)| Kind::Import { what, slices, stop }),
        3 => (build, stop()).prop_map(|(what, stop)| Kind::Build { what, stop }),
    ]
    .boxed()
}

pub struct C28;

impl Check for C28 {
    type Case = Woven;
    fn id(&self) -> &'static str {
        "C28"
    }
    fn rule(&self) -> &'static str {
        "A case is a tree, two to six operations (visits, walks and lookups in it, imports, tree constructions; \
         some failing, some dropped on the way), an order in which they take their steps, which of the steps run on \
         another thread, and whether they share caches. Each is run alone first, without caches and on a new thread; the traces (bytes, \
         blocks, pending links, results, error texts) must be the same. Non-trivial: at least two operations took \
         turns, each with steps between those of another."
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 30_000,
            Tier::Thorough => 1_500_000,
        }
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Woven> {
        let twice = (kind(), any::<bool>(), prop::collection::vec(kind(), 0..4)).prop_map(|(k, twice, mut v)| {
            if twice {
                v.push(k.clone());
            }
            v.push(k.clone());
            v
        });
        (
            walkc::walked(tier),
            prop_oneof![1 => twice.boxed(), 2 => prop::collection::vec(kind(), 2..=6).boxed()],
            prop::collection::vec((any::<u8>(), prop_oneof![3 => Just(1u8), 1 => 1u8..6]), 0..60),
            prop_oneof![2 => Just(0u64), 1 => any::<u64>().prop_map(|h| h & h.rotate_left(17) & h.rotate_left(29)), 1 => Just(u64::MAX)],
            any::<bool>(),
            any::<bool>(),
        )
            .prop_map(|(tree, kinds, order, hops, shared, apart)| Woven { tree, kinds, order, hops, shared, apart })
            .boxed()
    }
    fn run(&self, case: &Woven, ctx: &mut Ctx) -> Res {
        let built = case.tree.build();
        let w = World::new(&built);
        let alone = case
            .kinds
            .iter()
            .map(|k| {
                fresh(|| {
                    let mut t = Task::new(&w, k, case.apart);
                    while !t.done() {
                        t.step(&mut None, &mut None);
                    }
                    Ok(t.trace)
                })
            })
            .collect::<Result<Vec<Vec<String>>, String>>()?;
        fresh(|| self.woven(case, ctx, &w, &alone))
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["A step is one call. Calls on different threads do not overlap in time: each works on values of its own, and the library is safe Rust without shared state."]
    }
}

/// On a thread which did nothing before.
fn fresh<T: Send>(f: impl FnOnce() -> Result<T, String> + Send) -> Result<T, String> {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(s, || guarded(f))
            .expect("a thread")
            .join()
    })
    .map_err(|_| "panicked".to_string())?
}

impl C28 {
    fn woven(&self, case: &Woven, ctx: &mut Ctx, w: &World, alone: &[Vec<String>]) -> Res {

        let mut tasks: Vec<Task> = case.kinds.iter().map(|k| Task::new(w, k, case.apart)).collect();
        let mut caches: Vec<(VCache, DCache)> = tasks.iter().map(|_| (None, None)).collect();
        let mut order = case.order.iter();
        let (mut turn, mut steps, mut hops, mut switches) = (0, 0usize, 0, 0);
        let mut last = None;
        loop {
            let going: Vec<usize> = (0..tasks.len()).filter(|i| !tasks[*i].done()).collect();
            if going.is_empty() {
                break;
            }
            let (i, times) = match order.next() {
                Some((i, times)) => (going[*i as usize % going.len()], *times),
                None => {
                    turn += 1;
                    (going[turn % going.len()], 1)
                }
            };
            switches += (last.is_some_and(|l| l != i && going.contains(&l)) && tasks[i].n > 0) as usize;
            last = Some(i);
            let c = if case.shared { 0 } else { i };
            for _ in 0..times {
                let t = &mut tasks[i];
                if t.done() {
                    break;
                }
                let (vc, dc) = &mut caches[c];
                // threads are costly
                if case.hops >> (steps % 64) & 1 == 1 && hops < 24 {
                    hops += 1;
                    let r = std::thread::scope(|s| s.spawn(|| guarded(|| Ok(t.step(vc, dc)))).join());
                    r.map_err(|_| "a step panicked".to_string())?.map_err(|e| format!("operation {}, on another thread: {}", i, e))?;
                } else {
                    t.step(vc, dc);
                }
                steps += 1;
            }
        }
        for (i, (t, alone)) in tasks.iter().zip(alone).enumerate() {
            if t.trace != *alone {
                let d = t.trace.iter().zip(alone).take_while(|(a, b)| a == b).count();
                return Err(format!(
                    "operation {}: {}: differs at event {}: among others {:?}, alone {:?}",
                    i,
                    clip(&format!("{:?}", case.kinds[i]), 300),
                    d,
                    t.trace.get(d).map(|s| clip(s, 300)),
                    alone.get(d).map(|s| clip(s, 300))
                ));
            }
        }
        ctx.nontrivial = switches >= 2;
        ctx.class_if(hops > 0, "steps on other threads");
        ctx.class_if(case.shared, "shared caches");
        ctx.class_if(case.apart, "other steps between asking for a block and giving it");
        ctx.class_if(case.kinds.iter().enumerate().any(|(i, k)| case.kinds[..i].contains(k)), "the same operation twice");
        ctx.class_if(switches >= 10, "ten or more switches between operations");
        for k in &case.kinds {
            ctx.class(match k {
                Kind::Visit { .. } => "visit",
                Kind::Walk { .. } => "walk",
                Kind::Resolve { .. } => "lookup",
                Kind::Import { .. } => "import",
                Kind::Build { .. } => "tree construction",
            });
        }
        Ok(())
    }
}
