//! C13, C14, C18, C19, C21: walks over trees.

use crate::builder;
use crate::dtree::{self, *};
use crate::ftree::*;
use crate::gen::*;
use crate::inspect::Eye;
use crate::pbx::{self, Node, UData};
use crate::runner::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};
use std::sync::Arc;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Walked {
    pub root: TNode,
    pub name: String,
    pub style: u8,
    /// walk with a cache, twice over
    pub cache: bool,
}

pub fn walked(tier: Tier) -> BoxedStrategy<Walked> {
    let (d, s) = if tier == Tier::Quick { (4, 30) } else { (6, 80) };
    (
        ttree(d, s),
        prop_oneof![1 => Just(String::new()), 1 => Just("root".to_string()), 1 => name(), 1 => prop::collection::vec(name(), 2..5).prop_map(|v| v.join("/"))],
        0u8..4,
        any::<bool>(),
    )
        .prop_map(|(root, name, style, cache)| Walked { root, name, style, cache })
        .boxed()
}

pub struct Built {
    pub store: Store,
    pub model: Arc<TModel>,
    pub cid: Cidb,
    pub want: Vec<WStep>,
}

impl Walked {
    pub fn build(&self) -> Built {
        let mut store = Store::new();
        let model = self.root.build(&mut store);
        let cid = pbx::cid_style(self.style, &model.block);
        store.insert(cid.clone(), model.block.clone());
        let want = self.sparing(|| reference_walk(&model, &cid, &self.name));
        Built { store, model, cid, want }
    }
    /// Very wide directories have too many pending links to keep them for every step.
    fn sparing<T>(&self, f: impl FnOnce() -> T) -> T {
        fn many(n: &TNode) -> bool {
            match n {
                TNode::Wide { n, .. } => *n > 2000,
                TNode::File(t) => matches!(&t.root, FNode::Inner { kids, .. } if kids.iter().any(|k| k.repeat > 100)),
                TNode::Dir { entries, .. } | TNode::Hamt { entries, .. } => entries.iter().any(|e| many(&e.node)),
                _ => false,
            }
        }
        if many(&self.root) {
            few_pending(f)
        } else {
            f()
        }
    }
    pub fn walk(&self, b: &Built) -> Result<Vec<WStep>, String> {
        self.sparing(|| self.walk_all(b))
    }
    fn walk_all(&self, b: &Built) -> Result<Vec<WStep>, String> {
        let mut cache = None;
        if self.cache {
            // leaves some cache behind
            let _ = dtree::walk(&b.cid, "x", &b.store, &mut cache, b.want.len() + 4);
        }
        dtree::walk(&b.cid, &self.name, &b.store, &mut cache, b.want.len() + 4)
            .map_err(|(s, e)| format!("after {} of {} blocks: {}", s.len(), b.want.len(), e))
    }
}

fn classify(case: &Walked, b: &Built, ctx: &mut Ctx) {
    let evs = || b.want.iter().map(|s| &s.ev);
    let dirs = evs().filter(|e| matches!(e, Ev::Dir | Ev::RootDir)).count();
    let files = evs().filter(|e| matches!(e, Ev::File { first: true, .. })).count();
    ctx.nontrivial = dirs >= 1 && b.want.len() >= 3;
    ctx.class_if(dirs == 0, "no directory");
    ctx.class_if(dirs >= 2, "nested directories");
    ctx.class_if(evs().any(|e| *e == Ev::Bucket), "continuation buckets");
    ctx.class_if(evs().any(|e| matches!(e, Ev::Symlink(_))), "symlinks");
    ctx.class_if(evs().any(|e| matches!(e, Ev::File { first: true, last: false, .. })), "file of several blocks");
    ctx.class_if(files >= 2, "several files");
    let again = |bucket: bool| {
        let mut seen = std::collections::BTreeSet::new();
        b.want.windows(2).any(|w| {
            // a non-empty directory's first entry lies below it
            let kind = if bucket { w[0].ev == Ev::Bucket } else { w[0].ev == Ev::Dir && w[1].path.len() > w[0].path.len() };
            kind && !seen.insert(w[0].cid.clone())
        })
    };
    ctx.class_if(again(false), "the same non-empty directory twice");
    ctx.class_if(again(true), "the same continuation bucket twice");
    ctx.class_if(b.want.len() >= 100, "100 blocks or more");
    ctx.class_if(b.want.iter().any(|s| s.path.matches('/').count() >= 5), "five or more levels deep");
    ctx.class_if(case.name.is_empty(), "unnamed root");
    ctx.class_if(case.name.contains('/'), "root name of several components");
    fn hamt(n: &TModel) -> bool {
        matches!(n.kind, TKind::Hamt(_)) || n.entries().iter().any(|l| hamt(&l.node))
    }
    ctx.class_if(hamt(&b.model), "sharded directory");
    ctx.class_if(b.model.is_dir() && b.want.len() == 1, "empty root directory");
}

const WALK_RULE: &str = "A case is a tree mixing plain directories (sorted or not), sharded directories laid out by the murmur3 prefix (with forced collisions and extra nesting), files of any shape and symlinks, a root name (or none) and a CID style; including chains, wide directories and sharded roots. Non-trivial: at least one directory and three blocks.";

fn big_walks() -> Vec<Walked> {
    let one = |root| Walked { root, name: "big".into(), style: 1, cache: false };
    let mut all = dtree::big_trees();
    // a file of many blocks, alone and with many entries around it
    let leaf = |j: u32| FNode::Leaf { c: Content { len: 1 + j % 5, seed: j, kind: 0 }, file: j % 2 == 0, size: true, data: false };
    let kid = |node, repeat| Kid { node, repeat, style: 1, name: 0, tsize: true };
    let mut kids: Vec<Kid> = (0..5).map(|j| kid(leaf(j), 240)).collect();
    kids.insert(2, kid(FNode::Inner { kids: (5..9).map(|j| kid(leaf(j), 150)).collect(), file: true }, 2));
    let file = TNode::File(FTree { root: FNode::Inner { kids, file: true }, meta: Meta::default() });
    all.push(file.clone());
    for hamt in [false, true] {
        let entries = (0..700u32)
            .map(|i| TEntry {
                name: format!("{:04}", i),
                force: None,
                deepen: 0,
                style: 1,
                tsize: true,
                node: if i == 150 || i == 151 { file.clone() } else { TNode::File(FTree { root: leaf(i), meta: Meta::default() }) },
            })
            .collect();
        all.push(if hamt {
            TNode::Hamt { entries, meta: Meta::default(), bitfield: 0 }
        } else {
            TNode::Dir { entries, meta: Meta::default(), sorted: true, empty_data: false }
        });
    }
    all.into_iter().map(one).collect()
}

pub struct C13;

const ODD_ROOTS: &[&str] = &["/", "/a", "/a/b", "a/", "a//b", "./a", ".", "..", "../a", "a/.", "a/./b", "a/..", "a/../b", "//a", "/a/b/", "./", "a b", "\\a", "C:\\a"];

impl Check for C13 {
    type Case = Walked;
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        WALK_RULE
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Walked> {
        let odd = prop::sample::select(ODD_ROOTS.to_vec());
        let root = prop_oneof![14 => Just(None), 1 => odd.prop_map(Some)];
        (walked(tier), root)
            .prop_map(|(mut w, root)| {
                if let Some(r) = root {
                    w.name = r.to_string();
                }
                w
            })
            .boxed()
    }
    fn fixed(&self, _tier: Tier) -> Vec<Walked> {
        big_walks()
    }
    fn cases(&self, tier: Tier) -> u32 {
        if tier == Tier::Quick {
            60_000
        } else {
            2_500_000
        }
    }
    fn run(&self, case: &Walked, ctx: &mut Ctx) -> Res {
        let b = case.build();
        classify(case, &b, ctx);
        let got = case.walk(&b)?;
        // other ways of writing a path are the same path
        let plain = |p: &str| -> PathBuf { Path::new(p).components().collect() };
        let odd = plain(&case.name).to_str() != Some(&case.name[..]);
        ctx.class_if(odd || case.name.starts_with('/') || case.name.starts_with('.'), "unusual root name");
        let path = |s: &WStep| if odd { plain(&s.path) } else { PathBuf::from(&s.path) };
        let text = |s: &WStep| path(s).into_os_string();
        let strip = |s: &WStep| {
            let ev = match &s.ev {
                Ev::File { size, .. } => Ev::File { bytes: vec![], first: false, last: false, size: *size },
                e => e.clone(),
            };
            (ev, s.cid.clone(), text(s))
        };
        for (i, (g, w)) in got.iter().zip(&b.want).enumerate() {
            if strip(g) != strip(w) {
                return Err(format!("block {}: reported {} instead of {}", i, show(g), show(w)));
            }
        }
        if got.len() != b.want.len() {
            return Err(format!("the walk ended after {} of {} blocks", got.len(), b.want.len()));
        }
        Ok(())
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["Entry names are non-empty, hold no '/' and are not '.'; paths below a root name which is not written plainly (such as \"a/./b/\") are compared by their components."]
    }
}

pub struct C14;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Content14 {
    pub walked: Walked,
}

impl Check for C14 {
    type Case = Content14;
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        WALK_RULE
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Content14> {
        walked(tier).prop_map(|walked| Content14 { walked }).boxed()
    }
    fn fixed(&self, _tier: Tier) -> Vec<Content14> {
        big_walks().into_iter().map(|walked| Content14 { walked }).collect()
    }
    fn cases(&self, tier: Tier) -> u32 {
        if tier == Tier::Quick {
            60_000
        } else {
            2_500_000
        }
    }
    fn run(&self, case: &Content14, ctx: &mut Ctx) -> Res {
        let case = &case.walked;
        let b = case.build();
        classify(case, &b, ctx);
        let got = case.walk(&b)?;
        for (i, (g, w)) in got.iter().zip(&b.want).enumerate() {
            if g.pending != w.pending {
                let d = g.pending.iter().zip(&w.pending).take_while(|(a, b)| a == b).count();
                return Err(format!(
                    "before block {}: {} pending links instead of {}, differing from the {}th on",
                    i,
                    g.pending.len(),
                    w.pending.len(),
                    d
                ));
            }
            match (&g.ev, &w.ev) {
                (
                    Ev::File { bytes: gb, first: gf, last: gl, .. },
                    Ev::File { bytes: wb, first: wf, last: wl, .. },
                ) => {
                    if gb != wb {
                        return Err(format!("block {}: {}", i, crate::import::diff(gb, wb)));
                    }
                    if (gf, gl) != (wf, wl) {
                        return Err(format!("block {}: first {} last {} instead of first {} last {}", i, gf, gl, wf, wl));
                    }
                }
                (Ev::File { .. }, _) | (_, Ev::File { .. }) => {
                    return Err(format!("block {}: reported {} instead of {}", i, show(g), show(w)));
                }
                _ => {}
            }
        }
        if got.len() != b.want.len() {
            return Err(format!("the walk says it is finished after {} of {} blocks", got.len(), b.want.len()));
        }
        // independent of the block by block comparison: each file's bytes, concatenated
        let mut open: Option<(String, Vec<u8>)> = None;
        let mut files = Vec::new();
        for (i, s) in got.iter().enumerate() {
            if let Ev::File { bytes, first, last, .. } = &s.ev {
                if *first {
                    if open.is_some() {
                        return Err(format!("block {}: a file begins before the previous one ended", i));
                    }
                    open = Some((s.path.clone(), vec![]));
                }
                match &mut open {
                    Some((p, v)) if *p == s.path => v.extend_from_slice(bytes),
                    _ => return Err(format!("block {}: a segment of a file which has not begun", i)),
                }
                if *last {
                    files.push(open.take().unwrap());
                }
            } else if open.is_some() {
                return Err(format!("block {}: another entry inside a file", i));
            }
        }
        if open.is_some() {
            return Err("the last file has no last segment".into());
        }
        fn collect(n: &TModel, path: &str, out: &mut Vec<(String, Vec<u8>)>) {
            match &n.kind {
                TKind::File(m) => out.push((path.to_string(), m.bytes())),
                _ => {
                    for l in n.entries() {
                        collect(&l.node, &join(path, &l.name), out);
                    }
                }
            }
        }
        let mut want = vec![];
        collect(&b.model, &case.name, &mut want);
        if files != want {
            return Err("the files' contents differ from the tree's".into());
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C18

pub struct C18;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Link18 {
    pub target: String,
    pub prefill: Content,
    pub extra_capacity: u16,
    pub name: String,
    /// a directory holding the symlink among others, at these places
    pub around: Walked,
    pub hamt: bool,
    pub twice: Option<String>,
}

impl Check for C18 {
    type Case = Link18;
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "A case is a target string (empty, unicode, control characters, lengths on varint boundaries up to 3 MB), what the buffer holds before, an optional second block appended to the same buffer, and a tree to put the symlink into. Non-trivial: the target is not empty and the buffer is not empty before."
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Link18> {
        (
            symlink_target(),
            content(prop_oneof![Just(0u32), 1u32..40, 100u32..400].boxed()),
            prop_oneof![Just(0u16), any::<u16>()],
            name(),
            walked(Tier::Quick),
            any::<bool>(),
            prop::option::of(symlink_target()),
        )
            .prop_map(|(target, prefill, extra_capacity, name, around, hamt, twice)| Link18 { target, prefill, extra_capacity, name, around, hamt, twice })
            .boxed()
    }
    fn fixed(&self, _tier: Tier) -> Vec<Link18> {
        [2_097_100u32, 2_097_140, 2_097_147, 2_097_151, 2_097_152, 2_097_160, 3_000_000]
            .iter()
            .map(|n| Link18 {
                target: "t\u{e9}".repeat(*n as usize / 3) + &"x".repeat(*n as usize % 3),
                prefill: Content { len: 3, seed: 1, kind: 0 },
                extra_capacity: 0,
                name: "link".into(),
                around: Walked {
                    root: TNode::Dir { entries: vec![], meta: Meta::default(), sorted: true, empty_data: false },
                    name: "r".into(),
                    style: 0,
                    cache: false,
                },
                hamt: n % 2 == 0,
                twice: None,
            })
            .collect()
    }
    fn cases(&self, tier: Tier) -> u32 {
        if tier == Tier::Quick {
            60_000
        } else {
            3_000_000
        }
    }
    fn run(&self, case: &Link18, ctx: &mut Ctx) -> Res {
        let pre = case.prefill.expand();
        ctx.nontrivial = !case.target.is_empty() && !pre.is_empty();
        ctx.class_if(case.target.is_empty(), "empty target");
        ctx.class_if(!case.target.is_ascii(), "unicode target");
        ctx.class_if(case.target.len() >= 120, "long target");
        ctx.class_if(!pre.is_empty(), "buffer not empty");
        ctx.class_if(case.twice.is_some(), "two blocks in one buffer");
        let reference = |t: &str| {
            let mut u = UData::of(pbx::SYMLINK);
            u.data = Some(t.as_bytes().to_vec());
            Node::new(vec![], &u).encode()
        };
        let mut buf = Vec::with_capacity(pre.len() + case.extra_capacity as usize);
        buf.extend_from_slice(&pre);
        unixfs_v1::symlink::serialize_symlink_block(&case.target, &mut buf);
        let mut want = pre.clone();
        want.extend_from_slice(&reference(&case.target));
        if buf != want {
            return Err(format!("buffer holds {} instead of {}", pbx::hex(&buf), pbx::hex(&want)));
        }
        let block = buf[pre.len()..].to_vec();
        if let Some(t) = &case.twice {
            unixfs_v1::symlink::serialize_symlink_block(t, &mut buf);
            want.extend_from_slice(&reference(t));
            if buf != want {
                return Err("a second block appended to the buffer disturbs it".into());
            }
        }
        // walked at the root
        let mut store = Store::new();
        let cid = pbx::cid_style(case.around.style, &block);
        store.insert(cid.clone(), Arc::new(block.clone()));
        let got = dtree::walk(&cid, &case.around.name, &store, &mut None, 3).map_err(|(_, e)| format!("root: {}", e))?;
        let ok = got.len() == 1
            && got[0].ev == Ev::Symlink(case.target.as_bytes().to_vec())
            && got[0].cid == cid
            && got[0].path == case.around.name
            && got[0].meta == Some((None, None));
        if !ok {
            return Err(format!("root: walked as {:?}", got.iter().map(show).collect::<Vec<_>>()));
        }
        // walked inside a directory, with the crate's own block under the reference's CID
        let entry = |name: &str, node: TNode| TEntry { name: name.into(), force: None, deepen: 0, style: 0, tsize: true, node };
        let entries = vec![
            entry("before", case.around.root.clone()),
            entry(&case.name, TNode::Symlink { target: case.target.clone(), meta: Meta::default() }),
            entry("last", TNode::Symlink { target: "other".into(), meta: Meta::default() }),
        ];
        let root = if case.hamt {
            TNode::Hamt { entries, meta: Meta::default(), bitfield: 0 }
        } else {
            TNode::Dir { entries, meta: Meta::default(), sorted: false, empty_data: false }
        };
        let w = Walked { root, name: "r".into(), style: 0, cache: case.around.cache };
        let b = w.build();
        let got = w.walk(&b)?;
        let links = |s: &[WStep]| -> Vec<(Vec<u8>, String, Cidb)> {
            s.iter()
                .filter_map(|s| match &s.ev {
                    Ev::Symlink(t) => Some((t.clone(), s.path.clone(), s.cid.clone())),
                    _ => None,
                })
                .collect()
        };
        if links(&got) != links(&b.want) {
            return Err(format!("in a directory: symlinks {:?} instead of {:?}", links(&got), links(&b.want)));
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C19

pub struct C19;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Case19 {
    Walk(Walked),
    Visit { tree: FTree, ranges: Vec<RangeSpec> },
    Builder(builder::Build),
}

/// Puts strong metadata everywhere it may be.
fn decorate(n: &mut TNode, metas: &mut std::slice::Iter<'_, Meta>) {
    let mut next = || metas.next().cloned();
    match n {
        TNode::File(f) => {
            if let Some(m) = next() {
                f.meta = m
            }
        }
        TNode::Symlink { meta, .. } => {
            if let Some(m) = next() {
                *meta = m
            }
        }
        TNode::Dir { meta, entries, .. } | TNode::Hamt { meta, entries, .. } => {
            if let Some(m) = next() {
                *meta = m
            }
            for e in entries {
                decorate(&mut e.node, metas);
            }
        }
        TNode::Wide { .. } | TNode::Chain { .. } => {}
    }
}

fn same_meta(i: usize, what: &str, got: (Option<u32>, Option<(i64, u32)>), want: (Option<u32>, Option<(i64, u32)>)) -> Res {
    if got != want {
        Err(format!("{} {}: metadata {:?} instead of {:?}", what, i, got, want))
    } else {
        Ok(())
    }
}

impl Check for C19 {
    type Case = Case19;
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "A case is a tree walked, a file visited (whole and in ranges) or a history of tree builder operations, with metadata on any entries: modes and seconds from the whole value range and its boundaries, nanoseconds absent, zero or any 32-bit value. Non-trivial: some entry has metadata."
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Case19> {
        let walk = (walked(tier), prop::collection::vec(prop_oneof![4 => meta_strong(), 1 => Just(Meta::default())], 0..24)).prop_map(|(mut w, metas)| {
            decorate(&mut w.root, &mut metas.iter());
            Case19::Walk(w)
        });
        let visit = (ftree_small(), meta_strong(), prop::collection::vec(range_spec(), 0..3)).prop_map(|(mut tree, meta, ranges)| {
            tree.meta = meta;
            Case19::Visit { tree, ranges }
        });
        prop_oneof![3 => walk.boxed(), 1 => visit.boxed(), 2 => builder::build(8).prop_map(Case19::Builder).boxed()].boxed()
    }
    fn cases(&self, tier: Tier) -> u32 {
        if tier == Tier::Quick {
            80_000
        } else {
            3_000_000
        }
    }
    fn run(&self, case: &Case19, ctx: &mut Ctx) -> Res {
        match case {
            Case19::Walk(w) => {
                ctx.class("walk");
                let b = w.build();
                ctx.nontrivial = b.want.iter().any(|s| s.meta.map(|m| m != (None, None)).unwrap_or(false));
                ctx.class_if(b.want.iter().filter(|s| s.meta.map(|m| m != (None, None)).unwrap_or(false)).count() > 3, "metadata at several places");
                let got = w.walk(&b)?;
                if got.len() != b.want.len() {
                    return Err(format!("{} blocks instead of {}", got.len(), b.want.len()));
                }
                for (i, (g, want)) in got.iter().zip(&b.want).enumerate() {
                    if let Some(want) = want.meta {
                        match g.meta {
                            Some(g) => same_meta(i, "walk, block", g, want)?,
                            None => return Err(format!("block {} reported without metadata: {}", i, show(g))),
                        }
                    }
                }
                Ok(())
            }
            Case19::Visit { tree, ranges } => {
                ctx.class("visit");
                ctx.nontrivial = !tree.meta.is_none();
                let mut store = Store::new();
                let m = tree.build(&mut store);
                let b = m.boundaries(4000);
                let all = std::iter::once(None).chain(ranges.iter().map(|r| Some(r.range(&b, m.size))));
                for r in all {
                    let recs = visit(&m.block, &store, r, &mut None, 100_000).map_err(|(_, e)| e)?;
                    for (i, rec) in recs.iter().enumerate() {
                        same_meta(i, "visit, block", (rec.mode, rec.mtime), tree.meta.expected())?;
                    }
                }
                let md = builder::real_meta(&tree.meta);
                same_meta(0, "accessors", (md.mode(), md.mtime()), tree.meta.expected())?;
                if let Some((s, n)) = tree.meta.expected().1.filter(|(_, n)| *n < 1_000_000_000) {
                    let ft = md.mtime_as_filetime().ok_or("no file time")?;
                    if (ft.unix_seconds(), ft.nanoseconds()) != (s, n) {
                        return Err(format!("file time {:?} instead of {:?}", ft, (s, n)));
                    }
                } else if tree.meta.mtime.is_none() && md.mtime_as_filetime().is_some() {
                    return Err("a file time without a recorded one".into());
                }
                Ok(())
            }
            Case19::Builder(b) => {
                ctx.class("tree builder");
                builder::run_metadata(b, ctx)
            }
        }
    }
}

// ---------------------------------------------------------------- C21

pub struct C21;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Act {
    Visit { src: u8, range: Option<RangeSpec>, fault: Fault },
    Walk { fault: Fault },
    /// resolve in the src-th directory
    Resolve { src: u8, needle: Needle, fault: Fault },
    /// the caches are replaced by ones made out of collections with this many things in them
    Given(u8),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Fault {
    None,
    /// dropped after this many blocks
    Abandon(u8),
    /// the block at this step is broken
    Garbage(u8),
    /// the block at this step is another one of the tree
    Wrong(u8, u16),
    /// the block at this step has a link which is not a CID, among good ones
    BadLink(u8, u8),
    /// the block at this step has another value for one of its unixfs fields
    Odd(u8, u8),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Needle {
    Entry(u16),
    Other(String),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Caches {
    pub tree: Walked,
    pub acts: Vec<Act>,
}

pub fn fault() -> BoxedStrategy<Fault> {
    prop_oneof![
        5 => Just(Fault::None),
        2 => (0u8..6).prop_map(Fault::Abandon),
        2 => (0u8..6).prop_map(Fault::Garbage),
        1 => (0u8..6, any::<u16>()).prop_map(|(a, b)| Fault::Wrong(a, b)),
        2 => (0u8..6, 0u8..4).prop_map(|(a, b)| Fault::BadLink(a, b)),
        2 => (0u8..6, prop_oneof![6 => 0u8..6, 1 => Just(255u8)]).prop_map(|(a, b)| Fault::Odd(a, b)),
    ]
    .boxed()
}

fn spoil(block: &[u8], nth: u8) -> Vec<u8> {
    match pbx::strict_node(block) {
        Ok(mut n) if !n.links.is_empty() => {
            let i = (nth as usize * 7 + n.links.len() / 2) % n.links.len();
            n.links[i].hash = Some(vec![1, 2, 3]);
            n.encode()
        }
        _ => vec![0xff, 0xff],
    }
}

/// The last value of a field is the one which counts.
fn odd(block: &[u8], nth: u8) -> Vec<u8> {
    match pbx::strict_node(block) {
        Ok(mut n) if nth == 255 => {
            n.data = None;
            n.encode()
        }
        Ok(mut n) if n.data.is_some() => {
            let (field, value) = [(6, 16), (5, 0x12), (1, pbx::METADATA), (3, 7), (4, 3), (1, pbx::SYMLINK)][nth as usize % 6];
            if let Some(data) = n.data.as_mut() {
                pbx::put_uint(field, value, data);
            }
            n.encode()
        }
        _ => vec![0xff, 0xff],
    }
}

/// The block to give at a step, or `None` to stop there.
pub fn faulty(fault: &Fault, step: usize, block: &[u8], all: &[Arc<Vec<u8>>]) -> Option<Vec<u8>> {
    let at = |k: u8| k as usize == step;
    match fault {
        Fault::Abandon(k) if at(*k) => None,
        Fault::Garbage(k) if at(*k) => Some(vec![0x12, 0xff]),
        Fault::Wrong(k, w) if at(*k) => Some(all[*w as usize % all.len()].to_vec()),
        Fault::BadLink(k, n) if at(*k) => Some(spoil(block, *n)),
        Fault::Odd(k, n) if at(*k) => Some(odd(block, *n)),
        _ => Some(block.to_vec()),
    }
}

pub type VCache = Option<unixfs_v1::file::visit::Cache>;
pub type DCache = Option<unixfs_v1::dir::Cache>;

pub struct World<'a> {
    pub b: &'a Built,
    files: Vec<Arc<FModel>>,
    dirs: Vec<(Arc<Vec<u8>>, Vec<String>)>,
    all: Vec<Arc<Vec<u8>>>,
}

impl<'a> World<'a> {
    pub fn new(b: &'a Built) -> World<'a> {
        let mut files = vec![];
        let mut dirs = vec![];
        fn collect(n: &Arc<TModel>, files: &mut Vec<Arc<FModel>>, dirs: &mut Vec<(Arc<Vec<u8>>, Vec<String>)>) {
            if let TKind::File(m) = &n.kind {
                files.push(m.clone());
            }
            if n.is_dir() {
                let es = n.entries();
                dirs.push((n.block.clone(), es.iter().map(|l| l.name.clone()).collect()));
                for e in es {
                    collect(&e.node, files, dirs);
                }
            }
        }
        collect(&b.model, &mut files, &mut dirs);
        let mut keys: Vec<_> = b.store.keys().cloned().collect();
        keys.sort();
        let all = keys.iter().map(|k| b.store[k].clone()).collect();
        // the multi-block ones first, they are the ones which fill caches
        files.sort_by_key(|f| std::cmp::Reverse(f.leaves.min(50)));
        dirs.sort_by_key(|d| std::cmp::Reverse(d.1.len().min(50)));
        World { b, files, dirs, all }
    }
    pub fn every(&self) -> &[Arc<Vec<u8>>] {
        &self.all
    }
    pub fn block(&self, cid: &[u8]) -> Option<&'a Arc<Vec<u8>>> {
        self.b.store.get(cid)
    }
    pub fn file(&self, src: u8) -> Option<Arc<FModel>> {
        self.files.get(src as usize % self.files.len().max(1)).cloned()
    }
    pub fn dir(&self, src: u8) -> Option<&(Arc<Vec<u8>>, Vec<String>)> {
        self.dirs.get(src as usize % self.dirs.len().max(1))
    }
    pub fn blocks(&self) -> impl Iterator<Item = &Arc<Vec<u8>>> {
        self.all.iter()
    }
}

const CAP: usize = 3000;

fn trace_visit(w: &World, src: u8, range: &Option<RangeSpec>, fault: &Fault, cache: &mut VCache, eye: Eye) -> Vec<String> {
    use unixfs_v1::file::visit::IdleFileVisit;
    let mut t = Vec::new();
    if w.files.is_empty() {
        return t;
    }
    let f = &w.files[src as usize % w.files.len()];
    let mut idle = IdleFileVisit::default();
    if let Some(r) = range {
        idle = idle.with_target_range(r.range(&f.boundaries(500), f.size));
    }
    let Some(first) = faulty(fault, 0, &f.block, &w.all) else { return t };
    eye.debug(0, &idle);
    let mut step = match idle.start(&first) {
        Ok((b, size, md, s)) => {
            eye.debug(1, &md);
            t.push(format!("{} {} {:?}", pbx::hex(b), size, md));
            s
        }
        Err(e) => {
            eye.error(0, &e);
            t.push(format!("{:?}", e));
            return t;
        }
    };
    let mut n = 1;
    while let Some(v) = step {
        if eye.at(n) {
            eye.debug(n, &v);
            eye.debug(n, v.as_ref());
            eye.links(n, || v.pending_links());
            assert_eq!(v.file_size(), v.file_size());
        }
        let p = cids(v.pending_links());
        t.push(p.iter().map(|c| pbx::hex(&c[c.len().saturating_sub(6)..])).collect::<Vec<_>>().join(","));
        let Some(block) = w.b.store.get(&p[0]) else { break };
        let Some(block) = faulty(fault, n, block, &w.all) else { break };
        n += 1;
        match v.continue_walk(&block, cache) {
            Ok((b, s)) => {
                t.push(format!("{} {:?}", pbx::hex(b), s.as_ref().map(|s| s.file_size())));
                step = s;
            }
            Err(e) => {
                eye.error(n, &e);
                t.push(format!("{:?}", e));
                break;
            }
        }
        if n > CAP {
            break;
        }
    }
    t
}

fn look_at(n: usize, c: unixfs_v1::walk::ContinuedWalk<'_>, eye: Eye) {
    use unixfs_v1::walk::ContinuedWalk::*;
    if !eye.at(n) {
        return;
    }
    match c {
        File(s, _, _, md, _) => {
            eye.debug(n, &s);
            assert_eq!((s.is_first(), s.is_last()), (s.is_first(), s.is_last()));
            assert_eq!(s.as_bytes(), s.as_ref());
            eye.debug(n, md);
        }
        Directory(_, _, md) | RootDirectory(_, _, md) | Symlink(_, _, _, md) => {
            eye.debug(n, md);
            assert_eq!(md, &md.clone());
            assert_eq!((md.mode(), md.mtime()), (md.mode(), md.mtime()));
            assert_eq!(md.mtime_as_filetime(), md.mtime_as_filetime());
        }
        Bucket(..) => {}
    }
}

fn trace_walk(w: &World, fault: &Fault, cache: &mut VCache, eye: Eye) -> Vec<String> {
    let mut t = Vec::new();
    let mut wk = unixfs_v1::walk::Walker::new(pbx::to_cid(&w.b.cid), "r".into());
    let mut n = 0;
    while wk.should_continue() && n < CAP {
        eye.debug(n, &wk);
        eye.links(n, || wk.pending_links());
        let p = cids(wk.pending_links());
        t.push(p.iter().map(|c| pbx::hex(&c[c.len().saturating_sub(6)..])).collect::<Vec<_>>().join(","));
        let Some(block) = w.b.store.get(&p[0]) else { break };
        let Some(block) = faulty(fault, n, block, &w.all) else { break };
        n += 1;
        let r = wk.next(&block, cache);
        t.push(format!("{:?}", r));
        eye.debug(n, &r);
        match r {
            Err(e) => eye.error(n, &e),
            Ok(c) => look_at(n, c, eye),
        }
        eye.debug(n, &wk);
    }
    t
}

fn trace_resolve(w: &World, src: u8, needle: &Needle, fault: &Fault, cache: &mut DCache, eye: Eye) -> Vec<String> {
    use unixfs_v1::MaybeResolved;
    let mut t = Vec::new();
    if w.dirs.is_empty() {
        return t;
    }
    let (block, names) = &w.dirs[src as usize % w.dirs.len()];
    let name = match needle {
        Needle::Entry(i) if !names.is_empty() => names[*i as usize % names.len()].clone(),
        Needle::Entry(_) => "x".into(),
        Needle::Other(s) => s.clone(),
    };
    let Some(first) = faulty(fault, 0, block, &w.all) else { return t };
    let mut look = match unixfs_v1::resolve(&first, &name, cache) {
        Ok(MaybeResolved::NeedToLoadMore(l)) => l,
        r => {
            t.push(format!("{:?}", r));
            eye.debug(0, &r);
            if let Err(e) = r {
                eye.error(0, &e);
            }
            return t;
        }
    };
    let mut n = 1;
    while n < CAP {
        eye.debug(n, &look);
        eye.debug(n, cache);
        eye.links(n, || look.pending_links());
        let p = cids(look.pending_links());
        t.push(p.iter().map(|c| pbx::hex(&c[c.len().saturating_sub(6)..])).collect::<Vec<_>>().join(","));
        let Some(block) = w.b.store.get(&p[0]) else { break };
        let Some(block) = faulty(fault, n, block, &w.all) else { break };
        n += 1;
        match look.continue_walk(&block, cache) {
            Ok(MaybeResolved::NeedToLoadMore(l)) => look = l,
            r => {
                t.push(format!("{:?}", r));
                eye.debug(n, &r);
                if let Err(e) = r {
                    eye.error(n, &e);
                    eye.error(n, &e.into_resolve_error());
                }
                break;
            }
        }
    }
    t
}

pub fn caches(tier: Tier) -> BoxedStrategy<Caches> {
    let act = prop_oneof![
        4 => (any::<u8>(), prop::option::of(range_spec()), fault()).prop_map(|(src, range, fault)| Act::Visit { src, range, fault }),
        2 => fault().prop_map(|fault| Act::Walk { fault }),
        4 => (any::<u8>(), prop_oneof![4 => any::<u16>().prop_map(Needle::Entry), 1 => name().prop_map(Needle::Other)], fault())
            .prop_map(|(src, needle, fault)| Act::Resolve { src, needle, fault }),
        1 => (0u8..5).prop_map(Act::Given),
    ];
    (walked(tier), prop::collection::vec(act, 1..=8)).prop_map(|(tree, acts)| Caches { tree, acts }).boxed()
}

/// Everything an operation gives.
pub fn trace(w: &World, act: &Act, vc: &mut VCache, dc: &mut DCache, eye: Eye) -> Vec<String> {
    match act {
        Act::Visit { src, range, fault } => trace_visit(w, *src, range, fault, vc, eye),
        Act::Walk { fault } => trace_walk(w, fault, vc, eye),
        Act::Resolve { src, needle, fault } => trace_resolve(w, *src, needle, fault, dc, eye),
        Act::Given(n) => {
            let left = || (0..*n).map(|i| pbx::to_cid(&pbx::cid_v1(&[i])));
            *vc = Some(left().map(|c| (c, 0..100)).collect::<Vec<_>>().into());
            *dc = Some(left().collect::<std::collections::VecDeque<_>>().into());
            vec![]
        }
    }
}

impl Check for C21 {
    type Case = Caches;
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "A case is a tree and a sequence of visits, walks and lookups in it, finished, abandoned, or failed on a broken, wrong or badly linked block at some step; the caches are sometimes made by the caller out of used collections; the sequence runs once over shared caches and once with a fresh None for every operation, and the full traces (bytes, sizes, pending links, results, error texts) are compared. Non-trivial: at least two operations of which one needs more than one block."
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Caches> {
        caches(tier)
    }
    fn cases(&self, tier: Tier) -> u32 {
        if tier == Tier::Quick {
            40_000
        } else {
            1_500_000
        }
    }
    fn run(&self, case: &Caches, ctx: &mut Ctx) -> Res {
        let b = case.tree.build();
        let w = World::new(&b);
        let mut vc: VCache = None;
        let mut dc: DCache = None;
        let mut long = 0;
        let mut failed = false;
        for (i, act) in case.acts.iter().enumerate() {
            let plain = trace(&w, act, &mut None, &mut None, Eye::default());
            let cached = trace(&w, act, &mut vc, &mut dc, Eye::default());
            if plain != cached {
                let d = plain.iter().zip(&cached).take_while(|(a, b)| a == b).count();
                return Err(format!(
                    "operation {}: {:?}: differs at event {}: with the cache {:?}, without {:?}",
                    i,
                    act,
                    d,
                    cached.get(d).map(|s| clip(s, 300)),
                    plain.get(d).map(|s| clip(s, 300))
                ));
            }
            if plain.len() > 1 {
                long += 1;
            }
            failed |= match act {
                Act::Visit { fault, .. } | Act::Walk { fault } | Act::Resolve { fault, .. } => *fault != Fault::None,
                Act::Given(_) => false,
            };
            ctx.class_if(matches!(act, Act::Given(1..)), "caches made out of used collections");
        }
        ctx.nontrivial = case.acts.len() >= 2 && long >= 1;
        ctx.class_if(failed, "with failed or abandoned operations");
        ctx.class_if(long >= 2, "several operations over several blocks");
        ctx.class_if(vc.is_some(), "file cache left behind");
        ctx.class_if(dc.is_some(), "lookup cache left behind");
        Ok(())
    }
}
