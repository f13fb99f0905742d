//! C27: trees assembled with all of the library's producers, read back by all of its readers.

use crate::builder;
use crate::dtree::{self, Ev};
use crate::ftree::{self, Cidb, Store};
use crate::gen::*;
use crate::import::{self, Push};
use crate::pbx;
use crate::resolve::resolve_path;
use crate::runner::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;
use unixfs_v1::dir::builder::{BufferingTreeBuilder, TreeOptions};

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Part {
    File { content: Content, chunk: u32, bf: u16, pushes: Vec<Push> },
    Symlink(String),
    /// metadata for the directory at the path
    Dir(Meta),
    /// another tree, assembled on its own and linked at the path
    Sub(Whole),
    /// what was linked before, linked again
    Again(u8),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Whole {
    pub items: Vec<(Vec<String>, Part)>,
    /// 0: iterator, 1: borrowed, else: both in turn
    pub read: u8,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Tree27 {
    pub whole: Whole,
    /// without it everything goes below one directory of this name
    pub wrap: Option<String>,
    pub root_name: String,
    pub range: RangeSpec,
    pub cache: bool,
}

#[derive(Debug, Clone, PartialEq)]
enum Want {
    File(Vec<u8>),
    Symlink(Vec<u8>),
    Dir(Meta),
}

type Paths = BTreeMap<Vec<String>, Want>;

/// Something to be linked: where it is and all that is in it.
#[derive(Clone)]
struct Made {
    cid: Cidb,
    total: u64,
    what: Paths,
}

fn file(content: &Content, chunk: u32, bf: u16, pushes: &[Push], store: &mut Store) -> Result<Made, String> {
    let bytes = content.expand();
    let case = import::Import { content: content.clone(), chunk: chunk as u64, bf: bf as u64, pushes: vec![], defaults: false };
    let p = import::drive(&case, &bytes, pushes)?;
    let cid = p.blocks.last().ok_or("no blocks")?.0.clone();
    let mut total = 0;
    for (c, b) in p.blocks {
        total += b.len() as u64;
        store.insert(c, Arc::new(b));
    }
    Ok(Made { cid, total, what: Paths::from([(vec![], Want::File(bytes))]) })
}

fn symlink(target: &str, store: &mut Store) -> Made {
    let mut buf = vec![];
    unixfs_v1::symlink::serialize_symlink_block(target, &mut buf);
    let cid = pbx::cid_v1(&buf);
    let total = buf.len() as u64;
    store.insert(cid.clone(), Arc::new(buf));
    Made { cid, total, what: Paths::from([(vec![], Want::Symlink(target.as_bytes().to_vec()))]) }
}

/// Assembles a tree. `top`: not wrapped, everything below a directory of this name.
fn assemble(w: &Whole, top: Option<&str>, store: &mut Store, subs: &mut usize) -> Result<Option<Made>, String> {
    let mut opts = TreeOptions::default();
    if top.is_none() {
        opts.wrap_with_directory();
    }
    opts.block_size_limit(None);
    let mut b = BufferingTreeBuilder::new(opts);
    let mut dirs: BTreeMap<Vec<String>, Meta> = BTreeMap::new();
    let mut leaves: BTreeMap<Vec<String>, Made> = BTreeMap::new();
    let mut done: Vec<Made> = vec![];
    for (segs, part) in &w.items {
        let mut segs: Vec<String> = segs.iter().map(|s| fix_name(s.clone())).collect();
        if let Some(t) = top {
            segs.insert(0, t.to_string());
        }
        let path = segs.join("/");
        let through = (1..segs.len()).any(|i| leaves.contains_key(&segs[..i]));
        let made = match part {
            Part::File { content, chunk, bf, pushes } => file(content, *chunk, *bf, pushes, store)?,
            Part::Symlink(t) => symlink(t, store),
            Part::Sub(w) => match assemble(w, None, store, subs)? {
                Some(m) => {
                    *subs += 1;
                    m
                }
                None => return Err("a wrapped tree has no root".into()),
            },
            Part::Again(_) if done.is_empty() => continue,
            Part::Again(n) => done[*n as usize % done.len()].clone(),
            Part::Dir(m) => {
                let ok = !through && !leaves.contains_key(&segs);
                let got = b.set_metadata(&path, builder::real_meta(m));
                match (ok, got) {
                    (true, Ok(())) => {
                        dirs.insert(segs.clone(), m.clone());
                    }
                    (false, Err(_)) => continue,
                    (true, Err(e)) => return Err(format!("metadata for {:?} is rejected: {}", path, e)),
                    (false, Ok(())) => return Err(format!("metadata for {:?} is accepted", path)),
                }
                for i in 1..segs.len() {
                    dirs.entry(segs[..i].to_vec()).or_default();
                }
                continue;
            }
        };
        let ok = !through && !leaves.contains_key(&segs) && !dirs.contains_key(&segs);
        match (ok, b.put_link(&path, pbx::to_cid(&made.cid), made.total)) {
            (true, Ok(())) => {
                for i in 1..segs.len() {
                    dirs.entry(segs[..i].to_vec()).or_default();
                }
                done.push(made.clone());
                leaves.insert(segs, made);
            }
            (false, Err(_)) => {}
            (true, Err(e)) => return Err(format!("{:?} is rejected: {}", path, e)),
            (false, Ok(())) => return Err(format!("{:?} is accepted", path)),
        }
    }
    let mut it = b.build();
    let mut root = None;
    let mut blocks = 0;
    loop {
        let borrowed = match w.read {
            0 => false,
            1 => true,
            n => (n as usize >> (blocks % 5)) & 1 == 1,
        };
        let (cid, total, block) = if borrowed {
            match it.next_borrowed() {
                None => break,
                Some(Err(e)) => return Err(format!("building: {}", e)),
                Some(Ok(n)) => (n.cid.to_bytes(), n.total_size, n.block.to_vec()),
            }
        } else {
            match it.next() {
                None => break,
                Some(Err(e)) => return Err(format!("building: {}", e)),
                Some(Ok(n)) => (n.cid.to_bytes(), n.total_size, n.block.to_vec()),
            }
        };
        blocks += 1;
        if blocks > dirs.len() + 1 {
            return Err(format!("more than {} directory blocks", dirs.len() + 1));
        }
        store.insert(cid.clone(), Arc::new(block));
        root = Some((cid, total));
    }
    let Some((cid, total)) = root else { return Ok(None) };
    let mut what = Paths::new();
    let skip = if top.is_some() { 1 } else { 0 };
    if skip == 0 {
        what.insert(vec![], Want::Dir(Meta::default()));
    }
    for (p, m) in dirs {
        what.insert(p[skip..].to_vec(), Want::Dir(m));
    }
    for (p, m) in leaves {
        for (q, w) in m.what {
            what.insert(p[skip..].iter().cloned().chain(q).collect(), w);
        }
    }
    Ok(Some(Made { cid, total, what }))
}

/// The size of a block and all below it, by the independent decoder.
fn measure(cid: &Cidb, store: &Store, known: &mut HashMap<Cidb, u64>) -> Result<u64, String> {
    if let Some(n) = known.get(cid) {
        return Ok(*n);
    }
    let b = store.get(cid).ok_or_else(|| format!("block {} is missing", pbx::hex(cid)))?;
    if pbx::cid_v1(b) != *cid {
        return Err(format!("block {} does not have that hash", pbx::hex(cid)));
    }
    let node = pbx::strict_node(b).map_err(|e| format!("block {}: {}", pbx::hex(cid), e))?;
    let mut n = b.len() as u64;
    for l in &node.links {
        let h = l.hash.as_ref().ok_or("a link without hash")?;
        let t = measure(h, store, known)?;
        if l.tsize != Some(t) {
            return Err(format!("link {:?} of {} records {:?} instead of {}", l.name, pbx::hex(cid), l.tsize, t));
        }
        n += t;
    }
    known.insert(cid.clone(), n);
    Ok(n)
}

fn part(depth: u32) -> BoxedStrategy<Part> {
    let pushes = prop::collection::vec(
        prop_oneof![Just(Push::Rest), Just(Push::Hint), Just(Push::Fixed(0)), (1u32..40).prop_map(Push::Fixed), (-2i8..=2).prop_map(Push::Boundary)],
        0..3,
    );
    let len = prop_oneof![6 => small_len(), 2 => 300u32..2000, 1 => Just(0u32)];
    let file = (content(len.boxed()), prop_oneof![3 => 1u32..20, 2 => 20u32..300], prop_oneof![4 => 2u16..7, 1 => Just(174u16)], pushes)
        .prop_map(|(content, chunk, bf, pushes)| Part::File {
            // not too many blocks
            chunk: chunk.max(content.len / 60),
            content,
            bf,
            pushes,
        })
        .boxed();
    let base = prop_oneof![
        10 => file,
        2 => dtree::symlink_target().prop_map(Part::Symlink),
        2 => meta_some().prop_map(Part::Dir),
        1 => any::<u8>().prop_map(Part::Again),
    ]
    .boxed();
    if depth == 0 {
        base
    } else {
        prop_oneof![12 => base, 1 => whole(depth - 1).prop_map(Part::Sub)].boxed()
    }
}

fn whole(depth: u32) -> BoxedStrategy<Whole> {
    let seg = prop_oneof![2 => prop::sample::select(vec!["a", "b", "c"]).prop_map(str::to_string), 2 => name()];
    let item = (
        prop_oneof![
            20 => prop::collection::vec(seg.clone(), 1..5),
            1 => prop::collection::vec(seg, 5..14),
        ],
        part(depth),
    );
    (
        prop_oneof![8 => prop::collection::vec(item.clone(), 0..10), 1 => prop::collection::vec(item, 10..40)],
        prop_oneof![Just(0u8), Just(1u8), 2u8..32],
        prop::collection::vec((any::<u8>(), any::<u8>(), any::<u8>()), 0..3),
    )
        .prop_map(|(mut items, read, alike)| {
            // names close to those of others
            let n = items.len();
            for (from, to, how) in alike {
                if n > 1 {
                    let mut p = items[from as usize % n].0.clone();
                    let last = p.pop().unwrap();
                    p.push(fix_name(near(&last, "00", how)));
                    items[to as usize % n].0 = p;
                }
            }
            Whole { items, read }
        })
        .boxed()
}

pub struct C27;

impl Check for C27 {
    type Case = Tree27;
    fn id(&self) -> &'static str {
        "C27"
    }
    fn rule(&self) -> &'static str {
        "A case is a tree described by paths with what to put there: files (content, chunk size, branching factor, pushes), symlinks, metadata of directories, other such trees assembled on their own, and things linked before. It is assembled with the crate and read back with the crate. Non-trivial: at least one file of several blocks and an entry two segments deep."
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Tree27> {
        let depth = if tier == Tier::Quick { 2 } else { 3 };
        (
            whole(depth),
            prop::option::weighted(0.3, name()),
            prop_oneof![2 => Just(String::new()), 1 => name()],
            range_spec(),
            any::<bool>(),
        )
            .prop_map(|(whole, wrap, root_name, range, cache)| Tree27 { whole, wrap, root_name, range, cache })
            .boxed()
    }
    fn cases(&self, tier: Tier) -> u32 {
        if tier == Tier::Quick {
            30_000
        } else {
            1_500_000
        }
    }
    fn run(&self, case: &Tree27, ctx: &mut Ctx) -> Res {
        let mut store = Store::new();
        let mut subs = 0;
        let top = case.wrap.as_deref();
        let Some(made) = assemble(&case.whole, top, &mut store, &mut subs)? else {
            if case.whole.items.iter().any(|(_, p)| !matches!(p, Part::Again(_))) || top.is_none() {
                return Err("nothing was built".into());
            }
            return Ok(());
        };
        // sizes, hashes and completeness
        let mut known = HashMap::new();
        let total = measure(&made.cid, &store, &mut known)?;
        if total != made.total {
            return Err(format!("the total size is given as {} instead of {}", made.total, total));
        }
        if made.what.len() > 3000 {
            return Ok(());
        }

        // the walk
        let mut cache = None;
        if case.cache {
            let _ = dtree::walk(&made.cid, "x", &store, &mut cache, 1_000_000);
        }
        let steps = dtree::walk(&made.cid, &case.root_name, &store, &mut cache, 1_000_000)
            .map_err(|(s, e)| format!("walk, after {} blocks: {}", s.len(), e))?;
        let mut got: Vec<(String, Want, Cidb)> = vec![];
        let mut open = false;
        let mut longest = 0;
        for (i, s) in steps.iter().enumerate() {
            let meta = s.meta.ok_or_else(|| format!("block {} of the walk has no metadata", i))?;
            let mut want_meta = (None, None);
            let what = match &s.ev {
                Ev::Bucket => return Err("the walk reports a bucket".into()),
                Ev::RootDir | Ev::Dir => {
                    if (s.ev == Ev::RootDir) != (i == 0) {
                        return Err(format!("block {}: {}", i, dtree::show(s)));
                    }
                    want_meta = meta;
                    Want::Dir(Meta { mode: meta.0, mtime: meta.1.map(|(s, n)| (s, Some(n))) })
                }
                Ev::Symlink(t) => Want::Symlink(t.clone()),
                Ev::File { bytes, first, last, .. } => {
                    if *first == open {
                        return Err(format!("block {}: segments out of order: {}", i, dtree::show(s)));
                    }
                    open = !last;
                    if !first {
                        longest = longest.max(2);
                        match got.last_mut() {
                            Some((p, Want::File(v), c)) if *p == s.path && *c == s.cid => v.extend_from_slice(bytes),
                            _ => return Err(format!("block {}: a segment of another file: {}", i, dtree::show(s))),
                        }
                        if meta != want_meta {
                            return Err(format!("block {}: metadata which was not given", i));
                        }
                        continue;
                    }
                    Want::File(bytes.clone())
                }
            };
            if meta != want_meta {
                return Err(format!("block {}: metadata which was not given: {}", i, dtree::show(s)));
            }
            got.push((s.path.clone(), what, s.cid.clone()));
        }
        if open {
            return Err("the walk ends inside a file".into());
        }
        let filled = |w: &Want| match w {
            Want::Dir(m) => {
                let (mode, mtime) = m.expected();
                Want::Dir(Meta { mode, mtime: mtime.map(|(s, n)| (s, Some(n))) })
            }
            w => w.clone(),
        };
        let brief = |w: &Want| match w {
            Want::File(b) => format!("file of {} bytes", b.len()),
            w => format!("{:?}", w),
        };
        let want: Vec<(String, Want)> = made
            .what
            .iter()
            .map(|(p, w)| {
                let path = p.iter().fold(case.root_name.clone(), |a, s| dtree::join(&a, s));
                (path, filled(w))
            })
            .collect();
        for (g, w) in got.iter().zip(&want) {
            if (&g.0, &g.1) != (&w.0, &w.1) {
                return Err(format!("the walk gives {:?}: {} instead of {:?}: {}", g.0, brief(&g.1), w.0, brief(&w.1)));
            }
        }
        if got.len() != want.len() {
            return Err(format!("the walk gives {} entries instead of {}", got.len(), want.len()));
        }
        // file sizes
        let sizes: BTreeSet<_> = steps
            .iter()
            .filter_map(|s| match &s.ev {
                Ev::File { size, .. } => Some((&s.path, *size)),
                _ => None,
            })
            .collect();
        for (p, w) in &want {
            if let Want::File(b) = w {
                if !sizes.contains(&(p, b.len() as u64)) {
                    return Err(format!("the size of {:?} is not given as {}", p, b.len()));
                }
            }
        }
        if sizes.len() != want.iter().filter(|(_, w)| matches!(w, Want::File(_))).count() {
            return Err("some file is given with several sizes".into());
        }

        // every path on its own
        let mut rcache = None;
        let stride = made.what.len() / 60 + 1;
        for (i, ((segs, w), (path, _, cid))) in made.what.iter().zip(&got).enumerate() {
            if i % stride != 0 {
                continue;
            }
            let segs: Vec<&str> = segs.iter().map(|s| s.as_str()).collect();
            match resolve_path(&made.cid, &segs, &store, i % 2 == 0, &mut rcache)? {
                Ok(Some(c)) if c == *cid => {}
                r => return Err(format!("{:?} resolves to {:?}, the walk gives {}", path, r.map(|c| c.map(|c| pbx::hex(&c))), pbx::hex(cid))),
            }
            if let Want::File(bytes) = w {
                let size = bytes.len() as u64;
                for range in [None, Some(case.range.range(&[0, size / 2, size], size))] {
                    let recs = ftree::visit(&store[cid], &store, range.clone(), &mut cache, 100_000).map_err(|(_, e)| format!("reading {:?}: {}", path, e))?;
                    let read: Vec<u8> = recs.iter().flat_map(|r| r.bytes.iter().cloned()).collect();
                    let part = ftree::part(bytes, 0, range.as_ref());
                    if read != part {
                        return Err(format!("reading {:?} of {:?}: {}", range, path, import::diff(&read, &part)));
                    }
                    if recs.iter().any(|r| r.file_size != size) {
                        return Err(format!("reading {:?}: the size is not given as {}", path, size));
                    }
                }
            }
        }
        ctx.nontrivial = longest > 1 && made.what.keys().any(|p| p.len() >= 2);
        ctx.class_if(top.is_some(), "not wrapped");
        ctx.class_if(subs > 0, "trees linked into trees");
        ctx.class_if(made.what.len() >= 20, "twenty entries or more");
        ctx.class_if(made.what.keys().any(|p| p.len() >= 5), "five levels or more");
        ctx.class_if(made.what.values().any(|w| matches!(w, Want::Symlink(_))), "symlinks");
        ctx.class_if(made.what.values().any(|w| matches!(w, Want::Dir(m) if !m.is_none())), "directory metadata");
        ctx.class_if(case.whole.read > 1, "blocks taken in both ways");
        Ok(())
    }
}
