//! C08, C09, C10, the builder half of C04 and of C19: the directory tree builder.

use crate::dtree;
use crate::ftree::{Cidb, Store};
use crate::gen::*;
use crate::inspect::Eye;
use crate::pbx::{self, Link, Node, UData};
use crate::runner::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::convert::TryFrom;
use std::sync::Arc;
use unixfs_v1::dir::builder::{BufferingTreeBuilder, TreeBuildingFailed, TreeConstructionFailed, TreeOptions};

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Put { path: String, target: CidSpec, size: u64 },
    Meta { path: String, meta: Meta },
    /// n leaves with names of this length below a directory ("" for none)
    Many { dir: String, n: u16, len: u16 },
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Limit {
    Default,
    Unlimited,
    /// the size of the idx-th directory block (in order of size) plus delta
    Block(u8, i8),
    Abs(u64),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Build {
    pub ops: Vec<Op>,
    pub wrap: bool,
    pub limit: Limit,
    /// read the result with `next_borrowed` instead of the iterator
    pub borrowed: bool,
    pub perm: u32,
    /// C09: a path of this many segments is added to a builder which is then abandoned
    #[serde(default)]
    pub deep: u32,
    /// when not zero, read with `next_borrowed` where it has a bit and with the iterator elsewhere
    #[serde(default)]
    pub mixed: u8,
}

impl Build {
    pub fn turns(&self) -> u8 {
        match self.mixed {
            0 if self.borrowed => 0xff,
            m => m,
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum MNode {
    Leaf(Cidb, u64),
    Dir(MDir),
}

#[derive(Debug, Clone, PartialEq, Default)]
pub struct MDir {
    pub kids: BTreeMap<String, MNode>,
    pub meta: Meta,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Why {
    Rooted,
    Repeat,
    EndsInSlash,
    TooMany,
    Duplicate,
    LeafAsDir,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Simple {
    Put(String, Cidb, u64),
    Meta(String, Meta),
}

impl Simple {
    pub fn path(&self) -> &str {
        match self {
            Simple::Put(p, ..) | Simple::Meta(p, _) => p,
        }
    }
}

pub fn flatten(case: &Build) -> Vec<Simple> {
    let mut v = Vec::new();
    for op in &case.ops {
        match op {
            // an empty path is only meant for a single unwrapped file
            Op::Put { path, .. } if path.is_empty() && case.wrap => {}
            Op::Meta { path, .. } if path.is_empty() => {}
            Op::Put { path, target, size } => v.push(Simple::Put(path.clone(), target.bytes(), *size)),
            Op::Meta { path, meta } => v.push(Simple::Meta(path.clone(), meta.clone())),
            Op::Many { dir, n, len } => {
                for i in 0..*n {
                    let mut name = format!("{:05}", i);
                    while name.len() < *len as usize {
                        name.push('m');
                    }
                    let cid = CidSpec { v: (i % 2) as u8, codec: 0x70, mh: 0x12, len: 32, seed: i as u32 };
                    v.push(Simple::Put(dtree::join(dir, &name), cid.bytes(), 1000 + i as u64));
                }
            }
        }
    }
    v
}

/// Applies the operation to the model, or says every reason for which it may be rejected.
pub fn apply(root: &mut MDir, wrap: bool, op: &Simple) -> Result<(), Vec<Why>> {
    let path = op.path();
    let mut why = Vec::new();
    if path.ends_with('/') {
        why.push(Why::EndsInSlash);
    }
    if path.contains("//") {
        why.push(Why::Repeat);
    }
    if path.starts_with('/') {
        why.push(Why::Rooted);
    }
    if !why.is_empty() {
        return Err(why);
    }
    let segs: Vec<&str> = path.split('/').collect();
    if !wrap && !root.kids.is_empty() && !root.kids.contains_key(segs[0]) {
        return Err(vec![Why::TooMany]);
    }
    // check first, then change
    {
        let mut d = &*root;
        for (i, s) in segs.iter().enumerate() {
            let last = i + 1 == segs.len();
            match d.kids.get(*s) {
                None => break,
                Some(MNode::Leaf(..)) if last && matches!(op, Simple::Put(..)) => return Err(vec![Why::Duplicate]),
                Some(MNode::Leaf(..)) => return Err(vec![Why::LeafAsDir]),
                Some(MNode::Dir(_)) if last && matches!(op, Simple::Put(..)) => return Err(vec![Why::Duplicate]),
                Some(MNode::Dir(x)) => d = x,
            }
        }
    }
    let mut d = root;
    for (i, s) in segs.iter().enumerate() {
        let last = i + 1 == segs.len();
        if last {
            if let Simple::Put(_, cid, size) = op {
                d.kids.insert(s.to_string(), MNode::Leaf(cid.clone(), *size));
                return Ok(());
            }
        }
        d = match d.kids.entry(s.to_string()).or_insert_with(|| MNode::Dir(MDir::default())) {
            MNode::Dir(x) => x,
            MNode::Leaf(..) => unreachable!(),
        };
    }
    if let Simple::Meta(_, m) = op {
        d.meta = m.clone();
    }
    Ok(())
}

pub fn real_meta(m: &Meta) -> unixfs_v1::Metadata {
    let mut u = UData::of(pbx::FILE);
    m.apply(&mut u);
    let b = u.encode();
    let u = unixfs_v1::UnixFs::try_from(Some(&b[..])).expect("harness metadata decodes");
    unixfs_v1::Metadata::from(&u)
}

pub fn raw_op(b: &mut BufferingTreeBuilder, op: &Simple) -> Result<(), TreeBuildingFailed> {
    match op {
        Simple::Put(p, c, s) => b.put_link(p, pbx::to_cid(c), *s),
        Simple::Meta(p, m) => b.set_metadata(p, real_meta(m)),
    }
}

/// Applies to the crate's builder; `Ok(Err(..))` is a rejection.
pub fn apply_real(b: &mut BufferingTreeBuilder, op: &Simple) -> Result<(), (Why, Option<String>)> {
    raw_op(b, op).map_err(|e| {
        let _ = format!("{} {:?}", e, e);
        match e {
            TreeBuildingFailed::RootedPath(s) => (Why::Rooted, Some(s)),
            TreeBuildingFailed::RepeatSlashesInPath(s) => (Why::Repeat, Some(s)),
            TreeBuildingFailed::PathEndsInSlash(s) => (Why::EndsInSlash, Some(s)),
            TreeBuildingFailed::TooManyRootLevelEntries => (Why::TooMany, None),
            TreeBuildingFailed::DuplicatePath(s) => (Why::Duplicate, Some(s)),
            TreeBuildingFailed::LeafAsDirectory(s) => (Why::LeafAsDir, Some(s)),
        }
    })
}

#[derive(Debug, Clone, PartialEq)]
pub struct Out {
    pub path: String,
    pub cid: Cidb,
    pub total: u64,
    pub block: Vec<u8>,
}

/// The directory blocks of the model, descendants first.
pub fn render(root: &MDir, wrap: bool) -> Vec<Out> {
    fn dir(d: &MDir, path: &str, out: &mut Vec<Out>) -> (Cidb, u64) {
        let mut links = vec![];
        let mut total = 0u64;
        for (n, k) in &d.kids {
            let (cid, t) = match k {
                MNode::Leaf(c, t) => (c.clone(), *t),
                MNode::Dir(x) => dir(x, &dtree::join(path, n), out),
            };
            links.push(Link::new(&cid, n, t));
            total += t;
        }
        let mut u = UData::of(pbx::DIRECTORY);
        u.mode = d.meta.mode;
        // zero nanoseconds are the same as none, and are not written
        u.mtime = d.meta.mtime.map(|(s, n)| (s, n.filter(|n| *n != 0)));
        let block = Node::new(links, &u).encode();
        total += block.len() as u64;
        let cid = pbx::cid_v1(&block);
        out.push(Out { path: path.to_string(), cid: cid.clone(), total, block });
        (cid, total)
    }
    let mut out = vec![];
    dir(root, "", &mut out);
    if !wrap {
        out.pop();
    }
    out
}

pub fn options(wrap: bool, limit: Option<Option<u64>>) -> TreeOptions {
    let mut o = TreeOptions::default();
    if wrap {
        o.wrap_with_directory();
    }
    if let Some(l) = limit {
        o.block_size_limit(l);
    }
    o
}

#[derive(Debug, PartialEq)]
pub enum End {
    Done,
    TooLarge(u64),
}

/// Reads the blocks out of the crate's builder, past the end.
pub fn collect(b: BufferingTreeBuilder, turns: u8, cap: usize) -> Result<(Vec<Out>, End), String> {
    collect_looking(b, turns, cap, Eye::default())
}

/// The same, with looks at the iterator and what it gives.
pub fn collect_looking(b: BufferingTreeBuilder, turns: u8, cap: usize, eye: Eye) -> Result<(Vec<Out>, End), String> {
    let mut out = vec![];
    let mut it = b.build();
    let mut end = None;
    for i in 0..cap + 8 {
        if eye.at(i) {
            assert_eq!(it.size_hint().0, it.size_hint().0);
        }
        let item = if turns >> (i % 8) & 1 == 1 {
            it.next_borrowed().map(|r| {
                r.map(|n| {
                    eye.debug(i, &n);
                    let of = |path: &str, cid: &libipld::Cid, total, block: &[u8]| Out {
                        path: path.to_string(),
                        cid: cid.to_bytes(),
                        total,
                        block: block.to_vec(),
                    };
                    let o = of(n.path, n.cid, n.total_size, n.block);
                    if eye.at(i) {
                        let n = n.into_owned();
                        assert_eq!(o, of(&n.path, &n.cid, n.total_size, &n.block), "owned and borrowed nodes differ");
                    }
                    o
                })
            })
        } else {
            it.next().map(|r| {
                r.map(|n| Out {
                    path: n.path,
                    cid: n.cid.to_bytes(),
                    total: n.total_size,
                    block: n.block.to_vec(),
                })
            })
        };
        match item {
            None => {
                // stays ended
                for _ in 0..2 {
                    if it.next().is_some() {
                        return Err("the iteration continues after its end".into());
                    }
                }
                return Ok((out, end.unwrap_or(End::Done)));
            }
            Some(_) if end.is_some() => return Err("the iteration continues after an error".into()),
            Some(Ok(o)) => out.push(o),
            Some(Err(e)) => {
                let _ = format!("{} {:?}", e, e);
                eye.error(i, &e);
                match e {
                    TreeConstructionFailed::TooLargeBlock(n) => end = Some(End::TooLarge(n)),
                    e => return Err(format!("building failed: {}", e)),
                }
            }
        }
    }
    Err(format!("more than {} directory blocks", cap + 7))
}

// ---- generators ----

pub fn seg() -> BoxedStrategy<String> {
    prop_oneof![
        10 => prop::sample::select(vec!["a", "b", "c", "aa", "ab", "a.b", "B", "ä"]).prop_map(str::to_string),
        2 => name(),
    ]
    .boxed()
}

pub fn good_path() -> BoxedStrategy<String> {
    prop_oneof![
        12 => prop::collection::vec(seg(), 1..=4),
        1 => prop::collection::vec(seg(), 5..=12),
    ]
    .prop_map(|v| v.join("/"))
    .boxed()
}

/// Paths below one directory, for trees without a wrapping directory.
pub fn path(root: bool) -> BoxedStrategy<String> {
    let base = if root {
        good_path().prop_map(|p| format!("r/{}", p)).boxed()
    } else {
        good_path()
    };
    prop_oneof![
        40 => base.clone(),
        2 => good_path(),
        1 => Just("r".to_string()),
        1 => Just(String::new()),
        1 => base.clone().prop_map(|p| format!("/{}", p)),
        1 => base.clone().prop_map(|p| format!("{}/", p)),
        1 => (base, good_path(), 2usize..4).prop_map(|(a, b, n)| format!("{}{}{}", a, "/".repeat(n), b)),
        1 => prop::sample::select(vec!["/", "//", "a//", "//a", "/a/", "/a//b/", "a/b//"]).prop_map(str::to_string),
    ]
    .boxed()
}

pub fn size() -> BoxedStrategy<u64> {
    prop_oneof![
        4 => 0u64..300,
        2 => prop::sample::select(vec![0u64, 127, 128, 16383, 16384, 2097151, 2097152, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 40, 1 << 48]),
        1 => any::<u32>().prop_map(|x| x as u64),
    ]
    .boxed()
}

pub fn op(root: bool, meta: u32) -> BoxedStrategy<Op> {
    prop_oneof![
        10 => (path(root), cid_spec(), size()).prop_map(|(path, target, size)| Op::Put { path, target, size }),
        meta => (path(root), meta_some()).prop_map(|(path, meta)| Op::Meta { path, meta }),
    ]
    .boxed()
}

/// Gives operations paths close to those of others: the segment changed is one of the last two.
fn close(mut ops: Vec<Op>, how: &[(u8, u8, u8)]) -> Vec<Op> {
    let n = ops.len();
    for (from, to, k) in how {
        if n < 2 {
            break;
        }
        let (Op::Put { path, .. } | Op::Meta { path, .. }) = &ops[*from as usize % n] else { continue };
        let mut segs: Vec<String> = path.split('/').map(str::to_string).collect();
        let at = segs.len() - 1 - (*k as usize / 32 % 2).min(segs.len() - 1);
        if segs[at].is_empty() {
            continue;
        }
        segs[at] = match near(&segs[at], "00", *k) {
            s if s.is_empty() || s.split('/').any(|s| s == ".") => continue,
            s => s,
        };
        let new = segs.join("/");
        if let Op::Put { path, .. } | Op::Meta { path, .. } = &mut ops[*to as usize % n] {
            *path = new;
        }
    }
    ops
}

/// Gives one operation this size.
fn enlarge(mut ops: Vec<Op>, huge: Option<(u8, u64)>) -> Vec<Op> {
    if let Some((i, s)) = huge {
        let n = ops.len().max(1);
        if let Some(Op::Put { size, .. }) = ops.get_mut(i as usize % n) {
            *size = s;
        }
    }
    ops
}

fn many(root: bool) -> BoxedStrategy<Op> {
    (
        if root { prop::sample::select(vec!["r", "r/a", "r/a/b"]) } else { prop::sample::select(vec!["", "a", "a/b"]) },
        prop::sample::select(vec![20u16, 100, 127, 128, 129, 255, 256, 257, 300]),
        prop::sample::select(vec![5u16, 8, 80, 84, 85, 86, 87, 88, 126, 127, 128, 200]),
    )
        .prop_map(|(dir, n, len)| Op::Many { dir: dir.to_string(), n, len })
        .boxed()
}

pub fn build(meta: u32) -> BoxedStrategy<Build> {
    let limit = prop_oneof![
        3 => Just(Limit::Default),
        2 => Just(Limit::Unlimited),
        4 => (any::<u8>(), -1i8..=1).prop_map(|(i, d)| Limit::Block(i, d)),
        1 => (0u64..300).prop_map(Limit::Abs),
        1 => (
            prop::sample::select(vec![1u64 << 16, 1 << 31, 1 << 32, 1 << 33, 3 << 32, 1 << 48, 1 << 63, u64::MAX - 300]),
            0u64..300,
            any::<bool>(),
        )
            .prop_map(|(a, d, up)| Limit::Abs(if up { a + d } else { a - d })),
        1 => Just(Limit::Abs(u64::MAX)),
    ];
    any::<bool>()
        .prop_flat_map(move |wrap| {
            // without wrapping, mostly stay below one top level directory
            let root = !wrap;
            let ops = prop_oneof![
                10 => prop::collection::vec(op(root, meta), 0..24),
                3 => prop::collection::vec(op(root, meta), 24..60),
                1 => prop::collection::vec(prop_oneof![1 => many(root), 3 => op(root, meta)], 1..6),
            ];
            (ops, Just(wrap))
        })
        .prop_flat_map(move |(ops, wrap)| {
            let near = prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec((any::<u8>(), any::<u8>(), any::<u8>()), 1..5)];
            let mixed = prop_oneof![2 => Just(0u8), 1 => any::<u8>()];
            // at most one size is so large that two of them would not fit
            let huge = prop::option::weighted(
                0.1,
                (any::<u8>(), prop::sample::select(vec![1u64 << 62, (1 << 63) - 1, 1 << 63, (1 << 63) + 12345, u64::MAX - (1 << 56)])),
            );
            (Just(ops), Just(wrap), limit.clone(), any::<bool>(), any::<u32>(), mixed, (near, huge))
        })
        .prop_map(|(ops, wrap, limit, borrowed, perm, mixed, (near, huge))| Build { ops: enlarge(close(ops, &near), huge), wrap, limit, borrowed, perm, deep: 0, mixed })
        .boxed()
}

/// Builds model and crate side by side, checking the verdict on every operation.
fn both(case: &Build, limit: Option<Option<u64>>, ctx: &mut Ctx) -> Result<(MDir, BufferingTreeBuilder, Vec<Simple>), String> {
    let mut model = MDir::default();
    let mut b = match limit {
        // the defaults, spelled the other way
        None if !case.wrap && case.perm % 2 == 1 => BufferingTreeBuilder::default(),
        _ => BufferingTreeBuilder::new(options(case.wrap, limit)),
    };
    let mut accepted = vec![];
    for op in flatten(case) {
        let want = apply(&mut model, case.wrap, &op);
        let got = apply_real(&mut b, &op);
        match (want, got) {
            (Ok(()), Ok(())) => accepted.push(op),
            (Ok(()), Err((w, _))) => return Err(format!("{:?} was rejected as {:?} but nothing is wrong with it", op, w)),
            (Err(w), Ok(())) => return Err(format!("{:?} was accepted although {:?}", op, w)),
            (Err(w), Err((g, p))) => {
                if !w.contains(&g) {
                    return Err(format!("{:?} was rejected as {:?} instead of {:?}", op, g, w));
                }
                if let Some(p) = p {
                    if p != op.path() {
                        return Err(format!("{:?}: the error names {:?}", op, p));
                    }
                }
                ctx.class(match g {
                    Why::Rooted => "rejected: rooted",
                    Why::Repeat => "rejected: empty segment",
                    Why::EndsInSlash => "rejected: ends in slash",
                    Why::TooMany => "rejected: second top-level entry",
                    Why::Duplicate => "rejected: duplicate",
                    Why::LeafAsDir => "rejected: leaf as directory",
                });
            }
        }
    }
    Ok((model, b, accepted))
}

fn real_limit(limit: &Limit, blocks: &[Out]) -> Option<Option<u64>> {
    match limit {
        Limit::Default => None,
        Limit::Unlimited => Some(None),
        Limit::Abs(n) => Some(Some(*n)),
        Limit::Block(i, d) => {
            let mut sizes: Vec<u64> = blocks.iter().map(|b| b.block.len() as u64).collect();
            sizes.sort();
            sizes.dedup();
            let s = if sizes.is_empty() {
                4
            } else if i % 2 == 0 {
                // often the largest, so that all fits but just so
                sizes[sizes.len() - 1]
            } else {
                sizes[*i as usize / 2 % sizes.len()]
            };
            Some(Some((s as i64 + *d as i64).max(0) as u64))
        }
    }
}

fn shape(case: &Build, model: &MDir, want: &[Out], accepted: &[Simple], ctx: &mut Ctx) {
    ctx.nontrivial = want.len() >= 2 && accepted.len() >= 2;
    ctx.class_if(case.wrap, "wrapped");
    ctx.class_if(!case.wrap, "not wrapped");
    ctx.class_if(want.is_empty(), "no directory blocks");
    ctx.class_if(want.len() >= 5, "five or more directories");
    fn depth(d: &MDir) -> usize {
        d.kids.values().map(|k| if let MNode::Dir(x) = k { 1 + depth(x) } else { 0 }).max().unwrap_or(0)
    }
    ctx.class_if(depth(model) >= 4, "four or more levels");
    ctx.class_if(want.iter().any(|w| w.block.len() > 5000), "a wide directory");
    let mut blocks = HashSet::new();
    ctx.class_if(!want.iter().all(|w| blocks.insert(&w.block)), "equal subdirectories");
}

fn compare_sets(got: &[Out], want: &[Out], bytes: bool) -> Res {
    let g: BTreeMap<&str, &Out> = got.iter().map(|o| (o.path.as_str(), o)).collect();
    let w: BTreeMap<&str, &Out> = want.iter().map(|o| (o.path.as_str(), o)).collect();
    if g.len() != got.len() {
        return Err(format!("a directory path is emitted twice: {:?}", got.iter().map(|o| &o.path).collect::<Vec<_>>()));
    }
    let gp: Vec<_> = g.keys().collect();
    let wp: Vec<_> = w.keys().collect();
    if gp != wp {
        return Err(format!("emitted directories {:?} instead of {:?}", gp, wp));
    }
    if bytes {
        for (p, o) in &g {
            if o.block != w[p].block {
                return Err(format!("directory {:?} is {} instead of {}", p, pbx::hex(&o.block), pbx::hex(&w[p].block)));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C08

/// A walk cannot tell such an entry from its directory, and refuses it.
const K3: &str = "K3 the tree builder accepts a segment \".\" in a path, and the tree it makes of it cannot be walked";

pub struct C08;

impl Check for C08 {
    type Case = Build;
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "A case is a sequence of put and set-metadata operations over a small alphabet of path segments (so that paths collide and nest), with or without a wrapping directory. The emitted blocks are decoded strictly and compared, path by path, with a map model, then walked with the crate. Non-trivial: at least two accepted operations and two directories."
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Build> {
        build(2)
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 60_000,
            Tier::Thorough => 1_000_000,
        }
    }
    fn fixed(&self, _tier: Tier) -> Vec<Build> {
        let mut v = vec![];
        for wrap in [false, true] {
            for borrowed in [false, true] {
                for n in [0u16, 1, 2, 1000, 3000] {
                    for dir in ["r", "r/x/y/z/w"] {
                        v.push(Build {
                            ops: vec![Op::Many { dir: dir.into(), n, len: 6 }],
                            wrap,
                            limit: Limit::Unlimited,
                            borrowed,
                            perm: 0, deep: 0, mixed: 0,
                        });
                    }
                }
                // a very deep chain with leaves at every level
                let mut ops = vec![];
                let mut p = "r".to_string();
                for i in 0..120 {
                    ops.push(Op::Put {
                        path: format!("{}/leaf{}", p, i),
                        target: CidSpec { v: 1, codec: 0x70, mh: 0x12, len: 32, seed: i },
                        size: i as u64,
                    });
                    p = format!("{}/{}", p, if i % 3 == 0 { "z" } else { "a" });
                }
                v.push(Build { ops, wrap, limit: Limit::Unlimited, borrowed, perm: 0, deep: 0, mixed: 0 });
            }
            let put = |path: &str| Op::Put { path: path.into(), target: CidSpec { v: 1, codec: 0x70, mh: 0x12, len: 32, seed: 1 }, size: 1 };
            v.push(Build { ops: vec![put("r/a"), put("r/./b")], wrap, limit: Limit::Default, borrowed: false, perm: 0, deep: 0, mixed: 0 });
        }
        v
    }
    fn run(&self, case: &Build, ctx: &mut Ctx) -> Res {
        let mut model = MDir::default();
        let mut b = BufferingTreeBuilder::new(options(case.wrap, Some(None)));
        let mut accepted = vec![];
        for op in flatten(case) {
            // only what the builder accepts matters here; C09 judges the verdicts
            if apply_real(&mut b, &op).is_ok() {
                apply(&mut model, case.wrap, &op).map_err(|w| format!("{:?} was accepted although {:?}", op, w))?;
                accepted.push(op);
            }
        }
        let want = render(&model, case.wrap);
        shape(case, &model, &want, &accepted, ctx);
        let (got, end) = collect(b, case.turns(), want.len())?;
        if let End::TooLarge(n) = end {
            return Err(format!("building without a limit reports a block of {} as too large", n));
        }
        compare_sets(&got, &want, false)?;

        // order: everything below a directory comes before it
        let at: HashMap<&str, usize> = got.iter().enumerate().map(|(i, o)| (o.path.as_str(), i)).collect();
        for o in &got {
            if let Some(i) = o.path.rfind('/') {
                let parent = &o.path[..i];
                if at.get(parent).map(|p| *p < at[o.path.as_str()]).unwrap_or(true) {
                    return Err(format!("directory {:?} is not handed out before {:?}", o.path, parent));
                }
            }
        }
        if let Some(last) = got.last() {
            let root = if case.wrap { "" } else { model.kids.keys().next().map(|s| s.as_str()).unwrap_or("?") };
            if last.path != root {
                return Err(format!("the last directory is {:?} instead of {:?}", last.path, root));
            }
        }

        // content: decode and compare every directory with the model
        let cid_of: HashMap<&str, &Out> = got.iter().map(|o| (o.path.as_str(), o)).collect();
        fn find<'a>(root: &'a MDir, path: &str) -> &'a MDir {
            let mut d = root;
            if path.is_empty() {
                return d;
            }
            for s in path.split('/') {
                d = match &d.kids[s] {
                    MNode::Dir(x) => x,
                    _ => unreachable!(),
                };
            }
            d
        }
        for o in &got {
            let (links, u) = pbx::strict(&o.block).map_err(|e| format!("directory {:?}: {}", o.path, e))?;
            if u.typ != Some(pbx::DIRECTORY) {
                return Err(format!("directory {:?} has type {:?}", o.path, u.typ));
            }
            let d = find(&model, &o.path);
            let names: Vec<&str> = links.iter().map(|l| l.name.as_deref().unwrap_or("?none")).collect();
            let set: BTreeSet<&str> = names.iter().copied().collect();
            let want: BTreeSet<&str> = d.kids.keys().map(|s| s.as_str()).collect();
            if set.len() != names.len() || set != want {
                return Err(format!("directory {:?} has entries {:?} instead of {:?}", o.path, names, want));
            }
            for l in &links {
                let n = l.name.as_deref().unwrap();
                let (cid, t) = match &d.kids[n] {
                    MNode::Leaf(c, t) => (c.clone(), *t),
                    MNode::Dir(_) => {
                        let k = cid_of[dtree::join(&o.path, n).as_str()];
                        (k.cid.clone(), k.total)
                    }
                };
                if l.hash.as_ref() != Some(&cid) || l.tsize != Some(t) {
                    return Err(format!("entry {:?} of {:?} is {:?}/{:?} instead of {}/{}", n, o.path, l.hash.as_ref().map(|h| pbx::hex(h)), l.tsize, pbx::hex(&cid), t));
                }
            }
        }

        // walk it
        if let Some(last) = got.last() {
            let mut opaque = UData::of(pbx::SYMLINK);
            opaque.data = Some(b"target".to_vec());
            let opaque = Arc::new(Node::new(vec![], &opaque).encode());
            let mut store = Store::new();
            let mut want: BTreeMap<String, Cidb> = BTreeMap::new();
            for op in &accepted {
                if let Simple::Put(p, c, _) = op {
                    store.insert(c.clone(), opaque.clone());
                    want.insert(p.clone(), c.clone());
                }
            }
            for o in &got {
                store.insert(o.cid.clone(), Arc::new(o.block.clone()));
                want.insert(o.path.clone(), o.cid.clone());
            }
            let steps = match dtree::walk(&last.cid, &last.path, &store, &mut None, want.len() + 4) {
                Ok(steps) => steps,
                Err((_, e)) if e.starts_with("InvalidLinkName {") && e.contains("name: \".\"") && want.keys().any(|p| p.split('/').any(|s| s == ".")) => {
                    return ctx.known_finding("C08", K3);
                }
                Err((_, e)) => return Err(format!("walking the tree: {}", e)),
            };
            let mut seen = BTreeMap::new();
            for s in &steps {
                if seen.insert(s.path.clone(), s.cid.clone()).is_some() {
                    return Err(format!("the walk reports {:?} twice", s.path));
                }
                let dir = matches!(s.ev, dtree::Ev::Dir | dtree::Ev::RootDir);
                if dir != cid_of.contains_key(s.path.as_str()) {
                    return Err(format!("the walk reports {:?} as {:?}", s.path, s.ev));
                }
            }
            if seen != want {
                return Err(format!("the walk reports {:?} instead of {:?}", seen.keys().collect::<Vec<_>>(), want.keys().collect::<Vec<_>>()));
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C09

pub struct C09;

impl Check for C09 {
    type Case = Build;
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "A case is a history of put and set-metadata operations, many of them conflicting or malformed. After every operation the verdict is compared with a map model; the final blocks are compared with the model, with a builder given only the accepted operations, and with one given them in another order. Non-trivial: at least two accepted operations and two directories."
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Build> {
        build(5)
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 60_000,
            Tier::Thorough => 1_000_000,
        }
    }
    fn fixed(&self, _tier: Tier) -> Vec<Build> {
        // every history of up to three operations over a small set of paths
        let paths = ["", "a", "b", "a/b", "a/c", "a/b/c", "/a", "a/", "a//b"];
        let mut ops = vec![];
        for p in paths {
            ops.push(Op::Put { path: p.into(), target: CidSpec { v: 0, codec: 0x70, mh: 0x12, len: 32, seed: p.len() as u32 }, size: 5 });
            ops.push(Op::Meta { path: p.into(), meta: Meta { mode: Some(p.len() as u32), mtime: None } });
        }
        let mut v = vec![];
        for wrap in [false, true] {
            for a in &ops {
                for b in &ops {
                    for c in &ops {
                        v.push(Build { ops: vec![a.clone(), b.clone(), c.clone()], wrap, limit: Limit::Unlimited, borrowed: false, perm: v.len() as u32, deep: 0, mixed: 0 });
                    }
                }
            }
        }
        // paths far longer than the stack could follow by recursion
        for deep in [1000, 100_000] {
            for perm in 0..6 {
                v.push(Build { ops: vec![], wrap: deep % 3 == 1, limit: Limit::Unlimited, borrowed: false, perm, deep, mixed: 0 });
            }
        }
        v
    }
    fn run(&self, case: &Build, ctx: &mut Ctx) -> Res {
        if case.deep > 0 {
            return abandon(case, ctx);
        }
        let (model, b, accepted) = both(case, Some(None), ctx)?;
        let want = render(&model, case.wrap);
        shape(case, &model, &want, &accepted, ctx);
        let (got, _) = collect(b, case.turns(), want.len())?;
        compare_sets(&got, &want, true)?;

        // without the rejected ones
        let mut only = BufferingTreeBuilder::new(options(case.wrap, Some(None)));
        for op in &accepted {
            apply_real(&mut only, op).map_err(|(w, _)| format!("{:?} accepted before is now rejected as {:?}", op, w))?;
        }
        let (only, _) = collect(only, case.turns(), want.len())?;
        if only != got {
            return Err("a rejected operation had an effect on the tree".into());
        }

        // in another order; of several metadata for one path only the last counts
        let mut seen = HashSet::new();
        let mut perm: Vec<Simple> = accepted
            .iter()
            .rev()
            .filter(|o| match o {
                Simple::Meta(p, _) => seen.insert(p.clone()),
                _ => true,
            })
            .cloned()
            .collect();
        let mut x = case.perm as u64 + 1;
        for i in (1..perm.len()).rev() {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            perm.swap(i, (x >> 33) as usize % (i + 1));
        }
        let mut other = BufferingTreeBuilder::new(options(case.wrap, Some(None)));
        for op in &perm {
            apply_real(&mut other, op).map_err(|(w, _)| format!("in another order {:?} is rejected as {:?}", op, w))?;
        }
        let (other, _) = collect(other, case.turns(), want.len())?;
        compare_sets(&other, &got, true).map_err(|e| format!("in another order: {}", e))?;
        Ok(())
    }
}

/// A very deep path: the verdicts are the same as for short ones, and a builder or iterator
/// holding it can be dropped at any point.
fn abandon(case: &Build, ctx: &mut Ctx) -> Res {
    ctx.class("very deep path, abandoned");
    let deep = case.deep.max(3) as usize;
    let mut path = "a/".repeat(deep - 1);
    path.push('a');
    let cid = CidSpec { v: 1, codec: 0x70, mh: 0x12, len: 32, seed: 1 }.bytes();
    let limit = if case.perm % 3 == 2 { Some(Some(1)) } else { Some(None) };
    let mut b = BufferingTreeBuilder::new(options(case.wrap, limit));
    let mut op = |path: &str, meta: bool| {
        let op = if meta {
            Simple::Meta(path.into(), Meta { mode: Some(0o755), mtime: None })
        } else {
            Simple::Put(path.into(), cid.clone(), 5)
        };
        apply_real(&mut b, &op).map_err(|(w, _)| w)
    };
    let want = [
        (op(&path, false), Ok(())),
        (op(&path, false), Err(Why::Duplicate)),
        (op(&path, true), Err(Why::LeafAsDir)),
        (op(&format!("{}/a", path), false), Err(Why::LeafAsDir)),
        (op(&format!("{}/", path), false), Err(Why::EndsInSlash)),
        (op(&path[..path.len() - 2], false), Err(Why::Duplicate)),
        (op(&path[..path.len() - 2], true), Ok(())),
        (op(&format!("{}b", &path[..path.len() - 1]), false), Ok(())),
        (op(&format!("a/b{}", &path[1..]), false), Ok(())),
    ];
    for (i, (got, want)) in want.iter().enumerate() {
        if got != want {
            return Err(format!("operation {} on a path of {} segments: {:?} instead of {:?}", i, deep, got, want));
        }
    }
    match case.perm % 3 {
        0 => drop(b),
        n => {
            let mut it = b.build();
            for i in 0..case.perm / 2 {
                match it.next_borrowed() {
                    Some(Ok(_)) if n == 1 => {}
                    Some(Err(_)) if n == 2 && i == 0 => {}
                    None if n == 2 && i > 0 => {}
                    other => return Err(format!("block {} of a deep tree: {:?}", i, other.map(|r| r.map(|n| n.total_size)))),
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C10

pub struct C10;

impl Check for C10 {
    type Case = Build;
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "A case is a history of put and set-metadata operations with a block size limit: the default, none, a number, or the size of one of the resulting directory blocks plus minus one. Blocks are compared byte for byte with an independent encoder. Non-trivial: at least two accepted operations and two directories."
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Build> {
        build(2)
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 60_000,
            Tier::Thorough => 1_000_000,
        }
    }
    fn fixed(&self, _tier: Tier) -> Vec<Build> {
        // blocks around the default limit of 512 KiB
        let mut v = vec![];
        for borrowed in [false, true] {
            for wrap in [false, true] {
                let fill = |last: usize| {
                    let mut ops = vec![Op::Many { dir: "r".into(), n: 2000, len: 200 }];
                    ops.push(Op::Put {
                        path: format!("r/{}", "z".repeat(last)),
                        target: CidSpec { v: 1, codec: 0x70, mh: 0x12, len: 32, seed: 1 },
                        size: 1,
                    });
                    Build { ops, wrap, limit: Limit::Default, borrowed, perm: 0, deep: 0, mixed: 0 }
                };
                let mut model = MDir::default();
                for op in flatten(&fill(20_000)) {
                    apply(&mut model, wrap, &op).unwrap();
                }
                let r = render(&model, wrap);
                let size = r[0].block.len();
                for d in [-1i64, 0, 1] {
                    let last = 20_000 + 512 * 1024 + d - size as i64;
                    v.push(fill(last as usize));
                }
            }
        }
        v
    }
    fn run(&self, case: &Build, ctx: &mut Ctx) -> Res {
        // a first build gives the sizes the limit is made from
        let mut model = MDir::default();
        let mut probe = BufferingTreeBuilder::new(options(case.wrap, Some(None)));
        let mut accepted = vec![];
        for op in flatten(case) {
            if apply_real(&mut probe, &op).is_ok() {
                apply(&mut model, case.wrap, &op).map_err(|w| format!("{:?} was accepted although {:?}", op, w))?;
                accepted.push(op);
            }
        }
        let want = render(&model, case.wrap);
        shape(case, &model, &want, &accepted, ctx);
        let limit = real_limit(&case.limit, &want);
        let number = match limit {
            None => Some(512 * 1024),
            Some(l) => l,
        };
        let mut b = BufferingTreeBuilder::new(options(case.wrap, limit));
        for op in &accepted {
            apply_real(&mut b, op).map_err(|(w, _)| format!("{:?} accepted before is now rejected as {:?}", op, w))?;
        }
        let (got, end) = collect(b, case.turns(), want.len())?;
        let by_path: HashMap<&str, &Out> = want.iter().map(|o| (o.path.as_str(), o)).collect();
        for o in &got {
            let w = by_path.get(o.path.as_str()).ok_or_else(|| format!("unexpected directory {:?}", o.path))?;
            if o.block != w.block {
                return Err(format!("directory {:?} is {} instead of {}", o.path, pbx::hex(&o.block), pbx::hex(&w.block)));
            }
            if let Some(n) = number {
                if o.block.len() as u64 > n {
                    return Err(format!("a block of {} bytes was emitted with the limit {}", o.block.len(), n));
                }
                ctx.class_if(o.block.len() as u64 == n, "a block of exactly the limit");
            }
        }
        let too_large: Vec<u64> = want.iter().map(|o| o.block.len() as u64).filter(|s| number.map(|n| *s > n).unwrap_or(false)).collect();
        match end {
            End::Done => {
                if !too_large.is_empty() {
                    return Err(format!("no error although blocks of {:?} bytes exceed the limit {:?}", too_large, number));
                }
                compare_sets(&got, &want, true)?;
            }
            End::TooLarge(n) => {
                ctx.class("too large");
                if !too_large.contains(&n) {
                    return Err(format!("a block of {} bytes is reported as too large; limit {:?}, blocks over it {:?}", n, number, too_large));
                }
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C04 (builder half)

pub fn run_builder_integrity(case: &Build, ctx: &mut Ctx) -> Res {
    let mut b = BufferingTreeBuilder::new(options(case.wrap, Some(None)));
    let mut supplied: HashMap<Cidb, Vec<u64>> = HashMap::new();
    let mut accepted = 0;
    for op in flatten(case) {
        if apply_real(&mut b, &op).is_ok() {
            accepted += 1;
            if let Simple::Put(_, c, s) = op {
                supplied.entry(c).or_default().push(s);
            }
        }
    }
    let (got, _) = collect(b, case.turns(), 4 * accepted * 20 + 64)?;
    ctx.class("directory tree");
    ctx.nontrivial = got.len() >= 2 && accepted >= 2;
    let mut known: HashMap<Cidb, (u64, Vec<Cidb>)> = HashMap::new();
    for o in &got {
        if o.cid != pbx::cid_v1(&o.block) {
            return Err(format!("directory {:?} is handed out as {} but hashes to {}", o.path, pbx::hex(&o.cid), pbx::hex(&pbx::cid_v1(&o.block))));
        }
        let (links, _) = pbx::strict(&o.block).map_err(|e| format!("directory {:?}: {}", o.path, e))?;
        let mut total = o.block.len() as u64;
        let mut kids = vec![];
        for l in &links {
            let h = l.hash.clone().ok_or("link without hash")?;
            let t = l.tsize.ok_or("link without size")?;
            let sup = supplied.get(&h).map(|v| v.contains(&t)).unwrap_or(false);
            match known.get(&h) {
                Some((k, _)) if *k == t => kids.push(h),
                _ if sup => {}
                Some((k, _)) => return Err(format!("link {:?} in {:?} has cumulative size {} instead of {}", l.name, o.path, t, k)),
                None => return Err(format!("link {:?} in {:?} points to {} with size {}, neither handed out before nor supplied", l.name, o.path, pbx::hex(&h), t)),
            }
            total += t;
        }
        if o.total != total {
            return Err(format!("directory {:?} reports total size {} instead of {}", o.path, o.total, total));
        }
        known.insert(o.cid.clone(), (total, kids));
    }
    if let Some(last) = got.last() {
        let mut seen = HashSet::new();
        let mut todo = vec![last.cid.clone()];
        while let Some(c) = todo.pop() {
            if seen.insert(c.clone()) {
                todo.extend(known[&c].1.iter().cloned());
            }
        }
        if seen.len() != known.len() {
            return Err(format!("only {} of {} directories are reachable from the last one", seen.len(), known.len()));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

pub struct C04;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Emit {
    File(crate::import::Import),
    Tree(Build),
    Stream(crate::import::Stream),
}

impl Check for C04 {
    type Case = Emit;
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "A case is a file import (one of more than 4 GiB) or a directory build. Every emitted block is decoded strictly and its CID, links, cumulative sizes, block sizes, file size and total size are recomputed; all must be reachable from the last block. Non-trivial: at least one emitted block links to another emitted block (imports of more than one chunk, trees of two directories)."
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Emit> {
        prop_oneof![
            crate::import::strategy(tier).prop_map(Emit::File),
            build(1).prop_map(Emit::Tree),
        ]
        .boxed()
    }
    fn fixed(&self, tier: Tier) -> Vec<Emit> {
        let mut v: Vec<Emit> = crate::import::fixed(tier).into_iter().map(Emit::File).chain(C08.fixed(tier).into_iter().map(Emit::Tree)).collect();
        let mut stream = |chunk, chunks, tail, bf, push| v.push(Emit::Stream(crate::import::Stream { chunk, chunks, tail, bf, push }));
        // beyond 4 GiB
        stream(4 << 20, 1030, 7, 32, 4 << 20);
        if tier == Tier::Thorough {
            stream(1 << 20, 4096, 0, 174, 1 << 20);
            stream((1 << 20) + 1, 4099, 1 << 19, 2, 3_000_000);
            stream(256 << 10, 70_000, 1, 174, 1 << 20);
        }
        v
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 50_000,
            Tier::Thorough => 800_000,
        }
    }
    fn run(&self, case: &Emit, ctx: &mut Ctx) -> Res {
        match case {
            Emit::File(i) => crate::import::run_file_integrity(i, ctx),
            Emit::Tree(b) => run_builder_integrity(b, ctx),
            Emit::Stream(s) => crate::import::run_stream(s, ctx),
        }
    }
}

/// The builder part of C19: each directory carries exactly the metadata it was given.
pub fn run_metadata(case: &Build, ctx: &mut Ctx) -> Res {
    use unixfs_v1::walk::{ContinuedWalk, Walker};
    let (model, b, _) = both(case, Some(None), ctx)?;
    let want = render(&model, case.wrap);
    let (got, end) = collect(b, case.turns(), want.len())?;
    if end != End::Done {
        return Err(format!("building ended with {:?}", end));
    }
    compare_sets(&got, &want, false)?;
    let metas: BTreeMap<&str, UData> = want.iter().map(|o| (o.path.as_str(), pbx::strict(&o.block).expect("reference block").1)).collect();
    let mut some = 0;
    for o in &got {
        let (_, u) = pbx::strict(&o.block).map_err(|e| format!("directory {:?}: {}", o.path, e))?;
        let w = &metas[o.path.as_str()];
        let norm = |m: Option<(i64, Option<u32>)>| m.map(|(s, n)| (s, n.unwrap_or(0)));
        if (u.mode, norm(u.mtime)) != (w.mode, norm(w.mtime)) {
            return Err(format!(
                "directory {:?} is written with mode {:?} mtime {:?} instead of {:?} {:?}",
                o.path, u.mode, u.mtime, w.mode, w.mtime
            ));
        }
        if w.mode.is_some() || w.mtime.is_some() {
            some += 1;
        }
        // and walking to it reports the same
        let mut wk = Walker::new(pbx::to_cid(&o.cid), "d".into());
        match wk.next(&o.block, &mut None) {
            Ok(ContinuedWalk::RootDirectory(_, _, md)) => {
                if (md.mode(), md.mtime()) != (w.mode, norm(w.mtime)) {
                    return Err(format!("directory {:?} walks with {:?} instead of {:?} {:?}", o.path, md, w.mode, w.mtime));
                }
            }
            r => return Err(format!("directory {:?} walks as {:?}", o.path, r)),
        }
    }
    ctx.nontrivial = some > 0;
    ctx.class_if(some > 0 && got.len() > some, "built directories with and without metadata");
    Ok(())
}
