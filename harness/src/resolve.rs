//! C11, C12, C22: resolving names.

use crate::dtree::{self, *};
use crate::ftree::*;
use crate::gen::*;
use crate::import;
use crate::pbx::{self, Link, Node, UData};
use crate::runner::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use unixfs_v1::dir::{Cache, MultipleMatchingLinks};
use unixfs_v1::{resolve, LookupError, MaybeResolved, ResolveError};

// ---------------------------------------------------------------- C11

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum HashSpec {
    Cid(CidSpec),
    Bad(Vec<u8>),
    Absent,
}

impl HashSpec {
    pub fn bytes(&self) -> Option<Vec<u8>> {
        match self {
            HashSpec::Cid(c) => Some(c.bytes()),
            HashSpec::Bad(b) => Some(b.clone()),
            HashSpec::Absent => None,
        }
    }
    pub fn valid(&self) -> bool {
        matches!(self, HashSpec::Cid(_))
    }
}

/// Byte strings which are no CID.
pub fn bad_hash() -> BoxedStrategy<HashSpec> {
    prop_oneof![
        1 => Just(HashSpec::Absent),
        1 => Just(HashSpec::Bad(vec![])),
        2 => prop::sample::select(vec![
            vec![0u8], vec![0x12], vec![0x12, 0x20], vec![0x12, 0x20, 1, 2, 3], vec![1], vec![1, 0x70], vec![1, 0x70, 0x12],
            vec![1, 0x70, 0x12, 0x20], vec![1, 0x70, 0x12, 0x20, 0xff], vec![2, 0x70, 0x12, 0], vec![0xff; 12], vec![9, 9, 9],
            vec![1, 0x70, 0x12, 0xff, 0xff, 0xff, 0xff, 0x0f], vec![0x80; 11], vec![1, 0x70, 0x12, 65],
        ]).prop_map(HashSpec::Bad),
        // a digest cut short
        1 => (0usize..31, any::<bool>()).prop_map(|(n, v0)| {
            let mut b = if v0 { vec![0x12, 0x20] } else { vec![1, 0x70, 0x12, 0x20] };
            b.extend(vec![7; n]);
            HashSpec::Bad(b)
        }),
        // long ones
        1 => (prop::sample::select(vec![33usize, 60, 64, 65, 66, 100, 127, 128, 129, 255, 256, 300, 1000, 5000]), 0u8..5, any::<u8>()).prop_map(|(n, how, seed)| {
            let tail = (0..n).map(|i| (i as u8).wrapping_mul(7) ^ seed);
            let mut b = match how {
                // a digest longer than the crate's multihashes hold
                0 => vec![1, 0x70, 0x12, 0x80 | (n.max(65) % 128) as u8, (n.max(65) / 128) as u8],
                // no such version
                1 => vec![5, 0x70, 0x12, 0x20],
                2 => vec![0],
                // endless numbers
                3 => vec![0xff; 10],
                _ => vec![1, 0x70, 0x12, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01],
            };
            b.extend(tail);
            HashSpec::Bad(b)
        }),
    ]
    .boxed()
}

fn hash_spec(bad: u32) -> BoxedStrategy<HashSpec> {
    prop_oneof![20 => cid_spec().prop_map(HashSpec::Cid), bad => bad_hash()].boxed()
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct LinkSpec {
    pub hash: HashSpec,
    pub name: Option<String>,
    pub tsize: Option<u64>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Shape {
    Directory,
    /// no data field at all
    NoData,
    EmptyData,
    /// data which is no UnixFS message
    NotUnixFs(u8),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Pick {
    Entry(u16),
    /// an entry's name, changed
    Near(u16, u8),
    Other(String),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Plain {
    pub links: Vec<LinkSpec>,
    pub shape: Shape,
    pub meta: Meta,
    pub picks: Vec<Pick>,
}

pub fn pick() -> BoxedStrategy<Pick> {
    prop_oneof![
        5 => any::<u16>().prop_map(Pick::Entry),
        4 => (any::<u16>(), any::<u8>()).prop_map(|(i, k)| Pick::Near(i, k)),
        1 => Just(Pick::Other(String::new())),
        1 => prop_oneof![name(), "[0-9A-F]{2}".boxed(), "\\PC{0,8}".boxed()].prop_map(Pick::Other),
    ]
    .boxed()
}

/// `names` as they are on the links or in the directory.
pub fn needle(p: &Pick, names: &[String]) -> String {
    let get = |i: &u16| names.get(*i as usize % names.len().max(1)).cloned().unwrap_or_default();
    match p {
        Pick::Entry(i) => get(i),
        Pick::Other(s) => s.clone(),
        Pick::Near(i, k) => {
            let n = get(i);
            near(&n, &format!("{:02X}", hash_path(&n)[0]), *k)
        }
    }
}

pub struct C11;

impl Plain {
    fn block(&self) -> Vec<u8> {
        let links = self
            .links
            .iter()
            .map(|l| Link { hash: l.hash.bytes(), name: l.name.clone(), tsize: l.tsize })
            .collect();
        let data = match &self.shape {
            Shape::Directory => {
                let mut u = UData::of(pbx::DIRECTORY);
                self.meta.apply(&mut u);
                Some(u.encode())
            }
            Shape::NoData => None,
            Shape::EmptyData => Some(vec![]),
            Shape::NotUnixFs(k) => {
                let all: &[&[u8]] = &[&[0xff], &[0x08], &[0x12, 5, 1], &[0x0f, 1], &[0x80, 0x80], &[0x42, 3, 8], &[0x1a, 0xff, 1], &[0x0b, 1]];
                Some(all[*k as usize % all.len()].to_vec())
            }
        };
        Node { links, data }.encode()
    }
}

/// Gives links the name of another one, or one close to it.
fn near_links(v: &mut Vec<LinkSpec>, dup: &[(u8, u8, u8)]) {
    let n = v.len();
    for (from, to, how) in dup {
        if n > 1 {
            let from = v[*from as usize % n].clone();
            let to = &mut v[*to as usize % n];
            match how {
                0..=59 => to.name = from.name,
                60..=79 => *to = from,
                how => to.name = Some(near(&from.name.unwrap_or_default(), "A3", *how)),
            }
        }
    }
}

impl Check for C11 {
    type Case = Plain;
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "A case is a list of links (names present, empty, absent, repeated or close to each other; hashes of any CID kind, some no CID), put in a Directory, in a dag-pb node without or with empty data, or in one whose data is no UnixFS message, and names to look up: existing, slightly changed, other. The answer is compared with the list of positions whose name equals the segment. Non-trivial: at least two links, and one looked-up name is found and one is not."
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Plain> {
        let max = if tier == Tier::Quick { 14 } else { 60 };
        let link = (hash_spec(2), prop_oneof![12 => name().prop_map(Some), 1 => Just(Some(String::new())), 1 => Just(None)], prop::option::weighted(0.9, any::<u64>()))
            .prop_map(|(hash, name, tsize)| LinkSpec { hash, name, tsize });
        let shape = prop_oneof![
            4 => Just(Shape::Directory),
            2 => Just(Shape::NoData),
            1 => Just(Shape::EmptyData),
            2 => any::<u8>().prop_map(Shape::NotUnixFs),
        ];
        (
            prop_oneof![8 => prop::collection::vec(link.clone(), 0..max), 1 => prop::collection::vec(link, 100..300)],
            prop::collection::vec((any::<u8>(), any::<u8>(), any::<u8>()), 0..4),
            shape,
            meta_some(),
            prop::collection::vec(pick(), 1..12),
        )
            .prop_map(|(mut links, dup, shape, meta, picks)| {
                near_links(&mut links, &dup);
                Plain { links, shape, meta, picks }
            })
            .boxed()
    }
    fn cases(&self, tier: Tier) -> u32 {
        if tier == Tier::Quick {
            150_000
        } else {
            8_000_000
        }
    }
    fn run(&self, case: &Plain, ctx: &mut Ctx) -> Res {
        let block = case.block();
        let names: Vec<String> = case.links.iter().map(|l| l.name.clone().unwrap_or_default()).collect();
        let mut picks: Vec<Pick> = case.picks.clone();
        if names.len() <= 14 {
            picks.extend((0..names.len() as u16).map(Pick::Entry));
        }
        let (mut found, mut missing) = (0, 0);
        let mut cache = None;
        for p in &picks {
            let seg = needle(p, &names);
            let at: Vec<usize> = (0..names.len()).filter(|i| names[*i] == seg).collect();
            let r = resolve(&block, &seg, &mut cache);
            let cid = |i: usize| case.links[i].hash.bytes().filter(|_| case.links[i].hash.valid());
            let fail = |what: &str| Err(format!("looking up {:?}, at positions {:?}: {}", seg, at, what));
            match (&at[..], r) {
                ([], Ok(MaybeResolved::NotFound)) => missing += 1,
                ([], r) => return fail(&format!("{:?} instead of not found", r)),
                ([i], Ok(MaybeResolved::Found(c))) => {
                    if Some(c.to_bytes()) != cid(*i) {
                        return fail(&format!("found {}, another CID", c));
                    }
                    found += 1;
                }
                ([i], Err(ResolveError::Lookup(LookupError::InvalidCid(e)))) => {
                    if case.links[*i].hash.valid() {
                        return fail(&format!("{}", e));
                    }
                    ctx.class("the matching link has no CID");
                }
                ([_], r) => return fail(&format!("{:?}", r)),
                ([i, j, ..], Err(ResolveError::Lookup(LookupError::Multiple(m)))) => {
                    ctx.class("several matching links");
                    match m {
                        MultipleMatchingLinks::Two { first, second } => {
                            if (first.0, Some(first.1.to_bytes())) != (*i, cid(*i)) || (second.0, Some(second.1.to_bytes())) != (*j, cid(*j)) {
                                return fail(&format!("reports {:?} and {:?}", first, second));
                            }
                        }
                        MultipleMatchingLinks::OneValid { first, second } => {
                            if (first.0, Some(first.1.to_bytes())) != (*i, cid(*i)) || second.nth != *j || cid(*j).is_some() {
                                return fail(&format!("reports {:?} and invalid {:?}", first, second));
                            }
                        }
                    }
                }
                // the very first match being no CID may come first
                ([i, ..], Err(ResolveError::Lookup(LookupError::InvalidCid(_)))) if cid(*i).is_none() => {}
                (_, r) => return fail(&format!("{:?} instead of an error naming both", r)),
            }
        }
        ctx.nontrivial = case.links.len() >= 2 && found > 0 && missing > 0;
        ctx.class(match case.shape {
            Shape::Directory => "directory",
            Shape::NoData => "node without data",
            Shape::EmptyData => "node with empty data",
            Shape::NotUnixFs(_) => "node with other data",
        });
        ctx.class_if(case.links.iter().any(|l| !l.hash.valid()), "some link has no CID");
        ctx.class_if(names.iter().any(|n| !n.is_ascii()), "non-ascii names");
        ctx.class_if(names.iter().any(|n| n.is_empty()), "empty or absent names");
        Ok(())
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["A link without a name counts as one with the empty name."]
    }
}

// ---------------------------------------------------------------- C12

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum BadBucket {
    Fanout(Option<u64>),
    HashType(Option<u64>),
    FileSize,
    BlockSizes,
    Type(u8),
    NoData,
    Garbage,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Sharded {
    pub root: TNode,
    pub picks: Vec<Pick>,
    pub owned: u8,
    /// replaces the idx-th bucket, 0 is the root
    pub bad: Option<(u16, BadBucket)>,
}

fn buckets(root: &Arc<Bucket>) -> Vec<(Cidb, Arc<Bucket>)> {
    fn rec(b: &Arc<Bucket>, v: &mut Vec<(Cidb, Arc<Bucket>)>) {
        for i in &b.items {
            if let BItem::Sub(c, x) = i {
                v.push((c.clone(), x.clone()));
                rec(x, v);
            }
        }
    }
    let mut v = vec![(vec![], root.clone())];
    rec(root, &mut v);
    v
}

fn spoil(block: &[u8], how: &BadBucket) -> Vec<u8> {
    let (links, mut u) = pbx::strict(block).expect("reference block");
    match how {
        BadBucket::Fanout(f) => u.fanout = f.filter(|f| *f != 256),
        BadBucket::HashType(h) => u.hash_type = h.filter(|h| *h != 0x22),
        BadBucket::FileSize => u.filesize = Some(links.len() as u64),
        BadBucket::BlockSizes => u.blocksizes = links.iter().map(|_| 1).collect(),
        BadBucket::Type(t) => u.typ = Some([pbx::RAW, pbx::DIRECTORY, pbx::FILE, pbx::METADATA, pbx::SYMLINK][*t as usize % 5]),
        BadBucket::NoData => return Node { links, data: None }.encode(),
        BadBucket::Garbage => return vec![0x12, 0x7f, 0x0a],
    }
    Node::new(links, &u).encode()
}

fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> {
    v.sort();
    v
}

pub fn lookup_full(
    root_block: &[u8],
    seg: &str,
    store: &Store,
    owned: bool,
    cache: &mut Option<Cache>,
    mut at_pending: impl FnMut(&[Cidb]) -> Res,
    mut before: impl FnMut(&Cidb),
) -> Result<Result<Option<Cidb>, String>, String> {
    fn step<'a>(l: unixfs_v1::dir::ShardedLookup<'a>, b: &[u8], c: &mut Option<Cache>) -> Result<MaybeResolved<'a>, LookupError> {
        l.continue_walk(b, c)
    }
    let mut r = match resolve(root_block, seg, cache) {
        Ok(r) => r,
        Err(e) => return Ok(Err(format!("{} {:?}", e, e))),
    };
    let mut n = 0;
    loop {
        r = match r {
            MaybeResolved::Found(c) => return Ok(Ok(Some(c.to_bytes()))),
            MaybeResolved::NotFound => return Ok(Ok(None)),
            MaybeResolved::NeedToLoadMore(l) => {
                let pending = cids(l.pending_links());
                at_pending(&pending)?;
                let block = store.get(&pending[0]).ok_or_else(|| format!("asks for unknown block {}", pbx::hex(&pending[0])))?;
                before(&pending[0]);
                n += 1;
                if n > 100_000 {
                    return Err("lookup does not end".into());
                }
                let next = if owned {
                    // must not depend on the borrowed name any more
                    let l: unixfs_v1::dir::ShardedLookup<'static> = l.with_owned_needle();
                    if cids(l.pending_links()) != pending {
                        return Err("an owned name changes the pending links".into());
                    }
                    step(l, block, cache)
                } else {
                    step(l, block, cache)
                };
                match next {
                    Ok(r) => r,
                    Err(e) => {
                        let text = format!("{} {:?}", e, e);
                        let _ = format!("{}", e.into_resolve_error());
                        return Ok(Err(text));
                    }
                }
            }
        };
    }
}

pub struct C12;

impl Check for C12 {
    type Case = Sharded;
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "A case is a sharded directory laid out by the murmur3 prefix of its names (forced collisions, extra nesting, up to hundreds of entries), names to look up (entries, names derived from entries such as with or without the two-digit prefix, and others), and possibly one bucket replaced by something that is no supported shard. Each lookup is followed to its end against the model. Non-trivial: at least two buckets and both a present and an absent name are looked up."
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Sharded> {
        let (small, wide) = if tier == Tier::Quick { (16, 400) } else { (40, 3000) };
        let root = prop_oneof![
            10 => hamt_of(tleaf_or_dir(), small),
            1 => (20..wide as u16, any::<u32>(), prop_oneof![3 => 0u8..4, 1 => 0x81u8..0x84]).prop_map(|(n, seed, deepen)| TNode::Wide { n, hamt: true, seed, deepen }),
        ];
        let bad = prop_oneof![
            2 => prop::option::of(prop::sample::select(vec![0u64, 1, 8, 128, 255, 257, 512, 65536, u64::MAX])).prop_map(BadBucket::Fanout),
            2 => prop::option::of(prop::sample::select(vec![0u64, 0x12, 33, 35, u64::MAX])).prop_map(BadBucket::HashType),
            1 => Just(BadBucket::FileSize),
            1 => Just(BadBucket::BlockSizes),
            2 => any::<u8>().prop_map(BadBucket::Type),
            1 => Just(BadBucket::NoData),
            1 => Just(BadBucket::Garbage),
        ];
        (root, prop::collection::vec(pick(), 1..8), 0u8..4, prop_oneof![3 => Just(None), 2 => (any::<u16>(), bad).prop_map(Some)])
            .prop_map(|(root, picks, owned, bad)| Sharded { root, picks, owned, bad })
            .boxed()
    }
    fn fixed(&self, _tier: Tier) -> Vec<Sharded> {
        // more buckets known at once than one bucket can link to
        [(1200u16, 0x82u8), (2500, 0x81), (2500, 0x82), (600, 0x83)]
            .iter()
            .map(|(n, deepen)| Sharded {
                root: TNode::Wide { n: *n, hamt: true, seed: 7, deepen: *deepen },
                picks: vec![Pick::Other("absent".into()), Pick::Entry(0), Pick::Entry(n / 2), Pick::Entry(*n - 1)],
                owned: 0,
                bad: None,
            })
            .collect()
    }
    fn cases(&self, tier: Tier) -> u32 {
        if tier == Tier::Quick {
            60_000
        } else {
            3_000_000
        }
    }
    fn run(&self, case: &Sharded, ctx: &mut Ctx) -> Res {
        let mut store = Store::new();
        let model = case.root.build(&mut store);
        let bucket = match &model.kind {
            TKind::Hamt(b) => b.clone(),
            _ => return Ok(()),
        };
        let all = buckets(&bucket);
        // a block may be shared by buckets of equal content; then the model below is per CID
        let mut root_block: Vec<u8> = model.block.to_vec();
        let mut bad_cid: Option<Cidb> = None;
        let mut bad_root = false;
        if let Some((i, how)) = &case.bad {
            let i = *i as usize % all.len();
            let spoiled = spoil(&all[i].1.block, how);
            // a root which is no shard is another kind of question, not a broken shard
            let shard = matches!(how, BadBucket::Fanout(_) | BadBucket::HashType(_) | BadBucket::FileSize);
            if i == 0 && shard {
                root_block = spoiled;
                bad_root = true;
            } else if i > 0 && !(*how == BadBucket::BlockSizes && all[i].1.items.is_empty()) {
                store.insert(all[i].0.clone(), Arc::new(spoiled));
                bad_cid = Some(all[i].0.clone());
            }
        }
        let entries: BTreeMap<String, Cidb> = bucket.entries().into_iter().map(|l| (l.name, l.cid)).collect();
        let names: Vec<String> = entries.keys().cloned().collect();
        let by_cid: BTreeMap<Cidb, Arc<Bucket>> = all.iter().skip(1).cloned().collect();
        let subs = |b: &Bucket| -> Vec<Cidb> {
            b.items
                .iter()
                .filter_map(|i| match i {
                    BItem::Sub(c, _) => Some(c.clone()),
                    _ => None,
                })
                .collect()
        };
        let mut cache = None;
        let (mut present, mut absent) = (false, false);
        for (k, p) in case.picks.iter().enumerate() {
            let seg = needle(p, &names);
            let want = entries.get(&seg);
            if want.is_some() {
                present = true;
            } else {
                absent = true;
            }
            let pending_want = std::cell::RefCell::new(sorted(subs(&bucket)));
            let visited = std::cell::RefCell::new(BTreeSet::new());
            let count = std::cell::Cell::new(0);
            let got = lookup_full(
                &root_block,
                &seg,
                &store,
                (case.owned >> (k % 2)) & 1 == 1,
                &mut cache,
                |pending| {
                    if sorted(pending.to_vec()) != *pending_want.borrow() {
                        return Err(format!(
                            "looking up {:?}: {} pending links after {} buckets, {} unvisited buckets are known",
                            seg,
                            pending.len(),
                            count.get(),
                            pending_want.borrow().len()
                        ));
                    }
                    Ok(())
                },
                |next| {
                    count.set(count.get() + 1);
                    visited.borrow_mut().insert(next.clone());
                    let mut p = pending_want.borrow_mut();
                    if let Ok(i) = p.binary_search(next) {
                        p.remove(i);
                    }
                    if let Some(b) = by_cid.get(next) {
                        p.extend(subs(b));
                        p.sort();
                    }
                },
            )?;
            let met_bad = bad_root || bad_cid.as_ref().map(|c| visited.borrow().contains(c)).unwrap_or(false);
            match got {
                Ok(Some(c)) => match want {
                    Some(w) if *w == c && !met_bad => {}
                    Some(w) if *w == c => return Err(format!("looking up {:?}: goes on after an unsupported bucket", seg)),
                    Some(_) => return Err(format!("looking up {:?}: found another entry's CID {}", seg, pbx::hex(&c))),
                    None => return Err(format!("looking up {:?}, which is not there: found {}", seg, pbx::hex(&c))),
                },
                Ok(None) => {
                    if met_bad {
                        return Err(format!("looking up {:?}: not found, despite an unsupported bucket", seg));
                    }
                    if want.is_some() {
                        return Err(format!("looking up {:?}: not found after {} buckets", seg, count.get()));
                    }
                    if count.get() + 1 != all.len() {
                        return Err(format!("looking up {:?}: not found after {} of {} buckets", seg, count.get() + 1, all.len()));
                    }
                }
                Err(e) => {
                    if !met_bad {
                        return Err(format!("looking up {:?}: {}", seg, e));
                    }
                    ctx.class("unsupported bucket reached");
                }
            }
        }
        ctx.nontrivial = all.len() >= 2 && present && absent;
        ctx.class_if(all.len() == 1, "a single bucket");
        ctx.class_if(bucket.depth() >= 2, "three levels of buckets");
        ctx.class_if(bucket.depth() >= 4, "five levels of buckets or more");
        ctx.class_if(all.len() >= 20, "twenty buckets or more");
        ctx.class_if(entries.is_empty(), "empty directory");
        ctx.class_if(names.iter().any(|n| !n.is_ascii()), "non-ascii names");
        ctx.class_if(names.iter().any(|n| n.len() <= 2), "names of up to two bytes");
        ctx.class_if(case.owned != 0, "owned name");
        Ok(())
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["Shards have the supported shape: fanout 256, two-digit prefixes. The order in which buckets are searched is not fixed by this check, only that the pending ones are exactly the known unvisited ones."]
    }
}

fn tleaf_or_dir() -> BoxedStrategy<TNode> {
    prop_oneof![
        6 => tleaf(),
        1 => dir_of(tleaf(), 2),
        1 => hamt_of(tleaf(), 3),
    ]
    .boxed()
}

// ---------------------------------------------------------------- C22

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Made {
    File { content: Content, chunk: u32, bf: u16 },
    Symlink(String),
    Dir(Meta),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Tree22 {
    Model { root: TNode, style: u8 },
    /// paths put with the crate's own importers and builder
    Made(Vec<(Vec<String>, Made)>),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Agree {
    pub tree: Tree22,
    pub wrong: Vec<(u16, Pick)>,
    pub owned: bool,
}

/// Builds with the crate; gives the root, and the paths which must be there.
fn make(items: &[(Vec<String>, Made)], store: &mut Store) -> Result<(Cidb, BTreeSet<String>), String> {
    use unixfs_v1::dir::builder::{BufferingTreeBuilder, TreeOptions};
    let mut opts = TreeOptions::default();
    opts.wrap_with_directory();
    let mut b = BufferingTreeBuilder::new(opts);
    let mut paths = BTreeSet::new();
    let mut buf = Vec::new();
    for (segs, what) in items {
        let path = segs.join("/");
        let put = match what {
            Made::File { content, chunk, bf } => {
                let bytes = content.expand();
                let case = import::Import { content: content.clone(), chunk: *chunk as u64, bf: *bf as u64, pushes: vec![], defaults: false };
                let p = import::drive(&case, &bytes, &[])?;
                let (root, _) = p.blocks.last().ok_or("no blocks")?.clone();
                let mut total = 0;
                for (c, blk) in p.blocks {
                    total += blk.len() as u64;
                    store.insert(c, Arc::new(blk));
                }
                b.put_link(&path, pbx::to_cid(&root), total)
            }
            Made::Symlink(t) => {
                buf.clear();
                unixfs_v1::symlink::serialize_symlink_block(t, &mut buf);
                let c = pbx::cid_v1(&buf);
                store.insert(c.clone(), Arc::new(buf.clone()));
                b.put_link(&path, pbx::to_cid(&c), buf.len() as u64)
            }
            Made::Dir(m) => b.set_metadata(&path, crate::builder::real_meta(m)),
        };
        if put.is_ok() {
            for i in 1..=segs.len() {
                paths.insert(segs[..i].join("/"));
            }
        }
    }
    let mut root = None;
    for n in b.build() {
        let n = n.map_err(|e| e.to_string())?;
        store.insert(n.cid.to_bytes(), Arc::new(n.block.to_vec()));
        root = Some(n.cid.to_bytes());
    }
    Ok((root.ok_or("no root")?, paths))
}

pub struct C22;

/// Resolves all segments. `Ok(None)`: not found; `Err(e)` in the inner result: an error.
pub fn resolve_path(root: &Cidb, segs: &[&str], store: &Store, owned: bool, cache: &mut Option<Cache>) -> Result<Result<Option<Cidb>, String>, String> {
    let mut at = root.clone();
    for s in segs {
        let block = store.get(&at).ok_or_else(|| format!("unknown block {}", pbx::hex(&at)))?.clone();
        match lookup_full(&block, s, store, owned, cache, |_| Ok(()), |_| ())? {
            Ok(Some(c)) => at = c,
            other => return Ok(other),
        }
    }
    Ok(Ok(Some(at)))
}

impl Check for C22 {
    type Case = Agree;
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> &'static str {
        "A case is a tree, either generated (plain and sharded directories, files, symlinks) or made with the crate's file adder, symlink encoder and directory builder, and changed paths. The crate walks the tree; then every reported path is resolved segment by segment, and so are paths which were not reported. Non-trivial: at least three paths, one of them two segments deep."
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Agree> {
        let (d, s) = if tier == Tier::Quick { (4, 30) } else { (6, 80) };
        let model = (ttree(d, s), 0u8..4).prop_map(|(root, style)| Tree22::Model { root, style });
        let what = prop_oneof![
            5 => (content(small_len()), 1u32..60, 2u16..6).prop_map(|(content, chunk, bf)| Made::File { content, chunk, bf }),
            1 => symlink_target().prop_map(Made::Symlink),
            1 => meta_some().prop_map(Made::Dir),
        ];
        let made = prop::collection::vec((prop::collection::vec(name(), 1..5), what), 1..14).prop_map(Tree22::Made);
        (prop_oneof![3 => model, 2 => made], prop::collection::vec((any::<u16>(), pick()), 0..8), any::<bool>())
            .prop_map(|(tree, wrong, owned)| Agree { tree, wrong, owned })
            .boxed()
    }
    fn fixed(&self, _tier: Tier) -> Vec<Agree> {
        let small = |n: &TNode| match n {
            TNode::Wide { n, .. } => *n < 1000,
            TNode::Chain { depth, .. } => *depth < 200,
            _ => true,
        };
        big_trees()
            .into_iter()
            .filter(small)
            .map(|root| Agree { tree: Tree22::Model { root, style: 1 }, wrong: vec![], owned: false })
            .collect()
    }
    fn cases(&self, tier: Tier) -> u32 {
        if tier == Tier::Quick {
            40_000
        } else {
            2_000_000
        }
    }
    fn run(&self, case: &Agree, ctx: &mut Ctx) -> Res {
        let mut store = Store::new();
        let (root, must) = match &case.tree {
            Tree22::Model { root, style } => {
                let m = root.build(&mut store);
                let c = pbx::cid_style(*style, &m.block);
                store.insert(c.clone(), m.block.clone());
                (c, None)
            }
            Tree22::Made(items) => {
                let (c, p) = make(items, &mut store)?;
                (c, Some(p))
            }
        };
        let steps = dtree::walk(&root, "", &store, &mut None, 1_000_000).map_err(|(s, e)| format!("walk, after {} blocks: {}", s.len(), e))?;
        let mut paths: BTreeMap<String, (Cidb, bool)> = BTreeMap::new();
        for s in &steps {
            let dir = match &s.ev {
                Ev::Bucket => continue,
                Ev::File { first: false, .. } => continue,
                Ev::Dir | Ev::RootDir => true,
                _ => false,
            };
            if let Some((c, _)) = paths.insert(s.path.clone(), (s.cid.clone(), dir)) {
                if c != s.cid {
                    return Err(format!("the walk reports {:?} twice", s.path));
                }
            }
        }
        if let Some(must) = &must {
            for p in must {
                if !paths.contains_key(p) {
                    return Err(format!("{:?} was put in the tree but the walk does not report it", p));
                }
            }
            for p in paths.keys() {
                if !p.is_empty() && !must.contains(p) {
                    return Err(format!("the walk reports {:?} which was not put in the tree", p));
                }
            }
        }
        let mut cache = None;
        let split = |p: &str| -> Vec<String> {
            if p.is_empty() {
                vec![]
            } else {
                p.split('/').map(str::to_string).collect()
            }
        };
        // long chains of wide directories: every path of the small trees, some of the large ones
        let stride = paths.len() / 80 + 1;
        for (i, (p, (cid, _))) in paths.iter().enumerate() {
            if i % stride != 0 {
                continue;
            }
            let segs = split(p);
            let segs: Vec<&str> = segs.iter().map(|s| s.as_str()).collect();
            match resolve_path(&root, &segs, &store, case.owned, &mut cache)? {
                Ok(Some(c)) if c == *cid => {}
                Ok(Some(c)) => return Err(format!("{:?} resolves to {}, the walk reports {}", p, pbx::hex(&c), pbx::hex(cid))),
                Ok(None) => return Err(format!("{:?} is not found, the walk reports it", p)),
                Err(e) => return Err(format!("{:?} fails to resolve: {}", p, e)),
            }
        }
        let list: Vec<(&String, &(Cidb, bool))> = paths.iter().collect();
        let mut absent = 0;
        for (i, pk) in &case.wrong {
            let (base, (_, dir)) = list[*i as usize % list.len()];
            let mut below: Vec<String> = list
                .iter()
                .filter(|(p, _)| p.len() > base.len() && p.starts_with(base.as_str()))
                .filter_map(|(p, _)| {
                    let rest = if base.is_empty() { p.as_str() } else { p[base.len()..].strip_prefix('/')? };
                    if rest.contains('/') {
                        None
                    } else {
                        Some(rest.to_string())
                    }
                })
                .collect();
            below.sort();
            let seg = needle(pk, &below);
            let is_there = below.contains(&seg);
            let mut segs = split(base);
            segs.push(seg);
            let segs: Vec<&str> = segs.iter().map(|s| s.as_str()).collect();
            let r = resolve_path(&root, &segs, &store, case.owned, &mut cache)?;
            match (&r, dir) {
                (Ok(Some(_)), true) if is_there => {}
                (Ok(None), true) if !is_there => absent += 1,
                (Err(e), false) if e.contains("UnexpectedType") => absent += 1,
                (Ok(None), false) => absent += 1,
                _ => return Err(format!("resolving {:?}, {} in the tree: {:?}", segs, if is_there { "which is" } else { "which is not" }, r)),
            }
        }
        ctx.nontrivial = paths.len() >= 3 && paths.keys().any(|p| p.contains('/'));
        ctx.class(match case.tree {
            Tree22::Model { .. } => "generated tree",
            Tree22::Made(_) => "made with the crate",
        });
        ctx.class_if(absent > 0, "paths which are not there");
        ctx.class_if(steps.iter().any(|s| s.ev == Ev::Bucket), "shards of several buckets");
        ctx.class_if(paths.len() >= 30, "thirty paths or more");
        ctx.class_if(paths.keys().any(|p| p.matches('/').count() >= 4), "five segments or more");
        Ok(())
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["Resolving below a file or symlink is answered with the error for an unexpected type (or not found)."]
    }
}
