//! C25: looking at values while they are in use.

use crate::builder::{self, *};
use crate::faults::{self, Broken};
use crate::ftree::Cidb;
use crate::import::{self, Import};
use crate::runner::*;
use crate::walkc::{self, Act, Caches, World};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::{self, Debug, Write};
use unixfs_v1::dir::builder::BufferingTreeBuilder;
use unixfs_v1::file::adder::FileAdder;

/// How values are looked at; nothing is, by default.
#[derive(Debug, Clone, Copy, PartialEq, Default)]
pub struct Eye {
    pub open: bool,
    /// only at steps with a bit here
    pub when: u64,
    /// how much the writers take before they fail
    pub room: usize,
}

struct Narrow(usize);

impl Write for Narrow {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 = self.0.checked_sub(s.len()).ok_or(fmt::Error)?;
        Ok(())
    }
}

struct Count(usize);

impl Write for Count {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

thread_local! {
    static CURRENT: std::cell::Cell<Eye> = const { std::cell::Cell::new(Eye { open: false, when: 0, room: 0 }) };
}

/// The eye the drivers shared by the checks look with.
pub fn current() -> Eye {
    CURRENT.with(|c| c.get())
}

struct Shut;

impl Drop for Shut {
    fn drop(&mut self) {
        CURRENT.with(|c| c.set(Eye::default()));
    }
}

impl Eye {
    /// Runs something with the shared drivers looking.
    pub fn during<T>(self, f: impl FnOnce() -> T) -> T {
        let _shut = Shut;
        CURRENT.with(|c| c.set(self));
        f()
    }
    pub fn at(&self, step: usize) -> bool {
        self.open && self.when >> (step % 64) & 1 == 1
    }
    /// Formats the value in every way there is.
    pub fn debug(&self, step: usize, v: &dyn Debug) {
        if self.at(step) {
            let mut c = Count(0);
            write!(c, "{:?}", v).expect("this writer does not fail");
            write!(c, "{:#?}", v).expect("this writer does not fail");
            assert!(c.0 > 0, "formats as nothing");
            let _ = write!(Narrow(self.room), "{:?}", v);
            let _ = write!(Narrow(self.room), "{:#?}", v);
        }
    }
    pub fn error<E: std::error::Error>(&self, step: usize, e: &E) {
        if self.at(step) {
            self.debug(step, e);
            let mut c = Count(0);
            write!(c, "{}", e).expect("this writer does not fail");
            assert!(c.0 > 0, "displays as nothing");
            let _ = write!(Narrow(self.room), "{}", e);
            let mut s = e.source();
            while let Some(e) = s {
                self.debug(step, &e);
                let _ = write!(Count(0), "{}", e);
                s = e.source();
            }
        }
    }
    /// Reads the links partly, counts them, and takes them another way.
    pub fn links<'a, I: Iterator<Item = &'a libipld::Cid>>(&self, step: usize, take: impl Fn() -> (&'a libipld::Cid, I)) {
        if !self.at(step) {
            return;
        }
        let _ = take().0;
        let all: Vec<&libipld::Cid> = take().1.collect();
        let part = self.room % (all.len() + 2);
        let mut it = take().1;
        for i in 0..=part {
            let (low, high) = it.size_hint();
            let left = all.len() - i.min(all.len());
            assert!(low <= left && high.map_or(true, |h| left <= h), "{} links left, said {:?}", left, (low, high));
            assert_eq!(it.next(), all.get(i).copied(), "another look gives another link");
        }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum What {
    Import(Import),
    Build(Build),
    Read(Caches),
    Broken(Broken),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Looked {
    pub what: What,
    pub when: u64,
    pub room: u16,
}

fn import(case: &Import, eye: Eye) -> Result<Vec<(Cidb, Vec<u8>)>, String> {
    use unixfs_v1::file::adder::{BalancedCollector, Chunker, Collector};
    let content = case.content.expand();
    if eye.at(0) {
        let bc = BalancedCollector::with_branching_factor(case.bf as usize);
        eye.debug(0, &bc);
        eye.debug(0, &bc.clone());
        eye.debug(0, &Collector::from(bc));
        eye.debug(0, &Collector::default());
        eye.debug(0, &Chunker::Size(case.chunk as usize));
        eye.debug(0, &Chunker::default());
    }
    let mut n = 0;
    let look = |a: &FileAdder| {
        if eye.at(n) {
            eye.debug(n, a);
            assert_eq!(a.size_hint(), a.size_hint());
            assert_eq!(format!("{:?}", a), format!("{:?}", a), "another look shows something else");
        }
        n += 1;
    };
    Ok(import::drive_looking(case, &content, &case.pushes, look)?.blocks)
}

#[derive(Debug, PartialEq)]
struct Trace {
    accepted: Vec<bool>,
    out: Vec<Out>,
    end: builder::End,
}

fn construct(case: &Build, eye: Eye) -> Result<Trace, String> {
    let ops = flatten(case);
    let limit = match &case.limit {
        Limit::Default => None,
        Limit::Abs(n) => Some(Some(*n)),
        // hundreds of bytes: some directories are over it
        Limit::Block(i, _) => Some(Some(*i as u64 * 3)),
        Limit::Unlimited => Some(None),
    };
    let o = options(case.wrap, limit);
    eye.debug(0, &o);
    let mut b = BufferingTreeBuilder::new(if case.perm % 2 == 0 { o } else { o.clone() });
    let mut accepted = vec![];
    let few = ops.len() < 60;
    for (i, op) in ops.iter().enumerate() {
        if few || i % 61 == 0 {
            eye.debug(i, &b);
        }
        accepted.push(match raw_op(&mut b, op) {
            Ok(()) => true,
            Err(e) => {
                eye.error(i, &e);
                false
            }
        });
    }
    eye.debug(ops.len(), &b);
    if case.deep > 0 {
        // not built, the paths of its directories would be long
        let path = vec!["a"; case.deep as usize].join("/");
        let _ = b.put_link(&path, crate::pbx::to_cid(&crate::pbx::cid_v1(b"")), 1);
        eye.debug(ops.len(), &b);
        return Ok(Trace { accepted, out: vec![], end: builder::End::Done });
    }
    let cap = ops.iter().map(|o| o.path().split('/').count()).sum::<usize>();
    let (out, end) = collect_looking(b, case.turns(), cap, eye)?;
    Ok(Trace { accepted, out, end })
}

/// Values made from a single block.
fn block(b: &[u8], n: usize, eye: Eye) -> Vec<String> {
    use std::convert::TryFrom;
    use unixfs_v1::{dagpb, FlatUnixFs, Metadata, PBNode, UnixFs};
    let mut t = vec![];
    match FlatUnixFs::try_parse(b) {
        Ok(f) => {
            eye.debug(n, &f);
            t.push(format!("{:?}", f));
        }
        Err(e) => {
            eye.debug(n, &e);
            t.push(format!("{} {:?}", e, e));
        }
    }
    match PBNode::try_from(b) {
        Ok(p) => {
            eye.debug(n, &p);
            t.push(format!("{:?}", p));
            if let Ok(u) = UnixFs::try_from(p.Data.as_deref()) {
                eye.debug(n, &u);
                let m = Metadata::from(&u);
                eye.debug(n, &m);
                t.push(format!("{:?} {:?} {:?}", u, m, m.mtime_as_filetime()));
            }
        }
        Err(e) => {
            eye.error(n, &e);
            t.push(e.to_string());
        }
    }
    match dagpb::wrap_node_data(b) {
        Ok(w) => {
            eye.debug(n, &w);
            if eye.at(n) {
                assert!(w == w.node_data());
                assert_eq!(w.get_ref().len(), b.len());
            }
            t.push(format!("{:?}", w.node_data()));
            assert_eq!(w.into_inner(), b);
        }
        Err(e) => t.push(e.to_string()),
    }
    t
}

pub struct C25;

impl Check for C25 {
    type Case = Looked;
    fn id(&self) -> &'static str {
        "C25"
    }
    fn rule(&self) -> &'static str {
        "A case is an import, a history of builder operations, or a sequence of visits, walks and lookups (some failing), run once plainly and once with its values looked at at generated moments: Debug and alternate Debug of the importer, builder, iterator, nodes, visits, lookups, walkers, what they return, caches and errors (errors also as Display, with their sources) into a writer that takes everything and into one which fails after a generated number of bytes, and every accessor called twice or its iterator left half way. Neither may panic, both must give the same. Non-trivial: at least two looks at something with state."
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Looked> {
        let what = prop_oneof![
            2 => import::strategy(Tier::Quick).prop_map(What::Import),
            3 => builder::build(30).prop_map(What::Build),
            4 => walkc::caches(tier).prop_map(What::Read),
            2 => faults::broken(faults::rule_fault(), Tier::Quick).prop_map(What::Broken),
            1 => faults::broken(faults::link_fault(), Tier::Quick).prop_map(What::Broken),
        ];
        let when = prop_oneof![2 => Just(u64::MAX), 2 => any::<u64>(), 1 => (0u32..64).prop_map(|i| 1 << i)];
        (what, when, prop_oneof![3 => 0u16..200, 1 => any::<u16>()])
            .prop_map(|(what, when, room)| Looked { what, when, room })
            .boxed()
    }
    fn fixed(&self, _tier: Tier) -> Vec<Looked> {
        let b = Build { ops: vec![], wrap: true, limit: Limit::Default, borrowed: false, perm: 0, deep: 100_000, mixed: 0 };
        vec![Looked { what: What::Build(b), when: u64::MAX, room: 20 }]
    }
    fn cases(&self, tier: Tier) -> u32 {
        if tier == Tier::Quick {
            10_000
        } else {
            900_000
        }
    }
    fn run(&self, case: &Looked, ctx: &mut Ctx) -> Res {
        let eye = Eye { open: true, when: case.when, room: case.room as usize };
        let plain = Eye::default();
        match &case.what {
            What::Import(i) => {
                ctx.class("import");
                let (a, b) = (import(i, plain)?, import(i, eye)?);
                ctx.class_if(a.iter().any(|b| crate::pbx::strict(&b.1).map_or(false, |n| !n.0.is_empty())), "import with link blocks");
                ctx.nontrivial = a.len() > 1;
                if a != b {
                    let n = a.iter().zip(&b).take_while(|(a, b)| a == b).count();
                    return Err(format!("import gives {} blocks when looked at, {} otherwise; the first {} are equal", b.len(), a.len(), n));
                }
            }
            What::Build(c) => {
                ctx.class("build");
                let (a, b) = (construct(c, plain)?, construct(c, eye)?);
                ctx.class_if(a.accepted.contains(&false), "build with rejected operations");
                ctx.class_if(a.end != builder::End::Done, "directory over the limit");
                ctx.nontrivial = a.out.len() > 1;
                if a != b {
                    return Err(format!("looking changes the built tree: {:?} with, {:?} without", b, a).chars().take(600).collect());
                }
            }
            What::Broken(b) => {
                ctx.class("broken tree");
                let mut none = Ctx::default();
                if faults::run_broken(b, &mut none).is_ok() {
                    ctx.nontrivial = none.nontrivial;
                    eye.during(|| faults::run_broken(b, &mut none)).map_err(|e| format!("when looked at: {}", e))?;
                }
            }
            What::Read(c) => {
                ctx.class("read");
                let built = c.tree.build();
                let w = World::new(&built);
                let (mut va, mut vb, mut da, mut db) = (None, None, None, None);
                let mut long = 0;
                let room = eye.room;
                for (n, b) in w.blocks().take(12).enumerate() {
                    // sometimes damaged
                    let mut b = b.to_vec();
                    if (n + room) % 4 == 0 {
                        b.truncate(room % (b.len() + 1));
                    }
                    if block(&b, n, plain) != block(&b, n, eye) {
                        return Err(format!("looking at values of block {} changes them", crate::pbx::hex(&b)));
                    }
                }
                for (i, act) in c.acts.iter().enumerate() {
                    let a = walkc::trace(&w, act, &mut va, &mut da, plain);
                    let b = walkc::trace(&w, act, &mut vb, &mut db, eye);
                    ctx.class(match act {
                        Act::Visit { .. } => "visit",
                        Act::Walk { .. } => "walk",
                        Act::Resolve { .. } => "lookup",
                        Act::Given(_) => "cache made by the caller",
                    });
                    if a != b {
                        let d = a.iter().zip(&b).take_while(|(a, b)| a == b).count();
                        let clip = |s: Option<&String>| s.map(|s| s.chars().take(300).collect::<String>());
                        return Err(format!(
                            "operation {}: differs at event {} when looked at: {:?} with, {:?} without",
                            i,
                            d,
                            clip(b.get(d)),
                            clip(a.get(d))
                        ));
                    }
                    long += (a.len() > 1) as usize;
                }
                ctx.nontrivial = long > 0;
            }
        }
        Ok(())
    }
}
