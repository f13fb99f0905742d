//! C29: the example programs, run as processes over a block store on disk.

use crate::dtree::*;
use crate::ftree::*;
use crate::gen::*;
use crate::import;
use crate::pbx;
use crate::runner::*;
use crate::walkc::{self, Built, Walked, World};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

/// What is wrong with the block store.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Lack {
    Nothing,
    /// this one of the blocks is not there
    Gone(u16),
    /// this one of the blocks is not a node
    Broken(u16),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Run {
    Get(Lack),
    Cat(u8, Lack),
    /// spelling: bit 0 with "/ipfs/", 1 doubled slashes, 2 a slash at the end, 3 another base
    Resolve { which: u16, absent: Option<Absent>, spelling: u8, lack: Lack },
    Add(Content),
}

/// A name which is not there.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Absent {
    Name(String),
    /// that of an entry of some other directory
    Elsewhere(u16),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Programs {
    pub tree: Walked,
    pub runs: Vec<Run>,
}

/// A block store in the layout of go-ipfs: base32 upper case, sharded by the next to last two.
/// Each thread has one directory, in memory if possible; the blocks are those of one case.
struct Disk {
    home: Rc<Home>,
    files: RefCell<BTreeSet<PathBuf>>,
}

struct Home(PathBuf);

impl Drop for Home {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

thread_local! {
    static HOME: Rc<Home> = {
        static COUNT: AtomicU64 = AtomicU64::new(0);
        let n = COUNT.fetch_add(1, Ordering::Relaxed);
        let name = format!("verif-store-{}-{}", std::process::id(), n);
        let near = out_dir().join("out");
        let made = [Path::new("/dev/shm"), &near].iter().map(|d| d.join(&name)).find(|d| std::fs::create_dir_all(d).is_ok());
        Rc::new(Home(made.unwrap_or_else(|| {
            eprintln!("cannot create a directory for blocks");
            std::process::exit(3);
        })))
    };
}

/// Removes what this process, or one which is no more, left behind.
pub fn clean() {
    for d in [PathBuf::from("/dev/shm"), out_dir().join("out")] {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let name = e.file_name().to_string_lossy().into_owned();
            let pid = name.strip_prefix("verif-store-").and_then(|n| n.split('-').next()).map(str::to_string);
            if pid.is_some_and(|p| p == std::process::id().to_string() || !Path::new("/proc").join(p).exists()) {
                let _ = std::fs::remove_dir_all(e.path());
            }
        }
    }
}

impl Disk {
    fn new(store: &Store) -> Disk {
        let d = Disk { home: HOME.with(|h| h.clone()), files: Default::default() };
        for (c, b) in store {
            d.put(c, b);
        }
        d
    }
    fn path(&self, cid: &[u8]) -> PathBuf {
        const LETTERS: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567";
        let mut s = String::new();
        let (mut acc, mut bits) = (0u32, 0);
        for b in cid {
            acc = acc << 8 | *b as u32;
            bits += 8;
            while bits >= 5 {
                bits -= 5;
                s.push(LETTERS[(acc >> bits & 31) as usize] as char);
            }
            acc &= (1 << bits) - 1;
        }
        if bits > 0 {
            s.push(LETTERS[(acc << (5 - bits) & 31) as usize] as char);
        }
        let dir = s[s.len() - 3..s.len() - 1].to_string();
        self.home.0.join("blocks").join(dir).join(format!("{}.data", s))
    }
    fn put(&self, cid: &[u8], block: &[u8]) {
        let p = self.path(cid);
        // a failure here is not one of the code under test
        let r = std::fs::write(&p, block).or_else(|_| {
            std::fs::create_dir_all(p.parent().unwrap())?;
            std::fs::write(&p, block)
        });
        if let Err(e) = r {
            eprintln!("cannot write {}: {}", p.display(), e);
            std::process::exit(3);
        }
        self.files.borrow_mut().insert(p);
    }
    fn lack(&self, lack: &Lack, order: &[Cidb]) -> Option<Cidb> {
        let pick = |n: &u16| order.get(*n as usize % order.len().max(1)).cloned();
        match lack {
            Lack::Nothing => None,
            Lack::Gone(n) => {
                let c = pick(n)?;
                let _ = std::fs::remove_file(self.path(&c));
                Some(c)
            }
            Lack::Broken(n) => {
                let c = pick(n)?;
                self.put(&c, &[0x12, 0xff]);
                Some(c)
            }
        }
    }
}

impl Drop for Disk {
    fn drop(&mut self) {
        for p in self.files.borrow().iter() {
            let _ = std::fs::remove_file(p);
        }
    }
}

struct Out {
    code: Option<i32>,
    out: Vec<u8>,
    err: String,
}

fn run(disk: &Disk, name: &str, arg: Option<&str>, input: &[u8]) -> Out {
    let path = std::env::current_exe().expect("own path").with_file_name(format!("program-{}", name));
    let mut c = Command::new(&path);
    c.args(arg).env_clear().env("IPFS_PATH", &disk.home.0);
    c.stdin(if name == "add" { Stdio::piped() } else { Stdio::null() });
    c.stdout(Stdio::piped()).stderr(Stdio::piped());
    let r = c.spawn().and_then(|mut p| {
        if let Some(mut i) = p.stdin.take() {
            // it says little before it has read everything
            let _ = i.write_all(input);
        }
        let (mut err, mut out) = (p.stderr.take().expect("piped"), p.stdout.take().expect("piped"));
        // what goes on for ever is cut
        let read = |r: &mut dyn Read| {
            let mut v = Vec::new();
            r.take(LIMIT).read_to_end(&mut v).map(|_| v)
        };
        let (out, err) = std::thread::scope(|s| {
            let e = s.spawn(move || read(&mut err));
            let o = read(&mut out);
            drop(out);
            (o, e.join().expect("reads"))
        });
        let (out, err) = (out?, err?);
        if out.len() as u64 == LIMIT || err.len() as u64 == LIMIT {
            let _ = p.kill();
            p.wait()?;
            return Ok(Out { code: None, out, err: "output without end".into() });
        }
        use std::os::unix::process::ExitStatusExt;
        let status = p.wait()?;
        if status.signal() == Some(9) {
            eprintln!("{} was ended from the outside", path.display());
            std::process::exit(4);
        }
        Ok(Out { code: status.code(), out, err: String::from_utf8_lossy(&err).into_owned() })
    });
    r.unwrap_or_else(|e| {
        eprintln!("cannot run {}: {}", path.display(), e);
        std::process::exit(3);
    })
}

const LIMIT: u64 = 64 << 20;

/// How a program has to end.
fn ending(o: &Out, lack: &Lack, met: bool) -> Res {
    let want = if met { 1 } else { 0 };
    if o.code != Some(want) {
        return Err(format!("ends with {:?} instead of {}: {}", o.code, want, clip(&o.err, 400)));
    }
    match lack {
        Lack::Gone(_) if met && !o.err.contains("ipfs does not have the block") => {
            Err(format!("a missing block is reported as {}", clip(&o.err, 400)))
        }
        Lack::Broken(_) if met && !o.err.contains("Failed to walk") => {
            Err(format!("a broken block is reported as {}", clip(&o.err, 400)))
        }
        _ => Ok(()),
    }
}

fn lines(want: &[WStep]) -> String {
    let mut s = String::new();
    for w in want {
        let (mode, mtime) = w.meta.unwrap_or_default();
        let (seconds, _) = mtime.unwrap_or((0, 0));
        let path = Path::new(&w.path);
        let mode = |other| mode.unwrap_or(other) & 0o7777;
        match &w.ev {
            Ev::Bucket | Ev::File { last: false, .. } => {}
            Ev::File { size, .. } => {
                s += &format!("f {:o} {:>12} {:>16} {:?}\n", mode(0o644), seconds, size, path)
            }
            Ev::Dir | Ev::RootDir => s += &format!("d {:o} {:>12} {:>16} {:?}\n", mode(0o755), seconds, "-", path),
            Ev::Symlink(t) => {
                let t = String::from_utf8_lossy(t).into_owned();
                s += &format!("s {:o} {:>12} {:>16} {:?} -> {:?}\n", mode(0o755), seconds, "-", path, Path::new(&t))
            }
        }
    }
    s
}

fn parts(f: &Arc<FModel>, cid: Cidb, out: &mut Vec<(Cidb, Arc<FModel>)>) {
    out.push((cid, f.clone()));
    for (c, k) in &f.kids {
        parts(k, c.clone(), out);
    }
}

fn same(got: &[u8], want: &[u8]) -> Res {
    if got != want {
        let n = got.iter().zip(want).take_while(|(a, b)| a == b).count();
        let from = n.saturating_sub(20);
        let near = |b: &[u8]| String::from_utf8_lossy(&b[from.min(b.len())..b.len().min(n + 60)]).into_owned();
        return Err(format!(
            "output of {} bytes instead of {}, differs at {}: {:?} instead of {:?}",
            got.len(),
            want.len(),
            n,
            near(got),
            near(want)
        ));
    }
    Ok(())
}

fn get(disk: &Disk, b: &Built, want: &[WStep], lack: &Lack) -> Res {
    let order: Vec<Cidb> = want.iter().map(|w| w.pending[0].clone()).collect();
    let bad = disk.lack(lack, &order);
    let upto = order.iter().position(|c| Some(c) == bad.as_ref()).unwrap_or(order.len());
    let o = run(disk, "get", Some(&pbx::to_cid(&b.cid).to_string()), &[]);
    if let Some(c) = &bad {
        disk.put(c, &b.store[c]);
    }
    same(&o.out, lines(&want[..upto]).as_bytes())?;
    ending(&o, lack, bad.is_some())
}

fn cat(disk: &Disk, b: &Built, f: &Arc<FModel>, lack: &Lack) -> Res {
    let root = pbx::cid_v1(&f.block);
    disk.put(&root, &f.block);
    let mut all = Vec::new();
    parts(f, root.clone(), &mut all);
    let order: Vec<Cidb> = all.iter().map(|p| p.0.clone()).collect();
    let bad = disk.lack(lack, &order);
    let upto = order.iter().position(|c| Some(c) == bad.as_ref()).unwrap_or(order.len());
    let o = run(disk, "cat", Some(&pbx::to_cid(&root).to_string()), &[]);
    if let Some(c) = bad.as_ref().filter(|c| b.store.contains_key(*c)) {
        disk.put(c, &b.store[c]);
    }
    let content: Vec<u8> = all[..upto].iter().flat_map(|p| p.1.content.iter().copied()).collect();
    same(&o.out, &content)?;
    ending(&o, lack, bad.is_some())?;
    if bad.is_none() {
        let total: usize = all.iter().map(|p| p.1.block.len()).sum();
        let want = format!("Content bytes: {}\nTotal bytes:   {}\n", content.len(), total);
        if o.err != want {
            return Err(format!("reports {:?} instead of {:?}", o.err, want));
        }
    }
    Ok(())
}

/// The entries below a node with the names which lead there, as far as they can be arguments.
fn places(n: &Arc<TModel>, cid: &Cidb, names: &mut Vec<String>, out: &mut Vec<(Vec<String>, Cidb, Arc<TModel>)>) {
    out.push((names.clone(), cid.clone(), n.clone()));
    for l in n.entries() {
        if !l.name.contains(['\0', '/']) && out.len() < 2000 {
            names.push(l.name.clone());
            places(&l.node, &l.cid, names, out);
            names.pop();
        }
    }
}

fn resolve(disk: &Disk, b: &Built, which: u16, absent: &Option<Absent>, spelling: u8, lack: &Lack, ctx: &mut Ctx) -> Res {
    let mut all = Vec::new();
    places(&b.model, &b.cid, &mut Vec::new(), &mut all);
    let (mut names, cid, node) = if spelling & 16 > 0 {
        // one of the deeper ones
        let most = all.iter().map(|a| a.0.len()).max().unwrap_or(0) as u16;
        let deep: Vec<_> = all.iter().filter(|a| a.0.len() as u16 >= most - which % (most / 2 + 1)).collect();
        deep[which as usize / 7 % deep.len()].clone()
    } else {
        all[which as usize % all.len()].clone()
    };
    let absent = match absent {
        Some(Absent::Name(n)) => Some(n.clone()),
        Some(Absent::Elsewhere(i)) => all[*i as usize % all.len()].0.last().cloned(),
        None => None,
    };
    let absent = absent.filter(|a| !a.contains(['\0', '/']) && !a.is_empty());
    let absent = absent.filter(|a| node.entries().iter().all(|e| e.name != *a));
    let into_file = absent.is_some() && !node.is_dir();
    names.extend(absent.clone());
    let root = pbx::to_cid(&b.cid);
    let mut arg = root.to_string();
    if spelling & 8 > 0 && root.version() == libipld::cid::Version::V1 {
        arg = root.to_string_of_base(libipld::multibase::Base::Base58Btc).expect("base");
    }
    for n in &names {
        arg += if spelling & 2 > 0 { "//" } else { "/" };
        arg += n;
    }
    if spelling & 4 > 0 {
        arg.push('/');
    }
    // the short form has no room for this
    if spelling & 1 > 0 || arg.contains("/ipfs/") {
        arg = format!("/ipfs/{}", arg);
    }
    // longer arguments are not possible
    if arg.len() > 100_000 {
        ctx.class("resolve: too long for an argument");
        return Ok(());
    }
    // the directories on the way
    let mut way: Vec<Cidb> = Vec::new();
    for n in 0..names.len() {
        let c = all.iter().find(|(p, ..)| p[..] == names[..n]).map(|(_, c, _)| c.clone());
        way.push(c.ok_or("no such place")?);
    }
    let bad = if into_file { None } else { disk.lack(lack, &way) };
    let o = run(disk, "resolve", Some(&arg), &[]);
    if let Some(c) = &bad {
        disk.put(c, &b.store[c]);
    }
    let text = String::from_utf8_lossy(&o.out);
    let last = text.lines().last().unwrap_or("");
    let found = last.parse::<libipld::Cid>().is_ok();
    if bad.is_some() || into_file {
        if found {
            return Err(format!("{:?} is found: {}", arg, last));
        }
        let l = if into_file { &Lack::Broken(0) } else { lack };
        return ending(&o, l, true).map_err(|e| format!("{:?} {}", arg, e));
    }
    ending(&o, &Lack::Nothing, false).map_err(|e| format!("{:?} {}", arg, e))?;
    let want = pbx::to_cid(&cid).to_string();
    match absent {
        None if last != want => Err(format!("{:?} gives {:?} instead of {}: {}", arg, last, want, clip(&o.err, 300))),
        Some(_) if found || o.err.lines().last() != Some("not found") => {
            Err(format!("{:?} which is not there gives {:?}: {}", arg, last, clip(&o.err, 300)))
        }
        absent => {
            ctx.class_if(absent.is_some(), "resolve: not there");
            ctx.class_if(absent.is_none() && names.len() > 1, "resolve: several segments");
            Ok(())
        }
    }
}

fn add(disk: &Disk, content: &Content) -> Res {
    let bytes = content.expand();
    let want = import::layout(&bytes, 256 * 1024, 174);
    let blocks = want.leaves.iter().chain(&want.inner);
    let (n, sum) = blocks.fold((0, 0), |(n, s), (_, b)| (n + 1, s + b.len()));
    let o = run(disk, "add", None, &bytes);
    ending(&o, &Lack::Nothing, false)?;
    let cid = pbx::to_cid(&want.root).to_string();
    let line = format!("{} blocks, {} block bytes, {} or {}", n, sum, cid, cid);
    if !o.err.lines().any(|l| l == line) {
        return Err(format!("{} bytes: {:?} does not say {:?}", bytes.len(), clip(&o.err, 600), line));
    }
    let read = format!("(read {} bytes)", bytes.len());
    if !o.err.contains(&read) {
        return Err(format!("{} bytes: {:?} does not say {:?}", bytes.len(), clip(&o.err, 600), read));
    }
    Ok(())
}

fn absent() -> BoxedStrategy<Absent> {
    prop_oneof![1 => name().prop_map(Absent::Name), 3 => any::<u16>().prop_map(Absent::Elsewhere)].boxed()
}

fn lack() -> BoxedStrategy<Lack> {
    prop_oneof![
        4 => Just(Lack::Nothing),
        1 => any::<u16>().prop_map(Lack::Gone),
        1 => any::<u16>().prop_map(Lack::Broken),
    ]
    .boxed()
}

pub struct C29;

impl Check for C29 {
    type Case = Programs;
    fn id(&self) -> &'static str {
        "C29"
    }
    fn rule(&self) -> &'static str {
        "A case is a tree, written as a block store into a directory of its own, and one to four runs of the example \
         programs on it: get on the root, cat on a file, resolve with a path which is there or not in one of its \
         spellings, add with content on its input; some with a block missing or broken. Outputs and exit codes are \
         compared with the model's. Non-trivial: a program had to read two blocks or more, or the input of add is \
         not empty."
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 30_000,
            Tier::Thorough => 1_000_000,
        }
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Programs> {
        let content = |len: BoxedStrategy<u32>| (len, any::<u32>(), 0u8..4).prop_map(|(len, seed, kind)| Content { len, seed, kind });
        let len = prop_oneof![
            20 => 0u32..3000,
            2 => (0u32..4, -2i64..3).prop_map(|(n, d)| (n as i64 * 262_144 + d).max(0) as u32),
            1 => 0u32..1_500_000,
        ];
        let one = prop_oneof![
            3 => lack().prop_map(Run::Get),
            3 => (any::<u8>(), lack()).prop_map(|(f, l)| Run::Cat(f, l)),
            5 => (any::<u16>(), prop::option::weighted(0.4, absent()), any::<u8>(), lack())
                .prop_map(|(which, absent, spelling, lack)| Run::Resolve { which, absent, spelling, lack }),
            1 => content(len.boxed()).prop_map(Run::Add),
        ];
        (walkc::walked(tier), prop::collection::vec(one, 1..=5))
            .prop_map(|(mut tree, runs)| {
                // as the programs have it
                tree.name = String::new();
                Programs { tree, runs }
            })
            .boxed()
    }
    fn fixed(&self, _tier: Tier) -> Vec<Programs> {
        let tree = || Walked {
            root: TNode::Symlink { target: "x".into(), meta: Meta::default() },
            name: String::new(),
            style: 0,
            cache: false,
        };
        let with = |len| Programs { tree: tree(), runs: vec![Run::Add(Content { len, seed: len, kind: 0 })] };
        let mut v: Vec<Programs> = [0, 1, 262_143, 262_144, 262_145].into_iter().map(with).collect();
        // the second level of links
        v.push(with(174 * 262_144));
        v.push(with(174 * 262_144 + 1));
        v.push(with((2 * 174 + 1) * 262_144 + 3));
        v
    }
    fn run(&self, case: &Programs, ctx: &mut Ctx) -> Res {
        let b = case.tree.build();
        let w = World::new(&b);
        let disk = Disk::new(&b.store);
        for (i, r) in case.runs.iter().enumerate() {
            let tell = |e: String| format!("run {}: {}: {}", i, clip(&format!("{:?}", r), 200), e);
            match r {
                Run::Get(lack) => {
                    get(&disk, &b, &b.want, lack).map_err(tell)?;
                    ctx.nontrivial |= b.want.len() > 1;
                    ctx.class("get");
                    ctx.class_if(*lack != Lack::Nothing, "get: a block missing or broken");
                }
                Run::Cat(src, lack) => {
                    if let Some(f) = w.file(*src) {
                        cat(&disk, &b, &f, lack).map_err(tell)?;
                        ctx.nontrivial |= !f.is_leaf();
                        ctx.class("cat");
                        ctx.class_if(*lack != Lack::Nothing, "cat: a block missing or broken");
                    }
                }
                Run::Resolve { which, absent, spelling, lack } => {
                    resolve(&disk, &b, *which, absent, *spelling, lack, ctx).map_err(tell)?;
                    ctx.nontrivial |= b.model.is_dir();
                    ctx.class("resolve");
                }
                Run::Add(c) => {
                    add(&disk, c).map_err(tell)?;
                    ctx.nontrivial |= c.len > 0;
                    ctx.class("add");
                }
            }
        }
        Ok(())
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "the programs are built from /repo/examples with the settings of the harness",
            "symlink targets are UTF-8 (get prints nothing else), names in paths have no NUL; what resolve writes \
             before its last line, and the times of add, are not judged",
            "a path through a file is an error (the file is not a directory)",
        ]
    }
}
