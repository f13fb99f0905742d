//! C17 (message codecs) and C20 (dag-pb data access).

use crate::gen;
use crate::pbx::{self, varint_long};
use crate::runner::{clip, Check, Ctx, Res, Tier};
use proptest::collection::vec;
use proptest::prelude::*;
use quick_protobuf::{MessageWrite, Writer};
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::convert::TryFrom;
use std::sync::Arc;
use unixfs_v1::dagpb::{node_data, wrap_node_data};
use unixfs_v1::{FlatUnixFs, PBLink, PBNode, UnixFs, UnixFsType};

// ---- wire level messages ----

/// A field which is not in the schema, or is there with another wire type.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Unknown {
    field: u32,
    wire: u8,
    num: u64,
    bytes: Vec<u8>,
}

/// How much longer than needed the varints of a field are written.
#[derive(Clone, Copy, Debug, Default, Serialize, Deserialize)]
pub struct Pad {
    tag: u8,
    len: u8,
    val: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum LinkField {
    Hash(Vec<u8>),
    Name(String),
    Tsize(u64),
    Unknown(Unknown),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum TimeField {
    Seconds(i64),
    Nanos(u32),
    Unknown(Unknown),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum DataField {
    Type(u8),
    Data(Vec<u8>),
    Filesize(u64),
    Blocksize(u64),
    Packed(Vec<(u64, u8)>),
    HashType(u64),
    Fanout(u64),
    Mode(u32),
    Mtime(Vec<(TimeField, Pad)>),
    Unknown(Unknown),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum NodeField {
    Link(Vec<(LinkField, Pad)>),
    Data(Vec<u8>),
    UnixFs(Vec<(DataField, Pad)>),
    Unknown(Unknown),
}

const NODE: &[(u32, u8)] = &[(1, 2), (2, 2)];
const LINK: &[(u32, u8)] = &[(1, 2), (2, 2), (3, 0)];
const TIME: &[(u32, u8)] = &[(1, 0), (2, 5)];
const DATA: &[(u32, u8)] = &[
    (1, 0),
    (2, 2),
    (3, 0),
    (4, 0),
    (4, 2),
    (5, 0),
    (6, 0),
    (7, 0),
    (8, 2),
];

/// A varint of at most `max` bytes.
fn padded(v: u64, extra: u8, max: usize, o: &mut Vec<u8>) {
    let n = pbx::varint_len(v);
    varint_long(v, (extra as usize).min(max.saturating_sub(n)), o)
}

fn tag(field: u32, wire: u8, p: Pad, o: &mut Vec<u8>) {
    padded((field as u64) << 3 | wire as u64, p.tag, 5, o)
}

fn uint(field: u32, v: u64, p: Pad, o: &mut Vec<u8>) {
    tag(field, 0, p, o);
    padded(v, p.val, 10, o)
}

fn bytes(field: u32, v: &[u8], p: Pad, o: &mut Vec<u8>) {
    tag(field, 2, p, o);
    padded(v.len() as u64, p.len, 5, o);
    o.extend_from_slice(v);
}

impl Unknown {
    fn put(&self, known: &[(u32, u8)], p: Pad, o: &mut Vec<u8>) {
        let wire = [0, 1, 2, 5][self.wire as usize % 4];
        let mut field = self.field.max(1) & 0x1fff_ffff;
        if field == 0 || known.contains(&(field, wire)) {
            field = field + 100;
        }
        match wire {
            0 => uint(field, self.num, p, o),
            1 => {
                tag(field, 1, p, o);
                o.extend_from_slice(&self.num.to_le_bytes())
            }
            2 => bytes(field, &self.bytes, p, o),
            _ => {
                tag(field, 5, p, o);
                o.extend_from_slice(&(self.num as u32).to_le_bytes())
            }
        }
    }
}

fn link_of(fields: &[(LinkField, Pad)], o: &mut Vec<u8>) -> pbx::Link {
    let mut l = pbx::Link::default();
    for (f, p) in fields {
        match f {
            LinkField::Hash(h) => {
                bytes(1, h, *p, o);
                l.hash = Some(h.clone())
            }
            LinkField::Name(n) => {
                bytes(2, n.as_bytes(), *p, o);
                l.name = Some(n.clone())
            }
            LinkField::Tsize(t) => {
                uint(3, *t, *p, o);
                l.tsize = Some(*t)
            }
            LinkField::Unknown(u) => u.put(LINK, *p, o),
        }
    }
    l
}

/// Writes the message and gives its value; the type is added when missing, only the first mtime
/// is written.
fn data_of(fields: &[(DataField, Pad)], o: &mut Vec<u8>) -> pbx::UData {
    let mut u = pbx::UData::default();
    for (f, p) in fields {
        match f {
            DataField::Type(t) => {
                let t = *t as u64 % 6;
                uint(1, t, *p, o);
                u.typ = Some(t)
            }
            DataField::Data(d) => {
                bytes(2, d, *p, o);
                u.data = Some(d.clone())
            }
            DataField::Filesize(v) => {
                uint(3, *v, *p, o);
                u.filesize = Some(*v)
            }
            DataField::Blocksize(v) => {
                uint(4, *v, *p, o);
                u.blocksizes.push(*v)
            }
            DataField::Packed(vs) => {
                let mut b = Vec::new();
                for (v, e) in vs {
                    padded(*v, *e, 10, &mut b);
                    u.blocksizes.push(*v)
                }
                bytes(4, &b, *p, o)
            }
            DataField::HashType(v) => {
                uint(5, *v, *p, o);
                u.hash_type = Some(*v)
            }
            DataField::Fanout(v) => {
                uint(6, *v, *p, o);
                u.fanout = Some(*v)
            }
            DataField::Mode(v) => {
                uint(7, *v as u64, *p, o);
                u.mode = Some(*v)
            }
            DataField::Mtime(ts) => {
                if u.mtime.is_some() {
                    continue;
                }
                let mut b = Vec::new();
                let (mut secs, mut nanos) = (None, None);
                for (t, p) in ts {
                    match t {
                        TimeField::Seconds(s) => {
                            uint(1, *s as u64, *p, &mut b);
                            secs = Some(*s)
                        }
                        TimeField::Nanos(n) => {
                            tag(2, 5, *p, &mut b);
                            b.extend_from_slice(&n.to_le_bytes());
                            nanos = Some(*n)
                        }
                        TimeField::Unknown(u) => u.put(TIME, *p, &mut b),
                    }
                }
                if secs.is_none() {
                    uint(1, 77, *p, &mut b);
                    secs = Some(77)
                }
                bytes(8, &b, *p, o);
                u.mtime = Some((secs.unwrap(), nanos))
            }
            DataField::Unknown(x) => x.put(DATA, *p, o),
        }
    }
    if u.typ.is_none() {
        uint(1, pbx::FILE, Pad::default(), o);
        u.typ = Some(pbx::FILE)
    }
    u
}

/// The block, the node's value and the value of its last Data field, when that is UnixFS.
fn node_of(fields: &[(NodeField, Pad)]) -> (Vec<u8>, pbx::Node, Option<pbx::UData>) {
    let mut o = Vec::new();
    let mut n = pbx::Node::default();
    let mut ud = None;
    for (f, p) in fields {
        match f {
            NodeField::Link(l) => {
                let mut b = Vec::new();
                n.links.push(link_of(l, &mut b));
                bytes(2, &b, *p, &mut o)
            }
            NodeField::Data(d) => {
                bytes(1, d, *p, &mut o);
                n.data = Some(d.clone());
                ud = None
            }
            NodeField::UnixFs(d) => {
                let mut b = Vec::new();
                ud = Some(data_of(d, &mut b));
                bytes(1, &b, *p, &mut o);
                n.data = Some(b)
            }
            NodeField::Unknown(u) => u.put(NODE, *p, &mut o),
        }
    }
    (o, n, ud)
}

// ---- lenient reader with three answers ----

#[derive(Debug, Clone, PartialEq)]
pub enum Verdict<T> {
    Valid(T),
    Invalid,
    /// the schema does not settle it
    Unsure,
}

enum Stop {
    Invalid,
    Unsure,
}

struct Rd<'a>(&'a [u8]);

impl<'a> Rd<'a> {
    fn varint(&mut self) -> Result<u64, Stop> {
        let mut v = 0u64;
        for i in 0..10 {
            let b = *self.0.first().ok_or(Stop::Invalid)?;
            self.0 = &self.0[1..];
            if i == 9 && b & 0x80 == 0 && b > 1 {
                return Err(Stop::Unsure);
            }
            if i < 9 {
                v |= ((b & 0x7f) as u64) << (7 * i);
            } else {
                v |= (b as u64 & 1) << 63;
            }
            if b & 0x80 == 0 {
                return Ok(v);
            }
        }
        Err(Stop::Invalid)
    }
    fn small(&mut self) -> Result<u64, Stop> {
        let v = self.varint()?;
        if v > u32::MAX as u64 {
            return Err(Stop::Unsure);
        }
        Ok(v)
    }
    fn take(&mut self, n: usize) -> Result<&'a [u8], Stop> {
        if n > self.0.len() {
            return Err(Stop::Invalid);
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn bytes(&mut self) -> Result<&'a [u8], Stop> {
        let n = self.small()?;
        self.take(n as usize)
    }
    fn tag(&mut self) -> Result<u64, Stop> {
        let t = self.small()?;
        if t >> 3 == 0 {
            return Err(Stop::Unsure);
        }
        Ok(t)
    }
    fn skip(&mut self, tag: u64) -> Result<(), Stop> {
        match tag & 7 {
            0 => self.varint().map(|_| ()),
            1 => self.take(8).map(|_| ()),
            2 => self.bytes().map(|_| ()),
            5 => self.take(4).map(|_| ()),
            3 => Err(Stop::Unsure),
            _ => Err(Stop::Invalid),
        }
    }
    fn more(&self) -> bool {
        !self.0.is_empty()
    }
}

fn verdict<T>(r: Result<(T, bool), Stop>) -> Verdict<T> {
    match r {
        Ok((v, true)) => Verdict::Valid(v),
        Ok((_, false)) | Err(Stop::Unsure) => Verdict::Unsure,
        Err(Stop::Invalid) => Verdict::Invalid,
    }
}

pub fn lenient_node(b: &[u8]) -> Verdict<pbx::Node> {
    fn go(b: &[u8]) -> Result<(pbx::Node, bool), Stop> {
        let mut r = Rd(b);
        let mut n = pbx::Node::default();
        while r.more() {
            match r.tag()? {
                18 => {
                    let mut lr = Rd(r.bytes()?);
                    let mut l = pbx::Link::default();
                    while lr.more() {
                        match lr.tag()? {
                            10 => l.hash = Some(lr.bytes()?.to_vec()),
                            18 => {
                                l.name = Some(
                                    String::from_utf8(lr.bytes()?.to_vec())
                                        .map_err(|_| Stop::Invalid)?,
                                )
                            }
                            24 => l.tsize = Some(lr.varint()?),
                            t => lr.skip(t)?,
                        }
                    }
                    n.links.push(l)
                }
                10 => n.data = Some(r.bytes()?.to_vec()),
                t => r.skip(t)?,
            }
        }
        Ok((n, true))
    }
    verdict(go(b))
}

pub fn lenient_data(b: &[u8]) -> Verdict<pbx::UData> {
    fn go(b: &[u8]) -> Result<(pbx::UData, bool), Stop> {
        let mut r = Rd(b);
        let mut u = pbx::UData::default();
        let mut sure = true;
        while r.more() {
            match r.tag()? {
                8 => {
                    let t = r.varint()?;
                    sure &= t <= 5;
                    u.typ = Some(t)
                }
                18 => u.data = Some(r.bytes()?.to_vec()),
                24 => u.filesize = Some(r.varint()?),
                32 => u.blocksizes.push(r.varint()?),
                34 => {
                    let mut p = Rd(r.bytes()?);
                    while p.more() {
                        u.blocksizes.push(p.varint()?)
                    }
                }
                40 => u.hash_type = Some(r.varint()?),
                48 => u.fanout = Some(r.varint()?),
                56 => {
                    let m = r.varint()?;
                    sure &= m <= u32::MAX as u64;
                    u.mode = Some(m as u32)
                }
                66 => {
                    let mut t = Rd(r.bytes()?);
                    let (mut secs, mut nanos) = (None, None);
                    while t.more() {
                        match t.tag()? {
                            8 => secs = Some(t.varint()? as i64),
                            21 => {
                                let b = t.take(4)?;
                                nanos = Some(u32::from_le_bytes([b[0], b[1], b[2], b[3]]))
                            }
                            x => t.skip(x)?,
                        }
                    }
                    sure &= secs.is_some() && u.mtime.is_none();
                    u.mtime = Some((secs.unwrap_or(0), nanos))
                }
                t => r.skip(t)?,
            }
        }
        sure &= u.typ.is_some();
        Ok((u, sure))
    }
    verdict(go(b))
}

// ---- comparisons with the crate ----

fn typ_of(t: UnixFsType) -> u64 {
    match t {
        UnixFsType::Raw => 0,
        UnixFsType::Directory => 1,
        UnixFsType::File => 2,
        UnixFsType::Metadata => 3,
        UnixFsType::Symlink => 4,
        UnixFsType::HAMTShard => 5,
    }
}

fn to_typ(t: u64) -> UnixFsType {
    [
        UnixFsType::Raw,
        UnixFsType::Directory,
        UnixFsType::File,
        UnixFsType::Metadata,
        UnixFsType::Symlink,
        UnixFsType::HAMTShard,
    ][t as usize % 6]
}

fn from_link(l: &PBLink<'_>) -> pbx::Link {
    pbx::Link {
        hash: l.Hash.as_deref().map(|h| h.to_vec()),
        name: l.Name.as_deref().map(|n| n.to_string()),
        tsize: l.Tsize,
    }
}

fn from_node(n: &PBNode<'_>) -> pbx::Node {
    pbx::Node {
        links: n.Links.iter().map(from_link).collect(),
        data: n.Data.as_deref().map(|d| d.to_vec()),
    }
}

fn from_data(u: &UnixFs<'_>) -> pbx::UData {
    pbx::UData {
        typ: Some(typ_of(u.Type)),
        data: u.Data.as_deref().map(|d| d.to_vec()),
        filesize: u.filesize,
        blocksizes: u.blocksizes.clone(),
        hash_type: u.hashType,
        fanout: u.fanout,
        mode: u.mode,
        mtime: u
            .mtime
            .as_ref()
            .map(|t| (t.Seconds, t.FractionalNanoseconds)),
    }
}

fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: &T, want: &T) -> Res {
    if got == want {
        return Ok(());
    }
    Err(format!(
        "{}: got {}, expected {}",
        what,
        clip(&format!("{:?}", got), 700),
        clip(&format!("{:?}", want), 700)
    ))
}

/// Decodes the block in every way there is; `want` says what the data is when it is settled.
fn decode_all(block: &[u8], node: &pbx::Node, want: Verdict<&pbx::UData>) -> Res {
    let n = PBNode::try_from(block).map_err(|e| format!("valid node rejected: {}", e))?;
    same("decoded node", &from_node(&n), node)?;
    decode_data(n.Data.as_deref().unwrap_or_default(), want.clone())?;
    let a = UnixFs::try_from(&n).map(|u| from_data(&u));
    let b = UnixFs::try_from(n.Data.as_deref()).map(|u| from_data(&u));
    match (a, b) {
        (Ok(a), Ok(b)) => same("data through the node", &a, &b)?,
        (Err(_), Err(_)) => {}
        (a, b) => return Err(format!("data through the node {:?}, directly {:?}", a, b)),
    }
    flat(block, node, want)
}

fn flat(block: &[u8], node: &pbx::Node, want: Verdict<&pbx::UData>) -> Res {
    let no_data = node.data.as_ref().map_or(true, |d| d.is_empty());
    for (i, r) in vec![FlatUnixFs::try_from(block), FlatUnixFs::try_parse(block)]
        .into_iter()
        .enumerate()
    {
        match (r, &want) {
            (Ok(f), _) if no_data => {
                return Err(format!("block without data decoded into {:?} ({})", f, i))
            }
            (Ok(f), w) => {
                let links: Vec<_> = f.links.iter().map(from_link).collect();
                same("links of the flat message", &links, &node.links)?;
                match w {
                    Verdict::Valid(u) => same("flat data", &from_data(&f.data), u)?,
                    Verdict::Invalid => return Err("invalid UnixFS data accepted".into()),
                    Verdict::Unsure => {}
                }
            }
            (Err(e), w) => {
                let src = std::error::Error::source(&e).is_some();
                let _ = (format!("{}", e), format!("{:?}", e));
                if no_data {
                    if src {
                        return Err(format!("missing data reported as {}", e));
                    }
                } else {
                    if let Verdict::Valid(_) = w {
                        return Err(format!("valid block rejected: {}", e));
                    }
                    if !src {
                        return Err(format!("undecodable data reported as {}", e));
                    }
                }
            }
        }
    }
    Ok(())
}

fn decode_data(b: &[u8], want: Verdict<&pbx::UData>) -> Res {
    match (UnixFs::try_from(Some(b)), want) {
        (Ok(u), Verdict::Valid(w)) => same("decoded data", &from_data(&u), w),
        (Err(e), Verdict::Valid(_)) => Err(format!("valid data rejected: {}", e)),
        (Ok(u), Verdict::Invalid) => Err(format!("invalid data accepted: {:?}", u)),
        _ => Ok(()),
    }
}

fn write<M: MessageWrite>(what: &str, m: &M, want: &[u8]) -> Res {
    let mut out = Vec::new();
    m.write_message(&mut Writer::new(&mut out))
        .map_err(|e| format!("{}: writing failed: {}", what, e))?;
    if out != want {
        return Err(format!(
            "{}: wrote {}, canonical bytes are {}",
            what,
            pbx::hex(&out),
            pbx::hex(want)
        ));
    }
    if m.get_size() != want.len() {
        return Err(format!(
            "{}: announced size {}, wrote {}",
            what,
            m.get_size(),
            want.len()
        ));
    }
    // into a slice of exactly the announced size
    let mut buf = vec![0u8; want.len() + 10];
    quick_protobuf::serialize_into_slice(m, &mut buf)
        .map_err(|e| format!("{}: writing into a slice failed: {}", what, e))?;
    let mut pre = Vec::new();
    pbx::varint(want.len() as u64, &mut pre);
    pre.extend_from_slice(want);
    if buf[..pre.len()] != pre[..] {
        return Err(format!("{}: the delimited form differs", what));
    }
    Ok(())
}

fn mk_link(l: &pbx::Link) -> PBLink<'_> {
    PBLink {
        Hash: l.hash.as_deref().map(Cow::Borrowed),
        Name: l.name.as_deref().map(Cow::Borrowed),
        Tsize: l.tsize,
    }
}

fn encode_all(links: &[pbx::Link], u: &pbx::UData, raw: &Option<Vec<u8>>) -> Res {
    // the type of the time is not nameable: it is taken from a decoded message
    let mut timed = Vec::new();
    if let Some(t) = u.mtime {
        pbx::put_uint(1, 0, &mut timed);
        pbx::put_bytes(8, &pbx::encode_mtime(t), &mut timed);
    }
    let mtime = UnixFs::try_from(Some(&timed[..]))
        .map_err(|e| format!("message with a time rejected: {}", e))?
        .mtime;
    let make = || UnixFs {
        Type: to_typ(u.typ.unwrap_or(0)),
        Data: u.data.as_deref().map(Cow::Borrowed),
        filesize: u.filesize,
        blocksizes: u.blocksizes.clone(),
        hashType: u.hash_type,
        fanout: u.fanout,
        mode: u.mode,
        mtime: mtime.clone(),
    };
    let data = make();
    let data_bytes = u.encode();
    write("data", &data, &data_bytes)?;
    let back =
        UnixFs::try_from(Some(&data_bytes[..])).map_err(|e| format!("decoding back: {}", e))?;
    same("data decoded back", &back, &data)?;
    for l in links {
        write("link", &mk_link(l), &l.encode())?;
    }
    for d in vec![raw.clone(), Some(data_bytes.clone())] {
        let want = pbx::Node {
            links: links.to_vec(),
            data: d,
        };
        let bytes = want.encode();
        let node = PBNode {
            Links: want.links.iter().map(mk_link).collect(),
            Data: want.data.as_deref().map(Cow::Borrowed),
        };
        write("node", &node, &bytes)?;
        let back = PBNode::try_from(&bytes[..]).map_err(|e| format!("decoding back: {}", e))?;
        same("node decoded back", &back, &node)?;
    }
    let bytes = pbx::Node {
        links: links.to_vec(),
        data: Some(data_bytes),
    }
    .encode();
    let f = FlatUnixFs {
        links: links.iter().map(mk_link).collect(),
        data: make(),
    };
    write("combined message", &f, &bytes)?;
    let back = FlatUnixFs::try_from(&bytes[..]).map_err(|e| format!("decoding back: {}", e))?;
    same("combined message decoded back", &back.links, &f.links)?;
    same("combined message decoded back", &back.data, &f.data)?;
    for t in 0..6i32 {
        let x = UnixFsType::from(t);
        if typ_of(x) != t as u64 || i32::from(x) != t {
            return Err(format!("type {} converts into {:?}", t, x));
        }
    }
    Ok(())
}

// ---- strategies ----

fn num() -> BoxedStrategy<u64> {
    prop_oneof![
        3 => 0u64..300,
        2 => any::<u64>(),
        2 => (0u32..64, 0u64..3).prop_map(|(s, d)| (1u64 << s).wrapping_add(d).wrapping_sub(1)),
        1 => Just(u64::MAX),
    ]
    .boxed()
}

fn num32() -> BoxedStrategy<u32> {
    prop_oneof![
        3 => 0u32..0o10000,
        2 => any::<u32>(),
        2 => (0u32..32, 0u32..3).prop_map(|(s, d)| (1u32 << s).wrapping_add(d).wrapping_sub(1)),
        1 => Just(u32::MAX),
    ]
    .boxed()
}

fn secs() -> BoxedStrategy<i64> {
    prop_oneof![
        num().prop_map(|v| v as i64),
        num().prop_map(|v| (v as i64).wrapping_neg()),
        Just(i64::MIN),
    ]
    .boxed()
}

fn blob() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        2 => Just(vec![]),
        8 => vec(any::<u8>(), 0..40),
        1 => (100usize..300, any::<u8>()).prop_map(|(n, b)| vec![b; n]),
    ]
    .boxed()
}

/// Rarely so long that its length needs three bytes.
fn big_blob() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        40 => blob(),
        1 => (16_000usize..17_000, any::<u8>()).prop_map(|(n, b)| vec![b; n]),
    ]
    .boxed()
}

fn text() -> BoxedStrategy<String> {
    prop_oneof![
        1 => Just(String::new()),
        4 => gen::name(),
        2 => "\\PC{0,12}",
        1 => (100usize..200).prop_map(|n| "n\u{e9}".repeat(n)),
        1 => Just("a/b\u{0}../".to_string()),
    ]
    .boxed()
}

fn pad() -> BoxedStrategy<Pad> {
    prop_oneof![
        3 => Just(Pad::default()),
        1 => (0u8..5, 0u8..5, 0u8..10).prop_map(|(tag, len, val)| Pad { tag, len, val }),
    ]
    .boxed()
}

fn unknown() -> BoxedStrategy<Unknown> {
    let field = prop_oneof![
        3 => 1u32..20,
        1 => 1u32..0x2000_0000 - 200,
        1 => Just(0x1fff_ff00u32),
    ];
    (field, 0u8..4, num(), blob())
        .prop_map(|(field, wire, num, bytes)| Unknown {
            field,
            wire,
            num,
            bytes,
        })
        .boxed()
}

fn hash() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        2 => gen::cid_spec().prop_map(|c| c.bytes()),
        2 => blob(),
    ]
    .boxed()
}

fn link_fields() -> BoxedStrategy<Vec<(LinkField, Pad)>> {
    let f = prop_oneof![
        2 => hash().prop_map(LinkField::Hash),
        2 => text().prop_map(LinkField::Name),
        2 => num().prop_map(LinkField::Tsize),
        1 => unknown().prop_map(LinkField::Unknown),
    ];
    vec((f, pad()), 0..6).boxed()
}

fn data_fields() -> BoxedStrategy<Vec<(DataField, Pad)>> {
    let t = prop_oneof![
        2 => secs().prop_map(TimeField::Seconds),
        2 => num32().prop_map(TimeField::Nanos),
        1 => unknown().prop_map(TimeField::Unknown),
    ];
    let f = prop_oneof![
        2 => (0u8..6).prop_map(DataField::Type),
        2 => big_blob().prop_map(DataField::Data),
        2 => num().prop_map(DataField::Filesize),
        3 => num().prop_map(DataField::Blocksize),
        1 => vec((num(), 0u8..9), 0..5).prop_map(DataField::Packed),
        1 => num().prop_map(DataField::HashType),
        1 => num().prop_map(DataField::Fanout),
        1 => num32().prop_map(DataField::Mode),
        2 => vec((t, pad()), 0..4).prop_map(DataField::Mtime),
        2 => unknown().prop_map(DataField::Unknown),
    ];
    vec((f, pad()), 0..10).boxed()
}

fn node_fields() -> BoxedStrategy<Vec<(NodeField, Pad)>> {
    let f = prop_oneof![
        4 => link_fields().prop_map(NodeField::Link),
        1 => big_blob().prop_map(NodeField::Data),
        3 => data_fields().prop_map(NodeField::UnixFs),
        1 => unknown().prop_map(NodeField::Unknown),
    ];
    vec((f, pad()), 0..7).boxed()
}

fn udata() -> BoxedStrategy<pbx::UData> {
    let o = proptest::option::of::<BoxedStrategy<u64>>;
    (
        0u64..6,
        proptest::option::of(big_blob()),
        o(num()),
        prop_oneof![
            vec(num(), 0..6),
            (40usize..200, num()).prop_map(|(n, v)| vec![v; n]),
        ],
        (o(num()), o(num())),
        proptest::option::of(num32()),
        proptest::option::of((secs(), proptest::option::of(num32()))),
    )
        .prop_map(
            |(typ, data, filesize, blocksizes, (hash_type, fanout), mode, mtime)| pbx::UData {
                typ: Some(typ),
                data,
                filesize,
                blocksizes,
                hash_type,
                fanout,
                mode,
                mtime,
            },
        )
        .boxed()
}

fn plain_link() -> BoxedStrategy<pbx::Link> {
    (
        proptest::option::weighted(0.8, hash()),
        proptest::option::weighted(0.8, text()),
        proptest::option::weighted(0.8, num()),
    )
        .prop_map(|(hash, name, tsize)| pbx::Link { hash, name, tsize })
        .boxed()
}

/// A change to bytes.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Edit {
    Cut(u16),
    Set(u16, u8),
    Insert(u16, Vec<u8>),
    Remove(u16, u8),
    /// adds to the byte
    Bump(u16, i8),
    Append(Vec<u8>),
    Copy(u16, u8, u16),
}

impl Edit {
    pub fn apply(&self, b: &mut Vec<u8>) {
        let at = |p: u16, n: usize| p as usize * n.max(1) / 65536;
        match self {
            Edit::Cut(p) => {
                let n = at(*p, b.len());
                b.truncate(n)
            }
            Edit::Set(p, v) => {
                let i = at(*p, b.len());
                if i < b.len() {
                    b[i] = *v
                }
            }
            Edit::Bump(p, v) => {
                let i = at(*p, b.len());
                if i < b.len() {
                    b[i] = b[i].wrapping_add(*v as u8)
                }
            }
            Edit::Insert(p, v) => {
                let i = at(*p, b.len() + 1);
                b.splice(i..i, v.iter().copied());
            }
            Edit::Remove(p, n) => {
                let i = at(*p, b.len());
                let e = (i + *n as usize).min(b.len());
                b.drain(i.min(e)..e);
            }
            Edit::Append(v) => b.extend_from_slice(v),
            Edit::Copy(p, n, q) => {
                let i = at(*p, b.len());
                let e = (i + *n as usize).min(b.len());
                let v = b[i.min(e)..e].to_vec();
                let j = at(*q, b.len() + 1);
                b.splice(j..j, v);
            }
        }
    }
}

/// Bytes which matter to the decoders: tags, lengths, varint ends.
fn spicy() -> BoxedStrategy<u8> {
    prop_oneof![
        4 => proptest::sample::select(vec![
            0u8, 1, 2, 3, 7, 8, 0x0a, 0x0b, 0x0c, 0x0d, 0x0f, 0x10, 0x12, 0x15, 0x18, 0x1a, 0x20,
            0x22, 0x28, 0x30, 0x38, 0x42, 0x7f, 0x80, 0x81, 0xff,
        ]),
        1 => any::<u8>(),
    ]
    .boxed()
}

pub fn edit() -> BoxedStrategy<Edit> {
    prop_oneof![
        1 => any::<u16>().prop_map(Edit::Cut),
        3 => (any::<u16>(), spicy()).prop_map(|(a, b)| Edit::Set(a, b)),
        3 => (any::<u16>(), prop_oneof![-3i8..4, any::<i8>()]).prop_map(|(a, b)| Edit::Bump(a, b)),
        2 => (any::<u16>(), vec(spicy(), 1..6)).prop_map(|(a, b)| Edit::Insert(a, b)),
        1 => (any::<u16>(), 1u8..6).prop_map(|(a, b)| Edit::Remove(a, b)),
        1 => vec(spicy(), 1..12).prop_map(Edit::Append),
        1 => (any::<u16>(), 1u8..40, any::<u16>()).prop_map(|(a, b, c)| Edit::Copy(a, b, c)),
    ]
    .boxed()
}

pub fn noise() -> BoxedStrategy<Vec<u8>> {
    vec(spicy(), 0..48).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case17 {
    Decode(Vec<(NodeField, Pad)>),
    Encode {
        links: Vec<pbx::Link>,
        data: pbx::UData,
        raw: Option<Vec<u8>>,
    },
    /// a decodable block with changes
    Edited(Vec<(NodeField, Pad)>, Vec<Edit>),
    Noise(Vec<u8>),
    /// lengths and numbers of fields that need three or more bytes
    Large { data: u32, raw: u32, name: u32, links: u32, sizes: u32 },
}

fn differential(b: &[u8], ctx: &mut Ctx) -> Res {
    match (lenient_node(b), PBNode::try_from(b)) {
        (Verdict::Valid(n), Ok(_)) => {
            let d = n.data.clone().unwrap_or_default();
            let v = lenient_data(&d);
            ctx.class_if(v == Verdict::Invalid, "edited: invalid data in a valid node");
            let v = match &v {
                Verdict::Valid(u) => Verdict::Valid(u),
                Verdict::Invalid => Verdict::Invalid,
                Verdict::Unsure => Verdict::Unsure,
            };
            ctx.class("edited: still a node");
            ctx.nontrivial = true;
            decode_all(b, &n, v)?
        }
        (Verdict::Valid(_), Err(e)) => return Err(format!("valid node rejected: {}", e)),
        (Verdict::Invalid, Ok(n)) => return Err(format!("invalid node accepted: {:?}", n)),
        (Verdict::Invalid, Err(_)) => {
            ctx.class("edited: not a node");
            ctx.nontrivial = true;
            if FlatUnixFs::try_from(b).is_ok() {
                return Err("invalid node accepted by the combined parser".into());
            }
        }
        (Verdict::Unsure, _) => ctx.class("edited: not settled by the schema"),
    }
    // as bare data
    let v = lenient_data(b);
    decode_data(
        b,
        match &v {
            Verdict::Valid(u) => Verdict::Valid(u),
            Verdict::Invalid => Verdict::Invalid,
            Verdict::Unsure => Verdict::Unsure,
        },
    )
}

pub struct C17;

impl Check for C17 {
    type Case = Case17;
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "Decode: dag-pb nodes written field by field by an independent writer, in any order, with \
         repeated and unknown fields (wire types 0, 1, 2, 5, any number), overlong varints, packed \
         block sizes; decoded by every public decoder and compared with the values written. \
         Encode: messages built from arbitrary field values, written and compared with canonical \
         bytes and the announced size, decoded back. Edited/Noise: damaged blocks and random bytes, \
         compared with an independent three-valued reader. Large: lengths up to 3 MB and tens of \
         thousands of links and sizes. Non-trivial: at least one link or data \
         field (decode), any set field besides the type (encode), a settled verdict (edited)."
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 1_000_000,
            Tier::Thorough => 40_000_000,
        }
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Case17> {
        let links = prop_oneof![
            8 => vec(plain_link(), 0..5),
            1 => (10usize..80, plain_link()).prop_map(|(n, l)| vec![l; n]),
        ];
        prop_oneof![
            3 => node_fields().prop_map(Case17::Decode),
            3 => (links, udata(), proptest::option::of(big_blob()))
                .prop_map(|(links, data, raw)| Case17::Encode { links, data, raw }),
            3 => (node_fields(), vec(edit(), 1..4)).prop_map(|(n, e)| Case17::Edited(n, e)),
            1 => noise().prop_map(Case17::Noise),
        ]
        .boxed()
    }
    fn run(&self, case: &Case17, ctx: &mut Ctx) -> Res {
        match case {
            Case17::Decode(fs) => {
                let (b, n, u) = node_of(fs);
                ctx.class("decode");
                ctx.nontrivial = !n.links.is_empty() || n.data.is_some();
                ctx.class_if(u.is_some(), "decode: UnixFS data");
                match (&u, &n.data) {
                    (Some(u), _) => decode_all(&b, &n, Verdict::Valid(u)),
                    (None, Some(d)) if !d.is_empty() => {
                        let v = lenient_data(d);
                        let v = match &v {
                            Verdict::Valid(u) => Verdict::Valid(u),
                            Verdict::Invalid => Verdict::Invalid,
                            Verdict::Unsure => Verdict::Unsure,
                        };
                        decode_all(&b, &n, v)
                    }
                    _ => decode_all(&b, &n, Verdict::Unsure),
                }
            }
            Case17::Encode { links, data, raw } => {
                ctx.class("encode");
                ctx.nontrivial = !links.is_empty() || data.encode().len() > 2;
                encode_all(links, data, raw)
            }
            Case17::Edited(fs, edits) => {
                let (mut b, _, _) = node_of(fs);
                for e in edits {
                    e.apply(&mut b)
                }
                differential(&b, ctx)
            }
            Case17::Noise(b) => differential(b, ctx),
            Case17::Large { data, raw, name, links, sizes } => {
                ctx.class("large");
                ctx.nontrivial = true;
                let fill = |n: u32| -> Option<Vec<u8>> { (n > 0).then(|| (0..n).map(|i| (i ^ (i >> 8)) as u8).collect()) };
                let mut ls: Vec<pbx::Link> = (0..*links)
                    .map(|i| pbx::Link { hash: Some(pbx::cid_style((i % 4) as u8, &i.to_le_bytes())), name: Some(format!("l{}", i)), tsize: Some(i as u64 * 77) })
                    .collect();
                if *name > 0 {
                    ls.push(pbx::Link { hash: None, name: Some("n\u{e9}".repeat(*name as usize / 3)), tsize: None });
                }
                let mut u = pbx::UData::of(pbx::FILE);
                u.data = fill(*data);
                u.blocksizes = (0..*sizes as u64).map(|i| i * i).collect();
                u.filesize = Some(*sizes as u64);
                encode_all(&ls, &u, &fill(*raw))
            }
        }
    }
    fn fixed(&self, tier: Tier) -> Vec<Case17> {
        let mut v = vec![];
        for d in [2_097_120u32, 2_097_140, 2_097_148, 2_097_151, 2_097_152, 2_097_160, 3_000_001] {
            v.push(Case17::Large { data: d, raw: 0, name: 0, links: 1, sizes: 0 });
            v.push(Case17::Large { data: 1, raw: d, name: 0, links: 0, sizes: 3 });
            v.push(Case17::Large { data: 0, raw: 1, name: d, links: 2, sizes: 0 });
        }
        for n in [127u32, 128, 129, 1000, 5000, 30_000] {
            v.push(Case17::Large { data: 0, raw: 0, name: 0, links: n, sizes: n });
            v.push(Case17::Large { data: 3, raw: 3, name: 0, links: 0, sizes: n });
        }
        if tier == Tier::Thorough {
            v.push(Case17::Large { data: (1 << 28) + 5, raw: 0, name: 0, links: 1, sizes: 1 });
            v.push(Case17::Large { data: 0, raw: 0, name: 0, links: 1_000_000, sizes: 1_000_000 });
        }
        v
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "not judged: varints over 64 bits, tags and lengths over 32 bits, field number 0, groups which are opened \
             (one closed without that is invalid), type values above 5 or no type, mode above 32 bits, repeated mtime, mtime \
             without seconds",
            "the time message cannot be named by a user, values of it come from decoding",
        ]
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case20 {
    Node(Vec<(NodeField, Pad)>),
    Edited(Vec<(NodeField, Pad)>, Vec<Edit>),
    Noise(Vec<u8>),
    /// `before` and `after` bytes of links around `data` bytes of data
    Large { before: u32, data: u32, after: u32 },
}

fn access<T: AsRef<[u8]> + PartialEq + Clone>(
    what: &str,
    block: T,
    want: &Option<Vec<u8>>,
) -> Res {
    let orig = block.as_ref().to_vec();
    let w = wrap_node_data(block.clone())
        .map_err(|e| format!("wrapping {}: valid node rejected: {}", what, e))?;
    let d = want.clone().unwrap_or_default();
    if w.node_data() != &d[..] {
        return Err(format!(
            "wrapping {}: data is {}, expected {}",
            what,
            pbx::hex(w.node_data()),
            pbx::hex(&d)
        ));
    }
    if w.get_ref().as_ref() != &orig[..] {
        return Err(format!("wrapping {}: the block changed", what));
    }
    if !(w == d) || !(w == &d[..]) {
        return Err(format!("wrapping {}: not equal to its own data", what));
    }
    let mut other = d.clone();
    other.push(1);
    if w == other || (!d.is_empty() && w == &d[1..]) {
        return Err(format!("wrapping {}: equal to other data", what));
    }
    let _ = format!("{:?}", w);
    if w.into_inner() != block {
        return Err(format!("wrapping {}: another block came back", what));
    }
    Ok(())
}

/// The bytes move along with the value.
#[derive(Clone, Copy, PartialEq)]
struct Inline {
    len: u16,
    bytes: [u8; 512],
}

impl Inline {
    fn new(b: &[u8]) -> Option<Inline> {
        let mut bytes = [0; 512];
        bytes.get_mut(..b.len())?.copy_from_slice(b);
        Some(Inline { len: b.len() as u16, bytes })
    }
}

impl AsRef<[u8]> for Inline {
    fn as_ref(&self) -> &[u8] {
        &self.bytes[..self.len as usize]
    }
}

pub struct C20;

impl Check for C20 {
    type Case = Case20;
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "dag-pb nodes written field by field (links, data fields empty or not, at any place, \
         repeated, unknown fields, overlong varints), the same damaged, and random bytes; both \
         accessors over several block types are compared with the data written, or with an \
         independent reader's verdict. Non-trivial: the block has a data field and something else, \
         or the verdict is that it is not a node."
    }
    fn cases(&self, tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 1_000_000,
            Tier::Thorough => 40_000_000,
        }
    }
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Case20> {
        prop_oneof![
            4 => node_fields().prop_map(Case20::Node),
            3 => (node_fields(), vec(edit(), 1..4)).prop_map(|(n, e)| Case20::Edited(n, e)),
            1 => noise().prop_map(Case20::Noise),
        ]
        .boxed()
    }
    fn fixed(&self, _tier: Tier) -> Vec<Case20> {
        let mut v = vec![];
        let sizes = [0u32, 1, 126, 127, 128, 16_383, 16_384, 65_535, 65_536, 2_097_151, 2_097_152, 5_000_000];
        for data in sizes {
            for around in sizes {
                if data as u64 + around as u64 <= 6_000_000 {
                    v.push(Case20::Large { before: around, data, after: 0 });
                    v.push(Case20::Large { before: 0, data, after: around });
                    v.push(Case20::Large { before: around, data, after: 9 });
                }
            }
        }
        v
    }
    fn run(&self, case: &Case20, ctx: &mut Ctx) -> Res {
        let (b, v) = match case {
            Case20::Node(fs) => {
                let (b, n, _) = node_of(fs);
                (b, Verdict::Valid(n))
            }
            Case20::Edited(fs, edits) => {
                let (mut b, _, _) = node_of(fs);
                for e in edits {
                    e.apply(&mut b)
                }
                let v = lenient_node(&b);
                (b, v)
            }
            Case20::Noise(b) => (b.clone(), lenient_node(b)),
            Case20::Large { before, data, after } => {
                let mut b = vec![];
                let link = |n: u32, b: &mut Vec<u8>| {
                    if n > 0 {
                        let mut l = vec![];
                        pbx::put_bytes(2, "n".repeat(n as usize).as_bytes(), &mut l);
                        pbx::put_bytes(2, &l, b);
                    }
                };
                link(*before, &mut b);
                let d: Vec<u8> = (0..*data).map(|i| (i ^ (i >> 8)) as u8).collect();
                pbx::put_bytes(1, &d, &mut b);
                link(*after, &mut b);
                let n = pbx::Node { links: vec![], data: Some(d) };
                (b, Verdict::Valid(n))
            }
        };
        match v {
            Verdict::Valid(n) => {
                let want = n.data;
                ctx.class(match want.as_deref() {
                    None => "no data",
                    Some([]) => "empty data",
                    Some(d) if b.ends_with(d) => "data at the end",
                    Some(_) => "data before other fields",
                });
                ctx.nontrivial = want.as_ref().map_or(false, |d| d.len() + 2 < b.len());
                let got = node_data(&b).map_err(|e| format!("valid node rejected: {}", e))?;
                if got != want.as_deref() {
                    return Err(format!(
                        "data is {:?}, expected {:?}",
                        got.map(pbx::hex),
                        want.as_deref().map(pbx::hex)
                    ));
                }
                access("a vector", b.clone(), &want)?;
                access("a slice", &b[..], &want)?;
                access("a box", b.clone().into_boxed_slice(), &want)?;
                access("an arc", Arc::<[u8]>::from(&b[..]), &want)?;
                if let Some(inline) = Inline::new(&b) {
                    access("an inline buffer", inline, &want)?;
                }
                access("a cow", Cow::Borrowed(&b[..]), &want)?;
                let (x, y) = (wrap_node_data(&b[..]), wrap_node_data(&b[..]));
                match (x, y) {
                    (Ok(x), Ok(y)) if x.eq(&y.node_data()) => Ok(()),
                    _ => Err("wrapping the same block twice differs".into()),
                }
            }
            Verdict::Invalid => {
                ctx.class("not a node");
                ctx.nontrivial = true;
                if let Ok(d) = node_data(&b) {
                    return Err(format!("not a node, data is {:?}", d.map(pbx::hex)));
                }
                match wrap_node_data(&b[..]) {
                    Ok(w) => Err(format!("not a node, wrapped: {}", pbx::hex(w.node_data()))),
                    Err(e) => {
                        let _ = e.to_string();
                        Ok(())
                    }
                }
            }
            Verdict::Unsure => {
                ctx.class("not settled");
                let a = node_data(&b).map(|d| d.map(|d| d.to_vec()));
                let w = wrap_node_data(&b[..]).map(|w| w.node_data().to_vec());
                match (a, w) {
                    (Ok(a), Ok(w)) if a.clone().unwrap_or_default() == w => Ok(()),
                    (Err(_), Err(_)) => Ok(()),
                    (a, w) => Err(format!("accessors disagree: {:?} and {:?}", a, w)),
                }
            }
        }
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["for bytes the schema does not settle (see C17) the two accessors must only agree"]
    }
}
