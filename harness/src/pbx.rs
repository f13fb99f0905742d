//! Independent protobuf writer and strict reader for dag-pb and UnixFS, and CID construction.
//! Nothing here uses the crate under test.

use multihash::{Code, MultihashDigest};
use serde::{Deserialize, Serialize};

pub fn varint(mut v: u64, out: &mut Vec<u8>) {
    while v >= 0x80 {
        out.push((v as u8) | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}

/// A varint padded with `extra` continuation bytes: same value, longer encoding (at most 10 bytes).
pub fn varint_long(v: u64, extra: usize, out: &mut Vec<u8>) {
    let mut tmp = Vec::new();
    varint(v, &mut tmp);
    let extra = extra.min(10 - tmp.len());
    if extra > 0 {
        let l = tmp.len();
        tmp[l - 1] |= 0x80;
        for _ in 0..extra - 1 {
            tmp.push(0x80);
        }
        tmp.push(0);
    }
    out.extend_from_slice(&tmp);
}

pub fn varint_len(v: u64) -> usize {
    let mut t = Vec::new();
    varint(v, &mut t);
    t.len()
}

pub fn put_uint(field: u32, v: u64, out: &mut Vec<u8>) {
    varint((field as u64) << 3, out);
    varint(v, out);
}

pub fn put_bytes(field: u32, v: &[u8], out: &mut Vec<u8>) {
    varint((field as u64) << 3 | 2, out);
    varint(v.len() as u64, out);
    out.extend_from_slice(v);
}

pub fn put_fixed32(field: u32, v: u32, out: &mut Vec<u8>) {
    varint((field as u64) << 3 | 5, out);
    out.extend_from_slice(&v.to_le_bytes());
}

pub fn put_fixed64(field: u32, v: u64, out: &mut Vec<u8>) {
    varint((field as u64) << 3 | 1, out);
    out.extend_from_slice(&v.to_le_bytes());
}

#[derive(Debug, Clone, PartialEq, Eq, Default, Serialize, Deserialize)]
pub struct Link {
    pub hash: Option<Vec<u8>>,
    pub name: Option<String>,
    pub tsize: Option<u64>,
}

impl Link {
    pub fn new(hash: &[u8], name: &str, tsize: u64) -> Link {
        Link {
            hash: Some(hash.to_vec()),
            name: Some(name.to_string()),
            tsize: Some(tsize),
        }
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut o = Vec::new();
        if let Some(h) = &self.hash {
            put_bytes(1, h, &mut o);
        }
        if let Some(n) = &self.name {
            put_bytes(2, n.as_bytes(), &mut o);
        }
        if let Some(t) = self.tsize {
            put_uint(3, t, &mut o);
        }
        o
    }
}

pub const RAW: u64 = 0;
pub const DIRECTORY: u64 = 1;
pub const FILE: u64 = 2;
pub const METADATA: u64 = 3;
pub const SYMLINK: u64 = 4;
pub const HAMT: u64 = 5;

#[derive(Debug, Clone, PartialEq, Eq, Default, Serialize, Deserialize)]
pub struct UData {
    pub typ: Option<u64>,
    pub data: Option<Vec<u8>>,
    pub filesize: Option<u64>,
    pub blocksizes: Vec<u64>,
    pub hash_type: Option<u64>,
    pub fanout: Option<u64>,
    pub mode: Option<u32>,
    pub mtime: Option<(i64, Option<u32>)>,
}

impl UData {
    pub fn of(typ: u64) -> UData {
        UData {
            typ: Some(typ),
            ..Default::default()
        }
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut o = Vec::new();
        if let Some(t) = self.typ {
            put_uint(1, t, &mut o);
        }
        if let Some(d) = &self.data {
            put_bytes(2, d, &mut o);
        }
        if let Some(f) = self.filesize {
            put_uint(3, f, &mut o);
        }
        for b in &self.blocksizes {
            put_uint(4, *b, &mut o);
        }
        if let Some(f) = self.hash_type {
            put_uint(5, f, &mut o);
        }
        if let Some(f) = self.fanout {
            put_uint(6, f, &mut o);
        }
        if let Some(f) = self.mode {
            put_uint(7, f as u64, &mut o);
        }
        if let Some(t) = self.mtime {
            put_bytes(8, &encode_mtime(t), &mut o);
        }
        o
    }
}

pub fn encode_mtime((s, n): (i64, Option<u32>)) -> Vec<u8> {
    let mut m = Vec::new();
    put_uint(1, s as u64, &mut m);
    if let Some(n) = n {
        put_fixed32(2, n, &mut m);
    }
    m
}

#[derive(Debug, Clone, PartialEq, Eq, Default, Serialize, Deserialize)]
pub struct Node {
    pub links: Vec<Link>,
    pub data: Option<Vec<u8>>,
}

impl Node {
    pub fn new(links: Vec<Link>, data: &UData) -> Node {
        Node {
            links,
            data: Some(data.encode()),
        }
    }
    /// Canonical dag-pb: links first, then data.
    pub fn encode(&self) -> Vec<u8> {
        let mut o = Vec::new();
        for l in &self.links {
            put_bytes(2, &l.encode(), &mut o);
        }
        if let Some(d) = &self.data {
            put_bytes(1, d, &mut o);
        }
        o
    }
}

// ---- strict reader: canonical field order, minimal varints, no unknown fields ----

struct Rd<'a>(&'a [u8]);

type R<T> = Result<T, String>;

impl<'a> Rd<'a> {
    fn varint(&mut self) -> R<u64> {
        let mut v: u64 = 0;
        for i in 0..10 {
            let b = *self.0.first().ok_or("eof in varint")?;
            self.0 = &self.0[1..];
            if i == 9 && b > 1 {
                return Err("varint over 64 bits".into());
            }
            v |= ((b & 0x7f) as u64) << (7 * i);
            if b & 0x80 == 0 {
                if i > 0 && b == 0 {
                    return Err("non-minimal varint".into());
                }
                return Ok(v);
            }
        }
        Err("varint too long".into())
    }
    fn bytes(&mut self) -> R<&'a [u8]> {
        let n = self.varint()? as usize;
        if n > self.0.len() {
            return Err(format!("length {} beyond end {}", n, self.0.len()));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn fixed32(&mut self) -> R<u32> {
        if self.0.len() < 4 {
            return Err("eof in fixed32".into());
        }
        let v = u32::from_le_bytes([self.0[0], self.0[1], self.0[2], self.0[3]]);
        self.0 = &self.0[4..];
        Ok(v)
    }
    fn eof(&self) -> bool {
        self.0.is_empty()
    }
}

pub fn strict_link(b: &[u8]) -> R<Link> {
    let mut r = Rd(b);
    let mut l = Link::default();
    let mut last = 0;
    while !r.eof() {
        let tag = r.varint()?;
        if tag >> 3 <= last {
            return Err(format!("link field order: tag {}", tag));
        }
        last = tag >> 3;
        match tag {
            10 => l.hash = Some(r.bytes()?.to_vec()),
            18 => {
                l.name = Some(
                    String::from_utf8(r.bytes()?.to_vec()).map_err(|_| "link name not utf8")?,
                )
            }
            24 => l.tsize = Some(r.varint()?),
            t => return Err(format!("unexpected link tag {}", t)),
        }
    }
    Ok(l)
}

pub fn strict_node(b: &[u8]) -> R<Node> {
    let mut r = Rd(b);
    let mut n = Node::default();
    while !r.eof() {
        let tag = r.varint()?;
        match tag {
            18 if n.data.is_none() => n.links.push(strict_link(r.bytes()?)?),
            10 if n.data.is_none() => n.data = Some(r.bytes()?.to_vec()),
            t => return Err(format!("unexpected or misplaced node tag {}", t)),
        }
    }
    Ok(n)
}

pub fn strict_udata(b: &[u8]) -> R<UData> {
    let mut r = Rd(b);
    let mut u = UData::default();
    let mut last = 0;
    while !r.eof() {
        let tag = r.varint()?;
        let f = tag >> 3;
        if f < last || (f == last && f != 4) {
            return Err(format!("unixfs field order: tag {}", tag));
        }
        last = f;
        match tag {
            8 => u.typ = Some(r.varint()?),
            18 => u.data = Some(r.bytes()?.to_vec()),
            24 => u.filesize = Some(r.varint()?),
            32 => u.blocksizes.push(r.varint()?),
            40 => u.hash_type = Some(r.varint()?),
            48 => u.fanout = Some(r.varint()?),
            56 => {
                let v = r.varint()?;
                if v > u32::MAX as u64 {
                    return Err("mode over 32 bits".into());
                }
                u.mode = Some(v as u32)
            }
            66 => {
                let mut m = Rd(r.bytes()?);
                let mut secs = None;
                let mut nanos = None;
                while !m.eof() {
                    match m.varint()? {
                        8 if secs.is_none() && nanos.is_none() => secs = Some(m.varint()? as i64),
                        21 if nanos.is_none() => nanos = Some(m.fixed32()?),
                        t => return Err(format!("unexpected mtime tag {}", t)),
                    }
                }
                u.mtime = Some((secs.ok_or("mtime without seconds")?, nanos));
            }
            t => return Err(format!("unexpected unixfs tag {}", t)),
        }
    }
    Ok(u)
}

/// Strictly decodes a block into node and UnixFS data.
pub fn strict(b: &[u8]) -> R<(Vec<Link>, UData)> {
    let n = strict_node(b)?;
    let d = n.data.ok_or("no data field")?;
    Ok((n.links, strict_udata(&d)?))
}

// ---- CIDs as bytes ----

pub fn sha256(b: &[u8]) -> [u8; 32] {
    let mh = Code::Sha2_256.digest(b);
    let mut r = [0u8; 32];
    r.copy_from_slice(mh.digest());
    r
}

/// CIDv1, dag-pb, sha2-256 of `b`, in binary.
pub fn cid_v1(b: &[u8]) -> Vec<u8> {
    let mut o = vec![0x01, 0x70, 0x12, 0x20];
    o.extend_from_slice(&sha256(b));
    o
}

pub fn cid_v0(b: &[u8]) -> Vec<u8> {
    let mut o = vec![0x12, 0x20];
    o.extend_from_slice(&sha256(b));
    o
}

/// CIDv1 dag-pb with a 64 byte digest (sha2-512 code, not a real sha2-512).
pub fn cid_512(b: &[u8]) -> Vec<u8> {
    let mut o = vec![0x01, 0x70, 0x13, 0x40];
    let d = sha256(b);
    o.extend_from_slice(&d);
    o.extend_from_slice(&sha256(&d));
    o
}

/// One of the CID styles for a block.
pub fn cid_style(style: u8, b: &[u8]) -> Vec<u8> {
    match style % 4 {
        0 | 1 => cid_v1(b),
        2 => cid_v0(b),
        _ => cid_512(b),
    }
}

pub fn to_cid(b: &[u8]) -> libipld::Cid {
    libipld::Cid::read_bytes(b).unwrap_or_else(|e| panic!("harness cid {:02x?}: {}", b, e))
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i == 200 {
            s.push_str(&format!("..({} bytes)", b.len()));
            break;
        }
        s.push_str(&format!("{:02x}", x));
    }
    s
}
