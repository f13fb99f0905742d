//! Shared generators: content, names, CIDs, metadata, ranges.

use crate::pbx;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Content described by a few numbers, expanded deterministically.
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Content {
    pub len: u32,
    pub seed: u32,
    /// 0 pseudo random, 1 one repeated byte, 2 short period, 3 zeros
    pub kind: u8,
}

impl Content {
    pub fn expand(&self) -> Vec<u8> {
        let n = self.len as usize;
        let mut v = Vec::with_capacity(n);
        match self.kind {
            0 => {
                let mut x = (self.seed as u64) << 1 | 0x1_0000_0001;
                while v.len() < n {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    let b = x.wrapping_mul(0x2545F4914F6CDD1D).to_le_bytes();
                    let k = (n - v.len()).min(8);
                    v.extend_from_slice(&b[..k]);
                }
            }
            1 => v.resize(n, self.seed as u8),
            2 => {
                let p = 1 + (self.seed % 13) as usize;
                v.extend((0..n).map(|i| (i % p) as u8));
            }
            _ => v.resize(n, 0),
        }
        v
    }
}

pub fn content(len: impl Strategy<Value = u32> + 'static) -> BoxedStrategy<Content> {
    (len, any::<u32>(), prop_oneof![6 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)])
        .prop_map(|(len, seed, kind)| Content { len, seed, kind })
        .boxed()
}

/// Lengths with the interesting varint and size boundaries.
pub fn small_len() -> BoxedStrategy<u32> {
    prop_oneof![
        2 => Just(0u32),
        8 => 1u32..=8,
        4 => 9u32..=40,
        2 => 100u32..=300,
        2 => prop::sample::select(vec![119u32, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 255, 256, 257]),
    ]
    .boxed()
}

pub fn wide_len() -> BoxedStrategy<u32> {
    prop_oneof![
        20 => small_len(),
        1 => 1000u32..=5000,
        1 => 16370u32..=16400,
    ]
    .boxed()
}

#[derive(Debug, Clone, PartialEq, Eq, Default, Serialize, Deserialize)]
pub struct Meta {
    pub mode: Option<u32>,
    pub mtime: Option<(i64, Option<u32>)>,
}

impl Meta {
    pub fn is_none(&self) -> bool {
        self.mode.is_none() && self.mtime.is_none()
    }
    /// What the accessors of the crate's `Metadata` must return.
    pub fn expected(&self) -> (Option<u32>, Option<(i64, u32)>) {
        (self.mode, self.mtime.map(|(s, n)| (s, n.unwrap_or(0))))
    }
    pub fn apply(&self, u: &mut pbx::UData) {
        u.mode = self.mode;
        u.mtime = self.mtime;
    }
}

pub fn meta_strong() -> BoxedStrategy<Meta> {
    let mode = prop_oneof![
        Just(None),
        prop::sample::select(vec![0u32, 1, 0o644, 0o755, 0o777, 0o7777, 0o100644, 0o40755, 0x7fff_ffff, 0x8000_0000, u32::MAX, 127, 128, 16383, 16384, 2097151, 2097152, 268435455, 268435456]).prop_map(Some),
        any::<u32>().prop_map(Some),
    ];
    let secs = prop_oneof![
        prop::sample::select(vec![0i64, 1, -1, 127, 128, i64::MAX, i64::MIN, 1 << 31, (1 << 31) - 1, -(1 << 31) - 1, 1 << 32, 1_600_000_000, -1_600_000_000]),
        any::<i64>(),
        -10_000_000_000i64..10_000_000_000,
    ];
    let nanos = prop_oneof![
        2 => Just(None),
        1 => prop::sample::select(vec![0u32, 1, 999_999_999, 1_000_000_000, u32::MAX, 1 << 31, 255, 256]).prop_map(Some),
        1 => any::<u32>().prop_map(Some),
        1 => (0u32..1_000_000_000).prop_map(Some),
    ];
    let mtime = prop_oneof![1 => Just(None), 3 => (secs, nanos).prop_map(Some)];
    (mode, mtime).prop_map(|(mode, mtime)| Meta { mode, mtime }).boxed()
}

pub fn meta_some() -> BoxedStrategy<Meta> {
    prop_oneof![3 => Just(Meta::default()), 2 => meta_strong()].boxed()
}

/// A CID for an opaque link target, by description.
#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct CidSpec {
    /// 0: v0, otherwise v1
    pub v: u8,
    pub codec: u64,
    pub mh: u64,
    pub len: u8,
    pub seed: u32,
}

impl CidSpec {
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = Vec::new();
        let (codec_v1, mh, len) = if self.v == 0 {
            (None, 0x12, 32)
        } else {
            (Some(self.codec), self.mh, (self.len as usize).min(64))
        };
        if let Some(c) = codec_v1 {
            o.push(1);
            pbx::varint(c, &mut o);
        }
        pbx::varint(mh, &mut o);
        pbx::varint(len as u64, &mut o);
        let digest = Content {
            len: len as u32,
            seed: self.seed,
            kind: 0,
        }
        .expand();
        o.extend_from_slice(&digest);
        o
    }
}

pub fn cid_spec() -> BoxedStrategy<CidSpec> {
    let codec = prop::sample::select(vec![
        0x70u64, 0x70, 0x55, 0x71, 0x0129, 0x72, 0x7f, 0x80, 0x3fff, 0x4000, 0xb401, 0x1f_ffff, 0x20_0000, 0xffff_ffff, 0x1_0000_0000,
    ]);
    let mh = prop::sample::select(vec![
        0x12u64, 0x12, 0x12, 0x00, 0x11, 0x13, 0x16, 0x1b, 0x1e, 0xb220, 0xb240, 0x1012, 0xffff,
    ]);
    let len = prop_oneof![4 => Just(32u8), 1 => Just(20u8), 1 => Just(64u8), 1 => Just(0u8), 2 => 0u8..=64];
    (prop_oneof![1 => Just(0u8), 3 => Just(1u8)], codec, mh, len, 0u32..100_000)
        .prop_map(|(v, codec, mh, len, seed)| CidSpec { v, codec, mh, len, seed })
        .boxed()
}

/// Directory entry names valid as one path component.
pub fn name() -> BoxedStrategy<String> {
    prop_oneof![
        6 => "[a-d]{1,2}",
        4 => "[a-z0-9._ -]{1,12}",
        2 => "[0-9A-F]{2}[a-c]{0,2}",
        2 => prop::sample::select(vec![
            "..", "a.b", "...", "..a", ".hidden", " ", "  ", "a b", "\\", "a\\b", "\n", "\u{0}x", "é", "ä", "日本語", "日", "🦀", "e\u{301}",
            "00", "FF", "0A", "A", "foo.txt", "con", "~", "-", "00a", "%2F", "a\u{2215}b", "\u{feff}a", "ﬁ", "ZZ", "zz", "aa", "aA", "Aa",
        ]).prop_map(str::to_string),
        1 => "\\PC{1,6}".prop_map(clean),
        1 => (
            0usize..=3,
            prop_oneof![
                50 => prop::sample::select(vec![100usize, 123, 124, 125, 126, 127, 128, 129, 253, 254, 255, 256, 300]),
                10 => prop::sample::select(vec![510usize, 511, 512, 1000, 1023, 1024, 2047, 4093, 4095, 4096, 5000]),
                1 => prop::sample::select(vec![16381usize, 16384, 32767, 65533, 65536]),
            ],
        )
            .prop_map(|(k, n)| {
                let mut s = "n".repeat(n);
                for _ in 0..k {
                    s.push('x');
                }
                s
            }),
        1 => long_name(),
    ]
    .prop_map(clean)
    .boxed()
}

/// Long names with characters of several bytes at any offset.
pub fn long_name() -> BoxedStrategy<String> {
    (0usize..4, prop::sample::select(vec!["é", "日", "🦀", "aé", "ab日", "e\u{301}"]), 1usize..90, "[a-z]{0,3}")
        .prop_map(|(pad, unit, n, tail)| format!("{}{}{}", &"nnn"[..pad], unit.repeat(n), tail))
        .boxed()
}

/// A name close to another one: changed at one place, or by a rule which names could wrongly be
/// compared by. `digits` is the two-digit prefix it has in a sharded directory.
pub fn near(n: &str, digits: &str, k: u8) -> String {
    let chars: Vec<char> = n.chars().collect();
    let from = |i: usize| chars.iter().skip(i).collect::<String>();
    let to = |i: usize| chars.iter().take(i).collect::<String>();
    match k % 32 {
        0 => format!("{}x", n),
        1 => from(1),
        2 => from(2),
        3 => to(chars.len().saturating_sub(1)),
        4 => format!("{}{}", digits, n),
        5 => n.to_uppercase(),
        6 => n.to_lowercase(),
        7 => to(2),
        8 => digits.to_string(),
        9 => format!("{} ", n),
        10 => format!("./{}", n),
        11 => format!("{}/", n),
        12 => format!("\u{0}{}", n),
        13 => chars.iter().rev().collect(),
        14 => format!("{}\u{0}", n),
        15 => format!("{}\n", n),
        16 => format!(" {}", n),
        17 => format!("{}.", n),
        18 => format!(".{}", n),
        // the case of the first letter only
        19 => chars.iter().take(1).map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect::<String>() + &from(1),
        20 => format!("{}{}", n, n),
        21 => format!("{}\u{301}", n),
        22 => format!("{}\u{fe0f}", n),
        23 => format!("\u{feff}{}", n),
        // the last character is the next one
        24 => to(chars.len().saturating_sub(1)) + &chars.last().and_then(|c| char::from_u32(*c as u32 + 1)).unwrap_or('x').to_string(),
        25 => format!("%{:02X}{}", n.bytes().next().unwrap_or(0), from(1)),
        26 => format!("\\{}", n),
        27 => to(chars.len() / 2),
        28 => format!("{}{}", to(chars.len() / 2), from(chars.len() / 2 + 1)),
        // composed and decomposed
        29 => n.replace('é', "e\u{301}").replace('ä', "a\u{308}").replace('a', "á"),
        30 => n.split(|c| c == '.' || c == ' ').next().unwrap_or("").to_string(),
        _ => format!("{}~0", n),
    }
}

fn clean(s: String) -> String {
    let t: String = s.chars().map(|c| if c == '/' { '_' } else { c }).collect();
    if t.is_empty() || t == "." {
        "dot".to_string()
    } else {
        t
    }
}

pub fn fix_name(s: String) -> String {
    clean(s)
}

/// A position in a file, relative to its structure.
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum Pos {
    Abs(u64),
    /// the idx-th leaf boundary (modulo their number) plus delta
    Boundary(u16, i8),
    End(i8),
    /// u64::MAX minus
    Max(u8),
    /// thousandth of the length
    Frac(u16),
}

impl Pos {
    pub fn at(&self, boundaries: &[u64], len: u64) -> u64 {
        fn add(b: u64, d: i8) -> u64 {
            if d < 0 {
                b.saturating_sub((-(d as i64)) as u64)
            } else {
                b.saturating_add(d as u64)
            }
        }
        match self {
            Pos::Abs(x) => *x,
            Pos::Boundary(i, d) => {
                if boundaries.is_empty() {
                    add(0, *d)
                } else {
                    add(boundaries[*i as usize % boundaries.len()], *d)
                }
            }
            Pos::End(d) => add(len, *d),
            Pos::Max(d) => u64::MAX - *d as u64,
            Pos::Frac(f) => ((len as u128) * (*f as u128) / 1000) as u64,
        }
    }
}

pub fn pos() -> BoxedStrategy<Pos> {
    prop_oneof![
        3 => (0u64..40).prop_map(Pos::Abs),
        1 => Just(Pos::Abs(0)),
        8 => (any::<u16>(), -2i8..=2).prop_map(|(i, d)| Pos::Boundary(i, d)),
        2 => (-3i8..=3).prop_map(Pos::End),
        1 => (0u8..3).prop_map(Pos::Max),
        4 => (0u16..=1000).prop_map(Pos::Frac),
        1 => any::<u64>().prop_map(Pos::Abs),
    ]
    .boxed()
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct RangeSpec {
    pub a: Pos,
    pub b: Pos,
    /// order the two ends; false leaves them, possibly reversed
    pub sort: bool,
    /// when set, the end is start + this
    pub span: Option<u16>,
}

impl RangeSpec {
    pub fn range(&self, boundaries: &[u64], len: u64) -> std::ops::Range<u64> {
        let a = self.a.at(boundaries, len);
        let b = match self.span {
            Some(s) => a.saturating_add(s as u64),
            None => self.b.at(boundaries, len),
        };
        if self.sort && a > b {
            b..a
        } else {
            a..b
        }
    }
}

pub fn range_spec() -> BoxedStrategy<RangeSpec> {
    (pos(), pos(), prop::bool::weighted(0.9), prop_oneof![3 => Just(None), 1 => (0u16..30).prop_map(Some), 1 => (0u16..1000).prop_map(Some)])
        .prop_map(|(a, b, sort, span)| RangeSpec { a, b, sort, span })
        .boxed()
}
