//! Shared generators and ways to drive the library.
#![allow(dead_code)]
use minisign::{PublicKey, SecretKey, SignatureBox};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::path::PathBuf;
use std::rc::Rc;
use vref::mini;

// ---- bytes
#[derive(Clone, PartialEq, Eq)]
pub struct Hex(pub Vec<u8>);
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 || !s.is_ascii() {
        return None;
    }
    (0..s.len()).step_by(2).map(|i| u8::from_str_radix(&s[i..i + 2], 16).ok()).collect()
}
impl std::fmt::Debug for Hex {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", hex(&self.0))
    }
}
impl Serialize for Hex {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&hex(&self.0))
    }
}
impl<'de> Deserialize<'de> for Hex {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        unhex(&s).map(Hex).ok_or_else(|| serde::de::Error::custom("bad hex"))
    }
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn stream(seed: u64, len: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(len + 8);
    let mut i = 0u64;
    while v.len() < len {
        v.extend_from_slice(&mix(seed.wrapping_mul(0x2545f4914f6cdd1d).wrapping_add(i)).to_le_bytes());
        i += 1;
    }
    v.truncate(len);
    v
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Data {
    Raw(Hex),
    Fill { len: usize, byte: u8 },
    Gen { len: usize, seed: u32 },
}
impl Data {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Data::Raw(h) => h.0.clone(),
            Data::Fill { len, byte } => vec![*byte; *len],
            Data::Gen { len, seed } => stream(*seed as u64 | 1 << 40, *len),
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Data::Raw(h) => h.0.len(),
            Data::Fill { len, .. } | Data::Gen { len, .. } => *len,
        }
    }
}
pub fn gen(len: usize, seed: u32) -> Data {
    Data::Gen { len, seed }
}

pub fn data_len() -> BoxedStrategy<usize> {
    prop_oneof![
        6 => 0usize..300,
        3 => (0usize..12, 0usize..5).prop_map(|(k, d)| (k * 128 + d).saturating_sub(2)),
        2 => 300usize..3000,
        1 => (1usize..4, 0usize..5).prop_map(|(k, d)| k * 65536 + d - 2),
        1 => 3000usize..100_000,
        2 => proptest::sample::select(crate::dict::some_nums(5000)),
        1 => (proptest::sample::select(crate::dict::some_nums(70_000)), 1usize..4).prop_map(|(a, b)| a * b),
    ]
    .boxed()
}
pub fn small_len() -> BoxedStrategy<usize> {
    prop_oneof![
        8 => 0usize..300,
        2 => (0usize..12, 0usize..5).prop_map(|(k, d)| (k * 128 + d).saturating_sub(2)),
        1 => proptest::sample::select(crate::dict::some_nums(5000)),
    ]
    .boxed()
}
pub fn data_of(len: BoxedStrategy<usize>) -> BoxedStrategy<Data> {
    prop_oneof![
        3 => proptest::collection::vec(any::<u8>(), 0..64).prop_map(|v| Data::Raw(Hex(v))),
        5 => (len.clone(), any::<u32>()).prop_map(|(len, seed)| Data::Gen { len, seed }),
        2 => (len, prop_oneof![Just(0u8), Just(0xff), Just(0x80), any::<u8>()]).prop_map(|(len, byte)| Data::Fill { len, byte }),
        2 => texty(),
        1 => literal(),
    ]
    .boxed()
}
/// Data with a literal of the library's source in it.
fn literal() -> BoxedStrategy<Data> {
    (proptest::sample::select(crate::dict::bytes()), 0usize..300, any::<u32>(), any::<u8>())
        .prop_map(|(t, n, s, how)| {
            let g = stream(s as u64, n);
            Data::Raw(Hex(match how % 5 {
                0 => t,
                1 => [&t[..], &g].concat(),
                2 => [&g[..], &t].concat(),
                3 => [&g[..], &t, &g].concat(),
                _ => t.repeat(1 + n % 5),
            }))
        })
        .boxed()
}
/// Bytes that something meant for text, or for some file format, could treat in a special way.
pub const TOKENS: &[&[u8]] = &[
    b"\xef\xbb\xbf", b"\xff\xfe", b"\r\n", b"\n", b"\r", b"\n\n", b"\r\n\r\n", b" ", b"\t", b"  ", b"\0", b"\0\0\0\0", b"\x1a", b"\x04", b"\x1b[0m",
    b"a", b"word", b"Word", b"line of text", b"\xc3\xa9", b"e\xcc\x81", b"\xff", b"\x80", b"=", b"==", b"-----BEGIN-----", b"untrusted comment: x",
    b"trusted comment: y", b"\x1f\x8b\x08\0", b"PK\x03\x04", b"#!/bin/sh", b"- ", b"% ", b"\x7fELF", b"0", b"\\n", b"ED", b"Ed",
];
pub fn texty() -> BoxedStrategy<Data> {
    (proptest::collection::vec(proptest::sample::select(TOKENS.to_vec()), 0..24), prop_oneof![6 => Just(1usize), 1 => 1usize..30])
        .prop_map(|(v, n)| Data::Raw(Hex(v.concat().repeat(n))))
        .boxed()
}
pub fn data() -> BoxedStrategy<Data> {
    data_of(data_len())
}
pub fn small_data() -> BoxedStrategy<Data> {
    data_of(small_len())
}

/// Every Unicode white space character that does not break a line.
pub const SPACES: &[char] = &[
    ' ', '\t', '\u{b}', '\u{c}', '\u{85}', '\u{a0}', '\u{1680}', '\u{2000}', '\u{2001}', '\u{2002}', '\u{2003}', '\u{2004}', '\u{2005}',
    '\u{2006}', '\u{2007}', '\u{2008}', '\u{2009}', '\u{200a}', '\u{2028}', '\u{2029}', '\u{202f}', '\u{205f}', '\u{3000}',
];
pub fn comment_char() -> BoxedStrategy<char> {
    prop_oneof![
        10 => (0x20u8..0x7f).prop_map(|b| b as char),
        3 => proptest::sample::select(SPACES.to_vec()),
        1 => (0u8..0x20).prop_map(|b| b as char).prop_filter("line break", |c| *c != '\n' && *c != '\r'),
        2 => any::<char>().prop_filter("line break", |c| *c != '\n' && *c != '\r'),
        1 => proptest::sample::select(vec!['\u{feff}', '\u{200b}', '\u{0}', '\u{7f}', 'é', '漢', '\u{1f511}', ':', '=', '+', '/']),
    ]
    .boxed()
}
fn chars(v: Vec<char>) -> String {
    v.into_iter().collect()
}
const FIELDS: &[&str] = &["timestamp:", "file:", "time:", "date:", "signed:", "expires:", "expiry:", "not-after:", "not-before:", "valid-until:", "version:", "key:", "keyid:", "size:", "length:", "hash:", "sha256:", "url:", "x:", ""];
const VALUES: &[&str] = &[
    "0", "1", "-1", "+1", "00", "1.5", "1e9", "0x10", "60", "1000000000", "2147483647", "2147483648", "4294967295", "4294967296", "4102444800", "32503680000", "253402300800", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616",
    "99999999999999999999999999", "-9223372036854775808", "NaN", "inf", "1970-01-01", "2038-01-19T03:14:08Z", "2100-01-01", "x", "a b", "/etc/passwd", "../x", "C:\\x", "http://x/", "true", "hashed", "", " 1", "1 ", "\u{661}",
];
/// Comments of fields: each field name with each value, alone and among others.
pub fn field_texts() -> Vec<String> {
    let mut v = vec![];
    let more = crate::dict::texts();
    for (i, f) in FIELDS.iter().map(|s| s.to_string()).chain(more.into_iter().filter(|s| s.len() < 40)).enumerate() {
        for (j, x) in VALUES.iter().enumerate() {
            v.push(match (i + j) % 3 {
                0 => format!("{f}{x}"),
                1 => format!("{f}{x}\tfile:x\thashed"),
                _ => format!("a:b\t{f}{x}"),
            });
        }
    }
    v
}
fn fields() -> BoxedStrategy<String> {
    use proptest::collection::vec;
    let name = prop_oneof![4 => proptest::sample::select(FIELDS.to_vec()).prop_map(|s| s.to_string()), 1 => proptest::sample::select(crate::dict::texts())];
    let value = prop_oneof![
        3 => proptest::sample::select(VALUES.to_vec()).prop_map(|s| s.to_string()),
        2 => (any::<u64>(), 0u32..64).prop_map(|(n, b)| (n >> b).to_string()),
        2 => (1_700_000_000u64..2_000_000_000).prop_map(|n| n.to_string()),
        2 => vec(comment_char(), 0..8).prop_map(chars),
    ];
    (vec((name, value), 1..5), proptest::sample::select(vec!["\t", "\t", "\t", " ", ",", ";", ""])).prop_map(|(v, sep)| v.into_iter().map(|(a, b)| a + &b).collect::<Vec<_>>().join(sep)).boxed()
}
/// Any string without CR or LF.
pub fn comment() -> BoxedStrategy<String> {
    use proptest::collection::vec;
    prop_oneof![
        2 => fields(),
        8 => vec(comment_char(), 0..40).prop_map(chars),
        2 => (vec(proptest::sample::select(SPACES.to_vec()), 0..4), vec(comment_char(), 0..20), vec(proptest::sample::select(SPACES.to_vec()), 0..4))
            .prop_map(|(a, b, c)| format!("{}{}{}", chars(a), chars(b), chars(c))),
        1 => proptest::sample::select(vec![
            "".to_string(), " ".into(), "untrusted comment: ".into(), "trusted comment: ".into(), "timestamp:0".into(),
            "timestamp:1700000000\tfile:x\thashed".into(), "x".into()]),
        1 => (prop_oneof![6 => 0usize..2500, 1 => 1020usize..1030, 1 => 4090usize..4100, 1 => 8180usize..8200, 1 => 16380usize..16390, 1 => 65530usize..65540], comment_char())
            .prop_map(|(n, c)| c.to_string().repeat(n / c.len_utf8())),
        1 => (proptest::sample::select(vec![
                "untrusted comment: ", "trusted comment: ", "untrusted comment:", "trusted comment:", "Untrusted comment: ", "comment: ", "timestamp:", "\u{feff}", "minisign public key: ",
                "signature from rsign secret key", "rsign encrypted secret key", "RWQ", "RUQ", "\"", "'", "#", "//", "-", "%s", "{}", "\\n", "\\", "\u{202e}", "hashed"]), vec(comment_char(), 0..12), any::<u8>())
            .prop_map(|(t, v, how)| match how % 4 {
                0 => format!("{t}{}", chars(v)),
                1 => format!("{t}{t}{}", chars(v)),
                2 => format!("{}{t}", chars(v)),
                _ => format!("{}{t}{}", chars(v.clone()), chars(v)),
            }),
        1 => (proptest::sample::select(crate::dict::texts()), vec(comment_char(), 0..12), any::<u8>()).prop_map(|(t, v, how)| match how % 5 {
            0 => t,
            1 => format!("{t}{}", chars(v)),
            2 => format!("{}{t}", chars(v)),
            3 => format!("{}{t}{}", chars(v.clone()), chars(v)),
            _ => format!("{t}{t}"),
        }),
        1 => (proptest::sample::select(crate::dict::some_nums(5000)), comment_char()).prop_map(|(n, c)| c.to_string().repeat(n / c.len_utf8())),
        1 => (0usize..400, any::<u32>()).prop_map(|(n, s)| stream(s as u64, n).iter().map(|b| (b' ' + b % 95) as char).collect()),
    ]
    .boxed()
}
pub fn opt_comment() -> BoxedStrategy<Option<String>> {
    prop_oneof![1 => Just(None), 6 => comment().prop_map(Some)].boxed()
}
/// Key numbers whose seed or public key has a byte that stands out: zero anywhere, or a special
/// first or last byte (found by search).
pub const SPECIAL_KEYS: &[u32] = &[
    27, 30, 31, 36, 47, 56, 58, 69, 89, 99, 115, 123, 132, 134, 136, 137, 138, 145, 146, 153, 156, 178, 186, 188, 198, 203, 211, 219, 224, 227, 233, 238, 239, 265, 281, 288, 307, 310, 327, 339, 344, 352, 362, 384, 405, 478, 497, 515, 520, 522, 719, 813, 851, 926, 1195, 33390, 45693, 99591, 103822, 122758,
];
pub fn keyn() -> BoxedStrategy<u32> {
    prop_oneof![20 => 0u32..24, 2 => any::<u32>(), 2 => proptest::sample::select(SPECIAL_KEYS.to_vec())].boxed()
}
pub fn chunk_sizes() -> BoxedStrategy<Vec<usize>> {
    prop_oneof![
        2 => Just(vec![usize::MAX >> 1]),
        2 => proptest::collection::vec(1usize..300, 1..6),
        1 => proptest::collection::vec(prop_oneof![Just(1usize), Just(127), Just(128), Just(129), Just(255), Just(256), Just(257), Just(65535), Just(65536), 1usize..70000], 1..6),
        1 => proptest::collection::vec(proptest::sample::select(crate::dict::nums(1, 70_000).into_iter().chain([1]).collect::<Vec<_>>()), 1..6),
    ]
    .boxed()
}

// ---- keys
pub struct Key {
    pub n: u32,
    pub seed: [u8; 32],
    pub id: [u8; 8],
    pub pkb: [u8; 32],
    pub sk: SecretKey,
    pub pk: PublicKey,
    pub rpk: mini::PubKey,
    pub rsk: mini::SecKey,
}
pub fn pk_of(r: &mini::PubKey) -> PublicKey {
    PublicKey::from_bytes(&r.to_bytes()).expect("a well-formed public key must load")
}
pub fn sk_of(r: &mini::SecKey) -> SecretKey {
    SecretKey::from_bytes(&r.to_bytes()).expect("a well-formed secret key must load")
}
pub fn key_from(n: u32, seed: [u8; 32], id: [u8; 8]) -> Key {
    let pkb = vref::ed25519::public(&seed);
    let rpk = mini::PubKey { alg: *b"Ed", id, key: pkb };
    let rsk = mini::SecKey::plain(&id, &seed, &pkb);
    Key { n, seed, id, pkb, sk: sk_of(&rsk), pk: pk_of(&rpk), rpk, rsk }
}
pub fn seed_n(n: u32) -> [u8; 32] {
    match n {
        0 => [0; 32],
        1 => [0xff; 32],
        _ => stream(n as u64 | 1 << 33, 32).try_into().unwrap(),
    }
}
pub fn id_n(n: u32) -> [u8; 8] {
    let mut id: [u8; 8] = stream(n as u64 | 1 << 34, 8).try_into().unwrap();
    match n {
        2 => id = [0; 8],
        3 => id = [0xff; 8],
        4 => id[4..].fill(0),
        5 => id[..4].fill(0),
        6 => id[7] = 0x0a,
        _ => {}
    }
    id
}
/// Key number n: made from the reference, loaded from bytes.
pub fn key(n: u32) -> Rc<Key> {
    thread_local!(static C: RefCell<HashMap<u32, Rc<Key>>> = RefCell::new(HashMap::new()));
    C.with(|c| c.borrow_mut().entry(n).or_insert_with(|| Rc::new(key_from(n, seed_n(n), id_n(n)))).clone())
}
/// Key number n as the library generates it (its random source scripted).
pub fn lib_key(n: u32) -> Rc<Key> {
    thread_local!(static C: RefCell<HashMap<u32, Rc<Key>>> = RefCell::new(HashMap::new()));
    C.with(|c| {
        c.borrow_mut()
            .entry(n)
            .or_insert_with(|| {
                let kp = std::thread::spawn(move || {
                    getrandom::ctl::install(getrandom::ctl::Mode::Stream(n as u64 | 1 << 50), None, 5);
                    minisign::KeyPair::generate_unencrypted_keypair().expect("generate")
                })
                .join()
                .unwrap();
                let rsk = mini::SecKey::parse_bytes(&kp.sk.to_bytes()).expect("secret key layout");
                let rpk = mini::PubKey::parse_bytes(&kp.pk.to_bytes()).expect("public key layout");
                Rc::new(Key { n, seed: rsk.seed(), id: rsk.id(), pkb: rpk.key, sk: kp.sk, pk: kp.pk, rpk, rsk })
            })
            .clone()
    })
}

// ---- readers
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Fault {
    Other,
    BrokenPipe,
    UnexpectedEof,
    WouldBlock,
    TimedOut,
    PermissionDenied,
    InvalidData,
}
pub const FAULTS: [Fault; 7] =
    [Fault::Other, Fault::BrokenPipe, Fault::UnexpectedEof, Fault::WouldBlock, Fault::TimedOut, Fault::PermissionDenied, Fault::InvalidData];
impl Fault {
    pub fn err(self) -> io::Error {
        use io::ErrorKind::*;
        let k = match self {
            Fault::Other => Other,
            Fault::BrokenPipe => BrokenPipe,
            Fault::UnexpectedEof => UnexpectedEof,
            Fault::WouldBlock => WouldBlock,
            Fault::TimedOut => TimedOut,
            Fault::PermissionDenied => PermissionDenied,
            Fault::InvalidData => InvalidData,
        };
        io::Error::new(k, "injected fault")
    }
}

/// A reader over bytes that hands out the given chunk sizes in turn.
pub struct Rd<'a> {
    pub data: &'a [u8],
    pub pos: u64,
    pub sizes: Vec<usize>,
    pub calls: usize,
    /// (call number, what): that read call fails, and all later ones unless `once`
    pub fail: Option<(usize, Fault)>,
    pub once: bool,
    pub seeks: usize,
    pub fail_seek: bool,
    pub failed: bool,
}
impl<'a> Rd<'a> {
    pub fn new(data: &'a [u8], sizes: &[usize]) -> Rd<'a> {
        Rd { data, pos: 0, sizes: sizes.to_vec(), calls: 0, fail: None, once: false, seeks: 0, fail_seek: false, failed: false }
    }
}
impl Read for Rd<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let k = self.calls;
        self.calls += 1;
        if let Some((at, f)) = self.fail {
            if k == at || (k > at && !self.once) {
                assert!(k < at + 10_000, "a failing reader is read for ever");
                self.failed = true;
                return Err(f.err());
            }
        }
        let left = &self.data[(self.pos as usize).min(self.data.len())..];
        let want = self.sizes.get(k % self.sizes.len().max(1)).copied().unwrap_or(usize::MAX).max(1);
        let n = left.len().min(buf.len()).min(want);
        buf[..n].copy_from_slice(&left[..n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Rd<'_> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let np = match p {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.data.len() as i128 + d as i128,
        };
        if p != SeekFrom::Current(0) {
            self.seeks += 1;
            if self.fail_seek {
                self.failed = true;
                return Err(Fault::Other.err());
            }
        }
        if np < 0 {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.pos = np as u64;
        Ok(self.pos)
    }
}

// ---- driving the library
pub fn vfy_plain(pk: &PublicKey, b: &SignatureBox, data: &[u8], legacy: bool) -> Result<(), String> {
    minisign::verify(pk, b, Cursor::new(data), true, false, legacy).map_err(|e| e.to_string())
}
/// The verdict must not depend on how verification is called, so the call varies: mostly the
/// plain one; else with messages, with the data copied out, or with both, from a reader that
/// has already been read from. Redirects the standard streams: one thread only.
pub fn vfy(pk: &PublicKey, b: &SignatureBox, data: &[u8], legacy: bool) -> Result<(), String> {
    let how = vary(data, &minisign::SignatureBones::from(b.clone()).to_bytes());
    vfy_how(pk, b, data, legacy, how)
}
/// A number for choosing among ways of doing the same thing, fixed by the case.
pub fn vary(data: &[u8], more: &[u8]) -> u64 {
    let mut h = crate::engine::fnv(&data[..data.len().min(64)]) ^ data.len() as u64;
    h = h.wrapping_mul(0x9e3779b97f4a7c15) ^ crate::engine::fnv(more);
    h ^ h >> 29
}
pub fn vfy_how(pk: &PublicKey, b: &SignatureBox, data: &[u8], legacy: bool, how: u64) -> Result<(), String> {
    let call = |quiet: bool, output: bool, from: usize| {
        let run = || {
            if from == 0 {
                minisign::verify(pk, b, Cursor::new(data), quiet, output, legacy)
            } else {
                let mut v = vec![0x55; from];
                v.extend_from_slice(data);
                let mut c = Cursor::new(v);
                c.set_position(from as u64);
                minisign::verify(pk, b, &mut c, quiet, output, legacy)
            }
        };
        if quiet && !output { run() } else { capture_to(None, run).ret }
    };
    match how % 32 {
        0 => call(false, false, 0),
        1 => call(true, true, 0),
        2 => call(false, true, 0),
        3 => call(true, false, 1 + how as usize / 32 % 200),
        4 => call(how & 64 != 0, how & 128 != 0, 1 + how as usize / 256 % 200),
        _ => call(true, false, 0),
    }
    .map_err(|e| e.to_string())
}
pub fn sgn(k: &Key, data: &[u8], tc: Option<&str>, uc: Option<&str>) -> Result<SignatureBox, String> {
    minisign::sign(None, &k.sk, Cursor::new(data), tc, uc).map_err(|e| format!("signing failed: {e}"))
}
pub fn load(s: &str) -> Result<SignatureBox, String> {
    SignatureBox::from_string(s).map_err(|e| e.to_string())
}
/// Parse a box the library made with the independent parser.
pub fn parse(b: &SignatureBox) -> Result<mini::Sig, String> {
    let s = b.to_string();
    mini::Sig::parse_file(&s).ok_or_else(|| format!("the signature file is not in the Minisign format: {s:?}"))
}
pub fn bones(raw: &[u8]) -> Result<SignatureBox, String> {
    minisign::SignatureBones::from_bytes(raw).map(SignatureBox::from).map_err(|e| e.to_string())
}
/// Bare signature bytes over `data` by key `k` from the reference.
pub fn bare_ref(k: &Key, prehashed: bool, data: &[u8]) -> Vec<u8> {
    let mut v = if prehashed { b"ED".to_vec() } else { b"Ed".to_vec() };
    v.extend_from_slice(&k.id);
    v.extend_from_slice(&vref::ed25519::sign(&k.seed, &mini::Sig::message(prehashed, data)));
    v
}

pub fn scratch() -> PathBuf {
    let p = PathBuf::from(std::env::var("HARNESS_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().join("verif-scratch").display().to_string()));
    let _ = std::fs::create_dir_all(&p);
    p
}

/// What a closure wrote to file descriptors 1 and 2.
pub struct Captured<T> {
    pub ret: T,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
}
fn memfd() -> std::fs::File {
    unsafe {
        let fd = libc::memfd_create(c"cap".as_ptr(), 0);
        assert!(fd >= 0, "memfd_create");
        std::fs::File::from_raw_fd(fd)
    }
}
/// `out`: where fd 1 goes instead of a memory file.
pub fn capture_to<T>(out: Option<&std::fs::File>, f: impl FnOnce() -> T) -> Captured<T> {
    let (mo, me) = (memfd(), memfd());
    let _ = io::stdout().flush();
    let (s1, s2) = unsafe { (libc::dup(1), libc::dup(2)) };
    unsafe {
        libc::dup2(out.map(|o| o.as_raw_fd()).unwrap_or(mo.as_raw_fd()), 1);
        libc::dup2(me.as_raw_fd(), 2);
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    if out.is_some() {
        // what could not be written must not turn up later: drain it elsewhere
        let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
        unsafe { libc::dup2(null.as_raw_fd(), 1) };
    }
    let _ = io::stdout().flush();
    unsafe {
        libc::dup2(s1, 1);
        libc::dup2(s2, 2);
        libc::close(s1);
        libc::close(s2);
    }
    let rd = |mut f: std::fs::File| {
        let mut v = vec![];
        f.seek(SeekFrom::Start(0)).unwrap();
        f.read_to_end(&mut v).unwrap();
        v
    };
    let (o, e) = (rd(mo), rd(me));
    match r {
        Ok(ret) => Captured { ret, out: o, err: e },
        Err(p) => std::panic::resume_unwind(p),
    }
}
pub fn capture<T>(f: impl FnOnce() -> T) -> Captured<T> {
    capture_to(None, f)
}
/// Runs `f` with standard output on a file that takes `limit` bytes and then fails (EFBIG); what the file got.
pub fn capture_limited<T>(limit: u64, f: impl FnOnce() -> T) -> (T, Vec<u8>) {
    let p = scratch().join("limited.out");
    let w = std::fs::File::create(&p).unwrap();
    let mut old = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    let got = unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        assert!(libc::getrlimit(libc::RLIMIT_FSIZE, &mut old) == 0);
        let new = libc::rlimit { rlim_cur: limit, rlim_max: old.rlim_max };
        let r = capture_to(Some(&w), || {
            assert!(libc::setrlimit(libc::RLIMIT_FSIZE, &new) == 0);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            assert!(libc::setrlimit(libc::RLIMIT_FSIZE, &old) == 0);
            r
        });
        r.ret.unwrap_or_else(|p| std::panic::resume_unwind(p))
    };
    let v = std::fs::read(&p).unwrap();
    (got, v)
}
pub fn contains(h: &[u8], n: &[u8]) -> bool {
    !n.is_empty() && h.windows(n.len()).any(|w| w == n)
}

/// Processor time of this thread, in seconds.
pub fn cpu() -> f64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t);
        t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
    }
}

// ---- texts that something might take for the same
pub const FORMS: u8 = 50;
/// Another text that some normalisation, or some program text passes through, makes equal to `s`.
pub fn form(s: &str, how: u8) -> String {
    const PAIRS: &[(&str, &str)] = &[("é", "e\u{301}"), ("á", "a\u{301}"), ("ü", "u\u{308}"), ("ö", "o\u{308}"), ("ñ", "n\u{303}"), ("å", "a\u{30a}"), ("É", "E\u{301}"), ("ﬁ", "fi"), ("ß", "ss"), ("Å", "Å")];
    const QUOTES: &[(&str, &str)] = &[("\u{2018}", "'"), ("\u{2019}", "'"), ("\u{201c}", "\""), ("\u{201d}", "\""), ("\u{2013}", "-"), ("\u{2014}", "--"), ("\u{2026}", "..."), ("\u{a0}", " ")];
    const INVISIBLE: &[char] = &['\u{200b}', '\u{200c}', '\u{200d}', '\u{2060}', '\u{feff}', '\u{ad}', '\u{200e}', '\u{200f}', '\u{202e}'];
    let all = |p: &[(&str, &str)], back: bool| p.iter().fold(s.to_string(), |s, (a, b)| if back { s.replace(b, a) } else { s.replace(a, b) });
    let words = || s.split(' ').collect::<Vec<_>>();
    let map = |f: fn(char) -> char| s.chars().map(f).collect::<String>();
    let first = |f: fn(&str) -> String| {
        let n = s.find(|c: char| !c.is_alphanumeric()).unwrap_or(s.len());
        format!("{}{}", f(&s[..n]), &s[n..])
    };
    match how % FORMS {
        0 => s.to_uppercase(),
        1 => s.to_lowercase(),
        2 => map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }),
        3 => s.chars().enumerate().map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else { c }).collect(),
        4 => first(|w| w.to_uppercase()),
        5 => first(|w| w.to_lowercase()),
        6 => s.split_whitespace().collect::<Vec<_>>().join(" "),
        7 => s.replace(' ', "  "),
        8 => s.chars().filter(|c| !c.is_whitespace()).collect(),
        9 => s.replace('\t', " "),
        10 => s.replace(' ', "\t"),
        11 => all(PAIRS, false),
        12 => all(PAIRS, true),
        13 => s.chars().filter(|c| c.is_ascii()).collect(),
        14 => s.chars().filter(|c| !('\u{300}'..'\u{370}').contains(c)).collect(),
        15 => s.chars().filter(|c| !INVISIBLE.contains(c)).collect(),
        16 => s.chars().enumerate().flat_map(|(i, c)| if i == 0 { vec![c, '\u{200b}'] } else { vec![c] }).collect(),
        17 => map(|c| if ('\u{ff01}'..='\u{ff5e}').contains(&c) { char::from_u32(c as u32 - 0xfee0).unwrap() } else { c }),
        18 => map(|c| if ('!'..='~').contains(&c) { char::from_u32(c as u32 + 0xfee0).unwrap() } else { c }),
        19 => s.trim_matches(['"', '\'', '`']).to_string(),
        20 => format!("\"{s}\""),
        21 => s.replace("%20", " "),
        22 => s.replace(' ', "%20"),
        23 => s.replace("&amp;", "&").replace("&lt;", "<").replace("&#9;", "\t"),
        24 => s.replace('&', "&amp;").replace('<', "&lt;"),
        25 => match s.find(|c: char| c.is_ascii_digit()) {
            Some(i) => format!("{}0{}", &s[..i], &s[i..]),
            None => s.to_string(),
        },
        26 => match s.find('0') {
            Some(i) => format!("{}{}", &s[..i], &s[i + 1..]),
            None => s.to_string(),
        },
        27 => s.trim_end_matches(|c: char| c.is_ascii_punctuation()).to_string(),
        28 => format!("{s}."),
        29 => s.replace('-', "_"),
        30 => s.replace('_', "-"),
        31 => s.chars().filter(|c| !c.is_control()).collect(),
        32 => s.replace('\\', "/"),
        33 => s.replace('/', "\\"),
        34 => s.replace('+', " "),
        35 => all(QUOTES, false),
        36 => s.split('\t').next().unwrap().to_string(),
        37 => s.split('\0').next().unwrap().to_string(),
        38 => s.split('#').next().unwrap().to_string(),
        39 => {
            let mut w = words();
            w.sort();
            w.join(" ")
        }
        40 => words().into_iter().rev().collect::<Vec<_>>().join(" "),
        41 => s.replace(' ', "\u{a0}"),
        42 => s.replace(": ", ":"),
        43 => s.replace(':', ": "),
        44 => s.replace('\0', ""),
        45 => s.replace("\\n", "").replace("\\t", "\t"),
        46 => s.split('\t').skip(1).collect::<Vec<_>>().join("\t"),
        47 => s.to_lowercase().to_uppercase(),
        48 => s.chars().map(|c| if c.is_whitespace() { ' ' } else { c }).collect(),
        _ => s.rsplit('\t').collect::<Vec<_>>().join("\t"),
    }
}
/// Texts with something in them for each of the forms.
pub const FORM_TEXTS: &[&str] = &[
    "timestamp:1700000000\tfile:Some File.txt\thashed",
    "Caf\u{e9} cafe\u{301}  \"quoted\" a-b_c \\path/to\\x %20 &amp; <x> 007 1.0 a+b #end.",
    "\u{201c}curly\u{201d} \u{2013} \u{ff21}\u{ff22}\u{ff11} zero\u{200b}width \u{a0}nbsp stra\u{df}e \u{fb01}n \u{212b} a\0b\u{1}c",
    "untrusted comment: x",
    "b a",
];

/// Line `i` ends in CRLF if bit `i` of `ends` is set (beyond the fourth, as the fourth); the last one ends in
/// nothing if bit 4 is.
pub fn line_ends(s: &str, ends: u8) -> String {
    let mut o = String::with_capacity(s.len() + 8);
    let mut rest = s;
    let mut i = 0;
    while let Some(n) = rest.find('\n') {
        o.push_str(&rest[..n]);
        rest = &rest[n + 1..];
        if rest.is_empty() && ends & 16 != 0 {
            break;
        }
        o.push_str(if ends >> i.min(3) & 1 == 1 { "\r\n" } else { "\n" });
        i += 1;
    }
    o + rest
}
/// How the lines end: all in LF, all in CRLF, or any mixture.
pub fn ends() -> impl Strategy<Value = u8> {
    prop_oneof![2 => Just(0u8), 2 => Just(15), 2 => 0u8..32]
}
