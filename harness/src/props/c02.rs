//! Altered data never verifies.
use crate::dict;
use crate::engine::*;
use crate::util::*;
use minisign::{SignatureBones, SignatureBox};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vref::{blake2b, mini};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Kind {
    Prehashed,
    Legacy,
    BarePrehashed,
    BareLegacy,
}
pub const KINDS: [Kind; 4] = [Kind::Prehashed, Kind::Legacy, Kind::BarePrehashed, Kind::BareLegacy];

/// A valid box of the given kind: pre-hashed ones made by the library.
pub fn make(k: &Key, kind: Kind, data: &[u8], tc: &str) -> Result<SignatureBox, String> {
    Ok(match kind {
        Kind::Prehashed => sgn(k, data, Some(tc), Some("u"))?,
        Kind::Legacy => load(&mini::Sig::make(false, &k.seed, &k.id, data, tc, "u").to_file())?,
        Kind::BarePrehashed => SignatureBones::from(sgn(k, data, Some(tc), None)?).into(),
        Kind::BareLegacy => bones(&bare_ref(k, false, data))?,
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit {
    Flip(usize, u8),
    Truncate(usize),
    DropHead(usize),
    Append(Hex),
    Prepend(Hex),
    Insert(usize, Hex),
    Delete(usize, usize),
    Swap(usize, usize, usize),
    Replace(Data),
    Digest,
    Reverse,
    Double,
    /// SHA-512 or BLAKE2b style padding glued on
    Pad(usize),
    /// what a text mode or a filter would do
    Text(u8),
}
fn replace(d: &[u8], from: &[u8], to: &[u8]) -> Vec<u8> {
    let (mut v, mut i) = (vec![], 0);
    while i < d.len() {
        if d[i..].starts_with(from) {
            v.extend_from_slice(to);
            i += from.len();
        } else {
            v.push(d[i]);
            i += 1;
        }
    }
    v
}
pub const TEXTS: u8 = 21 + 1 + FORMS;
fn text(d: &[u8], how: u8) -> Vec<u8> {
    let end = |f: fn(u8) -> bool| d[..d.len() - d.iter().rev().take_while(|b| f(**b)).count()].to_vec();
    match how % TEXTS {
        0 => replace(d, b"\r\n", b"\n"),
        1 => replace(&replace(d, b"\r\n", b"\n"), b"\n", b"\r\n"),
        2 => replace(d, b"\r", b""),
        3 => replace(d, b"\n", b""),
        4 => replace(d, b"\r", b"\n"),
        5 => end(|b| b == b'\n' || b == b'\r'),
        6 => end(|b| b.is_ascii_whitespace()),
        7 => end(|b| b == 0),
        8 => d.trim_ascii_start().to_vec(),
        9 => d.strip_prefix(b"\xef\xbb\xbf").unwrap_or(d).to_vec(),
        10 => [b"\xef\xbb\xbf", d].concat(),
        11 => replace(d, b"\0", b""),
        12 => d.to_ascii_lowercase(),
        13 => d.to_ascii_uppercase(),
        14 => d.iter().map(|b| b & 0x7f).collect(),
        15 => [d, b"\n"].concat(),
        16 => d.split(|b| *b == 0x1a).next().unwrap().to_vec(),
        17 => d.split(|b| *b == 0).next().unwrap().to_vec(),
        18 => replace(&replace(d, b"\t", b" "), b"  ", b" "),
        19 => replace(d, b"e\xcc\x81", b"\xc3\xa9"),
        20 => replace(d, b"\n\n", b"\n"),
        21 => String::from_utf8_lossy(d).into_owned().into_bytes(),
        how => form(&String::from_utf8_lossy(d), how - 22).into_bytes(),
    }
}
pub fn edit(d: &[u8], e: &Edit) -> Vec<u8> {
    let mut v = d.to_vec();
    let at = |p: usize, n: usize| if n == 0 { 0 } else { p % n };
    match e {
        Edit::Flip(p, b) => {
            if !v.is_empty() {
                let i = at(*p, v.len());
                v[i] ^= 1 << (b & 7)
            }
        }
        Edit::Truncate(n) => v.truncate(v.len().saturating_sub(*n)),
        Edit::DropHead(n) => {
            v.drain(..(*n).min(v.len()));
        }
        Edit::Append(h) => v.extend_from_slice(&h.0),
        Edit::Prepend(h) => v = [&h.0[..], &v].concat(),
        Edit::Insert(p, h) => {
            let i = at(*p, v.len() + 1);
            v.splice(i..i, h.0.iter().copied());
        }
        Edit::Delete(p, n) => {
            let i = at(*p, v.len() + 1);
            v.drain(i..(i + n).min(v.len()));
        }
        Edit::Swap(i, j, size) => {
            let size = (*size).max(1);
            let n = v.len() / size;
            if n > 1 {
                let (i, j) = (i % n, j % n);
                for k in 0..size {
                    v.swap(i * size + k, j * size + k)
                }
            }
        }
        Edit::Replace(d) => v = d.bytes(),
        Edit::Digest => v = blake2b::hash(64, &v),
        Edit::Reverse => v.reverse(),
        Edit::Double => v.extend_from_within(..),
        Edit::Pad(b) => {
            let b = (*b).max(1);
            let n = v.len() as u128 * 8;
            v.push(0x80);
            while v.len() % b != b.saturating_sub(16) % b {
                v.push(0)
            }
            v.extend_from_slice(&n.to_be_bytes())
        }
        Edit::Text(how) => v = text(&v, *how),
    }
    v
}
pub fn an_edit() -> BoxedStrategy<Edit> {
    let bytes = || {
        prop_oneof![
            Just(vec![0u8]),
            Just(vec![0u8; 16]),
            Just(vec![0u8; 128]),
            Just(vec![10u8]),
            Just(vec![13u8, 10]),
            Just(vec![0xff]),
            Just(vec![0x80]),
            proptest::collection::vec(any::<u8>(), 1..40)
        ]
        .prop_map(Hex)
    };
    let pos = || prop_oneof![0usize..400, any::<u32>().prop_map(|x| x as usize)];
    let n = || prop_oneof![Just(1usize), Just(128), Just(65536), 1usize..300, 1usize..70_000];
    prop_oneof![
        6 => (pos(), 0u8..8).prop_map(|(p, b)| Edit::Flip(p, b)),
        2 => n().prop_map(Edit::Truncate),
        2 => n().prop_map(Edit::DropHead),
        3 => bytes().prop_map(Edit::Append),
        2 => bytes().prop_map(Edit::Prepend),
        2 => (pos(), bytes()).prop_map(|(p, b)| Edit::Insert(p, b)),
        2 => (pos(), n()).prop_map(|(p, n)| Edit::Delete(p, n)),
        3 => (any::<u8>(), any::<u8>(), prop_oneof![Just(1usize), Just(64), Just(128), Just(256), Just(65536), 1usize..200]).prop_map(|(i, j, s)| Edit::Swap(i as usize, j as usize, s)),
        2 => data().prop_map(Edit::Replace),
        1 => Just(Edit::Digest),
        1 => Just(Edit::Reverse),
        1 => Just(Edit::Double),
        1 => prop_oneof![Just(64usize), Just(128)].prop_map(Edit::Pad),
        5 => (0..TEXTS).prop_map(Edit::Text),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    key: u32,
    kind: Kind,
    data: Data,
    edits: Vec<Edit>,
    chunks: Vec<usize>,
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C02";
    const RULE: &'static str = "A valid box (pre-hashed by the library, legacy by the reference, or either in bare form) and data changed by 1-3 edits (bit flip, truncation, removal, insertion, appended zeros or padding, block swap, what text modes change, replacement, digest instead of data). Enumerated: every single-bit flip for short data of all four kinds, one flip per byte up to 520 bytes, every truncation and 1..130 appended zeros, block swaps, boundary lengths around 65536. Non-trivial: the unedited data verified and the edited bytes differ from it.";
    fn fixed(t: Tier) -> Vec<Case> {
        let mut v = vec![];
        let mut add = |kind, data: Data, e: Edit| v.push(Case { key: 8, kind, data, edits: vec![e], chunks: vec![] });
        for kind in KINDS {
            for len in [1usize, 3, 64] {
                for bit in 0..len * 8 {
                    add(kind, gen(len, 5), Edit::Flip(bit / 8, bit as u8 % 8));
                }
            }
            for pos in 0..520 {
                add(kind, gen(520, 5), Edit::Flip(pos, (pos % 8) as u8));
            }
            for n in 1..=t.pick(260usize, 1000) {
                add(kind, gen(260, 6), Edit::Truncate(n));
                add(kind, Data::Fill { len: 260, byte: 0 }, Edit::Truncate(n));
                add(kind, gen(260, 6), Edit::DropHead(n));
            }
            for len in [0usize, 1, 63, 64, 100, 111, 112, 127, 128, 129, 255, 256] {
                for n in (1..20).chain([63, 64, 65, 127, 128, 129]) {
                    add(kind, gen(len, 4), Edit::Append(Hex(vec![0; n])));
                    add(kind, Data::Fill { len, byte: 0 }, Edit::Append(Hex(vec![0; n])));
                }
                for b in [64, 128] {
                    add(kind, gen(len, 4), Edit::Pad(b));
                }
                add(kind, gen(len, 4), Edit::Append(Hex(vec![b'\n'])));
                add(kind, gen(len, 4), Edit::Digest);
            }
            for m in 1..=3usize {
                for d in 0..5 {
                    let len = m * 65536 + d - 2;
                    for e in [
                        Edit::Flip(len - 1, 0),
                        Edit::Flip(65535, 7),
                        Edit::Flip(0, 0),
                        Edit::Flip(65536, 3),
                        Edit::Truncate(1),
                        Edit::Truncate(len % 65536),
                        Edit::Truncate(65536),
                        Edit::Append(Hex(vec![0])),
                        Edit::Append(Hex(vec![0; 65536])),
                        Edit::Swap(0, 1, 65536),
                        Edit::DropHead(65536),
                    ] {
                        add(kind, gen(len, 9), e);
                    }
                }
            }
            for mib in t.pick(vec![1usize, 2, 8, 20], vec![1, 2, 4, 8, 16, 17, 20, 32, 64, 129]) {
                let len = (mib << 20) + 5;
                for e in [Edit::Flip(len - 1, 0), Edit::Flip(len / 2, 1), Edit::Truncate(1), Edit::Truncate(5), Edit::Truncate(len / 2), Edit::Append(Hex(vec![0])), Edit::Swap(0, 1, 65536)] {
                    add(kind, gen(len, 9), e);
                }
            }
            for how in 0..TEXTS {
                for b in [&b"\xef\xbb\xbf  A\tline\r\nand  more\r\n\n\0e\xcc\x81 \x1a\xff.\r\n\0\0"[..], b"\xef\xbb\xbfText\r\nText\r\n\r\n", b"Text\n\n", b"TEXT \n", b"text\0", b"\n", b" ", b"\0", b"\xef\xbb\xbf"] {
                    add(kind, Data::Raw(Hex(b.to_vec())), Edit::Text(how));
                }
                for s in FORM_TEXTS {
                    add(kind, Data::Raw(Hex(s.as_bytes().to_vec())), Edit::Text(how));
                }
            }
            for len in dict::lens() {
                for e in [Edit::Flip(len - 1, 0), Edit::Flip(0, 1), Edit::Truncate(1), Edit::Append(Hex(vec![0])), Edit::Append(Hex(vec![1; 300]))] {
                    add(kind, gen(len, 9), e);
                }
            }
            for len in dict::long_lens() {
                for e in [Edit::Flip(len - 1, 0), Edit::Append(Hex(vec![0]))] {
                    add(kind, gen(len, 9), e);
                }
            }
            for b in dict::bytes() {
                for d in [b.clone(), [&b[..], b"x"].concat(), [b"x", &b[..]].concat(), [&b[..], b"x", &b[..]].concat()] {
                    for e in [Edit::Flip(0, 1), Edit::Truncate(b.len()), Edit::DropHead(b.len()), Edit::Append(Hex(b.clone()))] {
                        add(kind, Data::Raw(Hex(d.clone())), e);
                    }
                }
            }
            // round lengths, at which a cap on what is read would lie
            let mut round: Vec<usize> = (7..20).map(|k| 1usize << k).chain([1000, 4000, 5000, 10_000, 50_000, 100_000, 500_000, 1_000_000, 10_000_000]).collect();
            round.extend(t.pick((1..=20usize).chain([24, 32, 50, 64, 100]).collect::<Vec<_>>(), (1..=130).chain([256, 500, 512]).collect()).iter().map(|m| m << 20));
            for len in round {
                add(kind, gen(len, 9), Edit::Append(Hex(vec![1])));
            }
            for n in 2..8 {
                for j in 1..n {
                    add(kind, gen(n * 128 + 3, 2), Edit::Swap(0, j, 128));
                    add(kind, gen(n * 64 + 3, 2), Edit::Swap(0, j, 64));
                }
            }
        }
        v
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        (keyn(), proptest::sample::select(KINDS.to_vec()), data(), proptest::collection::vec(an_edit(), 1..4), chunk_sizes())
            .prop_map(|(key, kind, data, edits, chunks)| Case { key, kind, data, edits, chunks })
            .boxed()
    }
    fn fast_only(c: &Case) -> bool {
        c.data.len() > 1 << 19
    }
    fn cases(t: Tier) -> u32 {
        t.pick(100_000, 800_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> R {
        let k = key(c.key);
        let d = c.data.bytes();
        let mut e = d.clone();
        for x in &c.edits {
            e = edit(&e, x);
        }
        if e == d {
            cx.label("edit changed nothing");
            return Ok(());
        }
        let Ok(b) = make(&k, c.kind, &d, "t") else {
            cx.label("no valid signature to start from");
            return Ok(());
        };
        if vfy(&k.pk, &b, &d, true).is_err() {
            cx.label("no valid signature to start from");
            return Ok(());
        }
        let how = vary(&e, &d[..d.len().min(64)]);
        let (quiet, output) = (how % 16 > 1, how % 16 == 1 || how % 16 == 2);
        let run = || minisign::verify(&k.pk, &b, Rd::new(&e, &c.chunks), quiet, output, true);
        let r = if quiet && !output { run() } else { capture_to(None, run).ret };
        ensure!(r.is_err(), "{:?} signature of {} bytes verifies over {} other bytes", c.kind, d.len(), e.len());
        cx.label(format!("{:?}", c.kind));
        cx.nontrivial();
        Ok(())
    }
}
