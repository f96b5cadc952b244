//! Bare signatures.
use crate::dict;
use crate::engine::*;
use crate::util::*;
use minisign::{SignatureBones, SignatureBox};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vref::mini;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Other {
    Data(usize, u8),
    Longer,
    Shorter,
    Empty,
    Digest,
    Key,
    Id(usize, u8),
    SigBit(usize, u8),
    SigId(usize, u8),
    Tag,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    Box_ { key: u32, data: Data, legacy: bool, tc: String, uc: String, others: Vec<Other> },
    /// any bytes
    Bytes { bytes: Hex },
    /// valid bytes cut to this length, or under this tag
    Cut { key: u32, len: usize },
    Tags { first: u8 },
}
const OTHERS: [Other; 12] = [
    Other::Data(0, 1),
    Other::Data(usize::MAX / 7, 0x80),
    Other::Longer,
    Other::Shorter,
    Other::Empty,
    Other::Digest,
    Other::Key,
    Other::Id(0, 1),
    Other::Id(7, 0x80),
    Other::SigBit(0, 1),
    Other::SigId(3, 1),
    Other::Tag,
];
fn no_comments(b: &SignatureBox) -> R {
    ensure!(b.trusted_comment().is_err(), "a bare signature has a trusted comment: {:?}", b.trusted_comment());
    ensure!(b.untrusted_comment().map_or(true, |c| c.is_empty()), "a bare signature has an untrusted comment: {:?}", b.untrusted_comment());
    Ok(())
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C20";
    const RULE: &'static str = "Boxes (library-signed and reference-made legacy ones, any comments) reduced to bare form, written, reloaded and turned back into boxes, compared field by field and in their verdict with the original box over the same and over altered data, keys, ids and signature bytes under both legacy flags; byte strings of every length up to 160, arbitrary, and under all 65536 tags. Non-trivial: a bare signature's verdicts were compared with its box's, or the acceptance of a byte string was decided.";
    fn fixed(_t: Tier) -> Vec<Case> {
        let mut v = vec![];
        for key in 0..24 {
            for legacy in [false, true] {
                v.push(Case::Box_ { key, data: gen(key as usize * 37, 1), legacy, tc: "a trusted comment".into(), uc: "an untrusted comment".into(), others: OTHERS.to_vec() });
            }
        }
        for i in 0..64 {
            v.push(Case::Box_ { key: 9, data: gen(64, 1), legacy: i % 2 == 0, tc: "t".into(), uc: "u".into(), others: (0..8).map(|b| Other::SigBit(i, 1 << b)).collect() });
        }
        for (i, len) in dict::lens().into_iter().enumerate() {
            v.push(Case::Box_ { key: 9, data: gen(len, 1), legacy: i % 2 == 0, tc: dict::text(len), uc: "u".into(), others: OTHERS.to_vec() });
        }
        for (i, tc) in dict::texts().into_iter().enumerate() {
            v.push(Case::Box_ { key: 9, data: gen(9, 1), legacy: i % 2 == 0, tc: tc.clone(), uc: tc, others: vec![] });
        }
        for len in 0..160 {
            v.push(Case::Cut { key: 9, len });
        }
        for first in 0..=255 {
            v.push(Case::Tags { first });
        }
        v
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        use proptest::collection::vec;
        let other = prop_oneof![
            (any::<usize>(), 1u8..).prop_map(|(i, x)| Other::Data(i, x)),
            (0usize..8, 1u8..).prop_map(|(i, x)| Other::Id(i, x)),
            (0usize..64, 1u8..).prop_map(|(i, x)| Other::SigBit(i, x)),
            (0usize..8, 1u8..).prop_map(|(i, x)| Other::SigId(i, x)),
            proptest::sample::select(OTHERS.to_vec()),
        ];
        prop_oneof![
            6 => (keyn(), data(), any::<bool>(), comment(), comment(), vec(other, 0..4)).prop_map(|(key, data, legacy, tc, uc, others)| Case::Box_ { key, data, legacy, tc, uc, others }),
            2 => vec(any::<u8>(), 0..160).prop_map(|b| Case::Bytes { bytes: Hex(b) }),
            2 => (any::<bool>(), vec(any::<u8>(), 0..160)).prop_map(|(l, mut b)| {
                b.splice(0..0, if l { *b"Ed" } else { *b"ED" });
                Case::Bytes { bytes: Hex(b) }
            }),
            1 => (keyn(), 0usize..160).prop_map(|(key, len)| Case::Cut { key, len }),
        ]
        .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(80_000, 1_500_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> R {
        ensure!(SignatureBones::BYTES == 74, "BYTES is {}", SignatureBones::BYTES);
        match c {
            Case::Box_ { key: n, data, legacy, tc, uc, others } => {
                let k = key(*n);
                let d = data.bytes();
                let s = if *legacy { mini::Sig::make(false, &k.seed, &k.id, &d, tc, uc) } else { parse(&sgn(&k, &d, Some(tc), Some(uc))?)? };
                let b = load(&s.to_file())?;
                let bones1 = SignatureBones::from(b.clone());
                let raw = bones1.to_bytes();
                ensure!(raw == s.bare(), "bare form {} of a box with {}", hex(&raw), hex(&s.bare()));
                ensure!(bones1.is_prehashed() == !legacy, "pre-hash flag of the bare signature");
                let bones2 = SignatureBones::from_bytes(&raw).map_err(|e| format!("written bytes do not load: {e}"))?;
                ensure!(bones2.to_bytes() == raw && bones2.is_prehashed() == !legacy, "reloaded differently: {}", hex(&bones2.to_bytes()));
                let forms = [SignatureBox::from(bones1), SignatureBox::from(bones2), SignatureBox::from(SignatureBones::from(bones(&raw)?))];
                for f in &forms {
                    no_comments(f)?;
                    ensure!(f.keynum() == k.id && f.is_prehashed() == !legacy, "key id or flag of the box made from a bare signature");
                    for allow in [false, true] {
                        let expect = allow || !legacy;
                        for how in [5, (d.len() % 5) as u64 | 64 * (n % 4) as u64] {
                            let r = vfy_how(&k.pk, f, &d, allow, how);
                            ensure!(r.is_ok() == expect, "bare signature, legacy {legacy}, allowed {allow}, called in way {how}: {r:?}");
                        }
                        ensure!(vfy(&k.pk, &b, &d, allow).is_ok() == expect, "the box itself, legacy {legacy}, allowed {allow}");
                    }
                }
                for o in others {
                    let (mut d2, mut pk, mut raw2) = (d.clone(), k.rpk.clone(), raw.clone());
                    match o {
                        Other::Data(i, x) => {
                            if !d2.is_empty() {
                                let n = d2.len();
                                d2[i % n] ^= x
                            }
                        }
                        Other::Longer => d2.push(0),
                        Other::Shorter => {
                            d2.pop();
                        }
                        Other::Empty => d2.clear(),
                        // a pre-hashed signature is one of the digest: the tag must keep them apart
                        Other::Digest => d2 = vref::blake2b::hash(64, &d),
                        Other::Key => pk.key = key(n ^ 1).rpk.key,
                        Other::Id(i, x) => pk.id[*i] ^= x,
                        Other::SigBit(i, x) => raw2[10 + i] ^= x,
                        Other::SigId(i, x) => raw2[2 + i] ^= x,
                        Other::Tag => raw2[1] ^= 0x20,
                    }
                    let f = bones(&raw2).map_err(|e| format!("{o:?}: does not load: {e}"))?;
                    let lpk = pk_of(&pk);
                    let same = d2 == d && pk == k.rpk && raw2 == raw;
                    // the box over the same: its comment signature must not matter here
                    let mut s2 = s.clone();
                    s2.alg = raw2[..2].try_into().unwrap();
                    s2.id = raw2[2..10].try_into().unwrap();
                    s2.sig = raw2[10..].try_into().unwrap();
                    s2.global = vref::ed25519::sign(&k.seed, &s2.signed_comment());
                    let whole = load(&s2.to_file())?;
                    for allow in [false, true] {
                        let r = vfy(&lpk, &f, &d2, allow);
                        ensure!(r.is_ok() == (same && (allow || !legacy)), "{o:?}: legacy {legacy}, allowed {allow}: {r:?}");
                        let w = vfy(&lpk, &whole, &d2, allow);
                        ensure!(w.is_ok() == r.is_ok(), "{o:?}: allowed {allow}: bare {r:?}, box {w:?}");
                    }
                    cx.label(format!("{o:?}").split('(').next().unwrap());
                }
                cx.label(if *legacy { "legacy box" } else { "pre-hashed box" });
            }
            Case::Bytes { bytes } => {
                let b = &bytes.0;
                let r = SignatureBones::from_bytes(b);
                let known = b.len() >= 2 && (b[..2] == *b"Ed" || b[..2] == *b"ED");
                if b.len() < 74 || !known {
                    ensure!(r.is_err(), "{} bytes load as a bare signature", b.len());
                    cx.label("refused bytes");
                } else if b.len() == 74 {
                    let s = r.map_err(|e| format!("74 bytes do not load: {e}"))?;
                    ensure!(s.to_bytes() == *b && s.is_prehashed() == (b[1] == b'D'), "loaded as {}", hex(&s.to_bytes()));
                    cx.label("74 bytes");
                } else if let Ok(s) = r {
                    ensure!(s.to_bytes()[..] == b[..74], "loaded as {}", hex(&s.to_bytes()));
                    cx.label("longer bytes");
                }
            }
            Case::Cut { key: n, len } => {
                let mut raw = bare_ref(&key(*n), true, b"data");
                raw.resize(160, 0);
                let r = SignatureBones::from_bytes(&raw[..*len]);
                ensure!(*len >= 74 || r.is_err(), "{len} bytes load as a bare signature");
                ensure!(*len != 74 || r.is_ok(), "a bare signature does not load");
                cx.label("cut");
            }
            Case::Tags { first } => {
                let mut raw = bare_ref(&key(9), true, b"data");
                for second in 0..=255u8 {
                    raw[0] = *first;
                    raw[1] = second;
                    let known = raw[..2] == *b"Ed" || raw[..2] == *b"ED";
                    let r = SignatureBones::from_bytes(&raw);
                    ensure!(r.is_ok() == known, "tag {first:02x}{second:02x}: loads {}", r.is_ok());
                    cx.add("tags tried", 1);
                }
            }
        }
        cx.nontrivial();
        Ok(())
    }
}
