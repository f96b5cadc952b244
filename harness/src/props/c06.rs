//! Signature checks agree with Ed25519 on every input, edge cases included.
//! A bare legacy signature makes `verify` a plain Ed25519 verifier over the data.
use crate::dict;
use crate::engine::*;
use crate::props::c06_tables::{MESSAGES, MULTIPLES};
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vref::ed25519::{self as ed, Point};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Pk {
    Key(u32),
    NegKey(u32),
    /// key plus i times a point of order 8
    Mixed(u32, u8),
    /// k times the base point
    Scalar(u64),
    /// minus that
    NegScalar(u64),
    Bytes(Hex),
    Identity,
    IdentityNeg,
    Zero,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Sg {
    Honest,
    /// R = r*B + j*T8 (r from the reference when None), S made to fit
    Chosen(Option<u64>, u8),
    /// r = L - k
    High(u64),
    SPlusL(u8),
    Flip(usize),
    Bytes(Hex),
    Zero,
    /// r = 0 and R written as p + 1
    RNonCanonical,
    /// R's sign bit flipped and S made for that
    RNeg,
    SZero,
    SIsL(i8),
    SMax,
    /// negated S
    SNeg,
    /// signature of a key over the same message
    OtherKey(u32),
    /// signature by the same key over a message one byte longer
    OtherMsg,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    /// library signs (both messages it signs), reference verifies
    Lib { key: u32, data: Data, tc: String },
    /// reference signs, library verifies as legacy data and as comment signature
    Ref { key: u32, msg: Data, tc: String },
    Raw { pk: Pk, sg: Sg, msg: Data },
    /// The key is `tor` times a point of order 8, so that a signature can be made for any scalar `s`; R gets the torsion part `j`.
    SmallOrder { tor: u8, j: u8, s: [u64; 4] },
    /// legacy signature over a message of this many equal bytes
    Big { len: usize, byte: u8 },
    /// signature made by key 1 over these eight bytes, with nonce 1: one found by search to give an extreme hash or scalar
    Hash { ctr: u64 },
    /// many signatures under one key and nonce, made cheaply by reference arithmetic, verified by the library
    ManyRef { seed: u64, n: u32 },
    /// many signatures made by the library, verified by the reference
    ManyLib { seed: u64, n: u32 },
}

fn addk(a: &ed::U256, k: i64) -> ed::U256 {
    if k >= 0 {
        ed::add_carry(a, &[k as u64, 0, 0, 0]).0
    } else {
        ed::sub_borrow(a, &[k.unsigned_abs(), 0, 0, 0]).0
    }
}
/// (public key bytes, secret scalar when known, torsion component of the key)
fn pk_of(p: &Pk) -> (Vec<u8>, Option<ed::U256>, u8) {
    match p {
        Pk::Key(n) => (key(*n).pkb.to_vec(), Some(ed::reduce512(&ed::to_le(&ed::expand(&key(*n).seed).a))), 0),
        Pk::NegKey(n) => {
            let mut b = key(*n).pkb;
            b[31] ^= 0x80;
            (b.to_vec(), Some(ed::sc_neg(&ed::expand(&key(*n).seed).a)), 0)
        }
        Pk::Mixed(n, i) => {
            let a = Point::decode(&key(*n).pkb).unwrap().add(&Point::torsion8().mul(&[*i as u64 % 8, 0, 0, 0]));
            (a.encode().to_vec(), Some(ed::reduce512(&ed::to_le(&ed::expand(&key(*n).seed).a))), *i % 8)
        }
        Pk::Scalar(k) => (Point::base().mul(&[*k, 0, 0, 0]).encode().to_vec(), Some([*k, 0, 0, 0]), 0),
        Pk::NegScalar(k) => (Point::base().mul(&[*k, 0, 0, 0]).neg().encode().to_vec(), Some(ed::sc_neg(&[*k, 0, 0, 0])), 0),
        Pk::Bytes(h) => {
            let mut v = h.0.clone();
            v.resize(32, 0);
            (v, None, 0)
        }
        Pk::Identity | Pk::IdentityNeg => {
            let mut v = vec![0; 32];
            v[0] = 1;
            if matches!(p, Pk::IdentityNeg) {
                v[31] = 0x80
            }
            (v, Some([0; 4]), 0)
        }
        Pk::Zero => (vec![0; 32], None, 0),
    }
}
fn split(rb: &[u8], s: &ed::U256) -> Vec<u8> {
    [rb, &ed::to_le(s)[..]].concat()
}
fn sig_of(pk: &[u8], a: Option<ed::U256>, tor: u8, sg: &Sg, msg: &mut Vec<u8>) -> Vec<u8> {
    let t8 = Point::torsion8();
    let a = a.unwrap_or([7, 0, 0, 0]);
    let r0 = ed::reduce512(&vref::sha512::hash(&[b"nonce", pk, msg]));
    let fit = |rb: &[u8], r: &ed::U256, msg: &[u8]| {
        let h = ed::hram(rb, pk, msg);
        split(rb, &ed::sc_add(r, &ed::sc_mul(&h, &a)))
    };
    let chosen = |r: &ed::U256, j: u8, msg: &[u8]| {
        let rb = Point::base().mul(r).add(&t8.mul(&[j as u64 % 8, 0, 0, 0])).encode();
        fit(&rb, r, msg)
    };
    match sg {
        Sg::Honest | Sg::Chosen(..) => {
            let (r, j) = match sg {
                Sg::Chosen(r, j) => (r.map(|r| [r, 0, 0, 0]).unwrap_or(r0), *j % 8),
                _ => (r0, 0),
            };
            let mut s = chosen(&r, j, msg);
            if tor != 0 {
                // with a mixed-order key the equation holds for one hash in eight or so
                let n = msg.len();
                for k in 0..24u8 {
                    if ed::verify(pk, msg, &s) {
                        break;
                    }
                    msg.truncate(n);
                    msg.push(k);
                    s = chosen(&r, j, msg);
                }
            }
            s
        }
        Sg::High(k) => chosen(&addk(&ed::L, -((k % 1000) as i64 + 1)), 0, msg),
        Sg::SPlusL(k) => {
            let mut s = chosen(&r0, 0, msg);
            let mut x = ed::from_le(&s[32..]);
            for _ in 0..(*k).max(1) {
                x = ed::add_carry(&x, &ed::L).0;
            }
            s[32..].copy_from_slice(&ed::to_le(&x));
            s
        }
        Sg::Flip(b) => {
            let mut s = chosen(&r0, 0, msg);
            s[b / 8 % 64] ^= 1 << (b % 8);
            s
        }
        Sg::Bytes(h) => {
            let mut v = h.0.clone();
            v.resize(64, 0);
            v
        }
        Sg::Zero => vec![0; 64],
        Sg::RNonCanonical => fit(&ed::to_le(&addk(&ed::P, 1)), &[0; 4], msg),
        Sg::RNeg => {
            let mut rb = Point::base().mul(&r0).encode();
            rb[31] ^= 0x80;
            fit(&rb, &r0, msg)
        }
        Sg::SZero => {
            let s = chosen(&r0, 0, msg);
            split(&s[..32], &[0; 4])
        }
        Sg::SIsL(d) => {
            let s = chosen(&r0, 0, msg);
            split(&s[..32], &addk(&ed::L, *d as i64))
        }
        Sg::SMax => {
            let s = chosen(&r0, 0, msg);
            split(&s[..32], &[u64::MAX; 4])
        }
        Sg::SNeg => {
            let s = chosen(&r0, 0, msg);
            split(&s[..32], &ed::sc_neg(&ed::from_le(&s[32..])))
        }
        Sg::OtherKey(n) => ed::sign(&key(*n).seed, msg).to_vec(),
        Sg::OtherMsg => chosen(&r0, 0, &[&msg[..], b"\0"].concat()),
    }
}

pub fn bare_box(pk: &[u8], id: &[u8; 8], sig: &[u8]) -> Result<(minisign::PublicKey, minisign::SignatureBox), String> {
    let p = minisign::PublicKey::from_bytes(&[b"Ed", &id[..], pk].concat()).map_err(|e| e.to_string())?;
    Ok((p, bones(&[b"Ed", &id[..], sig].concat())?))
}

/// Signature by the scalar `a` with the nonce `r`, whose commitment is `rb`.
fn quick_sig(pk: &[u8], a: &ed::U256, r: &ed::U256, rb: &[u8], msg: &[u8]) -> Vec<u8> {
    split(rb, &ed::sc_add(r, &ed::sc_mul(&ed::hram(rb, pk, msg), a)))
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C06";
    const RULE: &'static str = "Library signatures checked by a reference Ed25519 and reference signatures by the library, over every message length up to several hash blocks and one message above 2^29 bytes; and raw (key, signature, message) triples built with reference arithmetic: chosen and extreme nonces, torsion in R or the key, S+kL, S at the group order, every signature bit flipped, negated and non-canonical R, random, off-curve, identity and zero keys. Expected verdict: the reference's. Keys of small order, for which a signature exists for every scalar: scalars around the group order, differing from it in one bit or byte, powers of two and random ones. Left open: whether small-order keys other than the identity and the zero string are accepted (if one accepts, it accepts exactly the scalars below the order), non-canonical key encodings. Non-trivial: a verdict was compared.";
    fn fixed(t: Tier) -> Vec<Case> {
        let mut v = vec![];
        for len in 0..t.pick(700usize, 2100) {
            v.push(Case::Lib { key: len as u32 % 24, data: gen(len, 1), tc: "x".repeat(len) });
            v.push(Case::Ref { key: len as u32 % 24, msg: gen(len, 1), tc: "x".repeat(len) });
        }
        for len in [65535usize, 65536, 65537, 1 << 20].into_iter().chain(dict::nums(700, 2 << 20)) {
            v.push(Case::Ref { key: 9, msg: gen(len, 1), tc: "x".repeat(len) });
            v.push(Case::Lib { key: 9, data: gen(len, 1), tc: "x".repeat(len) });
        }
        let raw = |pk: Pk, sg: Sg| Case::Raw { pk, sg, msg: gen(11, 3) };
        for b in 0..512 {
            v.push(raw(Pk::Key(9), Sg::Flip(b)));
        }
        for k in 1..15 {
            v.push(raw(Pk::Key(9), Sg::SPlusL(k)));
            v.push(raw(Pk::Scalar(3), Sg::SPlusL(k)));
        }
        for d in -128..=127i8 {
            v.push(raw(Pk::Key(9), Sg::SIsL(d)));
        }
        for i in 0..8 {
            for j in 0..8 {
                v.push(raw(Pk::Mixed(9, i), Sg::Chosen(None, j)));
                v.push(raw(Pk::Key(i as u32), Sg::Chosen(Some(j as u64), 0)));
            }
            v.push(raw(Pk::Scalar(i as u64), Sg::Honest));
            v.push(raw(Pk::NegScalar(i as u64), Sg::Honest));
            for r in 0..5 {
                v.push(raw(Pk::Scalar(i as u64), Sg::Chosen(Some(r), 0)));
                v.push(raw(Pk::NegScalar(i as u64), Sg::High(r)));
            }
        }
        // scalars around and below the group order, and others that differ from it in one place
        let mut scalars = vec![];
        for d in 0..t.pick(300, 3000) {
            scalars.extend([addk(&ed::L, d), addk(&ed::L, -d), [d as u64, 0, 0, 0], ed::add_carry(&ed::L, &addk(&ed::L, d)).0]);
        }
        for bit in 0..256 {
            let mut x = [0u64; 4];
            x[bit / 64] = 1 << (bit % 64);
            let flip = [ed::L[0] ^ x[0], ed::L[1] ^ x[1], ed::L[2] ^ x[2], ed::L[3] ^ x[3]];
            let below = ed::sub_borrow(&x, &[1, 0, 0, 0]).0;
            scalars.extend([x, below, flip, ed::add_carry(&ed::L, &x).0, ed::sub_borrow(&ed::L, &x).0, ed::sub_borrow(&x, &ed::L).0]);
        }
        // equal to the order down to byte i, then lower or higher, with anything after
        for i in 0..32usize {
            for n in 0..6u64 {
                let mut b = ed::to_le(&ed::L);
                b[..i].copy_from_slice(&stream(n | 1 << 43, i));
                b[i] = [0, b[i].wrapping_sub(1), b[i].wrapping_add(1), 0xff, 0x7f, 0x80][n as usize];
                scalars.push(ed::from_le(&b));
            }
        }
        for (i, s) in scalars.into_iter().enumerate() {
            v.push(Case::SmallOrder { tor: (i % 7) as u8 + 1, j: (i / 7 % 8) as u8, s });
        }
        for ctr in MESSAGES {
            v.push(Case::Hash { ctr: *ctr });
        }
        for k in MULTIPLES {
            v.push(raw(Pk::Scalar(*k), Sg::Honest));
            v.push(raw(Pk::NegScalar(*k), Sg::Honest));
            v.push(raw(Pk::Key(9), Sg::Chosen(Some(*k), 0)));
            v.push(raw(Pk::Scalar(*k), Sg::Chosen(Some(*k), 0)));
        }
        for i in 0..8 {
            for j in 0..8 {
                v.push(raw(Pk::Mixed(9, i), Sg::Chosen(Some(0), j)));
                v.push(raw(Pk::Mixed(9, i), Sg::Chosen(Some(1), j)));
            }
        }
        for pk in [Pk::Key(9), Pk::NegKey(9), Pk::Mixed(9, 1), Pk::Scalar(1), Pk::Scalar(2), Pk::NegScalar(1), Pk::Identity, Pk::IdentityNeg, Pk::Zero] {
            for sg in [
                Sg::Honest,
                Sg::Chosen(Some(0), 0),
                Sg::Chosen(Some(0), 4),
                Sg::Chosen(Some(1), 0),
                Sg::High(0),
                Sg::High(5),
                Sg::Zero,
                Sg::RNonCanonical,
                Sg::RNeg,
                Sg::SZero,
                Sg::SMax,
                Sg::SNeg,
                Sg::OtherKey(10),
                Sg::OtherMsg,
                Sg::SPlusL(1),
            ] {
                v.push(raw(pk.clone(), sg));
            }
        }
        // one point per possible low byte of y: about half are off the curve
        for b in 0..=255u8 {
            let mut y = stream(b as u64 | 1 << 35, 32);
            y[0] = b;
            y[31] &= if b % 2 == 0 { 0x3f } else { 0xbf };
            v.push(raw(Pk::Bytes(Hex(y)), Sg::Honest));
        }
        for seed in 0..t.pick(40, 2000) {
            v.push(Case::ManyRef { seed, n: 8000 });
            v.push(Case::ManyLib { seed, n: 1000 });
        }
        v.push(Case::Big { len: (1 << 29) + 100, byte: 0x61 });
        if t == Tier::Thorough {
            v.push(Case::Big { len: 1 << 29, byte: 0 });
            v.push(Case::Big { len: (1 << 29) - 64, byte: 1 });
            v.push(Case::Big { len: (1 << 30) + 1, byte: 2 });
        }
        v
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let pk = prop_oneof![
            6 => keyn().prop_map(Pk::Key),
            1 => keyn().prop_map(Pk::NegKey),
            3 => (0u32..24, 0u8..8).prop_map(|(a, b)| Pk::Mixed(a, b)),
            1 => any::<u64>().prop_map(Pk::Scalar),
            1 => (1u64..200).prop_map(Pk::Scalar),
            1 => any::<u64>().prop_map(Pk::NegScalar),
            2 => proptest::collection::vec(any::<u8>(), 32).prop_map(|v| Pk::Bytes(Hex(v))),
        ];
        let sg = prop_oneof![
            4 => Just(Sg::Honest),
            3 => (proptest::option::of(prop_oneof![0u64..20, any::<u64>()]), 0u8..8).prop_map(|(a, b)| Sg::Chosen(a, b)),
            1 => (0u64..1000).prop_map(Sg::High),
            2 => (1u8..15).prop_map(Sg::SPlusL),
            4 => (0usize..512).prop_map(Sg::Flip),
            1 => proptest::collection::vec(any::<u8>(), 64).prop_map(|v| Sg::Bytes(Hex(v))),
            1 => any::<i8>().prop_map(Sg::SIsL),
            2 => proptest::sample::select(vec![Sg::RNonCanonical, Sg::RNeg, Sg::SZero, Sg::SMax, Sg::SNeg, Sg::OtherMsg, Sg::Zero]),
            1 => (0u32..24).prop_map(Sg::OtherKey),
        ];
        prop_oneof![
            2 => (keyn(), small_data(), comment()).prop_map(|(key, data, tc)| Case::Lib { key, data, tc }),
            2 => (keyn(), small_data(), comment()).prop_map(|(key, msg, tc)| Case::Ref { key, msg, tc }),
            1 => (1u8..8, 0u8..8, any::<[u64; 4]>(), any::<bool>()).prop_map(|(tor, j, mut s, low)| {
                if low {
                    s[3] &= (1 << 60) - 1;
                }
                Case::SmallOrder { tor, j, s }
            }),
            6 => (pk, sg, small_data()).prop_map(|(pk, sg, msg)| Case::Raw { pk, sg, msg }),
        ]
        .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(40_000, 400_000)
    }
    fn fast_only(c: &Case) -> bool {
        matches!(c, Case::Big { .. } | Case::ManyRef { .. } | Case::ManyLib { .. })
    }
    fn check(c: &Case, cx: &mut Cx) -> R {
        match c {
            Case::Lib { key: n, data, tc } => {
                let k = key(*n);
                let d = data.bytes();
                let s = parse(&sgn(&k, &d, Some(tc), None)?)?;
                ensure!(ed::verify(&k.pkb, &vref::blake2b::hash(64, &d), &s.sig), "reference refuses the library's signature over {} bytes", d.len());
                ensure!(ed::verify(&k.pkb, &s.signed_comment(), &s.global), "reference refuses the library's signature over a comment of {} bytes", tc.len());
                cx.label("library signs, reference verifies");
                cx.nontrivial();
            }
            Case::Ref { key: n, msg, tc } => {
                let k = key(*n);
                let m = msg.bytes();
                let s = vref::mini::Sig::make(false, &k.seed, &k.id, &m, tc, "u");
                let (p, b) = bare_box(&k.pkb, &k.id, &s.sig)?;
                let r = vfy(&p, &b, &m, true);
                ensure!(r.is_ok(), "library refuses a reference signature over {} bytes: {r:?}", m.len());
                let r = load(&s.to_file()).and_then(|b| vfy(&k.pk, &b, &m, true));
                ensure!(r.is_ok(), "library refuses a reference signature over {} bytes and a comment of {}: {r:?}", m.len(), tc.len());
                cx.label("reference signs, library verifies");
                cx.nontrivial();
            }
            Case::Raw { pk, sg, msg } => {
                let (pkb, a, tor) = pk_of(pk);
                let mut m = msg.bytes();
                let sig = sig_of(&pkb, a, tor, sg, &mut m);
                let (p, b) = bare_box(&pkb, &[1; 8], &sig)?;
                let lib = vfy(&p, &b, &m, true).is_ok();
                let mut y = pkb.clone();
                y[31] &= 0x7f;
                let canonical = ed::lt(&ed::from_le(&y), &ed::P);
                let point = Point::decode(&pkb);
                let open = match &point {
                    _ if !canonical => true,
                    Some(q) => q.is_small_order() && *q != Point::identity(),
                    None => false,
                } && pkb.iter().any(|b| *b != 0);
                if open {
                    cx.label("key left open");
                    return Ok(());
                }
                let want = ed::verify(&pkb, &m, &sig);
                ensure!(lib == want, "library says {lib}, Ed25519 says {want}: key {} signature {} message {}", hex(&pkb), hex(&sig), hex(&m));
                cx.label(format!("raw {} {}", if want { "valid" } else { "invalid" }, format!("{sg:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap_or("")));
                if point.is_none() {
                    cx.label("key not on the curve")
                }
                cx.nontrivial();
            }
            Case::SmallOrder { tor, j, s } => {
                let a = Point::torsion8().mul(&[*tor as u64 % 8, 0, 0, 0]);
                let mut y = a.encode();
                if a == Point::identity() {
                    return Ok(());
                }
                if y.iter().all(|b| *b == 0) {
                    // y = 0 with the other sign
                    y[31] = 0x80;
                }
                let a = Point::decode(&y).expect("small order");
                // Is such a key accepted at all? That is left open; what an accepted one accepts is not.
                let made = |s: &ed::U256| {
                    let low = if ed::lt(s, &ed::L) { *s } else { ed::reduce512(&ed::to_le(s)) };
                    let r = Point::base().mul(&low);
                    (0..8u64)
                        .map(|x| (*j as u64 + x) % 8)
                        .flat_map(|j| (0..12u8).map(move |m| (j, m)))
                        .find_map(|(j, m)| {
                            let rb = r.add(&Point::torsion8().mul(&[j, 0, 0, 0])).encode();
                            let h = ed::hram(&rb, &y, &[m]);
                            (r.add(&a.neg().mul(&[h[0] % 8, 0, 0, 0])).encode() == rb).then(|| (split(&rb, s), vec![m]))
                        })
                        .ok_or_else(|| "harness: no signature found".to_string())
                };
                let lib = |(sig, m): &(Vec<u8>, Vec<u8>)| -> Result<bool, String> {
                    let (p, b) = bare_box(&y, &[1; 8], sig)?;
                    Ok(vfy(&p, &b, m, true).is_ok())
                };
                let t = made(s)?;
                let got = lib(&t)?;
                let reduced = ed::lt(s, &ed::L);
                ensure!(reduced || !got, "a scalar that is not below the group order is accepted: key {} signature {} message {}", hex(&y), hex(&t.0), hex(&t.1));
                if reduced && !got {
                    let one = made(&[5, 0, 0, 0])?;
                    ensure!(!lib(&one)?, "library accepts signature {} over {} but not signature {} over {}, both valid, key {}", hex(&one.0), hex(&one.1), hex(&t.0), hex(&t.1), hex(&y));
                    cx.label("key of small order refused");
                    return Ok(());
                }
                cx.label(if reduced { "chosen scalar below the order" } else { "chosen scalar not below the order" });
                cx.nontrivial();
            }
            Case::Big { len, byte } => {
                let k = key(9);
                let m = vec![*byte; *len];
                let sig = ed::sign(&k.seed, &m);
                let (p, b) = bare_box(&k.pkb, &k.id, &sig)?;
                let r = vfy(&p, &b, &m, true);
                ensure!(r.is_ok(), "library refuses a reference signature over {len} bytes: {r:?}");
                cx.label("message above 2^29 bytes");
                cx.nontrivial();
            }
            Case::Hash { ctr } => {
                let k = key(1);
                let a = ed::reduce512(&ed::to_le(&ed::expand(&k.seed).a));
                let m = ctr.to_le_bytes();
                let sig = quick_sig(&k.pkb, &a, &[1, 0, 0, 0], &Point::base().encode(), &m);
                ensure!(ed::verify(&k.pkb, &m, &sig), "harness: the reference refuses its own signature");
                let (p, b) = bare_box(&k.pkb, &k.id, &sig)?;
                let r = vfy(&p, &b, &m, true);
                ensure!(r.is_ok(), "library refuses a reference signature: key {} signature {} message {}: {r:?}", hex(&k.pkb), hex(&sig), hex(&m));
                cx.label("extreme hash or scalar");
                cx.nontrivial();
            }
            Case::ManyRef { seed, n } => {
                let sd: [u8; 32] = stream(*seed | 1 << 40, 32).try_into().unwrap();
                let a = ed::reduce512(&ed::to_le(&ed::expand(&sd).a));
                let pkb = ed::public(&sd);
                let r = ed::reduce512(&stream(*seed | 1 << 41, 64));
                let rb = Point::base().mul(&r).encode();
                for i in 0..*n as u64 {
                    let m = i.to_le_bytes();
                    let sig = quick_sig(&pkb, &a, &r, &rb, &m);
                    let (p, b) = bare_box(&pkb, &[1; 8], &sig)?;
                    let r = vfy_plain(&p, &b, &m, true);
                    ensure!(r.is_ok(), "library refuses a reference signature: key {} signature {} message {}: {r:?}", hex(&pkb), hex(&sig), hex(&m));
                    if i % 1000 == 0 {
                        ensure!(ed::verify(&pkb, &m, &sig), "harness: the reference refuses its own signature");
                    }
                }
                cx.label("many reference signatures");
                cx.nontrivial();
            }
            Case::ManyLib { seed, n } => {
                for i in 0..*n as u64 {
                    let sd: [u8; 32] = stream(*seed * 1_000_003 + i | 1 << 42, 32).try_into().unwrap();
                    let k = key_from(0, sd, [1; 8]);
                    let d = i.to_le_bytes();
                    let s = parse(&sgn(&k, &d, Some("t"), None)?)?;
                    ensure!(ed::verify(&k.pkb, &vref::blake2b::hash(64, &d), &s.sig), "reference refuses the library's signature {} by the key with seed {} over {}", hex(&s.sig), hex(&sd), hex(&d));
                    ensure!(ed::verify(&k.pkb, &s.signed_comment(), &s.global), "reference refuses the library's comment signature {} by the key with seed {}", hex(&s.global), hex(&sd));
                }
                cx.label("many library signatures");
                cx.nontrivial();
            }
        }
        Ok(())
    }
}
