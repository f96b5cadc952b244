//! Files written here against an independent implementation, and the other way round.
use super::c10::password;
use crate::dict;
use crate::engine::*;
use crate::util::*;
use minisign::{KeyPair, PublicKey, PublicKeyBox, SecretKeyBox, SignatureBox};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vref::{b64, mini};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Edit {
    DataBit(usize, u8),
    DataMore,
    SigBit(usize, u8),
    GlobalBit(usize, u8),
    Trusted,
    Untrusted,
    IdBit(usize, u8),
    Tag,
    OtherKey,
    OtherId,
    Refuse,
}
const EDITS: [Edit; 14] = [
    Edit::DataBit(0, 0),
    Edit::DataBit(1000, 7),
    Edit::DataMore,
    Edit::SigBit(0, 0),
    Edit::SigBit(31, 7),
    Edit::SigBit(63, 4),
    Edit::GlobalBit(5, 1),
    Edit::GlobalBit(40, 1),
    Edit::Trusted,
    Edit::Untrusted,
    Edit::IdBit(3, 3),
    Edit::Tag,
    Edit::OtherKey,
    Edit::OtherId,
];
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    /// signed here, read there
    SigOut { key: u32, data: Data, tc: Option<String>, uc: Option<String> },
    /// signed there, read here; verdicts compared after each edit
    SigIn { key: u32, data: Data, tc: String, uc: String, prehashed: bool, crlf: u8, edits: Vec<Edit> },
    KeyOut { rng: u64, comment: Option<String>, data: Data },
    EncOut { rng: u64, comment: Option<String>, pw: String, data: Data },
    KeyIn { key: u32, comment: String, pkc: String, crlf: u8, data: Data },
    EncIn { key: u32, comment: String, pw: String, salt: u32, ops: u64, mem: u64, crlf: u8, data: Data },
    /// written by this program's history, not by this crate: fixed files
    Vector(u32),
}

fn nl(s: String, crlf: u8) -> String {
    line_ends(&s, crlf)
}
fn one_sig_out(k: &Key, data: &[u8], tc: Option<&str>, uc: Option<&str>) -> R {
    let b = sgn(k, data, tc, uc)?;
    let s = parse(&b)?;
    ensure!(s.alg == *b"ED" && s.id == k.id, "signature header {:?} {}", s.alg, hex(&s.id));
    ensure!(b64::encode(&s.bare()).len() == 100 && b64::encode(&s.global).len() == 88, "encoded lengths");
    ensure!(s.untrusted == uc.unwrap_or("signature from rsign secret key"), "untrusted comment {:?}", s.untrusted);
    if let Some(t) = tc {
        ensure!(s.trusted == t, "trusted comment {:?} instead of {t:?}", s.trusted);
    }
    ensure!(s.verify(&k.rpk, data, false), "the reference refuses the signature");
    ensure!(b.to_string() == s.to_file(), "the file differs from the standard one: {:?}", b.to_string());
    ensure!(b.to_bytes() == s.to_file().into_bytes(), "byte form differs from the string form");
    Ok(())
}
fn pair_out(pk: &PublicKey, plain: &mini::SecKey, data: &[u8]) -> R {
    let t = pk.to_box().map_err(|e| e.to_string())?.to_string();
    let (c, p) = mini::PubKey::parse_file(&t).ok_or_else(|| format!("not a Minisign public key file: {t:?}"))?;
    ensure!(p.alg == *b"Ed", "algorithm {:?}", p.alg);
    ensure!(p.id == plain.id() && p.key == plain.pk(), "public key file and secret key disagree");
    let tail = format!("{:016X}", u64::from_le_bytes(p.id));
    ensure!(c.ends_with(&tail), "public key comment {c:?} does not show key id {tail}");
    ensure!(b64::decode(pk.to_base64().as_bytes()) == Some(p.to_bytes()), "to_base64 differs from the file");
    ensure!(plain.alg == *b"Ed" && plain.chkalg == *b"B2" && plain.checksum_ok(), "secret key header or checksum");
    ensure!(vref::ed25519::public(&plain.seed()) == plain.pk(), "seed and public key do not match");
    // what the other implementation signs with that key verifies here
    for pre in [true, false] {
        let s = mini::Sig::make(pre, &plain.seed(), &plain.id(), data, "tc", "uc");
        vfy(pk, &load(&s.to_file())?, data, true).map_err(|e| format!("signed elsewhere with the generated key: {e}"))?;
    }
    Ok(())
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C13";
    const RULE: &'static str = "Signature, public key and secret key files (plain and encrypted) written by the library are parsed strictly, verified and decrypted by the reference implementation; reference-written files (both signature kinds, LF and CRLF in any mixture, with and without the last, any single-line comments, varied limits) are loaded by the library, and for signatures the verdicts of both are compared after each of a list of edits. Non-trivial: a whole file crossed from one implementation to the other and its fields and verdicts were compared.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "the reference implementation in /verif/harness/vref is written from the published formats and checked against RFC and Minisign vectors (vref/tests/selftest.rs)",
        "verdicts are not compared on malleated scalars or special points: C06 does that",
    ];
    fn fixed(_t: Tier) -> Vec<Case> {
        let mut v = vec![];
        let d = |n: usize| gen(n, 5);
        for key in 0..24 {
            v.push(Case::SigOut { key, data: d(key as usize * 37), tc: None, uc: None });
            v.push(Case::SigOut { key, data: d(key as usize * 128), tc: Some("timestamp:1\tfile:a.txt\thashed".into()), uc: Some(format!("key {key}")) });
            for prehashed in [true, false] {
                v.push(Case::SigIn { key, data: d(key as usize * 61), tc: format!("tc {key}"), uc: "uc".into(), prehashed, crlf: if key % 2 == 0 { 15 } else { 0 }, edits: EDITS.to_vec() });
            }
            v.push(Case::KeyIn { key, comment: format!("c {key}"), pkc: "minisign public key".into(), crlf: if key % 2 == 1 { 15 } else { 0 }, data: d(9) });
            v.push(Case::KeyOut { rng: key as u64, comment: None, data: d(10) });
        }
        for (i, n) in dict::lens().into_iter().enumerate() {
            v.push(Case::SigOut { key: i as u32 % 24, data: d(n), tc: Some(dict::text(n)), uc: Some(dict::text(n)) });
            for prehashed in [true, false] {
                v.push(Case::SigIn { key: i as u32 % 24, data: d(n), tc: dict::text(n), uc: dict::text(n), prehashed, crlf: if i % 2 == 0 { 15 } else { 0 }, edits: vec![] });
            }
            v.push(Case::KeyIn { key: i as u32 % 24, comment: dict::text(n), pkc: dict::text(n), crlf: if i % 2 == 1 { 15 } else { 0 }, data: d(9) });
        }
        for (i, s) in dict::texts().into_iter().enumerate() {
            for c in [s.clone(), format!("{s} x"), format!("x{s}")] {
                v.push(Case::SigOut { key: i as u32 % 24, data: d(5), tc: Some(c.clone()), uc: Some(c.clone()) });
                v.push(Case::SigIn { key: i as u32 % 24, data: d(5), tc: c.clone(), uc: c.clone(), prehashed: i % 2 == 0, crlf: if i % 3 == 0 { 15 } else { 0 }, edits: vec![] });
                v.push(Case::KeyIn { key: i as u32 % 24, comment: c.clone(), pkc: c, crlf: if i % 2 == 1 { 15 } else { 0 }, data: d(9) });
            }
        }
        for i in 0..8u64 {
            v.push(Case::EncOut { rng: i, comment: if i % 2 == 0 { None } else { Some("kept".into()) }, pw: ["", "x", "p w", "é漢", "0123456789".repeat(10).as_str()][i as usize % 5].into(), data: d(11) });
            v.push(Case::EncIn { key: i as u32, comment: "minisign encrypted secret key".into(), pw: format!("pw{i}"), salt: i as u32, ops: 1 << 20, mem: 1 << 25, crlf: 0, data: d(12) });
        }
        for crlf in 0..32 {
            let tc = ["t", ""][crlf as usize % 2];
            v.push(Case::SigIn { key: 9, data: d(7), tc: tc.into(), uc: tc.into(), prehashed: crlf % 4 < 2, crlf, edits: EDITS.to_vec() });
            v.push(Case::KeyIn { key: 9, comment: "c".into(), pkc: tc.into(), crlf, data: d(9) });
            v.push(Case::EncIn { key: 9, comment: tc.into(), pw: "p".into(), salt: 3, ops: 32768, mem: 4096, crlf, data: d(9) });
        }
        v.push(Case::EncIn { key: 9, comment: "sensitive".into(), pw: "pw".into(), salt: 1, ops: 1 << 25, mem: 1 << 30, crlf: 0, data: d(12) });
        for i in 0..3 {
            v.push(Case::Vector(i));
        }
        v
    }
    fn fast_only(c: &Case) -> bool {
        matches!(c, Case::EncIn { mem: 0x40000000, .. })
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        use proptest::collection::vec;
        let edit = prop_oneof![
            (any::<usize>(), 0u8..8).prop_map(|(i, b)| Edit::DataBit(i, b)),
            (0usize..64, 0u8..8).prop_map(|(i, b)| Edit::SigBit(i, b)),
            (0usize..64, 0u8..8).prop_map(|(i, b)| Edit::GlobalBit(i, b)),
            (0usize..8, 0u8..8).prop_map(|(i, b)| Edit::IdBit(i, b)),
            proptest::sample::select(EDITS.to_vec()),
        ];
        let limits = prop_oneof![3 => Just((32768u64, 4096u64)), 1 => (32768u64..200_000, 0u64..1 << 19)];
        prop_oneof![
            10 => (keyn(), data(), opt_comment(), opt_comment()).prop_map(|(key, data, tc, uc)| Case::SigOut { key, data, tc, uc }),
            10 => (keyn(), small_data(), comment(), comment(), any::<bool>(), ends(), vec(edit, 0..4))
                .prop_map(|(key, data, tc, uc, prehashed, crlf, edits)| Case::SigIn { key, data, tc, uc, prehashed, crlf, edits }),
            5 => (any::<u64>(), opt_comment(), small_data()).prop_map(|(rng, comment, data)| Case::KeyOut { rng, comment, data }),
            1 => (any::<u64>(), opt_comment(), password(), small_data()).prop_map(|(rng, comment, pw, data)| Case::EncOut { rng, comment, pw, data }),
            5 => (keyn(), comment(), comment(), ends(), small_data()).prop_map(|(key, comment, pkc, crlf, data)| Case::KeyIn { key, comment, pkc, crlf, data }),
            4 => (keyn(), comment(), password(), any::<u32>(), limits, ends(), small_data())
                .prop_map(|(key, comment, pw, salt, (ops, mem), crlf, data)| Case::EncIn { key, comment, pw, salt, ops, mem, crlf, data }),
        ]
        .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(10_000, 300_000)
    }
    const SHRINK: u32 = 1000;
    fn check(c: &Case, cx: &mut Cx) -> R {
        match c {
            Case::SigOut { key: n, data, tc, uc } => {
                one_sig_out(&key(*n), &data.bytes(), tc.as_deref(), uc.as_deref())?;
                cx.label("signature out");
            }
            Case::SigIn { key: n, data, tc, uc, prehashed, crlf, edits } => {
                let k = key(*n);
                let d = data.bytes();
                let s = mini::Sig::make(*prehashed, &k.seed, &k.id, &d, tc, uc);
                let b = load(&nl(s.to_file(), *crlf)).map_err(|e| format!("a standard signature file does not load: {e}"))?;
                ensure!(b.is_prehashed() == *prehashed, "pre-hash flag");
                ensure!(b.keynum() == k.id, "key id");
                ensure!(b.trusted_comment().ok().as_deref() == Some(tc), "trusted comment {:?}", b.trusted_comment());
                ensure!(b.untrusted_comment().ok().as_deref() == Some(uc), "untrusted comment {:?}", b.untrusted_comment());
                ensure!(b.to_string() == s.to_file(), "written back differently: {:?}", b.to_string());
                for legacy in [false, true] {
                    let (l, r) = (vfy(&k.pk, &b, &d, legacy), s.verify(&k.rpk, &d, legacy));
                    ensure!(l.is_ok() == r, "verdicts differ (allow_legacy {legacy}): {l:?} here, {r} there");
                }
                for e in edits {
                    let (mut s, mut d, mut pk) = (s.clone(), d.clone(), k.rpk.clone());
                    match e {
                        Edit::DataBit(i, bit) => {
                            if !d.is_empty() {
                                let n = d.len();
                                d[i % n] ^= 1 << bit
                            }
                        }
                        Edit::DataMore => d.push(0),
                        Edit::SigBit(i, bit) => s.sig[*i % 64] ^= 1 << bit,
                        Edit::GlobalBit(i, bit) => s.global[*i % 64] ^= 1 << bit,
                        Edit::Trusted => s.trusted.push('x'),
                        Edit::Untrusted => s.untrusted.push('x'),
                        Edit::IdBit(i, bit) => s.id[*i % 8] ^= 1 << bit,
                        Edit::Tag => s.alg[1] ^= 0x20,
                        Edit::OtherKey => pk.key = key(n ^ 1).rpk.key,
                        Edit::OtherId => pk.id = key(n ^ 1).rpk.id,
                        Edit::Refuse => {}
                    }
                    let b = load(&nl(s.to_file(), *crlf)).map_err(|x| format!("{e:?}: does not load: {x}"))?;
                    let lpk = pk_of(&pk);
                    for legacy in [false, true] {
                        let (l, r) = (vfy(&lpk, &b, &d, legacy), s.verify(&pk, &d, legacy));
                        ensure!(l.is_ok() == r, "{e:?}: verdicts differ (allow_legacy {legacy}): {l:?} here, {r} there");
                    }
                    cx.label(format!("edited {}", format!("{e:?}").split('(').next().unwrap()));
                }
                cx.label("signature in");
            }
            Case::KeyOut { rng, comment, data } => {
                getrandom::ctl::install(getrandom::ctl::Mode::Stream(*rng), None, 5);
                let kp = KeyPair::generate_unencrypted_keypair().map_err(|e| e.to_string())?;
                let t = kp.sk.to_box(comment.as_deref()).map_err(|e| e.to_string())?.to_string();
                let (c, s) = mini::SecKey::parse_file(&t).ok_or_else(|| format!("not a Minisign secret key file: {t:?}"))?;
                ensure!(comment.is_none() || Some(&c) == comment.as_ref(), "secret key comment {c:?}");
                ensure!(s.kdf == [0, 0], "plain key with encryption tag {:?}", s.kdf);
                ensure!(s.to_bytes() == kp.sk.to_bytes(), "to_bytes differs from the file");
                pair_out(&kp.pk, &s, &data.bytes())?;
                cx.label("plain key out");
            }
            Case::EncOut { rng, comment, pw, data } => {
                getrandom::ctl::install(getrandom::ctl::Mode::Stream(*rng), None, 5);
                let kp = KeyPair::generate_encrypted_keypair(Some(pw.clone())).map_err(|e| e.to_string())?;
                let t = kp.sk.to_box(comment.as_deref()).map_err(|e| e.to_string())?.to_string();
                let (c, s) = mini::SecKey::parse_file(&t).ok_or_else(|| format!("not a Minisign secret key file: {t:?}"))?;
                ensure!(comment.is_none() || Some(&c) == comment.as_ref(), "secret key comment {c:?}");
                ensure!(s.kdf == *b"Sc", "encryption tag {:?}", s.kdf);
                let plain = s.decrypt(pw.as_bytes()).ok_or("the reference cannot decrypt the generated key")?;
                pair_out(&kp.pk, &plain, &data.bytes())?;
                cx.label("encrypted key out");
            }
            Case::KeyIn { key: n, comment, pkc, crlf, data } => {
                let k = key(*n);
                let d = data.bytes();
                let sk = SecretKeyBox::from_string(&nl(k.rsk.to_file(comment), *crlf))
                    .and_then(|b| b.into_unencrypted_secret_key())
                    .map_err(|e| format!("a standard plain key file does not load: {e}"))?;
                ensure!(sk.to_bytes() == k.rsk.to_bytes(), "loaded with other fields");
                let text = format!("untrusted comment: {pkc}\n{}\n", b64::encode(&k.rpk.to_bytes()));
                let pk = PublicKeyBox::from_string(&nl(text, *crlf))
                    .and_then(|b| b.into_public_key())
                    .map_err(|e| format!("a standard public key file does not load: {e}"))?;
                ensure!(pk.to_bytes() == k.rpk.to_bytes(), "public key loaded with other fields");
                ensure!(pk == PublicKey::from_base64(&b64::encode(&k.rpk.to_bytes())).map_err(|e| e.to_string())?, "from_base64");
                let b: SignatureBox = minisign::sign(Some(&pk), &sk, &d[..], Some("t"), Some("u")).map_err(|e| e.to_string())?;
                ensure!(parse(&b)?.verify(&k.rpk, &d, false), "signed with the loaded key: the reference refuses it");
                cx.label("plain key in");
            }
            Case::EncIn { key: n, comment, pw, salt, ops, mem, crlf, data } => {
                let k = key(*n);
                let d = data.bytes();
                let salt: [u8; 32] = stream(*salt as u64 | 1 << 46, 32).try_into().unwrap();
                let e = k.rsk.clone().encrypt(pw.as_bytes(), salt, *ops, *mem).ok_or("limits")?;
                let sk = SecretKeyBox::from_string(&nl(e.to_file(comment), *crlf))
                    .and_then(|b| b.into_secret_key(Some(pw.clone())))
                    .map_err(|e| format!("a standard encrypted key file does not open: {e}"))?;
                let f = mini::SecKey::parse_bytes(&sk.to_bytes()).ok_or("layout")?;
                ensure!(f.body == k.rsk.body, "opened with other contents");
                let b = minisign::sign(Some(&k.pk), &sk, &d[..], Some("t"), Some("u")).map_err(|e| e.to_string())?;
                ensure!(parse(&b)?.verify(&k.rpk, &d, false), "signed with the opened key: the reference refuses it");
                cx.label("encrypted key in");
            }
            Case::Vector(i) => {
                // the files quoted in Minisign's own documentation
                let pk = PublicKey::from_base64("RWQf6LRCGA9i53mlYecO4IzT51TGPpvWucNSCh1CBM0QTaLn73Y7GFO3").map_err(|e| e.to_string())?;
                let (text, ok) = match i {
                    0 => ("untrusted comment: signature from minisign secret key\nRUQf6LRCGA9i559r3g7V1qNyJDApGip8MfqcadIgT9CuhV3EMhHoN1mGTkUidF/z7SrlQgXdy8ofjb7bNJJylDOocrCo8KLzZwo=\ntrusted comment: timestamp:1556193335\tfile:test\ny/rUw2y8/hOUYjZU71eHp/Wo1KZ40fGy2VJEDl34XMJM+TX48Ss/17u3IvIfbVR1FkZZSNCisQbuQY+bHwhEBg==", true),
                    1 => ("untrusted comment: signature from minisign secret key\nRWQf6LRCGA9i59SLOFxz6NxvASXDJeRtuZykwQepbDEGt87ig1BNpWaVWuNrm73YiIiJbq71Wi+dP9eKL8OC351vwIasSSbXxwA=\ntrusted comment: timestamp:1555779966\tfile:test\nQtKMXWyYcwdpZAlPF7tE2ENJkRd1ujvKjlj1m9RtHTBnZPa5WKU5uWRs5GoP5M/VqE81QFuMKI5k/SfNQUaOAA==", true),
                    _ => ("untrusted comment: signature from minisign secret key\nRUQf6LRCGA9i559r3g7V1qNyJDApGip8MfqcadIgT9CuhV3EMhHoN1mGTkUidF/z7SrlQgXdy8ofjb7bNJJylDOocrCo8KLzZwo=\ntrusted comment: timestamp:1556193336\tfile:test\ny/rUw2y8/hOUYjZU71eHp/Wo1KZ40fGy2VJEDl34XMJM+TX48Ss/17u3IvIfbVR1FkZZSNCisQbuQY+bHwhEBg==", false),
                };
                let b = load(text)?;
                let r = vfy(&pk, &b, b"test", true);
                ensure!(r.is_ok() == ok, "published vector {i}: {r:?}");
                cx.label("published vector");
            }
        }
        cx.nontrivial();
        Ok(())
    }
}
