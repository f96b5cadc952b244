//! Key generation against scripted random sources.
use crate::engine::*;
use crate::util::*;
use getrandom::ctl::{self, Mode};
use minisign::KeyPair;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use vref::mini;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Src {
    Stream(u64),
    Constant(u8),
    Repeat(u64),
}
impl Src {
    fn install(self) {
        ctl::install(
            match self {
                Src::Stream(s) => Mode::Stream(s),
                Src::Constant(c) => Mode::Constant(c),
                Src::Repeat(s) => Mode::Repeat(s),
            },
            None,
            5,
        )
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    /// generated keys are valid, in a row, and do not share parts
    Row { src: Src, n: usize, written: bool },
    EncRow { src: Src, n: usize, pw: String },
    /// each bit of the random stream reaches exactly one of seed and key id
    Bits { rng: u64 },
    /// the same for an encrypted key, one bit of every byte; the salt as well
    EncBits { rng: u64, bit: u8 },
    EncBit { rng: u64, at: usize, bit: u8 },
}
struct Parts {
    seed: [u8; 32],
    id: [u8; 8],
    salt: [u8; 32],
}
fn plain(kp: &KeyPair) -> Result<Parts, String> {
    let s = mini::SecKey::parse_bytes(&kp.sk.to_bytes()).ok_or("secret key layout")?;
    ensure!(s.kdf == [0, 0], "encryption tag of a plain key");
    check(kp, &s)
}
fn check(kp: &KeyPair, s: &mini::SecKey) -> Result<Parts, String> {
    let p = mini::PubKey::parse_bytes(&kp.pk.to_bytes()).ok_or("public key layout")?;
    ensure!(s.alg == *b"Ed" && p.alg == *b"Ed" && s.chkalg == *b"B2", "algorithm tags");
    ensure!(s.checksum_ok(), "checksum of the generated key");
    ensure!(s.id() == p.id && kp.pk.keynum() == p.id, "the halves have different key ids");
    ensure!(s.pk() == p.key, "the halves have different public keys");
    ensure!(vref::ed25519::public(&s.seed()) == p.key, "the public key is not that of the seed {}", hex(&s.seed()));
    Ok(Parts { seed: s.seed(), id: s.id(), salt: s.salt })
}
/// Public bytes must not repeat secret ones.
fn no_leak(kp: &KeyPair, p: &Parts) -> R {
    let mut public = kp.pk.to_bytes();
    public.extend_from_slice(&p.salt);
    for w in p.seed.windows(6) {
        ensure!(!contains(&public, w), "seed bytes {} appear in the public parts", hex(w));
    }
    let s = kp.pk.to_box().map_err(|e| e.to_string())?.to_string();
    ensure!(!s.contains(&hex(&p.seed[..4])), "seed bytes in the public key file");
    Ok(())
}
fn id_of(kp: &KeyPair) -> [u8; 8] {
    kp.pk.keynum().try_into().unwrap()
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C16";
    const RULE: &'static str = "Key generation (plain, encrypted, written out) under scripted random sources: pseudo-random, constant and repeating. Each pair is checked against the reference; rows of keys from one source must share no seed, key id or salt; and every bit of the random stream is flipped in turn to see which of seed, key id and salt it reaches. Non-trivial: at least one generated pair was validated against the reference, or a bit's reach was determined.";
    const ASSUMPTIONS: &'static [&'static str] = &["the system random source itself (getrandom) is replaced by the script and trusted to be random"];
    const SHRINK: u32 = 200;
    fn fixed(_t: Tier) -> Vec<Case> {
        let mut v = vec![];
        for rng in 0..6 {
            v.push(Case::Bits { rng });
        }
        for bit in 0..8 {
            v.push(Case::EncBits { rng: 99, bit });
        }
        for c in [0u8, 1, 0x7f, 0x80, 0xff] {
            v.push(Case::Row { src: Src::Constant(c), n: 1, written: c % 2 == 0 });
            v.push(Case::EncRow { src: Src::Constant(c), n: 1, pw: "pw".into() });
        }
        v.push(Case::Row { src: Src::Stream(1), n: 300, written: false });
        v.push(Case::Row { src: Src::Stream(2), n: 300, written: true });
        for (i, pw) in ["", "pw", "pw2"].into_iter().enumerate() {
            v.push(Case::EncRow { src: Src::Stream(i as u64), n: 6, pw: pw.into() });
        }
        v
    }
    fn fast_only(c: &Case) -> bool {
        matches!(c, Case::EncBits { .. })
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let src = || prop_oneof![6 => any::<u64>().prop_map(Src::Stream), 1 => any::<u8>().prop_map(Src::Constant), 1 => any::<u64>().prop_map(Src::Repeat)];
        prop_oneof![
            240 => (src(), 1usize..6, any::<bool>()).prop_map(|(src, n, written)| Case::Row { src, n, written }),
            2 => (src(), 1usize..3, comment()).prop_map(|(src, n, pw)| Case::EncRow { src, n, pw }),
            2 => any::<u64>().prop_map(|rng| Case::Bits { rng }),
            1 => (0u64..3, 0usize..72, 0u8..8).prop_map(|(rng, at, bit)| Case::EncBit { rng, at, bit }),
        ]
        .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(10_000, 250_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> R {
        match c {
            Case::Row { src, n, written } => {
                src.install();
                let (mut seeds, mut ids) = (HashSet::new(), HashSet::new());
                for i in 0..*n {
                    let kp = if *written {
                        let (mut a, mut b) = (vec![], vec![]);
                        KeyPair::generate_and_write_unencrypted_keypair(&mut a, &mut b)
                    } else {
                        KeyPair::generate_unencrypted_keypair()
                    }
                    .map_err(|e| format!("generating failed: {e}"))?;
                    let p = plain(&kp)?;
                    if matches!(src, Src::Stream(_)) {
                        no_leak(&kp, &p)?;
                        ensure!(seeds.insert(p.seed), "key {i} of the row repeats an earlier seed");
                        ensure!(ids.insert(p.id), "key {i} of the row repeats an earlier key id");
                    }
                    cx.add("pairs", 1);
                }
            }
            Case::EncRow { src, n, pw } => {
                src.install();
                let (mut seeds, mut ids, mut salts) = (HashSet::new(), HashSet::new(), HashSet::new());
                for i in 0..*n {
                    let kp = KeyPair::generate_encrypted_keypair(Some(pw.clone())).map_err(|e| format!("generating failed: {e}"))?;
                    let e = mini::SecKey::parse_bytes(&kp.sk.to_bytes()).ok_or("secret key layout")?;
                    ensure!(e.kdf == *b"Sc", "encryption tag {:?}", e.kdf);
                    let s = e.decrypt(pw.as_bytes()).ok_or("the reference cannot decrypt the generated key")?;
                    let p = check(&kp, &s)?;
                    if matches!(src, Src::Stream(_)) {
                        no_leak(&kp, &p)?;
                        ensure!(seeds.insert(p.seed), "key {i} of the row repeats an earlier seed");
                        ensure!(ids.insert(p.id), "key {i} of the row repeats an earlier key id");
                        ensure!(salts.insert(p.salt), "key {i} of the row repeats an earlier salt");
                    }
                    cx.add("encrypted pairs", 1);
                }
            }
            Case::Bits { rng } => {
                let gen = |m: Mode| -> Result<(Parts, usize), String> {
                    ctl::install(m, None, 5);
                    let p = plain(&KeyPair::generate_unencrypted_keypair().map_err(|e| e.to_string())?)?;
                    Ok((p, ctl::log().iter().map(|l| l.len()).sum()))
                };
                let (base, total) = gen(Mode::Stream(*rng))?;
                let (again, _) = gen(Mode::Stream(*rng))?;
                ensure!(base.seed == again.seed && base.id == again.id, "the key does not depend on the random source alone");
                let (mut ns, mut ni) = (0, 0);
                for at in 0..total {
                    for bit in 0..8 {
                        let (p, _) = gen(Mode::StreamXor(*rng, at, 1 << bit))?;
                        let (s, i) = (p.seed != base.seed, p.id != base.id);
                        ensure!(!(s && i), "random byte {at} bit {bit} reaches both seed and key id");
                        ns += s as usize;
                        ni += i as usize;
                    }
                }
                ensure!(ns >= 256, "only {ns} random bits reach the seed");
                ensure!(ni >= 64, "only {ni} random bits reach the key id");
                cx.label("all bits of a plain key");
            }
            Case::EncBits { rng, bit } => {
                let base = enc(Mode::Stream(*rng))?;
                let (mut ns, mut ni, mut nt) = (0, 0, 0);
                for at in 0..base.3 {
                    let p = enc(Mode::StreamXor(*rng, at, 1 << bit))?;
                    let (s, i, t) = (p.0 != base.0, p.1 != base.1, p.2 != base.2);
                    ensure!((s as u8) + (i as u8) + (t as u8) <= 1, "random byte {at} bit {bit} reaches more than one of seed, key id and salt");
                    ns += s as usize;
                    ni += i as usize;
                    nt += t as usize;
                }
                ensure!(ns >= 32 && ni >= 8 && nt >= 32, "bit {bit} of only {ns}, {ni}, {nt} random bytes reaches seed, key id, salt");
                cx.label("one bit of all bytes of an encrypted key");
            }
            Case::EncBit { rng, at, bit } => {
                let (base, p) = (enc(Mode::Stream(*rng))?, enc(Mode::StreamXor(*rng, *at, 1 << bit))?);
                let (s, i, t) = (p.0 != base.0, p.1 != base.1, p.2 != base.2);
                ensure!((s as u8) + (i as u8) + (t as u8) <= 1, "random byte {at} bit {bit} reaches more than one of seed, key id and salt");
                cx.label("one bit of an encrypted key");
            }
        }
        cx.nontrivial();
        Ok(())
    }
}
/// (public key, key id, salt, bytes of randomness used)
fn enc(m: Mode) -> Result<(Vec<u8>, [u8; 8], [u8; 32], usize), String> {
    ctl::install(m, None, 5);
    let kp = KeyPair::generate_encrypted_keypair(Some("pw".into())).map_err(|e| e.to_string())?;
    let e = mini::SecKey::parse_bytes(&kp.sk.to_bytes()).ok_or("secret key layout")?;
    Ok((kp.pk.to_bytes()[10..].to_vec(), id_of(&kp), e.salt, ctl::log().iter().map(|l| l.len()).sum()))
}
