//! Histories of calls against a model, in one thread and in several.
use crate::engine::*;
use crate::util::*;
use minisign::{KeyPair, PublicKey, PublicKeyBox, SecretKey, SecretKeyBox, SignatureBones, SignatureBox};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use vref::mini;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Pk {
    None,
    Right,
    /// that of the n-th key
    Of(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Gen { rng: u32, write: bool },
    /// a key that shares the id of another
    SameId { k: u8, n: u32 },
    Sign { k: u8, d: u8, tc: u8, pk: Pk, sizes: Vec<usize> },
    /// made by the reference
    RefSign { k: u8, d: u8, legacy: bool },
    SignFails { k: u8, d: u8, at: usize, rng: bool, by: u8 },
    Verify { s: u8, k: u8, d: u8, legacy: bool, quiet: bool, output: bool, sizes: Vec<usize> },
    /// the signature's own key and data
    VerifyOwn { s: u8, legacy: bool, output: bool },
    VerifyFails { s: u8, at: usize, by: u8 },
    Tamper { s: u8, what: u8 },
    Reload { s: u8, form: u8 },
    Bare { s: u8 },
    ReloadKey { k: u8, form: u8 },
    ReloadPk { k: u8, form: u8 },
    /// an encrypted form made with password `pw`, a salt and limits, opened with `typed`
    Encrypted { k: u8, pw: u8, typed: u8, salt: u8, lim: bool },
    Garbage { n: u8 },
    Derive { k: u8 },
    Compare { a: u8, b: u8 },
}
/// Changes of single bytes: (position, taken modulo the length, bits to flip).
type Mods = Vec<(u16, u8)>;
/// One call whose outcome is a function of its arguments (the random source is an argument too).
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Call {
    Verify {
        /// public key of this key, negated or not, with changes in its 42 bytes
        k: u32,
        neg: bool,
        pkm: Mods,
        /// valid signature by this key, negated or not, with changes in its 74 bytes
        s: u32,
        sneg: bool,
        prehashed: bool,
        bare: bool,
        sigm: Mods,
        globalm: Mods,
        tcm: Mods,
        len: u32,
        dm: Mods,
        legacy: bool,
    },
    Sign { k: u32, skm: Mods, len: u32, dm: Mods, tc: String, rng: u32, pk: Option<u32> },
    Open { k: u32, skm: Mods, pw: String, typed: String },
    LoadSig { k: u32, m: Mods },
    LoadPk { k: u32, m: Mods },
    LoadSk { k: u32, m: Mods },
    Generate { rng: u32 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    /// one list of operations per thread
    Hist { threads: Vec<Vec<Op>> },
    /// calls (by their number) in an order, each as often as told: the outcome of each has to be
    /// the one it has on its own, as the only call of a process
    Order { calls: Vec<Call>, seq: Vec<(u16, u32)> },
}

/// A call and the ones near it: each differs from it in one place only.
fn near(kind: u8, k: u32) -> (Call, Vec<Call>) {
    let verify = |prehashed: bool, bare: bool| Call::Verify { k, neg: false, pkm: vec![], s: k, sneg: false, prehashed, bare, sigm: vec![], globalm: vec![], tcm: vec![], len: 1000, dm: vec![], legacy: true };
    let m = |n: usize, x: u8| (0..n).map(move |p| vec![(p as u16, x)]);
    let mut v = vec![];
    let base = match kind {
        0..=3 => {
            let b = verify(kind & 1 == 0, kind & 2 != 0);
            let k1 = k + 1;
            let mut with = |f: &dyn Fn(&mut Call)| {
                let mut c = b.clone();
                f(&mut c);
                v.push(c);
            };
            macro_rules! field { ($f:ident, $e:expr) => { with(&|c| if let Call::Verify { $f, .. } = c { *$f = $e.clone() }) } }
            for x in m(42, 1).chain([vec![(41, 0x80)], vec![(9, 0x80)]]) {
                field!(pkm, x)
            }
            for x in m(74, 1).chain(m(74, 0x20).skip(2)) {
                field!(sigm, x)
            }
            for x in m(64, 1) {
                field!(globalm, x)
            }
            for x in m(19, 1) {
                field!(tcm, x)
            }
            for p in [0u16, 1, 7, 8, 31, 32, 63, 64, 127, 128, 500, 511, 512, 896, 991, 992, 998, 999] {
                field!(dm, vec![(p, 1u8)])
            }
            for x in [0u32, 1, 500, 999, 1001, 2000] {
                field!(len, x)
            }
            field!(legacy, false);
            field!(prehashed, (kind & 1 != 0));
            field!(bare, (kind & 2 == 0));
            field!(k, k1);
            field!(s, k1);
            field!(neg, true);
            field!(sneg, true);
            b
        }
        4 => {
            // two keys of opposite sign
            let b = verify(true, false);
            for i in 1..8 {
                let mut c = verify(i & 4 == 0, false);
                if let Call::Verify { neg, sneg, .. } = &mut c {
                    *neg = i & 1 != 0;
                    *sneg = i & 2 != 0;
                }
                v.push(c.clone());
                if i == 3 {
                    if let Call::Verify { bare, .. } = &mut c {
                        *bare = true
                    }
                    v.push(c);
                }
            }
            b
        }
        5 => {
            let sign = |skm: Mods, len: u32, dm: Mods, tc: &str, rng: u32, pk: Option<u32>| Call::Sign { k, skm, len, dm, tc: tc.into(), rng, pk };
            for x in m(158, 1) {
                v.push(sign(x, 200, vec![], "tc", 5, None));
            }
            for p in [0u16, 1, 63, 64, 127, 128, 198, 199] {
                v.push(sign(vec![], 200, vec![(p, 1)], "tc", 5, None));
            }
            for l in [0, 1, 64, 199, 201] {
                v.push(sign(vec![], l, vec![], "tc", 5, None));
            }
            for tc in ["", "t", "td", "tc ", "Tc", "uc"] {
                v.push(sign(vec![], 200, vec![], tc, 5, None));
            }
            v.extend([sign(vec![], 200, vec![], "tc", 6, None), sign(vec![], 200, vec![], "tc", 5, Some(k)), sign(vec![], 200, vec![], "tc", 5, Some(k + 1))]);
            v.push(Call::Generate { rng: 5 });
            sign(vec![], 200, vec![], "tc", 5, None)
        }
        6 => {
            let open = |skm: Mods, pw: &str, typed: &str| Call::Open { k, skm, pw: pw.into(), typed: typed.into() };
            for x in (0..158u16).filter(|p| !(38..54).contains(p)) {
                v.push(open(vec![(x, 1)], "password 1", "password 1"));
            }
            for t in ["", "p", "password 2", "Password 1", "qassword 1", "password 1 ", "password 10", "passwore 1", "password", "1"] {
                v.push(open(vec![], "password 1", t));
                v.push(open(vec![], t, "password 1"));
                v.push(open(vec![], t, t));
            }
            open(vec![], "password 1", "password 1")
        }
        7 => {
            v.extend(m(300, 1).map(|m| Call::LoadSig { k, m }));
            Call::LoadSig { k, m: vec![] }
        }
        8 => {
            v.extend(m(113, 1).map(|m| Call::LoadPk { k, m }));
            Call::LoadPk { k, m: vec![] }
        }
        _ => {
            v.extend(m(233, 1).map(|m| Call::LoadSk { k, m }));
            Call::LoadSk { k, m: vec![] }
        }
    };
    (base, v)
}

fn mods(v: &mut [u8], m: &Mods) {
    for (p, x) in m {
        if !v.is_empty() {
            let n = v.len();
            v[*p as usize % n] ^= x;
        }
    }
}
fn hist(threads: Vec<Vec<Op>>) -> Case {
    Case::Hist { threads }
}
impl Call {
    /// What has to be made before, by the reference alone.
    fn prepare(&self) -> Box<dyn Fn() -> String> {
        use vref::ed25519 as ed;
        match self.clone() {
            Call::Verify { k, neg, pkm, s, sneg, prehashed, bare, sigm, globalm, tcm, len, dm, legacy } => {
                let k = key(k);
                let mut pkb = k.rpk.to_bytes();
                if neg {
                    pkb[41] ^= 0x80;
                }
                mods(&mut pkb, &pkm);
                let s = key(s);
                let plain = stream(77, len as usize);
                let mut g = mini::Sig::make(prehashed, &s.seed, &s.id, &plain, "the trusted comment", "u");
                if sneg {
                    let mut pk = s.pkb;
                    pk[31] ^= 0x80;
                    let a = ed::sc_neg(&ed::reduce512(&ed::to_le(&ed::expand(&s.seed).a)));
                    let sg = |m: &[u8]| ed::sign_raw(&a, &pk, &ed::reduce512(&vref::sha512::hash(&[&pk, m])), &ed::Point::identity(), m);
                    g.sig = sg(&mini::Sig::message(prehashed, &plain));
                    g.global = sg(&g.signed_comment());
                }
                let mut raw = g.bare();
                mods(&mut raw, &sigm);
                g.alg = raw[..2].try_into().unwrap();
                g.id = raw[2..10].try_into().unwrap();
                g.sig = raw[10..].try_into().unwrap();
                mods(&mut g.global, &globalm);
                let mut tc = g.trusted.clone().into_bytes();
                mods(&mut tc, &tcm);
                g.trusted = String::from_utf8_lossy(&tc).into_owned();
                let (file, mut data) = (g.to_file(), plain);
                mods(&mut data, &dm);
                Box::new(move || {
                    let b = if bare { bones(&raw) } else { load(&file) };
                    let pk = PublicKey::from_bytes(&pkb);
                    match (b, pk) {
                        (Ok(b), Ok(pk)) => {
                            let r = minisign::verify(&pk, &b, std::io::Cursor::new(&data), true, false, legacy);
                            format!("{:?} {:?} {:?} {} {}", r.map_err(|e| e.to_string()), b.trusted_comment().map_err(|e| e.to_string()), b.untrusted_comment().map_err(|e| e.to_string()), hex(b.keynum()), b.is_prehashed())
                        }
                        (b, pk) => format!("{:?} {:?}", b.err(), pk.err().map(|e| e.to_string())),
                    }
                })
            }
            Call::Sign { k, skm, len, dm, tc, rng, pk } => {
                let k = key(k);
                let mut raw = k.rsk.to_bytes();
                mods(&mut raw, &skm);
                let mut data = stream(77, len as usize);
                mods(&mut data, &dm);
                let pk = pk.map(|n| key(n).rpk.to_bytes());
                Box::new(move || {
                    getrandom::ctl::install(getrandom::ctl::Mode::Stream(rng as u64), None, 5);
                    let r = SecretKey::from_bytes(&raw).and_then(|sk| {
                        let pk = pk.as_ref().map(|p| PublicKey::from_bytes(p)).transpose()?;
                        minisign::sign(pk.as_ref(), &sk, &data[..], Some(&tc), Some("u"))
                    });
                    format!("{:?}", r.map(|b| b.to_string()).map_err(|e| e.to_string()))
                })
            }
            Call::Open { k, skm, pw, typed } => {
                let e = key(k).rsk.clone().encrypt(pw.as_bytes(), [7; 32], 32768, 8192).unwrap();
                let mut raw = e.to_bytes();
                mods(&mut raw, &skm);
                // limits are not changed: they set what this costs
                raw[38..54].copy_from_slice(&e.to_bytes()[38..54]);
                let file = format!("untrusted comment: c\n{}\n", vref::b64::encode(&raw));
                Box::new(move || {
                    let r = SecretKeyBox::from(file.clone()).into_secret_key(Some(typed.clone()));
                    format!("{:?}", r.map(|k| hex(&k.to_bytes())).map_err(|e| e.to_string()))
                })
            }
            Call::LoadSig { k, m } => {
                let k = key(k);
                let mut t = mini::Sig::make(true, &k.seed, &k.id, b"x", "tc", "uc").to_file().into_bytes();
                mods(&mut t, &m);
                let t = String::from_utf8_lossy(&t).into_owned();
                Box::new(move || format!("{:?}", SignatureBox::from_string(&t).map(|b| b.to_string()).map_err(|e| e.to_string())))
            }
            Call::LoadPk { k, m } => {
                let mut t = key(k).rpk.to_file().into_bytes();
                mods(&mut t, &m);
                let t = String::from_utf8_lossy(&t).into_owned();
                Box::new(move || format!("{:?}", PublicKeyBox::from(t.clone()).into_public_key().map(|b| b.to_base64()).map_err(|e| e.to_string())))
            }
            Call::LoadSk { k, m } => {
                let mut t = key(k).rsk.to_file("c").into_bytes();
                mods(&mut t, &m);
                let t = String::from_utf8_lossy(&t).into_owned();
                Box::new(move || format!("{:?}", SecretKeyBox::from(t.clone()).into_unencrypted_secret_key().map(|b| hex(&b.to_bytes())).map_err(|e| e.to_string())))
            }
            Call::Generate { rng } => Box::new(move || {
                getrandom::ctl::install(getrandom::ctl::Mode::Stream(rng as u64), None, 5);
                format!("{:?}", KeyPair::generate_unencrypted_keypair().map(|k| hex(&k.sk.to_bytes()) + &hex(&k.pk.to_bytes())).map_err(|e| e.to_string()))
            }),
        }
    }
}
/// What `f` returns in a process of its own.
fn apart(f: impl FnOnce() -> Vec<String>) -> Result<Vec<String>, String> {
    use std::io::{Read, Seek, SeekFrom, Write};
    use std::os::fd::FromRawFd;
    unsafe {
        let fd = libc::memfd_create(c"apart".as_ptr(), 0);
        assert!(fd >= 0, "memfd_create");
        let mut file = std::fs::File::from_raw_fd(fd);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| vec!["panicked".into()]);
            let _ = file.write_all(&serde_json::to_vec(&v).unwrap());
            libc::_exit(0);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let mut v = vec![];
        file.seek(SeekFrom::Start(0)).unwrap();
        file.read_to_end(&mut v).unwrap();
        serde_json::from_slice(&v).map_err(|_| format!("a process that made these calls ended with status {st:#x}"))
    }
}
fn order(calls: &[Call], seq: &[(u16, u32)], cx: &mut Cx) -> R {
    if calls.is_empty() {
        return Ok(());
    }
    let prep: Vec<_> = calls.iter().map(|c| c.prepare()).collect();
    let mut alone: Vec<Option<String>> = vec![None; calls.len()];
    let seq: Vec<(usize, u32)> = seq.iter().map(|(i, n)| (*i as usize % calls.len(), *n)).collect();
    for (i, _) in &seq {
        if alone[*i].is_none() {
            alone[*i] = Some(apart(|| vec![prep[*i]()])?.remove(0));
        }
    }
    let bad = apart(|| {
        for (at, (i, n)) in seq.iter().enumerate() {
            for j in 0..*n {
                let got = prep[*i]();
                if Some(&got) != alone[*i].as_ref() {
                    return vec![at.to_string(), i.to_string(), j.to_string(), got];
                }
            }
        }
        vec![]
    })?;
    if let [at, i, j, got] = &bad[..] {
        let c = &calls[i.parse::<usize>().unwrap()];
        return Err(format!("call {at} of the history (repetition {j}), {c:?}, has the outcome {got}, on its own it has {}", alone[i.parse::<usize>().unwrap()].as_ref().unwrap()));
    }
    ensure!(bad.is_empty(), "the history of calls {}", bad[0]);
    let total: u64 = seq.iter().map(|(_, n)| *n as u64).sum();
    cx.label(if total > 1000 { "calls against themselves on their own, many" } else { "calls against themselves on their own" });
    cx.add("calls compared", total);
    let kinds: std::collections::HashSet<&Option<String>> = alone.iter().filter(|o| o.is_some()).collect();
    if kinds.len() > 1 {
        cx.nontrivial();
    }
    Ok(())
}

/// Data sizes around the buffers and blocks that a history could leave half full.
fn datum(d: u8) -> Vec<u8> {
    match d % 16 {
        0 => vec![],
        1 => vec![0],
        2 => stream(2, 64),
        3 => stream(3, 127),
        4 => stream(4, 128),
        5 => stream(5, 129),
        6 => stream(6, 255),
        7 => stream(7, 257),
        8 => stream(8, 1000),
        9 => stream(9, 65535),
        10 => stream(10, 65536),
        11 => stream(10, 65537),
        12 => stream(12, 70_000),
        13 => vec![0; 128],
        14 => stream(3, 126),
        _ => stream(15, 140_000),
    }
}
const TCS: [&str; 6] = ["", "a", " spaces ", "timestamp:1\tfile:x", "é漢", "a much longer trusted comment, longer than the signature in front of it, so that the blocks of the hash are crossed more than once in signing it"];

/// How much a failing reader hands out at a time.
const BY: [usize; 6] = [1000, usize::MAX, 65536, 128, 40_000, 65535];

struct MKey {
    sk: SecretKey,
    pk: PublicKey,
    rsk: mini::SecKey,
    rpk: mini::PubKey,
}
impl Clone for MKey {
    fn clone(&self) -> Self {
        MKey { sk: self.sk.clone(), pk: self.pk.clone(), rsk: self.rsk.clone(), rpk: self.rpk.clone() }
    }
}
#[derive(Clone)]
struct MSig {
    b: SignatureBox,
    /// the key it was made with
    rpk: mini::PubKey,
    /// the key id it carries
    id: [u8; 8],
    k: usize,
    d: u8,
    legacy: bool,
    valid: bool,
    bare: bool,
    tc: String,
    uc: String,
}
struct Model {
    keys: Vec<MKey>,
    sigs: Vec<MSig>,
    tally: BTreeMap<&'static str, u64>,
    dir: std::path::PathBuf,
}
fn es<T>(r: minisign::Result<T>, what: &str) -> Result<T, String> {
    r.map_err(|e| format!("{what}: {e}"))
}
impl Model {
    fn new(dir: std::path::PathBuf) -> Model {
        let keys = (0..3).map(|n| { let k = key(20 + n); MKey { sk: k.sk.clone(), pk: k.pk.clone(), rsk: k.rsk.clone(), rpk: k.rpk.clone() } }).collect();
        Model { keys, sigs: vec![], tally: BTreeMap::new(), dir }
    }
    fn t(&mut self, s: &'static str) {
        *self.tally.entry(s).or_insert(0) += 1
    }
    fn push_key(&mut self, k: MKey) {
        if self.keys.len() < 10 {
            self.keys.push(k)
        } else {
            // keys of existing signatures keep their place in the model by value
            let i = 3 + self.tally.values().sum::<u64>() as usize % 7;
            self.keys[i] = k;
            for s in &mut self.sigs {
                if s.k == i {
                    s.k = usize::MAX
                }
            }
        }
    }
    fn push_sig(&mut self, s: MSig) {
        if self.sigs.len() < 24 {
            self.sigs.push(s)
        } else {
            let i = self.tally.values().sum::<u64>() as usize % 24;
            self.sigs[i] = s
        }
    }
    fn verify(&self, s: &MSig, rpk: &mini::PubKey, pk: &PublicKey, d: u8, legacy: bool, quiet: bool, output: bool, sizes: &[usize]) -> R {
        let data = datum(d);
        let expect = s.valid && s.rpk == *rpk && datum(s.d) == data && (legacy || !s.legacy);
        let mut r = Rd::new(&data, sizes);
        let got = minisign::verify(pk, &s.b, &mut r, quiet, output, legacy);
        ensure!(got.is_ok() == expect, "verification gives {got:?}, the model says {expect} (valid {}, own key {}, own data {}, legacy {}/{legacy})", s.valid, s.rpk == *rpk, datum(s.d) == data, s.legacy);
        Ok(())
    }
    fn step(&mut self, op: &Op) -> R {
        let nk = self.keys.len();
        let ns = self.sigs.len();
        let ki = |k: u8| k as usize % nk;
        if ns == 0 && matches!(op, Op::Verify { .. } | Op::VerifyOwn { .. } | Op::VerifyFails { .. } | Op::Tamper { .. } | Op::Reload { .. } | Op::Bare { .. }) {
            return Ok(());
        }
        let si = |s: u8| s as usize % ns;
        match op {
            Op::Gen { rng, write } => {
                getrandom::ctl::install(getrandom::ctl::Mode::Stream(*rng as u64 | 1 << 60), None, 5);
                let (mut a, mut b) = (vec![], vec![]);
                let kp = if *write { KeyPair::generate_and_write_unencrypted_keypair(&mut a, &mut b) } else { KeyPair::generate_unencrypted_keypair() };
                let kp = es(kp, "generate")?;
                let rsk = mini::SecKey::parse_bytes(&kp.sk.to_bytes()).ok_or("layout")?;
                let rpk = mini::PubKey::parse_bytes(&kp.pk.to_bytes()).ok_or("layout")?;
                ensure!(vref::ed25519::public(&rsk.seed()) == rpk.key && rsk.pk() == rpk.key && rsk.id() == rpk.id && rsk.checksum_ok(), "generated key pair is not valid");
                if *write {
                    ensure!(a == kp.pk.to_bytes() && b == kp.sk.to_bytes(), "written keys differ");
                }
                self.push_key(MKey { sk: kp.sk, pk: kp.pk, rsk, rpk });
                self.t("generated");
            }
            Op::SameId { k, n } => {
                let id = self.keys[ki(*k)].rpk.id;
                let j = key_from(0, seed_n(*n | 1 << 20), id);
                self.push_key(MKey { sk: j.sk, pk: j.pk, rsk: j.rsk, rpk: j.rpk });
                self.t("key with a used id");
            }
            Op::Sign { k, d, tc, pk, sizes } => {
                let i = ki(*k);
                let key = &self.keys[i];
                let data = datum(*d);
                let tc = TCS[*tc as usize % TCS.len()];
                let (arg, ok) = match pk {
                    Pk::None => (None, true),
                    Pk::Right => (Some(&key.pk), true),
                    Pk::Of(n) => (Some(&self.keys[ki(*n)].pk), self.keys[ki(*n)].rpk.key == key.rpk.key),
                };
                let uc = format!("uc{d}");
                match minisign::sign(arg, &key.sk, Rd::new(&data, sizes), Some(tc), Some(&uc)) {
                    Err(e) => {
                        ensure!(!ok, "signing failed: {e}");
                        self.t("refused to sign for another public key");
                    }
                    Ok(b) => {
                        ensure!(ok, "signed although the public key given belongs to another key");
                        let r = parse(&b)?;
                        ensure!(r.verify(&key.rpk, &data, false), "the reference refuses the signature");
                        let (rpk, id) = (key.rpk.clone(), key.rpk.id);
                        self.push_sig(MSig { b, rpk, id, k: i, d: *d, legacy: false, valid: true, bare: false, tc: tc.into(), uc });
                        self.t("signed");
                    }
                }
            }
            Op::RefSign { k, d, legacy } => {
                let i = ki(*k);
                let key = &self.keys[i];
                let s = mini::Sig::make(!legacy, &key.rsk.seed(), &key.rpk.id, &datum(*d), "ref", "ref uc");
                let b = load(&s.to_file())?;
                let (rpk, id) = (key.rpk.clone(), key.rpk.id);
                self.push_sig(MSig { b, rpk, id, k: i, d: *d, legacy: *legacy, valid: true, bare: false, tc: "ref".into(), uc: "ref uc".into() });
                self.t("reference signature loaded");
            }
            Op::SignFails { k, d, at, rng, by } => {
                let key = &self.keys[ki(*k)];
                let data = datum(*d);
                let by = BY[*by as usize % BY.len()];
                let mut r = Rd::new(&data, &[by]);
                if *rng {
                    getrandom::ctl::install(getrandom::ctl::Mode::Stream(*at as u64), Some(at % 2), 5);
                } else {
                    r.fail = Some((at % (data.len() / by.min(65536) + 1), Fault::Other));
                }
                let res = minisign::sign(None, &key.sk, &mut r, None, None);
                let injected = *rng && getrandom::ctl::calls() > at % 2;
                getrandom::ctl::install(getrandom::ctl::Mode::Stream(*at as u64 ^ 77), None, 5);
                // with larger buffers or fewer requests the failure may not be reached
                if r.failed || injected {
                    ensure!(res.is_err(), "a failure was injected but signing succeeded");
                    self.t("failed signing");
                } else {
                    let b = es(res, "signing failed although no failure was reached")?;
                    ensure!(parse(&b)?.verify(&self.keys[ki(*k)].rpk, &data, false), "the reference refuses the signature");
                    self.t("signing went round the failure");
                }
            }
            Op::Verify { s, k, d, legacy, quiet, output, sizes } => {
                let (s, key) = (&self.sigs[si(*s)], &self.keys[ki(*k)]);
                self.verify(s, &key.rpk, &key.pk, *d, *legacy, *quiet, *output, sizes)?;
                self.t("verified");
            }
            Op::VerifyOwn { s, legacy, output } => {
                let s = &self.sigs[si(*s)];
                let pk = match self.keys.get(s.k) {
                    Some(k) if k.rpk == s.rpk => k.pk.clone(),
                    _ => pk_of(&s.rpk),
                };
                self.verify(s, &s.rpk, &pk, s.d, *legacy, true, *output, &[])?;
                self.t("verified with its own key and data");
            }
            Op::VerifyFails { s, at, by } => {
                let s = &self.sigs[si(*s)];
                let data = datum(s.d);
                let by = BY[*by as usize % BY.len()];
                let mut r = Rd::new(&data, &[by]);
                r.fail = Some((at % (data.len() / by.min(65536) + 1), Fault::UnexpectedEof));
                let res = minisign::verify(&pk_of(&s.rpk), &s.b, &mut r, true, false, true);
                if r.failed {
                    ensure!(res.is_err(), "the reader failed but verification succeeded");
                    self.t("failed verification");
                } else {
                    ensure!(res.is_ok() == s.valid, "verification gives {res:?}, the model says {}", s.valid);
                }
            }
            Op::Tamper { s, what } => {
                let o = self.sigs[si(*s)].clone();
                if !o.valid {
                    // a second change could undo the first
                    return Ok(());
                }
                if o.bare {
                    let mut raw = SignatureBones::from(o.b.clone()).to_bytes();
                    raw[2 + *what as usize % 72] ^= 1 + (*what >> 7);
                    let b = bones(&raw)?;
                    let valid = false;
                    let id = raw[2..10].try_into().unwrap();
                    self.push_sig(MSig { b, valid, id, ..o });
                } else {
                    let mut p = parse(&o.b)?;
                    match what % 5 {
                        0 => p.sig[*what as usize % 64] ^= 1,
                        1 => p.global[*what as usize % 64] ^= 1,
                        2 => p.trusted.push('x'),
                        3 => p.id[*what as usize % 8] ^= 4,
                        _ => p.alg[1] ^= 0x20,
                    }
                    let b = load(&p.to_file())?;
                    self.push_sig(MSig { b, valid: false, id: p.id, tc: p.trusted, legacy: p.alg[1] == b'd', ..o });
                }
                self.t("tampered");
            }
            Op::Reload { s, form } => {
                let i = si(*s);
                let o = self.sigs[i].clone();
                if o.bare {
                    let raw = SignatureBones::from(o.b.clone()).to_bytes();
                    self.sigs[i].b = bones(&raw)?;
                } else {
                    let b = match form % 5 {
                        0 => load(&o.b.to_string())?,
                        1 => load(&o.b.clone().into_string().replace('\n', "\r\n"))?,
                        2 => load(&String::from_utf8(o.b.to_bytes()).map_err(|e| e.to_string())?)?,
                        3 => {
                            let p = self.dir.join("s.minisig");
                            std::fs::write(&p, o.b.to_bytes()).unwrap();
                            es(SignatureBox::from_file(&p), "from_file")?
                        }
                        _ => SignatureBox::from(String::from(o.b.clone())),
                    };
                    ensure!(b.to_string() == o.b.to_string(), "the reloaded signature is written differently");
                    ensure!(b.trusted_comment().ok().as_ref() == Some(&o.tc) && b.untrusted_comment().ok().as_ref() == Some(&o.uc), "comments of the reloaded signature");
                    self.sigs[i].b = b;
                }
                ensure!(self.sigs[i].b.is_prehashed() == !o.legacy && self.sigs[i].b.keynum() == o.id, "flag or key id of the reloaded signature");
                self.t("signature reloaded");
            }
            Op::Bare { s } => {
                let o = self.sigs[si(*s)].clone();
                // whatever made the box invalid may not be in the bare part: keep it only if that is known
                if o.valid || o.bare {
                    let b: SignatureBox = SignatureBones::from(o.b.clone()).into();
                    self.push_sig(MSig { b, bare: true, ..o });
                    self.t("reduced to bare form");
                }
            }
            Op::ReloadKey { k, form } => {
                let i = ki(*k);
                let o = &self.keys[i];
                let sk = match form % 4 {
                    0 => es(SecretKey::from_bytes(&o.sk.to_bytes()), "from_bytes")?,
                    1 => es(es(o.sk.to_box(None), "to_box")?.into_unencrypted_secret_key(), "box")?,
                    2 => es(SecretKeyBox::from(es(o.sk.to_box(Some("c")), "to_box")?.into_string()).into_unencrypted_secret_key(), "box text")?,
                    _ => es(es(SecretKeyBox::from_string(&o.rsk.to_file("ref").replace('\n', "\r\n")), "from_string")?.into_unencrypted_secret_key(), "reference text")?,
                };
                ensure!(sk.to_bytes() == o.rsk.to_bytes() && sk == o.sk, "the reloaded secret key differs");
                self.keys[i].sk = sk;
                self.t("secret key reloaded");
            }
            Op::ReloadPk { k, form } => {
                let i = ki(*k);
                let o = &self.keys[i];
                let pk = match form % 5 {
                    0 => es(PublicKey::from_bytes(&o.pk.to_bytes()), "from_bytes")?,
                    1 => es(PublicKey::from_base64(&o.pk.to_base64()), "from_base64")?,
                    2 => es(es(o.pk.to_box(), "to_box")?.into_public_key(), "box")?,
                    3 => {
                        let p = self.dir.join("k.pub");
                        std::fs::write(&p, es(o.pk.to_box(), "to_box")?.to_bytes()).unwrap();
                        es(PublicKey::from_file(&p), "from_file")?
                    }
                    _ => es(es(PublicKeyBox::from_string(&o.rpk.to_file()), "from_string")?.into_public_key(), "reference text")?,
                };
                ensure!(pk.to_bytes() == o.rpk.to_bytes() && pk == o.pk && pk.keynum() == o.rpk.id, "the reloaded public key differs");
                self.keys[i].pk = pk;
                self.t("public key reloaded");
            }
            Op::Encrypted { k, pw, typed, salt, lim } => {
                let i = ki(*k);
                let o = &self.keys[i];
                let (right, given) = (format!("pw{}", pw % 3), format!("pw{}", typed % 3));
                let e = o.rsk.clone().encrypt(right.as_bytes(), [*salt % 3; 32], 32768, if *lim { 8192 } else { 4096 }).unwrap();
                let r = SecretKeyBox::from(e.to_file("c")).into_secret_key(Some(given.clone()));
                ensure!(r.is_ok() == (right == given), "password {given:?} on a key made with {right:?}: opens {}", r.is_ok());
                if let Ok(sk) = r {
                    ensure!(mini::SecKey::parse_bytes(&sk.to_bytes()).is_some_and(|x| x.body == o.rsk.body), "opened to other contents");
                    let b = es(minisign::sign(Some(&o.pk), &sk, &b"x"[..], Some("t"), Some("u")), "sign with the opened key")?;
                    vfy_plain(&o.pk, &b, b"x", false)?;
                }
                self.t("encrypted key opened or refused");
            }
            Op::Garbage { n } => {
                let o = &self.keys[*n as usize % nk];
                let t = match n % 6 {
                    0 => String::new(),
                    1 => "untrusted comment: x\n".into(),
                    2 => o.rpk.to_file(),
                    3 => o.rsk.to_file("x").chars().take(100).collect(),
                    4 => "untrusted comment: x\nAAAA\ntrusted comment: y\nAAAA\n".into(),
                    _ => "\u{0}\n\u{0}\n\u{0}\n\u{0}\n".into(),
                };
                ensure!(SignatureBox::from_string(&t).is_err(), "garbage loads as a signature");
                ensure!(SecretKeyBox::from(t.clone()).into_unencrypted_secret_key().is_err(), "garbage loads as a secret key");
                if n % 6 != 2 {
                    ensure!(PublicKeyBox::from(t).into_public_key().is_err(), "garbage loads as a public key");
                }
                ensure!(SignatureBones::from_bytes(&[*n; 74]).is_err(), "garbage loads as a bare signature");
                self.t("garbage refused");
            }
            Op::Derive { k } => {
                let o = &self.keys[ki(*k)];
                let p = es(PublicKey::from_secret_key(&o.sk), "from_secret_key")?;
                ensure!(p.to_bytes() == o.rpk.to_bytes(), "derived public key differs");
                self.t("public key derived");
            }
            Op::Compare { a, b } => {
                let (a, b) = (&self.keys[ki(*a)], &self.keys[ki(*b)]);
                ensure!((a.pk == b.pk) == (a.rpk.key == b.rpk.key), "comparison of public keys");
                self.t("public keys compared");
            }
        }
        Ok(())
    }
}
/// The same signing with the same random stream: first and last thing in a history.
fn probe() -> Result<String, String> {
    let k = key(9);
    getrandom::ctl::install(getrandom::ctl::Mode::Stream(4242), None, 5);
    let b = es(minisign::sign(Some(&k.pk), &k.sk, &b"probe"[..], Some("t"), Some("u")), "probe")?;
    vfy_plain(&k.pk, &b, b"probe", false).map_err(|e| format!("probe: {e}"))?;
    ensure!(vfy_plain(&k.pk, &b, b"prob", false).is_err(), "probe: other data verifies");
    Ok(b.to_string())
}
fn run(ops: &[Op], who: usize, dir: std::path::PathBuf, shared: &Shared) -> Result<BTreeMap<&'static str, u64>, String> {
    let before = probe()?;
    getrandom::ctl::install(getrandom::ctl::Mode::Stream(who as u64), None, 5);
    let mut m = Model::new(dir);
    // objects that all threads use at once
    m.keys.push(shared.key.clone());
    for (i, op) in ops.iter().enumerate() {
        m.step(op).map_err(|e| format!("thread {who}, step {i} {op:?}: {e}"))?;
        if i % 4 == 0 {
            let r = minisign::verify(&shared.key.pk, &shared.sig, std::io::Cursor::new(&shared.data), true, false, false);
            ensure!(r.is_ok(), "thread {who}, step {i}: the shared signature does not verify: {r:?}");
            let b = es(minisign::sign(Some(&shared.key.pk), &shared.key.sk, &shared.data[..], Some("t"), None), "shared key")?;
            ensure!(parse(&b)?.verify(&shared.key.rpk, &shared.data, false), "thread {who}, step {i}: signature of the shared key");
        }
    }
    // everything once more at the end
    for (i, s) in m.sigs.iter().enumerate() {
        let pk = pk_of(&s.rpk);
        m.verify(s, &s.rpk, &pk, s.d, true, true, false, &[]).map_err(|e| format!("thread {who}, at the end, signature {i}: {e}"))?;
    }
    ensure!(probe()? == before, "thread {who}: the same signing with the same randomness gave another result after the history");
    Ok(m.tally)
}
struct Shared {
    key: MKey,
    sig: SignatureBox,
    data: Vec<u8>,
}

/// With `few`, all operations pick from a handful of things, so that histories come back to the
/// same ones, and to ones that share all but one of their parts.
fn op(few: bool) -> BoxedStrategy<Op> {
    let b = any::<bool>;
    let u = move || if few { (0..5u8).boxed() } else { any::<u8>().boxed() };
    let pk = prop_oneof![2 => Just(Pk::None), 2 => Just(Pk::Right), 1 => u().prop_map(Pk::Of)];
    prop_oneof![
        2 => (any::<u32>(), b()).prop_map(|(rng, write)| Op::Gen { rng, write }),
        1 => (u(), any::<u32>()).prop_map(|(k, n)| Op::SameId { k, n }),
        8 => (u(), u(), u(), pk, chunk_sizes()).prop_map(|(k, d, tc, pk, sizes)| Op::Sign { k, d, tc, pk, sizes }),
        2 => (u(), u(), b()).prop_map(|(k, d, legacy)| Op::RefSign { k, d, legacy }),
        2 => (u(), any::<u8>(), any::<usize>(), proptest::bool::weighted(0.3), any::<u8>()).prop_map(|(k, d, at, rng, by)| Op::SignFails { k, d, at, rng, by }),
        4 => (u(), u(), u(), b(), b(), b(), chunk_sizes()).prop_map(|(s, k, d, legacy, quiet, output, sizes)| Op::Verify { s, k, d, legacy, quiet, output, sizes }),
        8 => (u(), b(), b()).prop_map(|(s, legacy, output)| Op::VerifyOwn { s, legacy, output }),
        1 => (u(), any::<usize>(), any::<u8>()).prop_map(|(s, at, by)| Op::VerifyFails { s, at, by }),
        3 => (u(), u()).prop_map(|(s, what)| Op::Tamper { s, what }),
        3 => (u(), u()).prop_map(|(s, form)| Op::Reload { s, form }),
        2 => u().prop_map(|s| Op::Bare { s }),
        2 => (u(), u()).prop_map(|(k, form)| Op::ReloadKey { k, form }),
        2 => (u(), u()).prop_map(|(k, form)| Op::ReloadPk { k, form }),
        2 => (u(), u(), u(), u(), b()).prop_map(|(k, pw, typed, salt, lim)| Op::Encrypted { k, pw, typed, salt, lim }),
        2 => u().prop_map(|n| Op::Garbage { n }),
        1 => u().prop_map(|k| Op::Derive { k }),
        1 => (u(), u()).prop_map(|(a, b)| Op::Compare { a, b }),
    ]
    .boxed()
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C19";
    const SHRINK: u32 = 2500;
    const RULE: &'static str = "Model-based histories of 17 kinds of operation over a pool of keys (some sharing an id), data, valid and tampered signatures and stored forms, failing operations included; one list per thread, one to four threads at once on shared and own objects. The model predicts every outcome; all signatures are verified again at the end, and a fixed signing with fixed randomness must give the same bytes before and after. Further, sequences of calls that are fully determined by their arguments (scripted random source), each near the others (one byte of the key, signature, comment, data, password or stored form differs, or the sign of the key) and some repeated up to 66000 times: each call must have the very outcome, errors included, that it has as the only call of a process of its own. Non-trivial: a history of at least five operations with at least one signing and one verification, or a sequence of calls with different outcomes.";
    const ASSUMPTIONS: &'static [&'static str] = &["thread interleavings are those the machine produces, not enumerated"];
    fn fixed(_t: Tier) -> Vec<Case> {
        let mut v = vec![];
        // calls in turn with ones that differ from them in one place, each against its outcome on its own
        for kind in 0..10u8 {
            let (base, near) = near(kind, 5000 + kind as u32);
            for part in near.chunks(24) {
                let calls: Vec<Call> = [base.clone()].into_iter().chain(part.iter().cloned()).collect();
                let seq = (1..calls.len() as u16).flat_map(|i| [(0, 1), (i, 1)]).chain([(0, 1)]).collect();
                v.push(Case::Order { calls, seq });
            }
        }
        // the same outcome many times, then another
        for kind in 0..10u8 {
            let (base, near) = near(kind, 5020 + kind as u32);
            for other in [0usize, near.len() / 2, near.len() - 1] {
                let most = if kind == 6 { 150 } else { 3000 };
                for n in [40, 300, most] {
                    v.push(Case::Order { calls: vec![base.clone(), near[other].clone()], seq: vec![(0, 1), (1, n), (0, n), (1, 1), (0, 1)] });
                }
            }
            if [0, 5, 7].contains(&kind) {
                v.push(Case::Order { calls: vec![base, near[near.len() - 1].clone()], seq: vec![(0, 1), (1, 66_000), (0, 1)] });
            }
        }
        // verdicts in every order of good and bad
        let sign = |d: u8| Op::Sign { k: 0, d, tc: 1, pk: Pk::Right, sizes: vec![] };
        let good = |s: u8| Op::VerifyOwn { s, legacy: false, output: false };
        for what in 0..10 {
            v.push(hist(vec![vec![sign(5), Op::Tamper { s: 0, what }, good(0), good(1), good(0), good(1), good(1), good(0)]]));
            v.push(hist(vec![vec![sign(5), Op::Tamper { s: 0, what }, good(1), good(0), Op::Garbage { n: what }, good(0), Op::SignFails { k: 0, d: 5, at: what as usize, rng: what % 2 == 0, by: 0 }, sign(5), good(2), good(0)]]));
        }
        for d in 0..16 {
            for e in 0..16 {
                v.push(hist(vec![vec![
                    sign(d),
                    sign(e),
                    Op::Verify { s: 0, k: 0, d: e, legacy: false, quiet: true, output: false, sizes: vec![] },
                    good(0),
                    Op::Verify { s: 1, k: 0, d, legacy: true, quiet: true, output: true, sizes: vec![100] },
                    good(1),
                ]]));
            }
        }
        // every verification right after one that differs from it in one part only
        let setup = || {
            vec![
                Op::SameId { k: 0, n: 1 },
                sign(5),
                sign(6),
                Op::Sign { k: 4, d: 5, tc: 1, pk: Pk::None, sizes: vec![] },
                Op::Sign { k: 0, d: 5, tc: 2, pk: Pk::None, sizes: vec![] },
                Op::RefSign { k: 0, d: 5, legacy: true },
                Op::Tamper { s: 0, what: 0 },
                Op::Tamper { s: 0, what: 1 },
                Op::Tamper { s: 0, what: 2 },
                Op::Tamper { s: 0, what: 3 },
                Op::Bare { s: 0 },
                Op::Bare { s: 2 },
                Op::Bare { s: 4 },
                Op::Tamper { s: 9, what: 20 },
            ]
        };
        const KS: [u8; 3] = [0, 4, 1];
        let vf = |(s, k, d, l): (u8, usize, u8, bool)| Op::Verify { s, k: KS[k], d: 5 + d, legacy: l, quiet: true, output: false, sizes: vec![] };
        for s in 0..13u8 {
            for k in 0..3usize {
                for d in 0..2u8 {
                    for l in [false, true] {
                        let a = (s, k, d, l);
                        let mut near: Vec<_> = (1..13).map(|i| ((s + i) % 13, k, d, l)).collect();
                        near.extend([(s, (k + 1) % 3, d, l), (s, (k + 2) % 3, d, l), (s, k, 1 - d, l), (s, k, d, !l)]);
                        let mut o = setup();
                        for b in near {
                            o.extend([vf(a), vf(b)]);
                        }
                        o.push(vf(a));
                        v.push(hist(vec![o]));
                    }
                }
            }
        }
        // a reader that fails at every point of long data, handing out whole buffers and parts
        for d in [10u8, 11, 12, 15] {
            for by in 0..BY.len() as u8 {
                for at in 0..4 {
                    let fails = Op::SignFails { k: 1, d, at, rng: false, by };
                    let vfails = Op::VerifyFails { s: 0, at, by };
                    let legacy = Op::RefSign { k: 0, d, legacy: true };
                    v.push(hist(vec![vec![sign(d), legacy, fails.clone(), good(0), fails.clone(), sign(5), good(2), vfails.clone(), good(0), vfails.clone(), sign(d), good(3), Op::VerifyFails { s: 1, at, by }, Op::VerifyOwn { s: 1, legacy: true, output: false }, good(0)]]));
                }
            }
        }
        // the same for opening encrypted keys
        for x in 0..32u8 {
            let op = |x: u8| Op::Encrypted { k: if x & 1 == 0 { 0 } else { 4 }, pw: x >> 1 & 1, typed: x >> 2 & 1, salt: x >> 3 & 1, lim: x & 16 != 0 };
            let mut o = vec![Op::SameId { k: 0, n: 1 }, sign(5), op(x)];
            for bits in [1u8, 2, 4, 8, 16, 6] {
                o.extend([op(x ^ bits), op(x)]);
            }
            o.push(good(0));
            v.push(hist(vec![o]));
        }
        // keys that share an id, loaded one after the other in every form
        for f in 0..5u8 {
            let mut o = vec![Op::SameId { k: 0, n: 1 }, sign(5), Op::Sign { k: 4, d: 5, tc: 1, pk: Pk::Right, sizes: vec![] }];
            for k in [0, 4, 0, 4, 1, 0] {
                o.extend([Op::ReloadPk { k, form: f }, Op::ReloadKey { k, form: f }, Op::Derive { k }, Op::Sign { k, d: 6, tc: 2, pk: Pk::Right, sizes: vec![] }]);
            }
            for s in 0..8 {
                o.extend([Op::Reload { s, form: f }, good(s)]);
            }
            v.push(hist(vec![o]));
        }
        // the same history in four threads
        let h: Vec<Op> = (0..40u8).flat_map(|i| [Op::Sign { k: i, d: i, tc: i, pk: Pk::Right, sizes: vec![] }, Op::VerifyOwn { s: i, legacy: true, output: i % 2 == 0 }, Op::Reload { s: i, form: i }, Op::Tamper { s: i, what: i }]).collect();
        for _ in 0..4 {
            v.push(hist(vec![h.clone(), h.clone(), h.clone(), h.clone()]));
        }
        v
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        use proptest::collection::vec;
        prop_oneof![
            3 => vec(op(false), 1..40).prop_map(|o| hist(vec![o])),
            4 => vec(op(true), 5..40).prop_map(|o| hist(vec![o])),
            1 => vec(op(false), 60..140).prop_map(|o| hist(vec![o])),
            1 => vec(vec(op(false), 1..25), 2..5).prop_map(|threads| hist(threads)),
            1 => vec(vec(op(true), 1..25), 2..5).prop_map(|threads| hist(threads)),
            2 => (0..10u8, 6000u32..6100, vec(any::<u16>(), 1..8), vec((any::<u16>(), prop_oneof![9 => Just(1u32), 1 => 2..20u32]), 3..20)).prop_map(|(kind, k, pick, seq)| {
                let (base, near) = near(kind, k);
                let calls = [base].into_iter().chain(pick.iter().map(|p| near[*p as usize * near.len() >> 16].clone())).collect();
                Case::Order { calls, seq }
            }),
            1 => (vec((0..10u8, any::<u16>()), 2..8), 6000u32..6100, vec((any::<u16>(), Just(1u32)), 3..20)).prop_map(|(pick, k, seq)| {
                let calls = pick.iter().map(|(kind, p)| {
                    let (base, near) = near(*kind, k);
                    near.get(*p as usize * (near.len() * 2) >> 16).cloned().unwrap_or(base)
                });
                Case::Order { calls: calls.collect(), seq }
            }),
        ]
        .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(5_000, 250_000)
    }
    fn fast_only(c: &Case) -> bool {
        matches!(c, Case::Order { seq, .. } if seq.iter().any(|(_, n)| *n > 300))
    }
    fn check(c: &Case, cx: &mut Cx) -> R {
        let threads = match c {
            Case::Order { calls, seq } => return order(calls, seq, cx),
            Case::Hist { threads } => threads,
        };
        let k = key(31);
        let data = stream(31, 5000);
        let shared = Shared { key: MKey { sk: k.sk.clone(), pk: k.pk.clone(), rsk: k.rsk.clone(), rpk: k.rpk.clone() }, sig: sgn(&k, &data, Some("shared"), None)?, data };
        let dir = |i: usize| {
            let d = scratch().join(format!("c19-{i}"));
            let _ = std::fs::create_dir_all(&d);
            d
        };
        let tallies = if threads.len() == 1 {
            vec![run(&threads[0], 0, dir(0), &shared)?]
        } else {
            let shared = &shared;
            let rs: Vec<_> = std::thread::scope(|sc| {
                let hs: Vec<_> = threads.iter().enumerate().map(|(i, ops)| (dir(i), i, ops)).map(|(d, i, ops)| sc.spawn(move || run(ops, i, d, shared))).collect();
                hs.into_iter().map(|h| h.join()).collect()
            });
            let mut v = vec![];
            for (i, r) in rs.into_iter().enumerate() {
                v.push(match r {
                    Ok(r) => r?,
                    Err(p) => return Err(format!("thread {i} panicked: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
                });
            }
            v
        };
        let mut total = 0;
        let mut both = [false; 2];
        for t in tallies {
            for (s, n) in t {
                total += n;
                both[0] |= s == "signed";
                both[1] |= s.starts_with("verified");
                cx.add(s, n);
            }
        }
        cx.label(format!("{} threads", threads.len()));
        if total >= 5 && both == [true, true] {
            cx.nontrivial();
        }
        Ok(())
    }
}
