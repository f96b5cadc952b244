//! Nonces of signatures, recovered with the secret key.
use crate::dict;
use crate::engine::*;
use crate::util::*;
use getrandom::ctl::{self, Mode};
use minisign::SecretKey;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use vref::ed25519::{self as ed, Point};
use vref::mini;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Src {
    Stream(u64),
    Constant(u8),
    Repeat(u64),
    /// the same stream starts over before every signature
    Restart(u64),
}
impl Src {
    fn install(self) {
        ctl::install(
            match self {
                Src::Stream(s) | Src::Restart(s) => Mode::Stream(s),
                Src::Constant(c) => Mode::Constant(c),
                Src::Repeat(s) => Mode::Repeat(s),
            },
            None,
            5,
        )
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    /// signatures of one key over these messages, in this order
    Msgs { key: u32, src: Src, msgs: Vec<(Data, String)>, pk: bool },
    /// the same data under comments that differ in one character at the end
    Tail { key: u32, src: Src, len: usize, n: usize },
    /// secret keys with the same public half, id, message and random source
    Keys { src: Src, first: u32, n: u32, data: Data, tc: String },
    /// every bit of the nonce varies
    Bits { key: u32, src: Src, n: usize },
    /// so many messages (or secret keys) that any 32 bits of them or of their digests coincide in some pair
    Birthday { src: Src, n: u32, keys: bool },
}
type N = [u64; 4];

fn nonce(seed: &[u8; 32], pk: &[u8; 32], msg: &[u8], sig: &[u8; 64]) -> Result<N, String> {
    let s = ed::expand(seed);
    let h = ed::hram(&sig[..32], pk, msg);
    let r = ed::sc_add(&ed::from_le(&sig[32..]), &ed::sc_neg(&ed::sc_mul(&h, &ed::reduce512(&ed::to_le(&s.a)))));
    Ok(r)
}
/// (message, nonce) of both signatures in a box
fn both(sk: &SecretKey, seed: &[u8; 32], pkb: &[u8; 32], data: &[u8], tc: &str, pk: Option<&minisign::PublicKey>) -> Result<[(Vec<u8>, N); 2], String> {
    let b = minisign::sign(pk, sk, data, Some(tc), Some("u")).map_err(|e| format!("signing failed: {e}"))?;
    let s = parse(&b)?;
    let m1 = mini::Sig::message(true, data);
    let m2 = s.signed_comment();
    let (n1, n2) = (nonce(seed, pkb, &m1, &s.sig)?, nonce(seed, pkb, &m2, &s.global)?);
    Ok([(m1, n1), (m2, n2)])
}
fn far(a: &N, b: &N) -> bool {
    let d = ed::sc_add(a, &ed::sc_neg(b));
    let e = ed::sc_neg(&d);
    let big = |x: &N| x[2] != 0 || x[3] != 0;
    big(&d) && big(&e)
}
#[derive(Default)]
struct Seen {
    by: HashMap<N, Vec<u8>>,
    all: Vec<N>,
}
impl Seen {
    fn add(&mut self, m: Vec<u8>, n: N, what: &str) -> R {
        ensure!(n[2] != 0 || n[3] != 0, "{what}: tiny nonce {n:x?}");
        match self.by.get(&n) {
            Some(o) => ensure!(*o == m, "{what}: two different messages signed with the same nonce {}", hex(&ed::to_le(&n))),
            None => {
                for o in self.all.iter().rev().take(12) {
                    ensure!(far(o, &n), "{what}: nonces {} and {} are close", hex(&ed::to_le(o)), hex(&ed::to_le(&n)));
                }
                self.by.insert(n, m);
                self.all.push(n);
            }
        }
        Ok(())
    }
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C17";
    const RULE: &'static str = "Sequences of signatures under one key with pseudo-random, constant, repeating and restarting random sources; the nonce of both signatures in each box is recovered with the secret key (r = S - h*a, and R = r*B is checked on a sample). Different messages must have different nonces that are not close to one another; keys that differ in the seed only must have different nonces for the same message and random output; every nonce bit must vary. Non-trivial: at least two nonces of different messages or keys were compared.";
    const ASSUMPTIONS: &'static [&'static str] = &["nonces that are distinct, far apart and vary in every bit can still be predictable in ways that sampling does not show"];
    const SHRINK: u32 = 500;
    fn fixed(t: Tier) -> Vec<Case> {
        let mut v = vec![];
        for src in [Src::Stream(1), Src::Constant(0), Src::Constant(0xff), Src::Repeat(3), Src::Restart(4)] {
            for key in [0, 1, 9] {
                v.push(Case::Bits { key, src, n: 48 });
                for len in [0usize, 1, 63, 64, 65, 127, 128, 500, 3000] {
                    v.push(Case::Tail { key, src, len, n: 4 });
                }
            }
            if let Src::Constant(0) | Src::Restart(_) = src {
                for keys in [false, true] {
                    v.push(Case::Birthday { src, n: t.pick(140_000, 600_000), keys });
                }
            }
            for len in dict::nums(129, 5000) {
                v.push(Case::Tail { key: 9, src, len, n: 2 });
            }
            v.push(Case::Keys { src, first: 0, n: 900, data: gen(50, 1), tc: "t".into() });
            v.push(Case::Msgs { key: 9, src, msgs: (0..60).map(|i| (gen(i / 2, i as u32 % 2), ["", "a", "b"][i % 3].into())).collect(), pk: true });
        }
        v
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        use proptest::collection::vec;
        let src = || prop_oneof![1 => any::<u64>().prop_map(Src::Stream), 2 => any::<u8>().prop_map(Src::Constant), 1 => any::<u64>().prop_map(Src::Repeat), 2 => any::<u64>().prop_map(Src::Restart)];
        let d = || prop_oneof![2 => small_data(), 1 => (0usize..3, 0u32..2).prop_map(|(l, s)| gen(l, s))];
        prop_oneof![
            12 => (keyn(), src(), vec((d(), comment()), 2..8), any::<bool>()).prop_map(|(key, src, msgs, pk)| Case::Msgs { key, src, msgs, pk }),
            4 => (keyn(), src(), 0usize..400, 2usize..5).prop_map(|(key, src, len, n)| Case::Tail { key, src, len, n }),
            1 => (src(), 0u32..100_000, 2u32..40, d(), comment()).prop_map(|(src, first, n, data, tc)| Case::Keys { src, first, n, data, tc }),
        ]
        .boxed()
    }
    fn fast_only(c: &Case) -> bool {
        matches!(c, Case::Birthday { .. })
    }
    fn cases(t: Tier) -> u32 {
        t.pick(15_000, 300_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> R {
        match c {
            Case::Msgs { key: n, src, msgs, pk } => {
                let k = key(*n);
                let mut seen = Seen::default();
                src.install();
                for (i, (data, tc)) in msgs.iter().enumerate() {
                    if let Src::Restart(_) = src {
                        src.install()
                    }
                    for (m, r) in both(&k.sk, &k.seed, &k.pkb, &data.bytes(), tc, pk.then_some(&k.pk))? {
                        seen.add(m, r, &format!("signature {i}"))?;
                    }
                }
                cx.add("nonces compared", seen.all.len() as u64);
            }
            Case::Tail { key: n, src, len, n: count } => {
                let k = key(*n);
                let mut seen = Seen::default();
                src.install();
                for i in 0..*count {
                    for head in [false, true] {
                        if let Src::Restart(_) = src {
                            src.install()
                        }
                        let x = (b'a' + i as u8) as char;
                        let tc = if head { format!("{x}{}", "x".repeat(*len)) } else { format!("{}{x}", "x".repeat(*len)) };
                        for (m, r) in both(&k.sk, &k.seed, &k.pkb, b"the same data", &tc, None)? {
                            seen.add(m, r, &format!("comment of {} characters", len + 1))?;
                        }
                    }
                }
                cx.add("nonces compared", seen.all.len() as u64);
            }
            Case::Keys { src, first, n, data, tc } => {
                let d = data.bytes();
                let owner = key(*first);
                let mut own = false;
                let (mut a, mut b) = (HashMap::new(), HashMap::new());
                for i in 0..*n {
                    let seed: [u8; 32] = match i {
                        0 => owner.seed,
                        i if i < 33 => {
                            let mut s = owner.seed;
                            s[i as usize - 1] ^= 1;
                            s
                        }
                        _ => stream((*first as u64) << 32 | i as u64, 32).try_into().unwrap(),
                    };
                    let sk = sk_of(&mini::SecKey::plain(&owner.id, &seed, &owner.pkb));
                    src.install();
                    let s = match minisign::sign(None, &sk, &d[..], Some(tc), Some("u")) {
                        Ok(b) => parse(&b)?,
                        // such a key may be refused; the real one may not
                        Err(e) => {
                            ensure!(i > 0, "signing failed: {e}");
                            continue;
                        }
                    };
                    let m1 = mini::Sig::message(true, &d);
                    let mut pkb = owner.pkb;
                    if i == 1 {
                        // which public key enters the hash when the halves do not match
                        let r = nonce(&seed, &pkb, &m1, &s.sig)?;
                        own = Point::base().mul(&r).encode() != s.sig[..32];
                    }
                    if own {
                        pkb = ed::public(&seed)
                    }
                    let r1 = nonce(&seed, &pkb, &m1, &s.sig)?;
                    let r2 = nonce(&seed, &pkb, &s.signed_comment(), &s.global)?;
                    if i < 3 {
                        ensure!(Point::base().mul(&r1).encode() == s.sig[..32], "commitment of the signature is not nonce*B");
                        ensure!(Point::base().mul(&r2).encode() == s.global[..32], "commitment of the comment signature is not nonce*B");
                    }
                    if let Some(o) = a.insert(r1, i) {
                        return Err(format!("secret keys {o} and {i} use the same nonce for the same message and randomness"));
                    }
                    if let Some(o) = b.insert(r2, i) {
                        return Err(format!("secret keys {o} and {i} use the same comment nonce"));
                    }
                }
                cx.add("secret keys compared", *n as u64);
            }
            Case::Birthday { src, n, keys } => {
                // Equal commitments are equal (or opposite) nonces; the messages or keys all differ, and the random
                // source gives the same bytes each time.
                let k = key(9);
                let mut seen: HashMap<[u8; 32], (u32, bool)> = HashMap::with_capacity(2 * *n as usize);
                let mut refused = 0;
                for i in 0..*n {
                    let sk;
                    let (sk, data) = if *keys {
                        let seed: [u8; 32] = stream(0xb17d << 32 | i as u64, 32).try_into().unwrap();
                        sk = sk_of(&mini::SecKey::plain(&k.id, &seed, &k.pkb));
                        (&sk, 0u32)
                    } else {
                        (&k.sk, i)
                    };
                    src.install();
                    let b = match minisign::sign(None, sk, &data.to_le_bytes()[..], Some("t"), Some("u")) {
                        Ok(b) => b,
                        Err(_) if *keys => {
                            refused += 1;
                            continue;
                        }
                        Err(e) => return Err(format!("signing failed: {e}")),
                    };
                    let s = parse(&b)?;
                    for (global, r) in [(false, &s.sig[..32]), (true, &s.global[..32])] {
                        let r: [u8; 32] = r.try_into().unwrap();
                        if let Some((o, og)) = seen.insert(r, (i, global)) {
                            let what = if *keys { "secret keys" } else { "messages" };
                            return Err(format!("the same nonce for {what} {o} (comment {og}) and {i} (comment {global})"));
                        }
                    }
                }
                cx.add("commitments compared", 2 * (*n - refused) as u64);
            }
            Case::Bits { key: n, src, n: count } => {
                let k = key(*n);
                src.install();
                let mut all: Vec<[N; 2]> = vec![];
                for i in 0..*count {
                    if let Src::Restart(_) = src {
                        src.install()
                    }
                    let [a, b] = both(&k.sk, &k.seed, &k.pkb, &stream(i as u64, 20), "t", None)?;
                    all.push([a.1, b.1]);
                }
                for which in 0..2 {
                    // bits 0..252; with 48 samples a fair bit is constant with probability 2^-47
                    for bit in 0..252 {
                        let ones = all.iter().filter(|n| n[which][bit / 64] >> (bit % 64) & 1 == 1).count();
                        ensure!(ones != 0 && ones != *count, "bit {bit} of nonce {which} is the same in {count} signatures");
                    }
                }
                cx.add("nonce bits observed", 504);
            }
        }
        cx.nontrivial();
        Ok(())
    }
}
