//! A signature verifies only with the key id and public key of its signer.
use crate::dict;
use crate::engine::*;
use crate::util::*;
use super::c02::{make, Kind, KINDS};
use getrandom::ctl;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vref::mini;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Rel {
    Same,
    Other(u32),
    OtherSameId(u32),
    SameKeyOtherId(u32),
    SameKeyReversedId,
    FlipKey(usize),
    FlipId(usize),
    SetKeyByte(usize, u8),
    /// two key bytes changed by the same XOR
    FlipKeyTwice(usize, usize, u8),
    FlipIdTwice(usize, usize, u8),
    SwapIdBytes(usize, usize),
    ZeroKey,
    IdentityKey,
    ZeroId,
    Alg(u8, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Verify(Kind),
    /// sign with the public key supplied; the secret key is still encrypted when true
    Sign { encrypted: bool },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    key: u32,
    lib: bool,
    rel: Rel,
    op: Op,
    data: Data,
    tc: String,
}
fn other(k: &Key, r: &Rel) -> mini::PubKey {
    let mut p = k.rpk.clone();
    match r {
        Rel::Same => {}
        Rel::Other(n) => p = key(*n).rpk.clone(),
        Rel::OtherSameId(n) => p.key = key(*n).rpk.key,
        Rel::SameKeyOtherId(n) => p.id = key(*n).rpk.id,
        Rel::SameKeyReversedId => p.id.reverse(),
        Rel::FlipKey(b) => p.key[b / 8 % 32] ^= 1 << (b % 8),
        Rel::FlipId(b) => p.id[b / 8 % 8] ^= 1 << (b % 8),
        Rel::SetKeyByte(i, x) => p.key[i % 32] = *x,
        Rel::FlipKeyTwice(i, j, x) => {
            p.key[i % 32] ^= x;
            p.key[j % 32] ^= x
        }
        Rel::FlipIdTwice(i, j, x) => {
            p.id[i % 8] ^= x;
            p.id[j % 8] ^= x
        }
        Rel::SwapIdBytes(i, j) => p.id.swap(i % 8, j % 8),
        Rel::ZeroKey => p.key = [0; 32],
        Rel::IdentityKey => {
            p.key = [0; 32];
            p.key[0] = 1
        }
        Rel::ZeroId => p.id = [0; 8],
        Rel::Alg(a, b) => p.alg = [*a, *b],
    }
    p
}
fn rel() -> BoxedStrategy<Rel> {
    prop_oneof![
        1 => Just(Rel::Same),
        3 => keyn().prop_map(Rel::Other),
        3 => keyn().prop_map(Rel::OtherSameId),
        2 => keyn().prop_map(Rel::SameKeyOtherId),
        1 => Just(Rel::SameKeyReversedId),
        3 => (0usize..256).prop_map(Rel::FlipKey),
        3 => (0usize..64).prop_map(Rel::FlipId),
        2 => (0usize..32, any::<u8>()).prop_map(|(a, b)| Rel::SetKeyByte(a, b)),
        2 => (0usize..32, 0usize..32, 1u8..).prop_map(|(a, b, c)| Rel::FlipKeyTwice(a, b, c)),
        2 => (0usize..8, 0usize..8, 1u8..).prop_map(|(a, b, c)| Rel::FlipIdTwice(a, b, c)),
        1 => (0usize..8, 0usize..8).prop_map(|(a, b)| Rel::SwapIdBytes(a, b)),
        1 => Just(Rel::ZeroKey),
        1 => Just(Rel::IdentityKey),
        1 => Just(Rel::ZeroId),
    ]
    .boxed()
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C04";
    const RULE: &'static str = "A signer's key and another public key related to it: equal, independent, same id with another key, same key with another id, one bit apart (every bit of id and key enumerated), two bytes changed by the same XOR, swapped bytes, zero or identity key; the box is verified with it (pre-hashed, legacy and bare) or signing is asked with it, the secret key plain or still encrypted. Signing with and without the right key from the same random source output must give the same box. Non-trivial: the other key differs and the signer's own key verifies, or the right key was supplied and the boxes were compared.";
    fn fixed(_t: Tier) -> Vec<Case> {
        let mut rels = vec![Rel::Same, Rel::Other(9), Rel::OtherSameId(9), Rel::SameKeyOtherId(9), Rel::SameKeyReversedId, Rel::ZeroKey, Rel::IdentityKey, Rel::ZeroId];
        rels.extend((0..256).map(Rel::FlipKey));
        rels.extend((0..64).map(Rel::FlipId));
        for i in 0..8 {
            for j in 0..i {
                rels.push(Rel::SwapIdBytes(i, j));
                rels.push(Rel::FlipIdTwice(i, j, 0x55));
            }
        }
        for i in 0..32 {
            rels.push(Rel::FlipKeyTwice(i, (i + 1) % 32, 0x10));
            rels.push(Rel::SetKeyByte(i, 0));
        }
        let mut v = vec![];
        for r in &rels {
            for kind in KINDS {
                v.push(Case { key: 8, lib: false, rel: r.clone(), op: Op::Verify(kind), data: gen(33, 1), tc: "t".into() });
            }
            for encrypted in [false, true] {
                v.push(Case { key: 8, lib: false, rel: r.clone(), op: Op::Sign { encrypted }, data: gen(33, 1), tc: "t".into() });
            }
        }
        for len in dict::lens() {
            for kind in KINDS {
                for r in [Rel::Same, Rel::OtherSameId(9), Rel::SameKeyOtherId(9)] {
                    v.push(Case { key: 8, lib: false, rel: r, op: Op::Verify(kind), data: gen(len, 1), tc: "t".into() });
                }
            }
        }
        for n in 0..24 {
            for kind in KINDS {
                for r in [Rel::Same, Rel::OtherSameId(n + 1), Rel::SameKeyOtherId(n + 1)] {
                    v.push(Case { key: n, lib: n % 2 == 1, rel: r, op: Op::Verify(kind), data: gen(n as usize, 1), tc: "".into() });
                }
            }
            v.push(Case { key: n, lib: n % 2 == 1, rel: Rel::Same, op: Op::Sign { encrypted: false }, data: gen(n as usize, 1), tc: "".into() });
        }
        v
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let op = prop_oneof![
            4 => proptest::sample::select(KINDS.to_vec()).prop_map(Op::Verify),
            3 => any::<bool>().prop_map(|encrypted| Op::Sign { encrypted }),
        ];
        (keyn(), any::<bool>(), rel(), op, small_data(), comment()).prop_map(|(key, lib, rel, op, data, tc)| Case { key, lib, rel, op, data, tc }).boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(120_000, 700_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> R {
        let k = if c.lib { lib_key(c.key) } else { key(c.key) };
        let o = other(&k, &c.rel);
        let pk = minisign::PublicKey::from_bytes(&o.to_bytes()).map_err(|e| e.to_string())?;
        let d = c.data.bytes();
        let (same_id, same_key) = (o.id == k.id, o.key == k.pkb);
        match &c.op {
            Op::Verify(kind) => {
                let b = make(&k, *kind, &d, &c.tc)?;
                let own = vfy(&k.pk, &b, &d, true);
                let r = vfy(&pk, &b, &d, true);
                if same_id && same_key {
                    if own.is_ok() {
                        ensure!(r.is_ok(), "verifies with the signer's key but not with an equal one");
                    }
                    cx.label("verify: equal key");
                } else {
                    ensure!(r.is_err(), "{kind:?} signature by key {} id {} verifies with key {} id {}", hex(&k.pkb), hex(&k.id), hex(&o.key), hex(&o.id));
                    cx.label(format!("verify: same id {same_id}, same key {same_key}"));
                    if own.is_ok() {
                        cx.nontrivial();
                    }
                }
            }
            Op::Sign { encrypted } => {
                let mut rsk = k.rsk.clone();
                if *encrypted {
                    rsk.kdf = *b"Sc";
                    for (b, s) in rsk.body.iter_mut().zip(stream(c.key as u64 | 1 << 44, 104)) {
                        *b ^= s
                    }
                }
                let sk = sk_of(&rsk);
                let with = |p: Option<&minisign::PublicKey>| {
                    ctl::install(ctl::Mode::Stream(77), None, 5);
                    minisign::sign(p, &sk, &d[..], Some(&c.tc), Some("u")).map(|b| b.to_string()).map_err(|e| e.to_string())
                };
                let r = with(Some(&pk));
                if *encrypted || !same_key {
                    ensure!(r.is_err(), "signing with a public key that is not the secret key's succeeds (encrypted {encrypted}, same id {same_id}, same key {same_key})");
                    cx.label(format!("sign refused: encrypted {encrypted}, same id {same_id}"));
                    cx.nontrivial();
                } else if same_id {
                    let n = with(None);
                    ensure!(r == n, "supplying the right public key changes the outcome: {r:?} / {n:?}");
                    ensure!(r.is_ok(), "signing with the right public key fails: {r:?}");
                    cx.label("sign: right key");
                    cx.nontrivial();
                }
            }
        }
        Ok(())
    }
}
