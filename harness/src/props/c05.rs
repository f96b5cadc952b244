//! Legacy signatures only on request; the mode comes from the tag alone.
use crate::dict;
use crate::engine::*;
use crate::util::*;
use super::c02::{make, Kind, KINDS};
use minisign::{SignatureBones, SignatureBox};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vref::{b64, mini};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    /// valid box, both flags
    Truth { key: u32, kind: Kind, data: Data, tc: String },
    /// tag replaced by the other one, comment signature remade or not
    Relabel { key: u32, kind: Kind, data: Data, tc: String },
    /// a 256-tag page: first byte fixed, second enumerated
    Tags { first: u8, data: Data },
}
pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C05";
    const RULE: &'static str = "Valid pre-hashed and legacy signatures, boxed and bare, verified with legacy allowed and refused; the same signatures relabelled as the other mode; all 65536 algorithm tags (enumerated, 256 per case) for boxes and bare signatures. Non-trivial: the signature is valid for its own mode, or a page of tags was tried.";
    fn fixed(_t: Tier) -> Vec<Case> {
        let mut v: Vec<Case> = (0..=255u8).map(|first| Case::Tags { first, data: gen(5, 1) }).collect();
        for kind in KINDS {
            for len in (0..140).chain([64, 65535, 65536, 65537, 200_000]).chain(dict::lens()).chain(dict::long_lens().into_iter().filter(|n| *n < 3 << 20)) {
                v.push(Case::Truth { key: len as u32 % 24, kind, data: gen(len, 1), tc: "t".into() });
                v.push(Case::Relabel { key: len as u32 % 24, kind, data: gen(len, 1), tc: "t".into() });
            }
            for tc in ["", "hashed", "timestamp:1\tfile:a\thashed", "prehashed", "legacy"] {
                v.push(Case::Truth { key: 3, kind, data: gen(9, 1), tc: tc.into() });
                v.push(Case::Relabel { key: 3, kind, data: gen(9, 1), tc: tc.into() });
            }
            for tc in dict::texts() {
                v.push(Case::Truth { key: 3, kind, data: gen(9, 1), tc: tc.clone() });
                v.push(Case::Relabel { key: 3, kind, data: gen(9, 1), tc });
            }
        }
        v
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let k = || proptest::sample::select(KINDS.to_vec());
        prop_oneof![
            3 => (keyn(), k(), data(), comment()).prop_map(|(key, kind, data, tc)| Case::Truth { key, kind, data, tc }),
            3 => (keyn(), k(), data(), comment()).prop_map(|(key, kind, data, tc)| Case::Relabel { key, kind, data, tc }),
        ]
        .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(80_000, 400_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> R {
        match c {
            Case::Truth { key: n, kind, data, tc } => {
                let k = key(*n);
                let d = data.bytes();
                let b = make(&k, *kind, &d, tc)?;
                let legacy = matches!(kind, Kind::Legacy | Kind::BareLegacy);
                ensure!(b.is_prehashed() != legacy, "{kind:?} box reports pre-hashed {}", b.is_prehashed());
                let yes = vfy(&k.pk, &b, &d, true);
                ensure!(yes.is_ok(), "valid {kind:?} signature refused with legacy allowed: {yes:?}");
                let no = vfy(&k.pk, &b, &d, false);
                ensure!(no.is_err() == legacy, "valid {kind:?} signature without legacy: {no:?}");
                if !legacy {
                    // what the library makes is pre-hashed
                    let raw = SignatureBones::from(b.clone()).to_bytes();
                    ensure!(raw[..2] == *b"ED", "library signature tagged {:?}", &raw[..2]);
                }
                let wrong = [&d[..], b"x"].concat();
                ensure!(vfy(&k.pk, &b, &wrong, false).is_err() && vfy(&k.pk, &b, &wrong, true).is_err(), "other data verifies");
                cx.label(format!("truth {kind:?}"));
                cx.nontrivial();
            }
            Case::Relabel { key: n, kind, data, tc } => {
                let k = key(*n);
                let d = data.bytes();
                let b = make(&k, *kind, &d, tc)?;
                let mut raw = SignatureBones::from(b.clone()).to_bytes();
                ensure!(raw.len() == 74, "bare signature of {} bytes", raw.len());
                raw[1] = if raw[1] == b'D' { b'd' } else { b'D' };
                let mut tries: Vec<(String, Result<SignatureBox, String>)> = vec![("bare".into(), bones(&raw))];
                if matches!(kind, Kind::Prehashed | Kind::Legacy) {
                    let mut s = parse(&b)?;
                    s.alg = [raw[0], raw[1]];
                    tries.push(("box".into(), load(&s.to_file())));
                    // the comment signature is by the key holder and still right
                    ensure!(vref::ed25519::verify(&k.pkb, &s.signed_comment(), &s.global), "comment signature is not by the key");
                }
                for (what, t) in tries {
                    let Ok(t) = t else {
                        return Err(format!("{what} with a known tag does not load"));
                    };
                    ensure!(t.is_prehashed() == (raw[1] == b'D'), "{what}: mode is not the tag's");
                    for legacy in [false, true] {
                        ensure!(vfy(&k.pk, &t, &d, legacy).is_err(), "{kind:?} {what} relabelled verifies (legacy {legacy})");
                    }
                }
                cx.label(format!("relabel {kind:?}"));
                cx.nontrivial();
            }
            Case::Tags { first, data } => {
                let k = key(8);
                let d = data.bytes();
                for (prehashed, second) in [false, true].into_iter().flat_map(|p| (0..=255u8).map(move |s| (p, s))) {
                    thread_local!(static G: std::cell::RefCell<std::collections::HashMap<(bool, Vec<u8>), mini::Sig>> = Default::default());
                    let mut s = G.with(|g| g.borrow_mut().entry((prehashed, d.clone())).or_insert_with(|| mini::Sig::make(prehashed, &k.seed, &k.id, &d, "t", "u")).clone());
                    let own = s.alg;
                    s.alg = [*first, second];
                    let known = s.alg == *b"ED" || s.alg == *b"Ed";
                    let b = load(&s.to_file());
                    let r = bones(&s.bare());
                    ensure!(b.is_ok() == known, "tag {:02x}{second:02x}: box load {:?}", first, b.map(|_| ()));
                    ensure!(r.is_ok() == known, "tag {:02x}{second:02x}: bare load {:?}", first, r.map(|_| ()));
                    if let (Ok(b), Ok(r)) = (b, r) {
                        for x in [b, r] {
                            let v = vfy(&k.pk, &x, &d, true);
                            ensure!(v.is_ok() == (s.alg == own), "tag {:02x}{second:02x} over a {own:?} signature: {v:?}", first);
                        }
                    }
                    cx.add("tags tried", 2);
                }
                let _ = b64::encode(b"");
                cx.nontrivial();
            }
        }
        Ok(())
    }
}
