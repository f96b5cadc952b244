//! Stored secret keys reload identically and corrupted ones are refused.
use crate::engine::*;
use crate::util::*;
use minisign::{PublicKey, SecretKey, SecretKeyBox};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vref::{b64, mini};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Form {
    Bytes,
    Box_,
    BoxString,
    BoxInto,
    BoxBytes,
    BoxFrom,
    FileText,
}
const FORMS: [Form; 7] = [Form::Bytes, Form::Box_, Form::BoxString, Form::BoxInto, Form::BoxBytes, Form::BoxFrom, Form::FileText];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    Trip { key: u32, lib: bool, comment: Option<String>, form: Form, crlf: u8 },
    /// any 158 bytes through to_bytes
    Raw { bytes: Hex },
    /// protected payload bytes (offsets in the 158) XORed
    Corrupt { key: u32, xor: Vec<(usize, u8)> },
    /// 32-byte blocks of the protected part exchanged
    SwapBlocks { key: u32, i: usize, j: usize, size: usize },
    /// bytes of another key's payload copied in
    Splice { key: u32, other: u32, from: usize, len: usize },
    Truncated { key: u32, chars: usize },
    ShortBytes { key: u32, len: usize },
    Subst { key: u32, at: usize, ch: char },
    Text { s: String },
    /// 256 kdf tags with this first byte, on a plain key
    KdfTags { first: u8 },
    /// an encrypted key loaded as an unencrypted one, and the reverse; its tag cleared
    Cross { key: u32, pw: String },
}
/// Protected bytes: signature tag and everything from the key id on.
const PROTECTED: [usize; 106] = {
    let mut a = [0; 106];
    a[1] = 1;
    let mut i = 2;
    while i < 106 {
        a[i] = 52 + i;
        i += 1;
    }
    a
};
fn boxed(raw: &[u8]) -> SecretKeyBox {
    SecretKeyBox::from(format!("untrusted comment: x\n{}\n", b64::encode(raw)))
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C09";
    const RULE: &'static str = "Secret keys (reference-made, library-generated, any 158 bytes) through bytes and boxes with any single-line comment and LF or CRLF; unencrypted boxes with protected bytes changed (every bit of the 106 protected bytes enumerated, multi-byte XORs with equal masks, swapped blocks, parts of another key), truncated at every length, with non-base64 characters at every position, under all 65536 encryption tags; encrypted keys loaded as unencrypted and the reverse. Non-trivial: a reload was compared field by field and signed, or a verdict on an altered box was decided.";
    fn fixed(_t: Tier) -> Vec<Case> {
        let mut v = vec![];
        for form in FORMS {
            for key in 0..24 {
                v.push(Case::Trip { key, lib: key % 2 == 1, comment: Some(format!("comment {key}")), form, crlf: (key * 5 % 32) as u8 });
            }
            for c in SPACES {
                v.push(Case::Trip { key: 9, lib: false, comment: Some(format!("{c}")), form, crlf: 0 });
            }
            v.push(Case::Trip { key: 9, lib: false, comment: None, form, crlf: 15 });
            v.push(Case::Trip { key: 9, lib: false, comment: Some("".into()), form, crlf: 15 });
            v.push(Case::Trip { key: 9, lib: true, comment: Some("long ".repeat(20000)), form, crlf: 0 });
        }
        for p in PROTECTED {
            for b in 0..8 {
                v.push(Case::Corrupt { key: 9, xor: vec![(p, 1 << b)] });
            }
            v.push(Case::Corrupt { key: 9, xor: vec![(p, 0xff)] });
        }
        for i in 0..32 {
            // same difference in seed, public half and checksum
            v.push(Case::Corrupt { key: 9, xor: vec![(62 + i, 0x11), (94 + i, 0x11)] });
            v.push(Case::Corrupt { key: 9, xor: vec![(62 + i, 0x11), (126 + i, 0x11)] });
            v.push(Case::Corrupt { key: 9, xor: vec![(94 + i, 0x11), (126 + i, 0x11)] });
            v.push(Case::Corrupt { key: 9, xor: vec![(126 + i, 0x80), (126 + (i + 1) % 32, 0x80)] });
        }
        for (i, j) in [(0usize, 1usize), (1, 2), (0, 2)] {
            v.push(Case::SwapBlocks { key: 9, i, j, size: 32 });
        }
        for from in (0..158).step_by(2) {
            v.push(Case::Splice { key: 9, other: 10, from, len: 8 });
            v.push(Case::Splice { key: 9, other: 10, from, len: 1 });
        }
        for n in 0..212 {
            v.push(Case::Truncated { key: 9, chars: n });
            for ch in ['*', '=', 'é', '\0'] {
                v.push(Case::Subst { key: 9, at: n, ch });
            }
        }
        for n in 0..158 {
            v.push(Case::ShortBytes { key: 9, len: n });
        }
        for first in 0..=255 {
            v.push(Case::KdfTags { first });
            v.push(Case::Raw { bytes: Hex(vec![first; 158]) });
        }
        for s in ["", "\n", "\n\n", "x", "x\n", "untrusted comment: x\n", "untrusted comment: x\n\n", "untrusted comment: x\n====\n", "\u{1f511}\n\u{1f511}\n"] {
            v.push(Case::Text { s: s.into() });
        }
        for key in 0..24 {
            v.push(Case::Cross { key, pw: format!("pw{key}") });
        }
        v
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        use proptest::collection::vec;
        let ch = || prop_oneof![3 => proptest::sample::select("ABCXYZabcxyz0189+/=-_*".chars().collect::<Vec<_>>()), 1 => comment_char()];
        prop_oneof![
            4 => (keyn(), any::<bool>(), opt_comment(), proptest::sample::select(FORMS.to_vec()), ends()).prop_map(|(key, lib, comment, form, crlf)| Case::Trip { key, lib, comment, form, crlf }),
            1 => vec(any::<u8>(), 158).prop_map(|b| Case::Raw { bytes: Hex(b) }),
            5 => (keyn(), vec((proptest::sample::select(PROTECTED.to_vec()), 1u8..), 1..5)).prop_map(|(key, xor)| Case::Corrupt { key, xor }),
            1 => (keyn(), 0usize..50, 0usize..50, 1usize..40).prop_map(|(key, i, j, size)| Case::SwapBlocks { key, i, j, size }),
            2 => (keyn(), keyn(), 0usize..158, 1usize..110).prop_map(|(key, other, from, len)| Case::Splice { key, other, from, len }),
            1 => (keyn(), 0usize..212).prop_map(|(key, chars)| Case::Truncated { key, chars }),
            1 => (keyn(), 0usize..158).prop_map(|(key, len)| Case::ShortBytes { key, len }),
            2 => (keyn(), 0usize..212, ch()).prop_map(|(key, at, ch)| Case::Subst { key, at, ch }),
            1 => vec(comment(), 0..4).prop_map(|v| Case::Text { s: v.join("\n") }),
            1 => (keyn(), comment()).prop_map(|(key, pw)| Case::Cross { key, pw }),
        ]
        .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(120_000, 700_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> R {
        let refused = |raw: &[u8], what: &str| -> R {
            ensure!(boxed(raw).into_unencrypted_secret_key().is_err(), "{what}: an altered box loads");
            ensure!(SecretKey::from_unencrypted_box(boxed(raw)).is_err(), "{what}: an altered box loads (from_unencrypted_box)");
            Ok(())
        };
        match c {
            Case::Trip { key: n, lib, comment, form, crlf } => {
                let k = if *lib { lib_key(*n) } else { key(*n) };
                let raw = k.rsk.to_bytes();
                ensure!(k.sk.to_bytes() == raw, "to_bytes gives {}", hex(&k.sk.to_bytes()));
                ensure!(k.sk.keynum() == k.id, "key id {}", hex(k.sk.keynum()));
                let nl = |s: String| line_ends(&s, *crlf);
                let bx = || k.sk.to_box(comment.as_deref()).map_err(|e| format!("to_box: {e}"));
                let un = |b: SecretKeyBox| b.into_unencrypted_secret_key().map_err(|e| format!("{form:?}: stored key does not load: {e}"));
                let l = match form {
                    Form::Bytes => SecretKey::from_bytes(&k.sk.to_bytes()).map_err(|e| format!("from_bytes: {e}"))?,
                    Form::Box_ => un(bx()?)?,
                    Form::BoxString => un(SecretKeyBox::from_string(&nl(bx()?.to_string())).map_err(|e| e.to_string())?)?,
                    Form::BoxInto => un(SecretKeyBox::from_string(&nl(bx()?.into_string())).map_err(|e| e.to_string())?)?,
                    Form::BoxBytes => un(SecretKeyBox::from(nl(String::from_utf8(bx()?.to_bytes()).map_err(|e| e.to_string())?)))?,
                    Form::BoxFrom => un(SecretKeyBox::from(nl(String::from(bx()?))))?,
                    Form::FileText => {
                        let p = scratch().join("c09.key");
                        std::fs::write(&p, nl(bx()?.to_string())).unwrap();
                        un(SecretKeyBox::from(std::fs::read_to_string(&p).unwrap()))?
                    }
                };
                ensure!(l.to_bytes() == raw, "{form:?}: reloaded as {} instead of {}", hex(&l.to_bytes()), hex(&raw));
                ensure!(l.keynum() == k.id && l == k.sk, "{form:?}: reloaded key differs");
                let p = PublicKey::from_secret_key(&l).map_err(|e| e.to_string())?;
                ensure!(p.to_bytes() == k.rpk.to_bytes(), "{form:?}: reloaded key has another public key");
                let b = minisign::sign(Some(&k.pk), &l, &b"some data"[..], None, None).map_err(|e| format!("{form:?}: reloaded key does not sign: {e}"))?;
                vfy(&k.pk, &b, b"some data", false).map_err(|e| format!("{form:?}: signature of the reloaded key: {e}"))?;
                if *form != Form::Bytes {
                    let f = mini::SecKey::parse_file(&bx()?.to_string()).ok_or("the box is not a Minisign secret key file")?;
                    ensure!(f.1 == k.rsk, "box holds other fields");
                    let want = comment.clone().unwrap_or_else(|| "rsign encrypted secret key".into());
                    ensure!(f.0 == want, "box comment {:?}, given {want:?}", f.0);
                }
                cx.label(format!("trip {form:?}"));
            }
            Case::Raw { bytes } => {
                let k = SecretKey::from_bytes(&bytes.0).map_err(|e| format!("158 bytes do not load: {e}"))?;
                ensure!(k.to_bytes() == bytes.0, "bytes change: {} to {}", hex(&bytes.0), hex(&k.to_bytes()));
                cx.label("raw bytes");
            }
            Case::Corrupt { key: n, xor } => {
                let k = key(*n);
                let mut raw = k.rsk.to_bytes();
                for (i, x) in xor {
                    raw[*i] ^= x
                }
                if raw == k.rsk.to_bytes() {
                    return Ok(());
                }
                refused(&raw, &format!("{xor:?}"))?;
                cx.label("altered bytes");
            }
            Case::SwapBlocks { key: n, i, j, size } => {
                let k = key(*n);
                let good = k.rsk.to_bytes();
                let mut raw = good.clone();
                let size = (*size).max(1);
                let m = 96 / size;
                if m == 0 {
                    return Ok(());
                }
                for b in 0..size {
                    raw.swap(62 + i % m * size + b, 62 + j % m * size + b)
                }
                if raw == good {
                    return Ok(());
                }
                refused(&raw, "blocks swapped")?;
                cx.label("blocks swapped");
            }
            Case::Splice { key: n, other, from, len } => {
                let (k, o) = (key(*n), key(*other));
                let good = k.rsk.to_bytes();
                let mut raw = good.clone();
                let to = (from + len).min(158);
                raw[*from..to].copy_from_slice(&o.rsk.to_bytes()[*from..to]);
                if raw == good || raw[54..] == o.rsk.to_bytes()[54..] {
                    return Ok(());
                }
                refused(&raw, "part of another key")?;
                cx.label("part of another key");
            }
            Case::Truncated { key: n, chars } => {
                let s = b64::encode(&key(*n).rsk.to_bytes());
                for t in [format!("untrusted comment: x\n{}\n", &s[..*chars]), format!("untrusted comment: x\n{}", &s[..*chars])] {
                    ensure!(SecretKeyBox::from(t.clone()).into_unencrypted_secret_key().is_err(), "truncated to {chars} characters it loads");
                    ensure!(SecretKeyBox::from(t).into_secret_key(Some("x".into())).is_err(), "truncated to {chars} characters it opens");
                }
                cx.label("truncated");
            }
            Case::ShortBytes { key: n, len } => {
                let raw = key(*n).rsk.to_bytes();
                ensure!(SecretKey::from_bytes(&raw[..*len]).is_err(), "{len} bytes load");
                refused(&raw[..*len], "short")?;
                cx.label("short bytes");
            }
            Case::Subst { key: n, at, ch } => {
                let good = key(*n).rsk.to_bytes();
                let s: String = b64::encode(&good).chars().enumerate().map(|(i, x)| if i == *at { *ch } else { x }).collect();
                if s.contains(['\r', '\n']) || s == b64::encode(&good) {
                    return Ok(());
                }
                let r = SecretKeyBox::from(format!("untrusted comment: x\n{s}\n")).into_unencrypted_secret_key();
                match b64::decode(s.as_bytes()) {
                    None => {
                        // a stray outer space, or slack bits, change no field
                        if let Ok(l) = r {
                            ensure!(s.trim() != s || l.to_bytes() == good, "non-base64 text {s:?} loads");
                        }
                        cx.label("not base64");
                    }
                    Some(b) => {
                        let prot = b.len() < 158 || PROTECTED.iter().any(|p| b[*p] != good[*p]);
                        ensure!(r.is_err() || !prot, "box with character {at} changed to {ch:?} loads");
                        cx.label("one character changed");
                    }
                }
            }
            Case::Text { s } => {
                let r = SecretKeyBox::from_string(s).and_then(|b| b.into_unencrypted_secret_key());
                let line = s.lines().nth(1).and_then(|l| b64::decode(l.trim().as_bytes())).filter(|b| b.len() >= 158);
                if line.is_none() {
                    ensure!(r.is_err(), "{s:?} loads as a secret key");
                }
                cx.label("text");
            }
            Case::KdfTags { first } => {
                let good = key(9).rsk.to_bytes();
                for second in 0..=255u8 {
                    let mut raw = good.clone();
                    raw[2] = *first;
                    raw[3] = second;
                    let plain = raw[2..4] == [0, 0];
                    let r = boxed(&raw).into_unencrypted_secret_key();
                    ensure!(r.is_ok() == plain, "tag {first:02x}{second:02x}: unencrypted load {}", r.is_ok());
                    let r = boxed(&raw).into_secret_key(Some("pw".into()));
                    ensure!(r.is_err(), "tag {first:02x}{second:02x}: a plain key opens as an encrypted one");
                    cx.add("tags tried", 1);
                }
            }
            Case::Cross { key: n, pw } => {
                let k = key(*n);
                let e = k.rsk.clone().encrypt(pw.as_bytes(), [7; 32], 32768, 4096).unwrap();
                refused(&e.to_bytes(), "encrypted key loaded as unencrypted")?;
                let mut z = e.clone();
                z.kdf = [0; 2];
                refused(&z.to_bytes(), "encrypted key with its tag cleared")?;
                let r = boxed(&k.rsk.to_bytes()).into_secret_key(Some(pw.clone()));
                ensure!(r.is_err(), "a plain key opens as an encrypted one");
                let mut s = k.rsk.clone();
                s.kdf = *b"Sc";
                ensure!(boxed(&s.to_bytes()).into_secret_key(Some(pw.clone())).is_err(), "a plain key tagged as encrypted opens");
                refused(&s.to_bytes(), "plain key tagged as encrypted")?;
                // bytes of an encrypted key survive too
                let l = SecretKey::from_bytes(&e.to_bytes()).map_err(|e| e.to_string())?;
                ensure!(l.to_bytes() == e.to_bytes(), "bytes of an encrypted key change");
                cx.label("encrypted / unencrypted");
            }
        }
        cx.nontrivial();
        Ok(())
    }
}
