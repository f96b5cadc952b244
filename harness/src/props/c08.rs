//! Public keys survive every stored form and malformed ones are refused.
use crate::engine::*;
use crate::util::*;
use minisign::{PublicKey, PublicKeyBox};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vref::{b64, mini};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Form {
    Bytes,
    Base64,
    Box_,
    BoxString,
    BoxInto,
    BoxBytes,
    BoxFrom,
    File,
    /// comment line replaced
    BoxComment,
}
const FORMS: [Form; 9] = [Form::Bytes, Form::Base64, Form::Box_, Form::BoxString, Form::BoxInto, Form::BoxBytes, Form::BoxFrom, Form::File, Form::BoxComment];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mangle {
    Truncate(usize),
    Append(String),
    Subst(usize, char),
    Insert(usize, char),
    Delete(usize),
    Encode(Hex),
    Text(String),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    /// a key with any id (and key bytes of a real key) through a stored form and back
    Trip { key: u32, id: Option<Hex>, form: Form, crlf: u8, comment: String },
    /// any 42 bytes
    Raw { bytes: Hex, form: Form },
    /// text that may not be a key any more
    Mangled { key: u32, m: Vec<Mangle>, boxed: bool },
    Short { key: u32, len: usize },
    Eq { a: u32, b: u32, xor: Vec<(usize, u8)>, add: Option<(usize, usize)>, id_too: bool },
    FromSecret { key: u32, lib: bool },
}

fn trip(pk: &PublicKey, form: Form, crlf: u8, comment: &str) -> Result<PublicKey, String> {
    let nl = |s: String| line_ends(&s, crlf);
    let bx = || pk.to_box().map_err(|e| format!("to_box: {e}"));
    let ld = |s: String| PublicKeyBox::from_string(&s).and_then(|b| b.into_public_key()).map_err(|e| format!("{form:?}: {s:?} does not load: {e}"));
    Ok(match form {
        Form::Bytes => PublicKey::from_bytes(&pk.to_bytes()).map_err(|e| format!("from_bytes: {e}"))?,
        Form::Base64 => PublicKey::from_base64(&pk.to_base64()).map_err(|e| format!("from_base64: {e}"))?,
        Form::Box_ => PublicKey::from_box(bx()?).map_err(|e| format!("from_box: {e}"))?,
        Form::BoxString => ld(nl(bx()?.to_string()))?,
        Form::BoxInto => ld(nl(bx()?.into_string()))?,
        Form::BoxBytes => ld(nl(String::from_utf8(bx()?.to_bytes()).map_err(|e| e.to_string())?))?,
        Form::BoxFrom => PublicKey::from(PublicKeyBox::from(nl(String::from(bx()?)))),
        Form::File => {
            let p = scratch().join("c08.pub");
            std::fs::write(&p, nl(bx()?.to_string())).unwrap();
            PublicKey::from_file(&p).map_err(|e| format!("from_file: {e}"))?
        }
        Form::BoxComment => ld(nl(format!("untrusted comment: {comment}\n{}\n", pk.to_base64())))?,
    })
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C08";
    const RULE: &'static str = "Keys (random and special ids, any 42 bytes) through bytes, base64, box strings, files with LF, CRLF or a mixture, boxes with other comments; base64 and box text truncated, extended, edited, or encoding 0..80 bytes, expected to load exactly when it is the strict base64 of 42 bytes; equality over pairs differing in id, in one key bit (all enumerated), in two bytes by the same XOR or cancelling sums; public keys derived from secret keys. Non-trivial: a form was reloaded and compared, or a verdict on a text, a pair or a derived key was decided.";
    fn fixed(t: Tier) -> Vec<Case> {
        let mut v = vec![];
        for form in FORMS {
            for key in 0..24 {
                for crlf in 0..32 {
                    v.push(Case::Trip { key, id: None, form, crlf, comment: "c".into() });
                }
            }
            for b in 0..=255u8 {
                v.push(Case::Raw { bytes: Hex(vec![b; 42]), form });
            }
            for i in 0..8 {
                let mut id = vec![0u8; 8];
                id[i] = 0x0f;
                v.push(Case::Trip { key: 9, id: Some(Hex(id)), form, crlf: 0, comment: "".into() });
            }
        }
        for n in 0..=42 {
            v.push(Case::Short { key: 9, len: n });
        }
        for boxed in [false, true] {
            let m = |m: Mangle| Case::Mangled { key: 9, m: vec![m], boxed };
            for n in 1..=56 {
                v.push(m(Mangle::Truncate(n)));
                v.push(m(Mangle::Append("A".repeat(n))));
                v.push(m(Mangle::Delete(n)));
                v.push(m(Mangle::Insert(n, 'A')));
                for c in ['=', '-', '_', '*', '\0', 'é', 'A', '/', '+'] {
                    v.push(m(Mangle::Subst(n - 1, c)));
                }
            }
            for n in 0..=80 {
                v.push(m(Mangle::Encode(Hex(stream(n as u64, n)))));
                v.push(m(Mangle::Encode(Hex(vec![0; n]))));
            }
            for s in ["", "=", "====", "A", "\u{1f511}"] {
                v.push(m(Mangle::Text(s.into())));
            }
            v.push(m(Mangle::Text("=".repeat(56))));
            v.push(m(Mangle::Text(format!("{}==", "A".repeat(54)))));
            v.push(m(Mangle::Text(format!("{}=", "A".repeat(55)))));
            v.push(m(Mangle::Text("é".repeat(28))));
        }
        for b in 0..256 {
            v.push(Case::Eq { a: 9, b: 9, xor: vec![(b / 8, 1 << (b % 8))], add: None, id_too: b % 2 == 0 });
        }
        for i in 0..32 {
            for j in 0..i {
                v.push(Case::Eq { a: 9, b: 9, xor: vec![(i, 0x40), (j, 0x40)], add: None, id_too: false });
                v.push(Case::Eq { a: 9, b: 9, xor: vec![], add: Some((i, j)), id_too: false });
            }
        }
        v.push(Case::Eq { a: 9, b: 9, xor: (0..32).map(|i| (i, 0xff)).collect(), add: None, id_too: false });
        for n in 0..t.pick(60, 300) {
            v.push(Case::Eq { a: n, b: n, xor: vec![], add: None, id_too: n % 2 == 0 });
            v.push(Case::Eq { a: n, b: n + 1, xor: vec![], add: None, id_too: false });
            v.push(Case::FromSecret { key: n, lib: n % 2 == 1 });
        }
        v
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let form = || proptest::sample::select(FORMS.to_vec());
        let ch = || prop_oneof![4 => proptest::sample::select("ABCXYZabcxyz0189+/=-_".chars().collect::<Vec<_>>()), 1 => comment_char()];
        let m = prop_oneof![
            (0usize..57).prop_map(Mangle::Truncate),
            "[A-Za-z0-9+/]{1,12}".prop_map(Mangle::Append),
            comment().prop_map(Mangle::Append),
            (0usize..60, ch()).prop_map(|(a, b)| Mangle::Subst(a, b)),
            (0usize..60, ch()).prop_map(|(a, b)| Mangle::Insert(a, b)),
            (0usize..60).prop_map(Mangle::Delete),
            proptest::collection::vec(any::<u8>(), 36..48).prop_map(|v| Mangle::Encode(Hex(v))),
            comment().prop_map(Mangle::Text),
            "[A-Za-z0-9+/]{56}".prop_map(Mangle::Text),
        ];
        prop_oneof![
            2 => (keyn(), proptest::option::of(proptest::collection::vec(any::<u8>(), 8).prop_map(Hex)), form(), ends(), comment())
                .prop_map(|(key, id, form, crlf, comment)| Case::Trip { key, id, form, crlf, comment }),
            2 => (proptest::collection::vec(any::<u8>(), 42), form()).prop_map(|(b, form)| Case::Raw { bytes: Hex(b), form }),
            4 => (keyn(), proptest::collection::vec(m, 1..3), any::<bool>()).prop_map(|(key, m, boxed)| Case::Mangled { key, m, boxed }),
            2 => (0u32..8, 0u32..8, proptest::collection::vec((0usize..32, 1u8..), 0..4), any::<bool>()).prop_map(|(a, b, xor, id_too)| Case::Eq { a, b, xor, add: None, id_too }),
            1 => (keyn(), any::<bool>()).prop_map(|(key, lib)| Case::FromSecret { key, lib }),
        ]
        .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(300_000, 1_000_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> R {
        match c {
            Case::Trip { key: n, id, form, crlf, comment } => {
                let k = key(*n);
                let mut r = k.rpk.clone();
                if let Some(h) = id {
                    r.id.copy_from_slice(&h.0[..8])
                }
                let pk = PublicKey::from_bytes(&r.to_bytes()).map_err(|e| e.to_string())?;
                let l = trip(&pk, *form, *crlf, comment)?;
                ensure!(l.to_bytes() == r.to_bytes(), "{form:?}: reloaded as {} instead of {}", hex(&l.to_bytes()), hex(&r.to_bytes()));
                ensure!(l.keynum() == r.id, "{form:?}: key id {}", hex(l.keynum()));
                ensure!(l == pk, "{form:?}: reloaded key is not equal");
                let s = mini::Sig::make(true, &k.seed, &r.id, b"data", "t", "u");
                vfy(&l, &load(&s.to_file())?, b"data", false).map_err(|e| format!("{form:?}: reloaded key refuses a signature: {e}"))?;
                ensure!(vfy(&l, &load(&s.to_file())?, b"datb", false).is_err(), "{form:?}: reloaded key accepts other data");
                cx.label(format!("trip {form:?}"));
            }
            Case::Raw { bytes, form } => {
                let pk = PublicKey::from_bytes(&bytes.0).map_err(|e| format!("42 bytes do not load: {e}"))?;
                ensure!(pk.to_bytes() == bytes.0, "to_bytes gives {}", hex(&pk.to_bytes()));
                ensure!(pk.to_base64() == b64::encode(&bytes.0), "to_base64 gives {}", pk.to_base64());
                ensure!(pk.keynum() == &bytes.0[2..10], "key id {}", hex(pk.keynum()));
                let l = trip(&pk, *form, 0, "x")?;
                ensure!(l.to_bytes() == bytes.0, "{form:?}: reloaded as {} instead of {}", hex(&l.to_bytes()), hex(&bytes.0));
                cx.label(format!("raw {form:?}"));
            }
            Case::Mangled { key: n, m, boxed } => {
                let mut s = b64::encode(&key(*n).rpk.to_bytes());
                for m in m {
                    let cs: Vec<char> = s.chars().collect();
                    let n = cs.len();
                    match m {
                        Mangle::Truncate(k) => s = cs[..n.saturating_sub(*k)].iter().collect(),
                        Mangle::Append(x) => s.push_str(x),
                        Mangle::Subst(i, c) => s = cs.iter().enumerate().map(|(j, x)| if j == i % n.max(1) { *c } else { *x }).collect(),
                        Mangle::Insert(i, c) => {
                            let mut v = cs.clone();
                            v.insert(i % (n + 1), *c);
                            s = v.into_iter().collect()
                        }
                        Mangle::Delete(i) => s = cs.iter().enumerate().filter(|(j, _)| *j != i % n.max(1)).map(|(_, x)| *x).collect(),
                        Mangle::Encode(h) => s = b64::encode(&h.0),
                        Mangle::Text(x) => s = x.clone(),
                    }
                }
                if s.contains(['\r', '\n']) {
                    return Ok(());
                }
                let r = if *boxed {
                    PublicKeyBox::from_string(&format!("untrusted comment: x\n{s}\n")).and_then(|b| b.into_public_key())
                } else {
                    PublicKey::from_base64(&s)
                };
                let want = b64::decode(s.as_bytes()).filter(|b| b.len() == 42);
                match (want, r) {
                    (Some(w), Ok(p)) => {
                        ensure!(p.to_bytes() == w, "{s:?} loads as {}", hex(&p.to_bytes()));
                        cx.label("text that is a key");
                    }
                    (Some(_), Err(e)) => return Err(format!("{s:?} is the base64 of 42 bytes and is refused: {e}")),
                    (None, Ok(p)) => {
                        // outer white space is harmless
                        let t = b64::decode(s.trim().as_bytes());
                        ensure!(s.trim() != s && t == Some(p.to_bytes()), "{s:?} (boxed {boxed}) loads as {}", hex(&p.to_bytes()));
                        cx.label("outer white space");
                    }
                    (None, Err(_)) => cx.label("text refused"),
                }
            }
            Case::Short { key: n, len } => {
                let b = key(*n).rpk.to_bytes();
                let r = PublicKey::from_bytes(&b[..*len]);
                ensure!(r.is_ok() == (*len == 42), "{len} bytes: {}", r.is_ok());
                cx.label("short bytes");
            }
            Case::Eq { a, b, xor, add, id_too } => {
                let (ra, mut rb) = (key(*a).rpk.clone(), key(*b).rpk.clone());
                for (i, x) in xor {
                    rb.key[*i] ^= x
                }
                if let Some((i, j)) = add {
                    rb.key[*i] = rb.key[*i].wrapping_add(1);
                    rb.key[*j] = rb.key[*j].wrapping_sub(1)
                }
                if *id_too {
                    rb.id[3] ^= 1;
                    rb.alg[1] ^= 1
                }
                let (pa, pb) = (PublicKey::from_bytes(&ra.to_bytes()).unwrap(), PublicKey::from_bytes(&rb.to_bytes()).unwrap());
                let want = ra.key == rb.key;
                ensure!((pa == pb) == want && (pb == pa) == want && (pa != pb) != want, "equality of keys {} and {} is {}", hex(&ra.key), hex(&rb.key), pa == pb);
                cx.label(format!("equal {want}"));
            }
            Case::FromSecret { key: n, lib } => {
                let k = if *lib { lib_key(*n) } else { key(*n) };
                let p = PublicKey::from_secret_key(&k.sk).map_err(|e| e.to_string())?;
                ensure!(p == k.pk && p.to_bytes() == k.rpk.to_bytes(), "derived public key {} instead of {}", hex(&p.to_bytes()), hex(&k.rpk.to_bytes()));
                cx.label("from secret key");
            }
        }
        cx.nontrivial();
        Ok(())
    }
}
