//! Equivalent entry points agree, and stored forms are stable.
use super::c12::{self, Target};
use crate::engine::*;
use crate::util::*;
use minisign::{PublicKey, PublicKeyBox, SecretKey, SecretKeyBox, SignatureBones, SignatureBox};
use proptest::prelude::*;
use vref::mini;

fn file(b: &[u8]) -> std::path::PathBuf {
    let p = scratch().join("c25.in");
    std::fs::write(&p, b).unwrap();
    p
}
/// All that can be seen of a signature.
fn fields(b: &SignatureBox) -> (Option<String>, Option<String>, Vec<u8>, bool, Vec<u8>) {
    (b.untrusted_comment().ok(), b.trusted_comment().ok(), b.keynum().to_vec(), b.is_prehashed(), SignatureBones::from(b.clone()).to_bytes())
}
fn agree<T: PartialEq + std::fmt::Debug>(v: Vec<(&str, Option<T>)>) -> R {
    for (n, x) in &v[1..] {
        ensure!(*x == v[0].1, "{} gives {:?} but {n} gives {x:?}", v[0].0, v[0].1);
    }
    Ok(())
}

pub struct P;
impl Prop for P {
    type Case = c12::Case;
    const ID: &'static str = "C25";
    const RULE: &'static str = "The inputs of C12 (random, structured and mutated files of all kinds), each given to every function that loads that kind of thing: verdicts and loaded values must be equal. What was accepted is stored in every form; the forms must have the same bytes, load back as the same thing with the same verdicts, and be stored the same again. Non-trivial: the input was accepted by at least one function and compared.";
    const ASSUMPTIONS: &'static [&'static str] = &["comments that end in a carriage return, which no line-based file can hold, are not stored again"];
    const SHRINK: u32 = 2000;
    fn fixed(t: Tier) -> Vec<Self::Case> {
        // C12's enumeration, thinned: filled inputs teach nothing here
        c12::P::fixed(t).into_iter().filter(|c| matches!(&c.recipe, c12::Recipe::Mutated { .. } | c12::Recipe::Field(_))).collect()
    }
    fn strategy(t: Tier) -> BoxedStrategy<Self::Case> {
        c12::P::strategy(t)
    }
    fn cases(t: Tier) -> u32 {
        t.pick(60_000, 2_000_000)
    }
    fn check(c: &Self::Case, cx: &mut Cx) -> R {
        let data = c.data.bytes();
        let inp = c12::build(c, &data);
        let text = String::from_utf8_lossy(&inp).into_owned();
        let pw = || Some(c.pw.clone());
        match c.target {
            Target::Sig => {
                let p = file(text.as_bytes());
                let a = SignatureBox::from_string(&text).ok();
                agree(vec![
                    ("SignatureBox::from_string", a.as_ref().map(fields)),
                    ("SignatureBox::from_file", SignatureBox::from_file(&p).ok().as_ref().map(fields)),
                    ("From<String>", a.as_ref().map(|_| fields(&SignatureBox::from(text.clone())))),
                ])?;
                let Some(a) = a else { return Ok(()) };
                let s = a.to_string();
                agree(vec![("to_string", Some(s.clone().into_bytes())), ("to_bytes", Some(a.to_bytes())), ("into_string", Some(a.clone().into_string().into_bytes())), ("String::from", Some(String::from(a.clone()).into_bytes()))])?;
                let f = fields(&a);
                if [&f.0, &f.1].iter().any(|c| c.as_ref().is_some_and(|c| c.ends_with('\r'))) {
                    return Ok(());
                }
                let b = SignatureBox::from_string(&s).map_err(|e| format!("stored as {s:?}, which does not load: {e}"))?;
                agree(vec![("the loaded signature", Some(f)), ("its stored form", Some(fields(&b)))])?;
                ensure!(b.to_string() == s, "stored as {s:?} and then as {:?}", b.to_string());
                let mut own = key(c.data.len() as u32 % 24).rpk.clone();
                if let c12::Recipe::Mutated { key: n, .. } = &c.recipe {
                    own = key(*n).rpk.clone();
                }
                own.id.copy_from_slice(a.keynum());
                for legacy in [false, true] {
                    let v = |b: &SignatureBox| Some(vfy(&pk_of(&own), b, &data, legacy).is_ok());
                    agree(vec![("verifying the loaded signature", v(&a)), ("verifying its stored form", v(&b))])?;
                    if v(&a) == Some(true) {
                        cx.label("valid signature");
                    }
                }
            }
            Target::Bones => {
                let Ok(a) = SignatureBones::from_bytes(&inp) else { return Ok(()) };
                let raw = a.to_bytes();
                ensure!(raw.len() == SignatureBones::BYTES && inp.starts_with(&raw), "{} bytes loaded are stored as {}", inp.len(), hex(&raw));
                let b = SignatureBones::from_bytes(&raw).map_err(|e| format!("stored bytes do not load: {e}"))?;
                let x: SignatureBox = a.clone().into();
                ensure!(b.to_bytes() == raw && b.is_prehashed() == a.is_prehashed() && x.is_prehashed() == a.is_prehashed(), "the reloaded bare signature differs");
                ensure!(SignatureBones::from(x).to_bytes() == raw, "a bare signature changes on its way through a box");
            }
            Target::PkText => {
                let p = file(text.as_bytes());
                let by = |r: minisign::Result<PublicKey>| r.ok().map(|k| k.to_bytes());
                let a = PublicKey::from_box(text.clone().into());
                let ok = a.is_ok();
                agree(vec![
                    ("PublicKey::from_box", a.as_ref().ok().map(|k| k.to_bytes())),
                    ("PublicKeyBox::into_public_key", by(PublicKeyBox::from_string(&text).and_then(|b| b.into_public_key()))),
                    ("PublicKey::from_file", by(PublicKey::from_file(&p))),
                    ("From<PublicKeyBox>", if ok { Some(PublicKey::from(PublicKeyBox::from(text.clone())).to_bytes()) } else { None }),
                ])?;
                let bx = PublicKeyBox::from(text.clone());
                ensure!(bx.to_string() == text && bx.to_bytes() == text.as_bytes() && String::from(bx.clone()) == text && bx.into_string() == text, "a box changes its text");
                let Ok(a) = a else { return Ok(()) };
                self::pk(&a)?;
            }
            Target::PkB64 => {
                let by = |r: minisign::Result<PublicKey>| r.ok().map(|k| k.to_bytes());
                if !text.contains(['\n', '\r']) {
                    agree(vec![
                        ("PublicKey::from_base64", by(PublicKey::from_base64(&text))),
                        ("a box with that line", by(PublicKey::from_box(format!("untrusted comment: c\n{text}").into()))),
                        ("a box with that line, ended", by(PublicKey::from_box(format!("untrusted comment: c\n{text}\n").into()))),
                    ])?;
                }
                let Ok(a) = PublicKey::from_base64(&text) else { return Ok(()) };
                ensure!(a.to_base64() == text.trim(), "{text:?} loads and is stored as {:?}", a.to_base64());
                self::pk(&a)?;
            }
            Target::PkBytes => {
                let Ok(a) = PublicKey::from_bytes(&inp) else { return Ok(()) };
                ensure!(inp.starts_with(&a.to_bytes()), "{} loads as {}", hex(&inp), hex(&a.to_bytes()));
                self::pk(&a)?;
            }
            Target::SkText => {
                let by = |r: minisign::Result<SecretKey>| r.ok().map(|k| k.to_bytes());
                let bx = || SecretKeyBox::from(text.clone());
                ensure!(bx().to_string() == text && bx().to_bytes() == text.as_bytes() && String::from(bx()) == text && bx().into_string() == text, "a box changes its text");
                let a = SecretKey::from_unencrypted_box(bx());
                agree(vec![
                    ("SecretKey::from_unencrypted_box", a.as_ref().ok().map(|k| k.to_bytes())),
                    ("SecretKeyBox::into_unencrypted_secret_key", by(bx().into_unencrypted_secret_key())),
                    ("the same through SecretKeyBox::from_string", by(SecretKeyBox::from_string(&text).and_then(|b| b.into_unencrypted_secret_key()))),
                ])?;
                let mut any = false;
                if c12::affordable(&inp) {
                    let p = file(text.as_bytes());
                    let e = by(SecretKey::from_box(bx(), pw()));
                    any = e.is_some();
                    rpassword::ctl::install(vec![pw()]);
                    let typed = if c.pw.len() <= 1024 { capture(|| by(bx().into_secret_key(None))).ret } else { e.clone() };
                    agree(vec![
                        ("SecretKey::from_box", e),
                        ("SecretKeyBox::into_secret_key", by(bx().into_secret_key(pw()))),
                        ("SecretKey::from_file", by(SecretKey::from_file(&p, pw()))),
                        ("SecretKeyBox::into_secret_key with the password typed", typed),
                    ])?;
                }
                if let Ok(a) = &a {
                    let s = a.to_box(Some("c")).map_err(|e| e.to_string())?.into_string();
                    let b = SecretKeyBox::from(s.clone()).into_unencrypted_secret_key().map_err(|e| format!("stored as {s:?}, which does not load: {e}"))?;
                    ensure!(b.to_bytes() == a.to_bytes() && b.to_box(Some("c")).map_err(|e| e.to_string())?.into_string() == s, "the reloaded secret key differs");
                    any = true;
                }
                if !any {
                    return Ok(());
                }
            }
            Target::SkBytes => {
                let Ok(a) = SecretKey::from_bytes(&inp) else { return Ok(()) };
                let raw = a.to_bytes();
                ensure!(inp.starts_with(&raw), "{} loads as {}", hex(&inp), hex(&raw));
                let b = SecretKey::from_bytes(&raw).map_err(|e| format!("stored bytes do not load: {e}"))?;
                ensure!(b.to_bytes() == raw && b == a && b.keynum() == a.keynum(), "the reloaded secret key differs");
                let t = a.to_box(None).map_err(|e| e.to_string())?.into_string();
                let f = mini::SecKey::parse_file(&t).ok_or_else(|| format!("secret key box {t:?}"))?;
                ensure!(f.1.to_bytes() == raw, "the box of a secret key holds other bytes");
                let p = PublicKey::from_secret_key(&a).map_err(|e| e.to_string())?;
                ensure!(p.keynum() == a.keynum() && p.to_bytes()[10..] == raw[94..126], "the public key of a secret key");
            }
        }
        cx.label(format!("{:?} accepted", c.target));
        cx.nontrivial();
        Ok(())
    }
}
fn pk(a: &PublicKey) -> R {
    let raw = a.to_bytes();
    let e = |e: minisign::PError| format!("stored public key does not load: {e}");
    let t = a.to_box().map_err(e)?.into_string();
    let b = PublicKey::from_box(t.clone().into()).map_err(e)?;
    agree(vec![
        ("the loaded key", Some(raw.clone())),
        ("its box", Some(b.to_bytes())),
        ("its base64 form", Some(PublicKey::from_base64(&a.to_base64()).map_err(e)?.to_bytes())),
        ("its bytes", Some(PublicKey::from_bytes(&raw).map_err(e)?.to_bytes())),
    ])?;
    ensure!(b == *a && b.keynum() == a.keynum(), "the reloaded public key is not equal");
    ensure!(b.to_box().map_err(e)?.into_string() == t, "a public key box is stored differently the second time");
    Ok(())
}
