//! Passwords typed at a prompt.
use super::c10::{password, same, Near};
use crate::dict;
use crate::engine::*;
use crate::util::*;
use getrandom::ctl::Mode;
use minisign::{KeyPair, SecretKey, SecretKeyBox};
use proptest::prelude::*;
use rpassword::ctl as tty;
use serde::{Deserialize, Serialize};
use vref::mini;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Second {
    Same,
    Near(Near),
    Other(String),
    Fails,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    Gen { pw: String, second: Second, rng: u64, write: bool },
    /// the first prompt fails
    GenFails { rng: u64, write: bool },
    Open { key: u32, real: String, typed: Option<String>, form: u8 },
    /// a given password is not asked for
    Given { key: u32, pw: String, typed: String, gen: bool },
}
fn too_long(s: &str) -> bool {
    s.len() > 1024
}
fn recognisable(s: &str) -> bool {
    // a password that is a text of the library's own shows nothing when that text is printed
    s.len() >= 8 && s.chars().collect::<std::collections::HashSet<_>>().len() >= 5 && !dict::bytes().iter().any(|l| contains(&l.repeat(3), s.as_bytes()))
}
fn no_echo<T>(cap: &Captured<T>, pw: &str) -> R {
    if recognisable(pw) {
        ensure!(!contains(&cap.out, pw.as_bytes()), "the typed password is on standard output");
        ensure!(!contains(&cap.err, pw.as_bytes()), "the typed password is on standard error");
        let h = hex(pw.as_bytes());
        ensure!(!contains(&cap.out, h.as_bytes()) && !contains(&cap.out, vref::b64::encode(pw.as_bytes()).trim_end_matches('=').as_bytes()), "the typed password is on standard output, encoded");
    }
    Ok(())
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C18";
    const SHRINK: u32 = 300;
    const RULE: &'static str = "Generating and opening with the terminal scripted: passwords of every kind and length around the 1024-byte limit, second entries that match, nearly match or fail, entries that fail, and passwords passed in while entries wait. The outcome is compared with the same call given the password, under the same random stream, prompts are counted and standard output is searched for the password. Non-trivial: an outcome at a prompt was compared with the one expected.";
    const ASSUMPTIONS: &'static [&'static str] = &["the rpassword crate (reading without echo) is replaced by a script and trusted"];
    fn fixed(_t: Tier) -> Vec<Case> {
        let mut v = vec![];
        let long = |n: usize| -> String { stream(n as u64, n).iter().map(|b| (b'!' + b % 90) as char).collect() };
        let pws = vec![
            "".to_string(), " ".into(), "x".into(), "hunter2hunter2".into(), " lead and trail ".into(), "tab\tnew\nline".into(), "é漢\u{1f511}".into(), "e\u{301}".into(), "nul\0nul".into(),
            long(1023), long(1024), long(1025), long(2000), "é".repeat(512), "é".repeat(513), "漢".repeat(341), "漢".repeat(342), "\u{1f511}".repeat(256), "\u{1f511}".repeat(257),
        ];
        for (i, pw) in pws.iter().enumerate() {
            v.push(Case::Gen { pw: pw.clone(), second: Second::Same, rng: i as u64, write: i % 2 == 0 });
            v.push(Case::Open { key: i as u32, real: pw.clone(), typed: Some(pw.clone()), form: i as u8 });
            v.push(Case::Given { key: i as u32, pw: pw.clone(), typed: "something else".into(), gen: i % 3 == 0 });
        }
        for (i, pw) in dict::nums(258, 5000).into_iter().map(dict::text).chain(dict::bytes().into_iter().filter_map(|b| String::from_utf8(b).ok())).enumerate() {
            v.push(Case::Open { key: i as u32 % 24, real: pw.clone(), typed: Some(pw.clone()), form: i as u8 });
            v.push(Case::Open { key: i as u32 % 24, real: format!("{pw}a"), typed: Some("a".into()), form: i as u8 });
        }
        for how in 0..FORMS {
            for (i, s) in FORM_TEXTS.iter().enumerate() {
                v.push(Case::Open { key: i as u32, real: s.to_string(), typed: Some(form(s, how)), form: i as u8 });
                v.push(Case::Open { key: i as u32, real: form(s, how), typed: Some(form(s, how)), form: i as u8 });
            }
        }
        for n in dict::nums(258, 5000) {
            v.push(Case::Gen { pw: dict::text(n), second: Second::Same, rng: n as u64, write: n % 2 == 0 });
        }
        for (i, n) in [Near::Append(' '), Near::Append('\n'), Near::Append('x'), Near::DropLast, Near::FlipCase(0), Near::FlipCase(7), Near::Trim, Near::Empty, Near::Change(0, '!'), Near::Change(9, '!'), Near::Cut(8), Near::Twice].into_iter().enumerate() {
            for pw in ["Correct Horse ", "x", ""] {
                v.push(Case::Gen { pw: pw.into(), second: Second::Near(n), rng: i as u64, write: i % 2 == 0 });
                v.push(Case::Open { key: i as u32, real: pw.into(), typed: Some(n.of(pw)), form: i as u8 });
            }
        }
        for write in [false, true] {
            v.push(Case::GenFails { rng: 1, write });
            v.push(Case::Gen { pw: "pw".into(), second: Second::Fails, rng: 1, write });
            v.push(Case::Gen { pw: "pw".into(), second: Second::Other(long(1025)), rng: 1, write });
            v.push(Case::Gen { pw: long(1025), second: Second::Other("pw".into()), rng: 1, write });
        }
        for form in 0..3 {
            v.push(Case::Open { key: 9, real: "pw".into(), typed: None, form });
            v.push(Case::Open { key: 9, real: "".into(), typed: None, form });
        }
        v
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let near = super::c10::near;
        let second = prop_oneof![2 => Just(Second::Same), 6 => near().prop_map(Second::Near), 1 => password().prop_map(Second::Other), 1 => Just(Second::Fails)];
        let pw = || prop_oneof![4 => password(), 1 => (1020usize..1028, any::<u32>()).prop_map(|(n, x)| stream(x as u64, n).iter().map(|b| (b' ' + b % 95) as char).collect())];
        prop_oneof![
            4 => (pw(), second, any::<u64>(), any::<bool>()).prop_map(|(pw, second, rng, write)| Case::Gen { pw, second, rng, write }),
            1 => (any::<u64>(), any::<bool>()).prop_map(|(rng, write)| Case::GenFails { rng, write }),
            30 => (keyn(), pw(), near(), 0u8..4, 0u8..3).prop_map(|(key, real, n, how, form)| {
                let typed = match how { 0 => None, 1 => Some(n.of(&real)), _ => Some(real.clone()) };
                Case::Open { key, real, typed, form }
            }),
            6 => (keyn(), pw(), password()).prop_map(|(key, pw, typed)| Case::Given { key, pw, typed, gen: false }),
        ]
        .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(6_000, 250_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> R {
        // generate with whatever is scripted
        let run = |pw: Option<String>, rng: u64, write: bool| {
            getrandom::ctl::install(Mode::Stream(rng), None, 5);
            if write {
                let (mut a, mut b) = (vec![], vec![]);
                let r = KeyPair::generate_and_write_encrypted_keypair(&mut a, &mut b, Some("c"), pw);
                (r.map(|k| (k.pk.to_bytes(), k.sk.to_bytes())).map_err(|e| e.to_string()), a.len() + b.len())
            } else {
                let r = KeyPair::generate_encrypted_keypair(pw);
                (r.map(|k| (k.pk.to_bytes(), k.sk.to_bytes())).map_err(|e| e.to_string()), 0)
            }
        };
        match c {
            Case::Gen { pw, second, rng, write } => {
                let s = match second {
                    Second::Same => Some(pw.clone()),
                    Second::Near(n) => Some(n.of(pw)),
                    Second::Other(o) => Some(o.clone()),
                    Second::Fails => None,
                };
                tty::install(vec![Some(pw.clone()), s.clone(), Some("third".into())]);
                let got = capture(|| run(None, *rng, *write));
                no_echo(&got, pw)?;
                if let Some(s) = &s {
                    no_echo(&got, s)?;
                }
                let (r, written) = &got.ret;
                if too_long(pw) || s.as_ref() != Some(pw) {
                    ensure!(r.is_err(), "entries {pw:?} and {s:?} generate a key");
                    ensure!(*written == 0, "entries {pw:?} and {s:?}: {written} bytes of keys written");
                    ensure!(tty::asked() <= 2, "asked {} times", tty::asked());
                    cx.label(if too_long(pw) { "entry too long" } else { "entries differ or fail" });
                } else {
                    ensure!(tty::asked() == 2, "asked {} times instead of twice", tty::asked());
                    let typed = r.as_ref().map_err(|e| format!("typing {pw:?} twice fails: {e}"))?;
                    let given = capture(|| run(Some(pw.clone()), *rng, *write)).ret.0.map_err(|e| format!("generating with {pw:?} passed in fails: {e}"))?;
                    ensure!(*typed == given, "typed and passed-in password {pw:?} give different keys");
                    let e = mini::SecKey::parse_bytes(&typed.1).ok_or("layout")?;
                    ensure!(e.kdf == *b"Sc" && e.decrypt(pw.as_bytes()).is_some(), "the key generated with typed {pw:?} does not decrypt with it");
                    cx.label("generated at the prompt");
                }
            }
            Case::GenFails { rng, write } => {
                tty::install(vec![None, None, None, None]);
                let got = capture(|| run(None, *rng, *write));
                ensure!(got.ret.0.is_err() && got.ret.1 == 0, "the password could not be read but a key was generated");
                tty::install(vec![None, Some("pw".into()), Some("pw".into())]);
                let got = capture(|| run(None, *rng, *write));
                ensure!(got.ret.0.is_err() && got.ret.1 == 0, "the first entry could not be read but a key was generated");
                cx.label("first entry fails");
            }
            Case::Open { key: n, real, typed, form } => {
                let k = key(*n);
                let e = k.rsk.clone().encrypt(real.as_bytes(), [9; 32], 32768, 4096).unwrap();
                let text = e.to_file("c");
                let path = scratch().join("c18.key");
                std::fs::write(&path, &text).unwrap();
                let open = |pw: Option<String>| match form % 3 {
                    0 => SecretKeyBox::from(text.clone()).into_secret_key(pw),
                    1 => SecretKey::from_box(SecretKeyBox::from(text.clone()), pw),
                    _ => SecretKey::from_file(&path, pw),
                };
                tty::install(vec![typed.clone(), Some(real.clone())]);
                let got = capture(|| open(None).map(|k| k.to_bytes()).map_err(|e| e.to_string()));
                if let Some(t) = typed {
                    no_echo(&got, t)?;
                }
                ensure!(tty::asked() == 1, "asked {} times instead of once", tty::asked());
                match typed {
                    None => {
                        ensure!(got.ret.is_err(), "the password could not be read but the key opens");
                        cx.label("entry fails");
                    }
                    Some(t) if too_long(t) => {
                        ensure!(got.ret.is_err(), "an entry of {} bytes opens a key", t.len());
                        cx.label("entry too long");
                    }
                    Some(t) => {
                        tty::install(vec![]);
                        let given = capture(|| open(Some(t.clone())).map(|k| k.to_bytes()).map_err(|e| e.to_string()));
                        ensure!(tty::asked() == 0, "asked although a password was given");
                        ensure!(got.ret.is_ok() == given.ret.is_ok(), "typed {t:?}: {:?}, passed in: {:?}", got.ret.is_ok(), given.ret.is_ok());
                        ensure!(got.ret == given.ret || got.ret.is_err(), "typed and passed-in password open different keys");
                        if t == real {
                            ensure!(got.ret.is_ok(), "typing the right password {t:?} fails: {:?}", got.ret);
                        } else if !same(t, real) {
                            ensure!(got.ret.is_err(), "typing {t:?} opens a key made with {real:?}");
                        }
                        cx.label(if got.ret.is_ok() { "opened at the prompt" } else { "wrong entry" });
                    }
                }
            }
            Case::Given { key: n, pw, typed, gen } => {
                if *gen {
                    tty::install(vec![Some(typed.clone()), Some(typed.clone())]);
                    let got = capture(|| run(Some(pw.clone()), *n as u64, false));
                    let k = got.ret.0.as_ref().map_err(|e| format!("generating with {pw:?} passed in fails: {e}"))?;
                    ensure!(tty::asked() == 0, "asked although a password was given");
                    let e = mini::SecKey::parse_bytes(&k.1).ok_or("layout")?;
                    ensure!(e.decrypt(pw.as_bytes()).is_some(), "key generated with {pw:?} does not decrypt with it");
                } else {
                    let k = key(*n);
                    let e = k.rsk.clone().encrypt(typed.as_bytes(), [9; 32], 32768, 4096).unwrap();
                    tty::install(vec![Some(typed.clone()), Some(typed.clone())]);
                    let got = capture(|| SecretKeyBox::from(e.to_file("c")).into_secret_key(Some(pw.clone())).is_ok());
                    ensure!(tty::asked() == 0, "asked although a password was given");
                    ensure!(got.ret == (pw == typed) || same(pw, typed), "passed-in password {pw:?}, key made with {typed:?}: opens {}", got.ret);
                }
                cx.label("password passed in");
            }
        }
        cx.nontrivial();
        Ok(())
    }
}
