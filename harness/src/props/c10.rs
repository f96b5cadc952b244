//! Passwords of encrypted secret keys.
use crate::dict;
use crate::engine::*;
use crate::util::*;
use minisign::{KeyPair, SecretKey, SecretKeyBox};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vref::mini;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Near {
    Append(char),
    Prepend(char),
    DropLast,
    DropFirst,
    Change(usize, char),
    FlipCase(usize),
    Cut(usize),
    Trim,
    Empty,
    Twice,
    Swap(usize),
    Reverse,
    Lossy,
    Form(u8),
}
impl Near {
    pub fn of(self, p: &str) -> String {
        let mut c: Vec<char> = p.chars().collect();
        let n = c.len();
        match self {
            Near::Append(x) => c.push(x),
            Near::Prepend(x) => c.insert(0, x),
            Near::DropLast => {
                c.pop();
            }
            Near::DropFirst => {
                if n > 0 {
                    c.remove(0);
                }
            }
            Near::Change(i, x) => {
                if n > 0 {
                    c[i % n] = x
                }
            }
            Near::FlipCase(i) => {
                if n > 0 {
                    let x = c[i % n];
                    c[i % n] = if x.is_uppercase() { x.to_lowercase().next().unwrap() } else { x.to_uppercase().next().unwrap() }
                }
            }
            Near::Cut(k) => c.truncate(k),
            Near::Trim => return p.trim().to_string(),
            Near::Empty => c.clear(),
            Near::Twice => return format!("{p}{p}"),
            Near::Swap(i) => {
                if n > 1 {
                    c.swap(i % n, (i + 1) % n)
                }
            }
            Near::Reverse => c.reverse(),
            Near::Form(how) => return form(p, how),
            Near::Lossy => return p.chars().map(|x| if x.is_ascii() { x } else { '?' }).collect(),
        }
        c.into_iter().collect()
    }
}
/// Passwords that scrypt itself cannot tell apart: HMAC pads short keys with NULs.
pub fn same(a: &str, b: &str) -> bool {
    let n = |s: &str| if s.len() <= 64 { s.trim_end_matches('\0').to_string() } else { s.to_string() };
    n(a) == n(b)
}
pub fn near() -> BoxedStrategy<Near> {
    let ch = || prop_oneof![3 => (0x20u8..0x7f).prop_map(|b| b as char), 1 => any::<char>(), 1 => proptest::sample::select(vec!['\n', '\r', ' ', '\t', '\u{301}', '\u{200b}', '\u{1}'])];
    prop_oneof![
        3 => ch().prop_map(Near::Append),
        1 => ch().prop_map(Near::Prepend),
        2 => Just(Near::DropLast),
        1 => Just(Near::DropFirst),
        3 => (any::<usize>(), ch()).prop_map(|(i, c)| Near::Change(i, c)),
        2 => any::<usize>().prop_map(Near::FlipCase),
        2 => proptest::sample::select(vec![1usize, 7, 8, 15, 16, 31, 32, 55, 63, 64, 71, 72, 127, 128, 254, 255, 256, 511, 512, 1023, 1024]).prop_map(Near::Cut),
        1 => Just(Near::Trim),
        1 => Just(Near::Empty),
        1 => Just(Near::Twice),
        1 => any::<usize>().prop_map(Near::Swap),
        1 => Just(Near::Reverse),
        1 => Just(Near::Lossy),
        2 => (0u8..FORMS).prop_map(Near::Form),
    ]
    .boxed()
}
pub fn password() -> BoxedStrategy<String> {
    use proptest::collection::vec;
    let s = |v: Vec<char>| v.into_iter().collect::<String>();
    prop_oneof![
        4 => vec((0x20u8..0x7f).prop_map(|b| b as char), 0..24).prop_map(s),
        2 => vec(any::<char>(), 0..40).prop_map(s),
        1 => (proptest::sample::select(FORM_TEXTS.to_vec()), 0u8..FORMS).prop_map(|(s, how)| form(s, how)),
        1 => vec(prop_oneof![comment_char(), Just('\n'), Just('\r'), Just('\0')], 0..80).prop_map(s),
        2 => (proptest::sample::select(vec![31usize, 32, 33, 63, 64, 65, 72, 73, 127, 128, 129, 255, 256, 257, 512, 1023, 1024, 1025, 5000]), any::<u32>())
            .prop_map(|(n, x)| stream(x as u64, n).iter().map(|b| (b' ' + b % 95) as char).collect()),
        1 => Just(String::new()),
        1 => comment(),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    /// generated by the library
    Lib { pw: String, wrong: Option<Near>, comment: Option<String>, rng: u64, crlf: u8 },
    /// encrypted by the reference, cheap limits
    Ref { key: u32, pw: String, wrong: Vec<Near>, other: String, salt: u32, xor: Vec<(usize, u8)> },
}
const LIMITS: (u64, u64) = (32768, 4096);

fn check_open(l: &SecretKey, plain: &mini::SecKey, what: &str) -> R {
    let f = mini::SecKey::parse_bytes(&l.to_bytes()).ok_or("layout of the opened key")?;
    ensure!(f.body == plain.body, "{what}: opened key has other contents: {} instead of {}", hex(&f.body), hex(&plain.body));
    ensure!(l.keynum() == plain.id(), "{what}: key id of the opened key");
    let pk = pk_of(&mini::PubKey { alg: *b"Ed", id: plain.id(), key: plain.pk() });
    let p = minisign::PublicKey::from_secret_key(l).map_err(|e| e.to_string())?;
    ensure!(p.to_bytes() == pk.to_bytes(), "{what}: public key of the opened key");
    let b = minisign::sign(Some(&pk), l, &b"signed data"[..], None, None).map_err(|e| format!("{what}: opened key does not sign: {e}"))?;
    vfy(&pk, &b, b"signed data", false).map_err(|e| format!("{what}: {e}"))
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C10";
    const RULE: &'static str = "Library-generated encrypted keys (default limits) and reference-encrypted ones (cheap limits) under empty, short, Unicode, control-character and long passwords; opened with the password, with near misses of it (appended, dropped, changed, case-flipped, truncated at 20 lengths, trimmed, reversed, ...), and after altering salt, key id, key or checksum. Non-trivial: the right password opened the key to the exact plain contents and at least one wrong password or alteration was refused.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "passwords that differ only by trailing NUL characters (up to 64 bytes) are the same password to scrypt's HMAC and are not told apart",
        "an altered or wrongly decrypted key matching its 256-bit checksum by chance is not expected",
    ];
    fn fixed(_t: Tier) -> Vec<Case> {
        let mut v = vec![];
        for (i, pw) in ["", " ", "x", "password", "pa\u{301}ss", "\n", "\0", "é", "a\nb", "\u{feff}"].into_iter().enumerate() {
            v.push(Case::Lib { pw: pw.into(), wrong: Some([Near::Append('x'), Near::Empty, Near::Trim][i % 3]), comment: None, rng: i as u64, crlf: (i * 5 % 32) as u8 });
        }
        for (i, n) in [63usize, 64, 65, 72, 73, 128, 255, 256, 1024, 1025, 5000].into_iter().enumerate() {
            let pw: String = stream(n as u64, n).iter().map(|b| (b' ' + b % 95) as char).collect();
            v.push(Case::Lib { pw, wrong: Some(Near::DropLast), comment: Some(format!("c{n}")), rng: i as u64, crlf: 0 });
        }
        for (i, n) in dict::nums(258, 5000).into_iter().enumerate() {
            v.push(Case::Lib { pw: dict::text(n), wrong: Some(Near::DropLast), comment: None, rng: i as u64, crlf: 0 });
        }
        for n in dict::nums(140, 5000) {
            v.push(Case::Ref { key: 11, pw: dict::text(n), wrong: vec![Near::DropLast, Near::Append('!')], other: "".into(), salt: n as u32, xor: vec![] });
        }
        for (i, s) in dict::bytes().into_iter().filter_map(|b| String::from_utf8(b).ok()).enumerate() {
            for pw in [s.clone(), format!("{s}a"), format!("a{s}")] {
                v.push(Case::Ref { key: 11, pw: pw.clone(), wrong: vec![Near::DropLast, Near::Append('!'), Near::Trim], other: format!("{pw}{s}"), salt: i as u32, xor: vec![] });
            }
            v.push(Case::Ref { key: 11, pw: "a".into(), wrong: vec![], other: format!("{s}a"), salt: i as u32, xor: vec![] });
        }
        for how in 0..FORMS {
            for (i, s) in FORM_TEXTS.iter().enumerate() {
                v.push(Case::Ref { key: 11, pw: s.to_string(), wrong: vec![Near::Form(how)], other: "".into(), salt: i as u32, xor: vec![] });
            }
            for (i, s) in dict::texts().into_iter().enumerate().filter(|(_, s)| form(s, how) != **s) {
                v.push(Case::Ref { key: 11, pw: format!("{s}a"), wrong: vec![Near::Form(how)], other: form(&s, how), salt: i as u32, xor: vec![] });
            }
        }
        for p in (6..38).chain(54..158) {
            v.push(Case::Ref { key: 9, pw: "correct horse".into(), wrong: vec![], other: "".into(), salt: p as u32, xor: vec![(p, 1 << (p % 8))] });
            v.push(Case::Ref { key: 10, pw: "".into(), wrong: vec![], other: " ".into(), salt: p as u32, xor: vec![(p, 0xff)] });
        }
        // equal differences placed so that they could cancel out
        for i in 0..32 {
            v.push(Case::Ref { key: 9, pw: "p".into(), wrong: vec![], other: "".into(), salt: i, xor: vec![(62 + i as usize, 1), (126 + i as usize, 1)] });
            v.push(Case::Ref { key: 9, pw: "p".into(), wrong: vec![], other: "".into(), salt: i, xor: vec![(62 + i as usize, 1), (94 + i as usize, 1)] });
        }
        for n in 0..140usize {
            let pw: String = stream(n as u64, n).iter().map(|b| (b'!' + b % 90) as char).collect();
            v.push(Case::Ref {
                key: 11,
                pw,
                wrong: vec![Near::DropLast, Near::FlipCase(n.saturating_sub(1)), Near::Change(n.saturating_sub(1), '\u{1}'), Near::Append('!'), Near::Append('\n'), Near::Append(' ')],
                other: "".into(),
                salt: n as u32,
                xor: vec![],
            });
        }
        v
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        use proptest::collection::vec;
        let pos = || prop_oneof![1 => 6usize..38, 3 => 54usize..158];
        prop_oneof![
            1 => (password(), proptest::option::weighted(0.7, near()), opt_comment(), any::<u64>(), ends()).prop_map(|(pw, wrong, comment, rng, crlf)| Case::Lib { pw, wrong, comment, rng, crlf }),
            40 => (keyn(), password(), vec(near(), 0..4), password(), any::<u32>(), vec((pos(), 1u8..), 0..4))
                .prop_map(|(key, pw, wrong, other, salt, xor)| Case::Ref { key, pw, wrong, other, salt, xor }),
        ]
        .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(5_000, 400_000)
    }
    const SHRINK: u32 = 400;
    fn check(c: &Case, cx: &mut Cx) -> R {
        match c {
            Case::Lib { pw, wrong, comment, rng, crlf } => {
                getrandom::ctl::install(getrandom::ctl::Mode::Stream(*rng), None, 5);
                let kp = KeyPair::generate_encrypted_keypair(Some(pw.clone())).map_err(|e| format!("generating failed: {e}"))?;
                let text = kp.sk.to_box(comment.as_deref()).map_err(|e| format!("to_box: {e}"))?.into_string();
                let (c2, enc) = mini::SecKey::parse_file(&text).ok_or_else(|| format!("the box is not a Minisign secret key: {text:?}"))?;
                ensure!(enc.kdf == *b"Sc", "an encrypted key is stored with encryption tag {:?}", enc.kdf);
                ensure!(comment.is_none() || Some(&c2) == comment.as_ref(), "box comment {c2:?}");
                let plain = enc.clone().decrypt(pw.as_bytes()).ok_or("the reference cannot decrypt the generated key with its password")?;
                let (seed, pkb) = (plain.seed(), plain.pk());
                ensure!(kp.pk.to_bytes()[10..] == pkb && kp.pk.to_bytes()[2..10] == plain.id(), "the secret key is not that of the public key");
                ensure!(vref::ed25519::public(&seed) == pkb, "seed and public key do not match");
                let raw = enc.to_bytes();
                for w in seed.windows(8) {
                    ensure!(!contains(&raw, w) && !contains(text.as_bytes(), w), "the stored box has seed bytes {} in the clear", hex(w));
                }
                ensure!(!text.contains(&hex(&seed)), "the box has the seed in hex");
                let stored = line_ends(&text, *crlf);
                let l = SecretKeyBox::from_string(&stored)
                    .and_then(|b| b.into_secret_key(Some(pw.clone())))
                    .map_err(|e| format!("the right password does not open the key: {e}"))?;
                check_open(&l, &plain, "generated")?;
                ensure!(SecretKey::from_unencrypted_box(SecretKeyBox::from(stored.clone())).is_err(), "an encrypted key loads without a password");
                ensure!(rpassword::ctl::asked() == 0, "asked for a password although one was given");
                if let Some(w) = wrong {
                    let w = w.of(pw);
                    if !same(&w, pw) {
                        ensure!(SecretKey::from_box(SecretKeyBox::from(stored), Some(w.clone())).is_err(), "password {w:?} opens a key made with {pw:?}");
                        cx.nontrivial();
                    }
                }
                cx.label("library-generated key");
            }
            Case::Ref { key: n, pw, wrong, other, salt, xor } => {
                let k = key(*n);
                let salt: [u8; 32] = stream(*salt as u64 | 1 << 45, 32).try_into().unwrap();
                let e = k.rsk.clone().encrypt(pw.as_bytes(), salt, LIMITS.0, LIMITS.1).unwrap();
                let text = e.to_file("a comment");
                let l = SecretKeyBox::from(text.clone()).into_secret_key(Some(pw.clone())).map_err(|e| format!("the right password {pw:?} does not open the key: {e}"))?;
                check_open(&l, &k.rsk, "reference")?;
                let f = scratch().join("c10.key");
                std::fs::write(&f, &text).unwrap();
                let l = SecretKey::from_file(&f, Some(pw.clone())).map_err(|e| format!("from_file with the right password: {e}"))?;
                ensure!(mini::SecKey::parse_bytes(&l.to_bytes()).map(|x| x.body) == Some(k.rsk.body), "from_file gives another key");
                cx.label("reference-encrypted key");
                for w in wrong.iter().map(|w| w.of(pw)).chain([other.clone()]) {
                    if same(&w, pw) {
                        continue;
                    }
                    ensure!(SecretKeyBox::from(text.clone()).into_secret_key(Some(w.clone())).is_err(), "password {w:?} opens a key made with {pw:?}");
                    cx.label("wrong password");
                    cx.nontrivial();
                }
                let good = e.to_bytes();
                let mut raw = good.clone();
                for (i, x) in xor {
                    raw[*i] ^= x
                }
                if raw != good {
                    let t = format!("untrusted comment: x\n{}\n", vref::b64::encode(&raw));
                    ensure!(SecretKeyBox::from(t).into_secret_key(Some(pw.clone())).is_err(), "the altered key opens ({xor:?})");
                    cx.label("altered encrypted key");
                    cx.nontrivial();
                }
            }
        }
        Ok(())
    }
}
