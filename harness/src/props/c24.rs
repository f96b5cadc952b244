//! Nothing secret is shown, and nothing at all is printed except prompts and verification's report.
use crate::engine::*;
use crate::util::*;
use minisign::{KeyPair, PublicKey, SecretKey, SecretKeyBox, SignatureBox};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vref::{b64, mini};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Open {
    Right,
    Wrong,
    Unencrypted,
    Cut(usize),
    Flip(usize, u8),
    Limits,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    /// generate with the library; `typed`: the password is entered
    Gen { pw: u32, rng: u64, typed: bool, differ: bool, write: bool },
    Open { key: u32, pw: u32, how: Open, typed: bool, file: bool },
    Use { key: u32, data: Data, tc: Option<String>, uc: Option<String>, pk: u8, cons: bool },
    Plain { key: u32, how: Open, comment: Option<String> },
}
/// A password that nothing else contains.
fn pw(n: u32) -> String {
    let h = hex(&stream(n as u64 | 1 << 46, 8));
    match n % 10 {
        // nothing to search for, but nothing to print either
        4 => String::new(),
        5 => " ".into(),
        6 => "\n".into(),
        7 => format!("{h}{}", "x".repeat(n as usize / 10 % 1100)),
        8 => h.repeat(4),
        0 => h,
        1 | 9 => format!("Pa{h}é漢"),
        2 => format!("{h}\n{h}"),
        _ => format!("{h} {}", h.repeat(6)),
    }
}
/// Not the first two keys, whose repeated bytes turn up anywhere.
fn tkey(n: u32) -> std::rc::Rc<Key> {
    key(2 + n % 1_000_000)
}
/// Byte strings that betray `secret`: pieces of it, raw and in the usual ways of writing bytes.
fn traces(secret: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for w in secret.windows(8) {
        v.push(w.to_vec());
        v.push(hex(w).into_bytes());
        v.push(hex(w).to_uppercase().into_bytes());
        v.push(w.iter().map(|b| format!("{b:x}")).collect::<String>().into_bytes());
        v.push(w.iter().map(|b| format!("{b:02x} ")).collect::<String>().into_bytes());
        let d = format!("{w:?}");
        v.push(d.as_bytes()[1..d.len() - 1].to_vec());
        // as numbers
        let x = u64::from_le_bytes(w.try_into().unwrap());
        v.extend([format!("{x:x}"), format!("{x:X}")].map(String::into_bytes).into_iter().filter(|t| t.len() > 11));
        let ab = [x as u32, (x >> 32) as u32];
        v.extend([format!("{}, {}", ab[0], ab[1]), format!("{}, {}", ab[0].swap_bytes(), ab[1].swap_bytes())].map(String::into_bytes));
        for y in [x, x.swap_bytes()] {
            v.push(y.to_string().into_bytes());
            v.push((y as i64).to_string().into_bytes());
        }
    }
    for w in secret.windows(16) {
        let x = u128::from_le_bytes(w.try_into().unwrap());
        for y in [x, x.swap_bytes()] {
            v.push(y.to_string().into_bytes());
            v.push((y as i128).to_string().into_bytes());
        }
    }
    // short numbers turn up by chance
    v.retain(|t| t.len() >= 8 && !(t.len() < 12 && t.iter().all(u8::is_ascii_digit)));
    for off in 0..3 {
        let e = b64::encode(&secret[off..]);
        let e = &e.as_bytes()[..(secret.len() - off) / 3 * 4];
        v.extend(e.windows(12).step_by(4).map(|w| w.to_vec()));
    }
    v
}
struct Watch {
    traces: Vec<(&'static str, Vec<u8>)>,
    /// traces by their first eight bytes
    map: std::collections::HashMap<u64, Vec<usize>>,
}
impl Watch {
    fn new() -> Watch {
        Watch { traces: vec![], map: Default::default() }
    }
    fn add(&mut self, name: &'static str, t: Vec<u8>) {
        if t.len() >= 8 {
            let h = u64::from_le_bytes(t[..8].try_into().unwrap());
            self.map.entry(h).or_default().push(self.traces.len());
            self.traces.push((name, t));
        }
    }
    fn all(&mut self, name: &'static str, secret: &[u8]) {
        for t in traces(secret) {
            self.add(name, t);
        }
    }
    fn key(&mut self, seed: &[u8; 32]) {
        let h = vref::sha512::hash(&[seed]);
        let mut a = h;
        a[0] &= 248;
        a[31] = (a[31] & 63) | 64;
        self.all("seed", seed);
        self.all("expanded secret key", &h);
        self.all("secret scalar", &a[..32]);
    }
    fn password(&mut self, p: &str) {
        if p.len() < 8 {
            return;
        }
        self.add("password", p.as_bytes().to_vec());
        self.add("password", p.as_bytes()[..8].to_vec());
        self.add("password", hex(p.as_bytes()).into_bytes());
        self.add("password", b64::encode(p.as_bytes()).trim_end_matches('=').as_bytes().to_vec());
    }
    fn clean(&self, b: &[u8], what: &str) -> R {
        for i in 0..b.len().saturating_sub(7) {
            let h = u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
            for &j in self.map.get(&h).map(|v| &v[..]).unwrap_or_default() {
                let (n, t) = &self.traces[j];
                ensure!(!b[i..].starts_with(t), "{what} shows the {n}: {:?}", String::from_utf8_lossy(t));
            }
        }
        Ok(())
    }
    fn err<T>(&self, r: &minisign::Result<T>, what: &str) -> R {
        if let Err(e) = r {
            self.clean(e.to_string().as_bytes(), &format!("the error of {what}"))?;
            self.clean(format!("{e:?}").as_bytes(), &format!("the error of {what}"))?;
        }
        Ok(())
    }
}
fn silent<T>(c: &Captured<T>, what: &str) -> R {
    ensure!(c.out.is_empty(), "{what} prints {:?} on standard output", String::from_utf8_lossy(&c.out));
    ensure!(c.err.is_empty(), "{what} prints {:?} on standard error", String::from_utf8_lossy(&c.err));
    Ok(())
}
fn public(w: &Watch, p: &PublicKey) -> R {
    w.clean(&p.to_bytes(), "the public key")?;
    w.clean(p.to_base64().as_bytes(), "the public key")?;
    w.clean(format!("{p:?}").as_bytes(), "the public key's Debug form")?;
    w.clean(p.to_box().map_err(|e| e.to_string())?.to_string().as_bytes(), "the public key box")
}
fn stored(w: &Watch, text: &str) -> R {
    w.clean(text.as_bytes(), "the encrypted key")?;
    let raw = mini::SecKey::parse_file(text).ok_or("encrypted key layout")?.1.to_bytes();
    w.clean(&raw, "the encrypted key")
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C24";
    const SHRINK: u32 = 300;
    const RULE: &'static str = "Generating (password given or typed, entries that differ, written or not), opening (right and wrong password, as unencrypted, cut, altered, excessive limits), storing, signing (right, wrong and no public key) and verifying, with standard output and error captured; these, every error's text, every public key, signature and encrypted key made are searched for the password and for pieces of the seed, the expanded key and the scalar, raw, in hex, decimal and base64. Calls that neither prompt nor report must print nothing. Non-trivial: the outputs of at least one call were searched.";
    const ASSUMPTIONS: &'static [&'static str] = &["the Debug form of secret keys, which shows the key by design, and unencrypted key files are outside"];
    fn fixed(_t: Tier) -> Vec<Case> {
        let mut v = vec![];
        for n in [0u32, 1, 2, 3, 4, 5, 6, 7, 1507, 9007, 8] {
            for typed in [false, true] {
                for write in [false, true] {
                    v.push(Case::Gen { pw: n, rng: n as u64, typed, differ: false, write });
                    v.push(Case::Gen { pw: n, rng: n as u64, typed: true, differ: true, write });
                }
                for how in [Open::Right, Open::Wrong, Open::Unencrypted, Open::Cut(10), Open::Cut(200), Open::Flip(60, 1), Open::Flip(150, 2), Open::Limits, Open::Flip(2, 1), Open::Flip(0, 9), Open::Flip(5, 9)] {
                    for file in [false, true] {
                        v.push(Case::Open { key: 9 + n, pw: n, how, typed, file });
                    }
                    v.push(Case::Plain { key: n, how, comment: None });
                }
            }
            for pk in 0..3 {
                for cons in [false, true] {
                    v.push(Case::Use { key: n, data: gen(n as usize * 70, 1), tc: None, uc: None, pk, cons });
                    v.push(Case::Use { key: n, data: gen(n as usize * 70, 1), tc: Some("t".into()), uc: Some("u".into()), pk, cons });
                }
            }
        }
        v
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let b = any::<bool>;
        let how = || prop_oneof![
            3 => Just(Open::Right), 3 => Just(Open::Wrong), 1 => Just(Open::Unencrypted), 1 => Just(Open::Limits),
            2 => (0usize..250).prop_map(Open::Cut), 2 => (0usize..158, 1u8..).prop_map(|(i, x)| Open::Flip(i, x)),
        ];
        prop_oneof![
            1 => (any::<u32>(), any::<u64>(), b(), b(), b()).prop_map(|(pw, rng, typed, differ, write)| Case::Gen { pw, rng, typed, differ, write }),
            12 => (keyn(), any::<u32>(), how(), b(), b()).prop_map(|(key, pw, how, typed, file)| Case::Open { key, pw, how, typed, file }),
            12 => (keyn(), small_data(), opt_comment(), opt_comment(), 0u8..3, b()).prop_map(|(key, data, tc, uc, pk, cons)| Case::Use { key, data, tc, uc, pk, cons }),
            4 => (keyn(), how(), opt_comment()).prop_map(|(key, how, comment)| Case::Plain { key, how, comment }),
        ]
        .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(12_000, 300_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> R {
        let mut w = Watch::new();
        match c {
            Case::Gen { pw: n, rng, typed, differ, write } => {
                let p = pw(*n);
                let q = if *differ { pw(n.wrapping_add(1)) } else { p.clone() };
                w.password(&p);
                w.password(&q);
                let (mut a, mut b) = (vec![], vec![]);
                getrandom::ctl::install(getrandom::ctl::Mode::Stream(*rng), None, 5);
                rpassword::ctl::install(vec![Some(p.clone()), Some(q.clone())]);
                let given = if *typed { None } else { Some(p.clone()) };
                let got = capture(|| {
                    if *write {
                        KeyPair::generate_and_write_encrypted_keypair(&mut a, &mut b, None, given)
                    } else {
                        KeyPair::generate_encrypted_keypair(given)
                    }
                });
                if !*typed {
                    silent(&got, "generating a key with a given password")?;
                }
                // what was drawn is all there is to hide
                for r in getrandom::ctl::log() {
                    if r.len() == 32 {
                        let s: [u8; 32] = r.clone().try_into().unwrap();
                        if got.ret.as_ref().is_ok_and(|k| k.pk.to_bytes()[10..] == vref::ed25519::public(&s)) {
                            w.key(&s);
                        }
                    }
                }
                w.err(&got.ret, "generating")?;
                w.clean(&got.out, "standard output")?;
                w.clean(&got.err, "standard error")?;
                if let Ok(kp) = &got.ret {
                    ensure!(!*differ || !*typed, "entries that differ generate a key");
                    public(&w, &kp.pk)?;
                    stored(&w, &kp.sk.to_box(None).map_err(|e| e.to_string())?.to_string())?;
                    if *write {
                        w.clean(&a, "the public key file")?;
                        w.clean(&b, "the secret key file")?;
                    }
                }
                cx.label(if *typed { "generating, typed" } else { "generating" });
            }
            Case::Open { key: n, pw: m, how, typed, file } => {
                let k = tkey(*n);
                let p = pw(*m);
                w.key(&k.seed);
                w.password(&p);
                let mut e = k.rsk.clone().encrypt(p.as_bytes(), [*m as u8; 32], 32768, 4096).unwrap();
                let mut entry = p.clone();
                let mut cut = usize::MAX;
                match how {
                    Open::Wrong => {
                        entry = pw(m.wrapping_add(1));
                        w.password(&entry);
                    }
                    Open::Limits => (e.ops, e.mem) = (1 << 50, 1 << 50),
                    Open::Cut(c) => cut = *c,
                    Open::Flip(i, x) => {
                        let mut raw = e.to_bytes();
                        raw[*i] ^= x;
                        if (38..54).contains(i) {
                            return Ok(()); // other limits: C11
                        }
                        e = mini::SecKey::parse_bytes(&raw).unwrap();
                    }
                    _ => {}
                }
                let mut text = e.to_file("c");
                text.truncate(cut.min(text.len()));
                let f = scratch().join("c24.key");
                if *file {
                    std::fs::write(&f, &text).unwrap();
                }
                rpassword::ctl::install(vec![Some(entry.clone())]);
                let given = if *typed { None } else { Some(entry) };
                let got = capture(|| match how {
                    Open::Unencrypted => SecretKeyBox::from(text.clone()).into_unencrypted_secret_key(),
                    _ if *file => SecretKey::from_file(&f, given),
                    _ => SecretKeyBox::from(text.clone()).into_secret_key(given),
                });
                if !*typed || *how == Open::Unencrypted {
                    silent(&got, "opening a key with a given password")?;
                }
                w.err(&got.ret, "opening a key")?;
                w.clean(&got.out, "standard output")?;
                w.clean(&got.err, "standard error")?;
                if let Ok(s) = &got.ret {
                    let p = PublicKey::from_secret_key(s).map_err(|e| e.to_string())?;
                    public(&w, &p)?;
                }
                cx.label(format!("opening: {}", if got.ret.is_ok() { "opened" } else { "refused" }));
            }
            Case::Plain { key: n, how, comment } => {
                let k = tkey(*n);
                w.key(&k.seed);
                let mut raw = k.rsk.to_bytes();
                if let Open::Flip(i, x) = how {
                    raw[*i] ^= x;
                }
                let mut text = format!("untrusted comment: {}\n{}\n", comment.clone().unwrap_or_default(), b64::encode(&raw));
                if let Open::Cut(c) = how {
                    while !text.is_char_boundary((*c).min(text.len())) {
                        text.pop();
                    }
                    text.truncate((*c).min(text.len()));
                }
                let got = capture(|| SecretKeyBox::from(text.clone()).into_unencrypted_secret_key());
                silent(&got, "loading an unencrypted key")?;
                w.err(&got.ret, "loading an unencrypted key")?;
                let got = capture(|| SecretKeyBox::from(text.clone()).into_secret_key(Some("x".into())));
                silent(&got, "opening an unencrypted key")?;
                w.err(&got.ret, "opening an unencrypted key")?;
                let s = SecretKey::from_bytes(&k.rsk.to_bytes()).map_err(|e| e.to_string())?;
                let got = capture(|| (s.to_box(comment.as_deref()).map(|_| ()), s.to_bytes(), PublicKey::from_secret_key(&s)));
                silent(&got, "storing a key")?;
                public(&w, &got.ret.2.map_err(|e| e.to_string())?)?;
                cx.label("unencrypted key");
            }
            Case::Use { key: n, data, tc, uc, pk, cons } => {
                let k = tkey(*n);
                w.key(&k.seed);
                let d = data.bytes();
                let o = tkey(n.wrapping_add(1));
                let p = match pk {
                    0 => None,
                    1 => Some(&k.pk),
                    _ => Some(&o.pk),
                };
                if *cons {
                    // a source that repeats itself must not bring anything out either
                    getrandom::ctl::install(getrandom::ctl::Mode::Constant(0x41), None, 5);
                }
                let got = capture(|| minisign::sign(p, &k.sk, &d[..], tc.as_deref(), uc.as_deref()));
                silent(&got, "signing")?;
                w.err(&got.ret, "signing")?;
                if let Ok(b) = &got.ret {
                    let text = b.to_string();
                    w.clean(text.as_bytes(), "the signature")?;
                    if let Some(s) = mini::Sig::parse_file(&text) {
                        w.clean(&s.bare(), "the signature")?;
                        w.clean(&s.global, "the comment signature")?;
                    }
                    for quiet in [true, false] {
                        for q in [&k.pk, &o.pk] {
                            let got = capture(|| minisign::verify(q, b, Rd::new(&d, &[]), quiet, false, false));
                            if quiet {
                                silent(&got, "quiet verification")?;
                            }
                            w.err(&got.ret, "verification")?;
                            w.clean(&got.err, "standard error")?;
                        }
                    }
                    let got = capture(|| SignatureBox::from_string(&text).is_ok());
                    silent(&got, "loading a signature")?;
                }
                cx.label("signing and verifying");
            }
        }
        cx.nontrivial();
        Ok(())
    }
}
