//! What guessing the password of a generated key costs.
use super::c10::{near, password, Near};
use crate::dict;
use crate::engine::*;
use crate::util::*;
use getrandom::ctl::{self, Mode};
use minisign::{KeyPair, SecretKeyBox};
use proptest::prelude::*;
use rpassword::ctl as tty;
use serde::{Deserialize, Serialize};
use vref::{kdf, mini};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Route {
    Passed,
    Typed,
    Written,
    WrittenTyped,
}
const ROUTES: [Route; 4] = [Route::Passed, Route::Typed, Route::Written, Route::WrittenTyped];
/// What was done before, in the same thread.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Before {
    /// a key with cheap limits opened with the same password, or refused another
    OpenCheap(bool),
    Plain,
    Encrypted,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pw: String,
    other: Near,
    route: Route,
    comment: Option<String>,
    rng: u64,
    before: Vec<Before>,
}
/// The cost of a generated key: scrypt with N=2^15, r=8, p=1.
const MIN: (u32, u64, u64) = (15, 8, 1);

struct Made {
    pk: Vec<u8>,
    /// the key as bytes, as a box, and as written
    all: Vec<mini::SecKey>,
    text: String,
}
fn generate(c: &Case, pw: &str) -> Result<Made, String> {
    ctl::install(Mode::Stream(c.rng), None, 5);
    let typed = matches!(c.route, Route::Typed | Route::WrittenTyped);
    tty::install(if typed { vec![Some(pw.to_string()); 2] } else { vec![] });
    let given = (!typed).then(|| pw.to_string());
    let mut files = (vec![], vec![]);
    let kp = capture(|| match c.route {
        Route::Passed | Route::Typed => KeyPair::generate_encrypted_keypair(given),
        _ => KeyPair::generate_and_write_encrypted_keypair(&mut files.0, &mut files.1, c.comment.as_deref(), given),
    });
    let kp = kp.ret.map_err(|e| format!("generating with {pw:?}: {e}"))?;
    let text = kp.sk.to_box(c.comment.as_deref()).map_err(|e| e.to_string())?.to_string();
    let mut all = vec![mini::SecKey::parse_bytes(&kp.sk.to_bytes()).ok_or("layout")?, mini::SecKey::parse_file(&text).ok_or("layout of the box")?.1];
    if !files.1.is_empty() {
        all.push(mini::SecKey::parse_file(std::str::from_utf8(&files.1).map_err(|e| e.to_string())?).ok_or("layout of the file")?.1);
    }
    Ok(Made { pk: kp.pk.to_bytes(), all, text })
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C27";
    const SHRINK: u32 = 60;
    const RULE: &'static str = "Encrypted key pairs generated by all four routes (password passed in or typed, returned or written out), with passwords of every kind, comments, and after other keys were generated or opened in the same thread. The stored limits must select at least N=2^15, r=8, p=1 by the reference's rule; the reference must decrypt all 104 bytes with just these; and with the same random stream and another password, only the encrypted bytes may differ; with another random stream, for half of the cases, the salt has to differ nearly everywhere. Non-trivial: the generated key was decrypted by the reference at that cost.";
    const ASSUMPTIONS: &'static [&'static str] = &["scrypt itself (the scrypt crate) is trusted"];
    fn fixed(_t: Tier) -> Vec<Case> {
        let mut v = vec![];
        let mut pws: Vec<String> = ["", " ", "a", "\0", "pw", "hunter2hunter2", "correct horse battery staple", "é漢\u{1f511}"].iter().map(|s| s.to_string()).collect();
        for n in [7, 8, 12, 16, 20, 24, 32, 40, 63, 64, 65, 72, 100, 128, 200, 256, 512, 1000, 1023, 1024] {
            pws.push(dict::text(n));
        }
        pws.extend(dict::nums(2, 1024).into_iter().step_by(3).map(dict::text));
        for (i, pw) in pws.into_iter().enumerate() {
            v.push(Case { pw, other: Near::Append('x'), route: ROUTES[i % 4], comment: (i % 3 == 0).then(|| "c".to_string()), rng: i as u64, before: vec![] });
        }
        for (i, b) in [Before::OpenCheap(true), Before::OpenCheap(false), Before::Plain, Before::Encrypted].into_iter().enumerate() {
            for n in 1..4 {
                v.push(Case { pw: "pw".into(), other: Near::Empty, route: ROUTES[(i + n) % 4], comment: None, rng: 77, before: vec![b; n] });
            }
        }
        v
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let b = prop_oneof![3 => any::<bool>().prop_map(Before::OpenCheap), 1 => Just(Before::Plain), 1 => Just(Before::Encrypted)];
        (password(), near(), proptest::sample::select(ROUTES.to_vec()), opt_comment(), any::<u64>(), proptest::collection::vec(b, 0..3))
            .prop_map(|(pw, other, route, comment, rng, before)| Case { pw, other, route, comment, rng, before })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(400, 15_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> R {
        let short = |s: &str| s.len() <= 1024;
        if !short(&c.pw) && matches!(c.route, Route::Typed | Route::WrittenTyped) {
            return Ok(());
        }
        for b in &c.before {
            match b {
                Before::OpenCheap(right) => {
                    let e = key(9).rsk.clone().encrypt(if *right { c.pw.as_bytes() } else { b"another" }, [9; 32], 32768, 4096).unwrap();
                    let _ = SecretKeyBox::from(e.to_file("c")).into_secret_key(Some(c.pw.clone()));
                }
                Before::Plain => drop(KeyPair::generate_unencrypted_keypair()),
                Before::Encrypted => drop(capture(|| KeyPair::generate_encrypted_keypair(Some("before".into())).is_ok())),
            }
        }
        let m = generate(c, &c.pw)?;
        for e in &m.all {
            ensure!(e.kdf == *b"Sc", "a key generated with password {:?} is stored with encryption tag {:?}", c.pw, e.kdf);
            let (n, r, p) = kdf::pickparams(e.ops, e.mem);
            ensure!(n >= MIN.0 && r >= MIN.1 && p >= MIN.2, "a key generated with password {:?} is stored with limits {} and {}: N=2^{n} r={r} p={p}", c.pw, e.ops, e.mem);
            ensure!(e == &m.all[0], "the stored forms of one generated key differ");
        }
        let d = m.all[0].clone().decrypt(c.pw.as_bytes()).ok_or(format!("the generated key does not decrypt with {:?} at the stored limits", c.pw))?;
        ensure!(vref::ed25519::public(&d.seed()) == d.pk() && m.pk[10..] == d.pk() && m.pk[2..10] == d.id(), "the decrypted key is not the generated one");
        cx.nontrivial();
        cx.label(format!("{:?}", c.route));
        // no work is shared with other keys: the salt is another one in all its bytes
        if c.rng % 2 == 0 {
            let o = generate(&Case { rng: c.rng ^ 0x5555_5555, ..c.clone() }, &c.pw)?;
            let agree = (0..32).filter(|&i| o.all[0].salt[i] == m.all[0].salt[i]).count();
            ensure!(agree < 9, "two keys generated from different random streams have salts {} and {}", hex(&o.all[0].salt), hex(&m.all[0].salt));
            cx.label("salts of two keys");
        }
        // only the encrypted bytes depend on the password
        let other = c.other.of(&c.pw);
        if short(&other) || !matches!(c.route, Route::Typed | Route::WrittenTyped) {
            let o = generate(c, &other)?;
            ensure!(o.pk == m.pk, "the public key depends on the password");
            let blank = |e: &mini::SecKey| mini::SecKey { body: [0; 104], ..e.clone() };
            ensure!(blank(&o.all[0]) == blank(&m.all[0]), "passwords {:?} and {other:?} show in the clear part of the key: {} and {}", c.pw, hex(&o.all[0].to_bytes()[..54]), hex(&m.all[0].to_bytes()[..54]));
            ensure!(o.text.lines().next() == m.text.lines().next(), "the comment depends on the password");
            if !super::c10::same(&other, &c.pw) {
                // two scrypt streams agree in no more places than chance has it
                let agree = (0..104).filter(|&i| o.all[0].body[i] == m.all[0].body[i]).count();
                ensure!(agree < 20, "passwords {:?} and {other:?} leave {agree} of 104 encrypted bytes the same", c.pw);
            }
        }
        Ok(())
    }
}
