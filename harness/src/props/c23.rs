//! What errors say.
use crate::engine::*;
use crate::util::*;
use minisign::{KeyPair, PError, PublicKey, SecretKey, SecretKeyBox, SignatureBones, SignatureBox};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::error::Error;
use std::io::{self, Write};
use vref::mini;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    /// a reader that fails
    Read { key: u32, data: Data, sizes: Vec<usize>, at: usize, msg: String, prehashed: bool, output: bool },
    Seek { key: u32, data: Data },
    Write { at: usize, on_sk: bool, msg: String, rng: u64 },
    Rng { code: u32, at: usize, sign: bool },
    NoFile { name: String },
    /// a box that must not verify, for one reason
    Refused { key: u32, data: Data, prehashed: bool, bare: bool, why: Why },
    WrongPassword { key: u32, pw: String, other: String },
    Corrupted { key: u32, at: usize, x: u8 },
    TooHigh { key: u32, ops: u64, mem: u64 },
    WrongPk { key: u32, other: u32 },
    Mismatch { a: String, b: String },
    /// the end of a program by an error
    Exit { text: String, kind: u8 },
    /// whatever it is, it has a description
    Text { text: String, which: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Why {
    Data(usize, u8),
    Id(Hex),
    Key(u32),
    NotAllowed,
    Comment,
    Global(usize, u8),
    Sig(usize, u8),
}
#[allow(deprecated)]
fn kind(e: &PError) -> &str {
    e.description()
}
const VERIFY: &str = "verify error";
const IO: &str = "io error";
fn said(e: &PError) -> R {
    let (d, g) = (e.to_string(), format!("{e:?}"));
    ensure!(!d.trim().is_empty() && !g.is_empty(), "an error without a description: {g}");
    ensure!(kind(e).ends_with("error"), "error kind {:?}", kind(e));
    Ok(())
}
fn is(r: minisign::Result<impl Sized>, want: &str, text: &str, what: &str) -> R {
    match r {
        Ok(_) => Err(format!("{what}: no error")),
        Err(e) => {
            said(&e)?;
            ensure!(kind(&e) == want, "{what}: reported as {:?} ({e}) instead of {want:?}", kind(&e));
            ensure!(e.to_string().contains(text), "{what}: {:?} does not tell {text:?}", e.to_string());
            Ok(())
        }
    }
}
struct Failing<'a, 'b>(Rd<'a>, usize, &'b str);
impl io::Read for Failing<'_, '_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.0.calls >= self.1 {
            return Err(io::Error::new(io::ErrorKind::Other, self.2.to_string()));
        }
        self.0.read(b)
    }
}
impl io::Seek for Failing<'_, '_> {
    fn seek(&mut self, p: io::SeekFrom) -> io::Result<u64> {
        self.0.seek(p)
    }
}
struct W<'a>(usize, &'a str);
impl Write for W<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.0);
        if n == 0 && !b.is_empty() {
            return Err(io::Error::new(io::ErrorKind::Other, self.1.to_string()));
        }
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C23";
    const SHRINK: u32 = 500;
    const RULE: &'static str = "One cause of failure at a time: failing readers, writers, seeks and random source with generated messages, missing files, signatures refused for one reason (data, key id, key, legacy, comment, comment signature, signature), wrong passwords, corrupted keys, excessive limits, an explicit exit, a foreign public key when signing, passwords that do not match, and arbitrary text for every loading function; the error's kind and text are compared with the cause. Non-trivial: the call failed and its error was judged.";
    const ASSUMPTIONS: &'static [&'static str] = &["the kind of an error is what std::error::Error::description returns; there is no other accessor"];
    fn fixed(_t: Tier) -> Vec<Case> {
        let mut v = vec![];
        for prehashed in [true, false] {
            for bare in [true, false] {
                for (i, why) in [Why::Data(0, 1), Why::Id(Hex(vec![1, 0, 0, 0, 0, 0, 0, 0x80])), Why::Id(Hex(vec![0; 8])), Why::Key(3), Why::NotAllowed, Why::Comment, Why::Global(5, 1), Why::Sig(3, 1), Why::Sig(60, 0x80)].into_iter().enumerate() {
                    v.push(Case::Refused { key: i as u32, data: gen(40, 1), prehashed, bare, why });
                }
            }
            for output in [true, false] {
                for at in 0..3 {
                    v.push(Case::Read { key: 9, data: gen(1000, 1), sizes: vec![400], at, msg: "the tape tore".into(), prehashed, output });
                }
            }
        }
        for key in 0..8 {
            v.push(Case::Refused { key, data: gen(3, 1), prehashed: true, bare: false, why: Why::Id(Hex(id_n(key + 1).to_vec())) });
            v.push(Case::WrongPk { key, other: key + 1 });
            v.push(Case::WrongPassword { key, pw: "right".into(), other: "wrong".into() });
            v.push(Case::Corrupted { key, at: 54 + key as usize * 10, x: 1 });
        }
        for at in [0, 1, 41, 42, 50, 157] {
            for on_sk in [true, false] {
                v.push(Case::Write { at, on_sk, msg: "no more room".into(), rng: 1 });
            }
        }
        for at in 0..2 {
            for sign in [true, false] {
                v.push(Case::Rng { code: 5, at, sign });
            }
        }
        v.push(Case::Seek { key: 4, data: gen(100, 1) });
        v.push(Case::NoFile { name: "there-is-no-such-file".into() });
        for (ops, mem) in [(u64::MAX, u64::MAX), (1 << 40, 1 << 40), (1 << 50, 1 << 62)] {
            v.push(Case::TooHigh { key: 9, ops, mem });
        }
        v.push(Case::Mismatch { a: "a".into(), b: "b".into() });
        for kind in 0..9 {
            v.push(Case::Exit { text: format!("error {kind} é"), kind });
        }
        for which in 0..8 {
            for text in ["", "\n", "a", "a\nb", "untrusted comment: x\ny\n", "untrusted comment: x\nRWQ=\ntrusted comment: y\nz\n"] {
                v.push(Case::Text { text: text.into(), which });
            }
        }
        v
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let b = any::<bool>;
        let msg = || "[ -~]{1,20}".prop_map(|s| format!("<{s}>"));
        let why = || prop_oneof![
            2 => (any::<usize>(), 1u8..).prop_map(|(i, x)| Why::Data(i, x)),
            3 => proptest::collection::vec(any::<u8>(), 8..=8).prop_map(|v| Why::Id(Hex(v))),
            1 => any::<u32>().prop_map(Why::Key),
            1 => Just(Why::NotAllowed),
            1 => Just(Why::Comment),
            1 => (0usize..64, 1u8..).prop_map(|(i, x)| Why::Global(i, x)),
            1 => (0usize..64, 1u8..).prop_map(|(i, x)| Why::Sig(i, x)),
        ];
        prop_oneof![
            4 => (keyn(), data(), chunk_sizes(), 0usize..10, msg(), b(), b()).prop_map(|(key, data, sizes, at, msg, prehashed, output)| Case::Read { key, data, sizes, at, msg, prehashed, output }),
            3 => (0usize..160, b(), msg(), any::<u64>()).prop_map(|(at, on_sk, msg, rng)| Case::Write { at, on_sk, msg, rng }),
            1 => (1u32..40, 0usize..2, b()).prop_map(|(code, at, sign)| Case::Rng { code, at, sign }),
            12 => (keyn(), small_data(), b(), b(), why()).prop_map(|(key, data, prehashed, bare, why)| Case::Refused { key, data, prehashed, bare, why }),
            2 => (keyn(), super::c10::password(), super::c10::password()).prop_map(|(key, pw, other)| Case::WrongPassword { key, pw, other }),
            2 => (keyn(), 54usize..158, 1u8..).prop_map(|(key, at, x)| Case::Corrupted { key, at, x }),
            1 => (keyn(), (1u64 << 36)..u64::MAX, (1u64 << 36)..u64::MAX).prop_map(|(key, ops, mem)| Case::TooHigh { key, ops, mem }),
            1 => (keyn(), keyn()).prop_map(|(key, other)| Case::WrongPk { key, other }),
            1 => (comment(), comment()).prop_map(|(a, b)| Case::Mismatch { a, b }),
            1 => (comment(), 0u8..9).prop_map(|(text, kind)| Case::Exit { text, kind }),
            6 => (prop_oneof![any::<String>(), proptest::collection::vec(comment(), 0..5).prop_map(|v| v.join("\n"))], any::<u8>()).prop_map(|(text, which)| Case::Text { text, which }),
        ]
        .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(60_000, 600_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> R {
        match c {
            Case::Read { key: n, data, sizes, at, msg, prehashed, output } => {
                let k = key(*n);
                let d = data.bytes();
                let mut r = Failing(Rd::new(&d, sizes), *at, msg);
                let got = minisign::sign(None, &k.sk, &mut r, None, None);
                let reached = got.is_err();
                if reached {
                    is(got, IO, msg, "signing from a reader that fails")?;
                }
                let b = bones(&bare_ref(&k, *prehashed, &d))?;
                let got = minisign::verify(&k.pk, &b, Failing(Rd::new(&d, sizes), *at, msg), true, *output, true);
                if got.is_err() {
                    is(got, IO, msg, "verifying from a reader that fails")?;
                } else if !reached {
                    return Ok(());
                }
                cx.label("reader");
            }
            Case::Seek { key: n, data } => {
                let k = key(*n);
                let d = data.bytes();
                let b = bones(&bare_ref(&k, true, &d))?;
                let mut r = Rd::new(&d, &[]);
                r.fail_seek = true;
                is(minisign::verify(&k.pk, &b, &mut r, true, true, false), IO, "injected fault", "seeking back for output")?;
                cx.label("seek");
            }
            Case::Write { at, on_sk, msg, rng } => {
                getrandom::ctl::install(getrandom::ctl::Mode::Stream(*rng), None, 5);
                let (p, s) = if *on_sk { (usize::MAX, *at) } else { (*at, usize::MAX) };
                let r = KeyPair::generate_and_write_unencrypted_keypair(W(p, msg), W(s, msg));
                if r.is_ok() {
                    ensure!(*at >= if *on_sk { 158 } else { 42 }, "keys were written to a writer that failed after {at} bytes");
                    return Ok(());
                }
                is(r, IO, msg, "writing keys")?;
                cx.label("writer");
            }
            Case::Rng { code, at, sign } => {
                let k = key(9);
                getrandom::ctl::install(getrandom::ctl::Mode::Stream(1), Some(*at), *code);
                let what = "random number generator error";
                if *sign {
                    let r = minisign::sign(None, &k.sk, &b"data"[..], None, None);
                    if r.is_ok() && getrandom::ctl::calls() <= *at {
                        return Ok(());
                    }
                    is(r, what, "injected", "signing without randomness")?;
                } else {
                    let r = KeyPair::generate_unencrypted_keypair();
                    if r.is_ok() && getrandom::ctl::calls() <= *at {
                        return Ok(());
                    }
                    is(r, what, "injected", "generating without randomness")?;
                }
                cx.label("random source");
            }
            Case::NoFile { name } => {
                let p = scratch().join(name);
                is(PublicKey::from_file(&p), IO, "No such file", "missing public key file")?;
                is(SecretKey::from_file(&p, Some("x".into())), IO, "No such file", "missing secret key file")?;
                is(SignatureBox::from_file(&p), IO, "No such file", "missing signature file")?;
                cx.label("missing file");
            }
            Case::Refused { key: n, data, prehashed, bare, why } => {
                let k = key(*n);
                let mut d = data.bytes();
                let mut s = mini::Sig::make(*prehashed, &k.seed, &k.id, &d, "trusted", "untrusted");
                let (mut rpk, mut legacy, mut text) = (k.rpk.clone(), true, String::new());
                match why {
                    Why::Data(i, x) => {
                        if d.is_empty() {
                            d.push(*x)
                        } else {
                            let i = i % d.len();
                            d[i] ^= x
                        }
                    }
                    Why::Id(h) => {
                        rpk.id.copy_from_slice(&h.0);
                        if rpk.id == k.id {
                            return Ok(());
                        }
                        text = format!("{:016X}", u64::from_le_bytes(rpk.id));
                    }
                    Why::Key(m) => {
                        if m == n || key(*m).pkb == k.pkb {
                            return Ok(());
                        }
                        rpk.key = key(*m).pkb
                    }
                    Why::NotAllowed => {
                        if *prehashed {
                            return Ok(());
                        }
                        legacy = false
                    }
                    Why::Comment | Why::Global(..) if *bare => return Ok(()),
                    Why::Comment => s.trusted.push('!'),
                    Why::Global(i, x) => s.global[*i] ^= x,
                    Why::Sig(i, x) => s.sig[*i] ^= x,
                }
                let b = if *bare { bones(&s.bare())? } else { load(&s.to_file())? };
                let pk = pk_of(&rpk);
                let r = || minisign::verify(&pk, &b, Rd::new(&d, &[]), true, false, legacy);
                is(r(), VERIFY, &text, &format!("refused for {why:?}"))?;
                if !text.is_empty() {
                    is(r(), VERIFY, &format!("{:016X}", u64::from_le_bytes(k.id)), "key ids that differ")?;
                }
                cx.label("refused signature");
            }
            Case::WrongPassword { key: n, pw, other } => {
                if super::c10::same(pw, other) {
                    return Ok(());
                }
                let e = key(*n).rsk.clone().encrypt(pw.as_bytes(), [4; 32], 32768, 4096).unwrap();
                is(SecretKeyBox::from(e.to_file("c")).into_secret_key(Some(other.clone())), VERIFY, "", "wrong password")?;
                cx.label("wrong password");
            }
            Case::Corrupted { key: n, at, x } => {
                let mut raw = key(*n).rsk.to_bytes();
                raw[*at] ^= x;
                let t = format!("untrusted comment: c\n{}\n", vref::b64::encode(&raw));
                is(SecretKeyBox::from(t).into_unencrypted_secret_key(), VERIFY, "", "corrupted secret key")?;
                cx.label("corrupted key");
            }
            Case::TooHigh { key: n, ops, mem } => {
                let mut e = key(*n).rsk.clone().encrypt(b"pw", [4; 32], 32768, 4096).unwrap();
                (e.ops, e.mem) = (*ops, *mem);
                is(SecretKeyBox::from(e.to_file("c")).into_secret_key(Some("pw".into())), "key derivation error", "", "excessive limits")?;
                cx.label("excessive limits");
            }
            Case::WrongPk { key: n, other } => {
                let (k, o) = (key(*n), key(*other));
                if k.pkb == o.pkb {
                    return Ok(());
                }
                let r = minisign::sign(Some(&o.pk), &k.sk, &b"data"[..], None, None);
                is(r, VERIFY, &format!("{:016X}", u64::from_le_bytes(o.id)), "signing for another public key")?;
                cx.label("foreign public key");
            }
            Case::Mismatch { a, b } => {
                if a == b || a.len().max(b.len()) > 1024 {
                    return Ok(());
                }
                rpassword::ctl::install(vec![Some(a.clone()), Some(b.clone())]);
                let r = capture(|| KeyPair::generate_encrypted_keypair(None)).ret;
                is(r, "generate error", "", "passwords that differ")?;
                cx.label("passwords do not match");
            }
            Case::Exit { text, kind: n } => {
                use minisign::ErrorKind::*;
                const KINDS: [(minisign::ErrorKind, &str); 9] = [
                    (Generate, "generate error"),
                    (Sign, "sign error"),
                    (Verify, "verify error"),
                    (Io, "io error"),
                    (Misc, "misc error"),
                    (Hash, "hash error"),
                    (KDF, "key derivation error"),
                    (RNG, "random number generator error"),
                    (Encoding, "encoding error"),
                ];
                let [(_, name)] = &KINDS[*n as usize % 9..][..1] else { unreachable!() };
                let [(k, _)] = KINDS.into_iter().skip(*n as usize % 9).take(1).collect::<Vec<_>>().try_into().ok().unwrap();
                let e = PError::new(k, text.clone());
                ensure!(e.to_string() == *text && kind(&e) == *name, "an error made from {text:?} and {name:?} says {:?}, {:?}", e.to_string(), kind(&e));
                let got = capture(|| unsafe {
                    match libc::fork() {
                        0 => e.exit(),
                        pid => {
                            let mut st = 0;
                            libc::waitpid(pid, &mut st, 0);
                            st
                        }
                    }
                });
                ensure!(libc::WIFEXITED(got.ret) && libc::WEXITSTATUS(got.ret) == 1, "exit() ends the process with wait status {:#x}", got.ret);
                ensure!(contains(&got.err, text.as_bytes()) || text.is_empty(), "exit() prints {:?} for {text:?}", String::from_utf8_lossy(&got.err));
                ensure!(got.out.is_empty(), "exit() prints to standard output");
                cx.label("exit");
            }
            Case::Text { text, which } => {
                let p = || Some("pw".to_string());
                let e = match which % 8 {
                    0 => SignatureBox::from_string(text).err(),
                    1 => PublicKey::from_base64(text).err(),
                    2 => PublicKey::from_box(text.clone().into()).err(),
                    3 => PublicKey::from_bytes(text.as_bytes()).err(),
                    4 => SecretKey::from_box(text.clone().into(), p()).err(),
                    5 => SecretKey::from_unencrypted_box(text.clone().into()).err(),
                    6 => SecretKey::from_bytes(text.as_bytes()).err(),
                    _ => SignatureBones::from_bytes(text.as_bytes()).err(),
                };
                let Some(e) = e else { return Ok(()) };
                said(&e)?;
                cx.label("text that does not load");
            }
        }
        cx.nontrivial();
        Ok(())
    }
}
