//! Key pairs generated straight into writers.
use super::c10::password;
use crate::dict;
use crate::engine::*;
use crate::util::*;
use getrandom::ctl::Mode;
use minisign::{KeyPair, PublicKey, PublicKeyBox, SecretKey, SecretKeyBox};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{self, BufWriter, Write};
use vref::mini;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    Enc { pw: String, comment: Option<String>, pks: Vec<usize>, sks: Vec<usize>, rng: u64, typed: bool, crlf: u8 },
    Plain { pks: Vec<usize>, sks: Vec<usize>, rng: u64 },
    /// into files, through a buffer that only a flush empties
    Files { enc: bool, cap: usize, rng: u64 },
}
/// Accepts the given sizes in turn; keeps what was flushed apart from what was only written.
#[derive(Default)]
struct W {
    sizes: Vec<usize>,
    calls: usize,
    out: Vec<u8>,
    flushed: usize,
    /// Interrupted is reported before every third write: it means try again
    interrupt: bool,
    last: bool,
}
impl Write for &mut W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.interrupt && !self.last && self.calls % 3 == 1 {
            self.last = true;
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.last = false;
        let want = self.sizes.get(self.calls % self.sizes.len().max(1)).copied().unwrap_or(usize::MAX).max(1);
        self.calls += 1;
        let n = b.len().min(want);
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushed = self.out.len();
        Ok(())
    }
}

fn check_plain(kp: &KeyPair, pkb: &[u8], skb: &[u8]) -> R {
    ensure!(pkb == kp.pk.to_bytes(), "public key written as {} but returned as {}", hex(pkb), hex(&kp.pk.to_bytes()));
    ensure!(skb == kp.sk.to_bytes(), "secret key written differs from the one returned");
    let pk = PublicKey::from_bytes(pkb).map_err(|e| format!("written public key does not load: {e}"))?;
    let sk = SecretKey::from_bytes(skb).map_err(|e| format!("written secret key does not load: {e}"))?;
    ensure!(pk == kp.pk && sk == kp.sk && pk.keynum() == kp.pk.keynum() && sk.keynum() == kp.sk.keynum(), "reloaded keys differ");
    ensure!(pk.keynum() == sk.keynum(), "key ids of the halves differ");
    ensure!(mini::SecKey::parse_bytes(skb).is_some_and(|s| s.checksum_ok() && s.kdf == [0, 0]), "written secret key: checksum or tag");
    signs(&pk, &sk)
}
fn signs(pk: &PublicKey, sk: &SecretKey) -> R {
    let b = minisign::sign(Some(pk), sk, &b"some data"[..], None, None).map_err(|e| format!("the written secret key does not sign for the public key: {e}"))?;
    vfy(pk, &b, b"some data", false).map_err(|e| format!("signature of the written key: {e}"))?;
    ensure!(vfy(pk, &b, b"other data", false).is_err(), "other data verifies");
    Ok(())
}
fn check_enc(kp: &KeyPair, pkt: &[u8], skt: &[u8], comment: Option<&str>, pw: &str, crlf: u8) -> R {
    let pkt = std::str::from_utf8(pkt).map_err(|_| "public key file is not UTF-8")?;
    let skt = std::str::from_utf8(skt).map_err(|_| "secret key file is not UTF-8")?;
    let (_, p) = mini::PubKey::parse_file(pkt).ok_or_else(|| format!("public key written as {pkt:?}"))?;
    let (c, s) = mini::SecKey::parse_file(skt).ok_or_else(|| format!("secret key written as {skt:?}"))?;
    ensure!(p.to_bytes() == kp.pk.to_bytes(), "public key written differs from the one returned");
    ensure!(s.to_bytes() == kp.sk.to_bytes(), "secret key written differs from the one returned");
    let want = comment.unwrap_or("rsign encrypted secret key");
    ensure!(c == want, "secret key comment {c:?} instead of {want:?}");
    let nl = |t: &str| line_ends(t, crlf);
    let pk = PublicKeyBox::from_string(&nl(pkt)).and_then(|b| b.into_public_key()).map_err(|e| format!("written public key does not load: {e}"))?;
    ensure!(pk.to_bytes() == kp.pk.to_bytes(), "reloaded public key differs");
    let sk = SecretKeyBox::from_string(&nl(skt)).and_then(|b| b.into_secret_key(Some(pw.to_string()))).map_err(|e| format!("written secret key does not open: {e}"))?;
    ensure!(sk.keynum() == pk.keynum(), "key ids of the halves differ");
    ensure!(SecretKeyBox::from(nl(skt)).into_unencrypted_secret_key().is_err(), "the written secret key is not encrypted");
    signs(&pk, &sk)
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C21";
    const SHRINK: u32 = 300;
    const RULE: &'static str = "generate_and_write_* into writers that accept given sizes in turn (1 byte up to everything, interrupted or not) or that keep data until flushed; what was flushed is compared with the returned keys and with the same call into plain buffers, parsed strictly, loaded back (LF and CRLF), opened with the password, typed or given, and used to sign. Non-trivial: both written keys were loaded back and used.";
    fn fixed(_t: Tier) -> Vec<Case> {
        let mut v = vec![];
        for (i, s) in [vec![], vec![1], vec![2, 3], vec![7], vec![41], vec![42], vec![43], vec![157], vec![158, 1], vec![100, 1, 1]].into_iter().enumerate() {
            for j in [0usize, 1, 5, 64] {
                let t = if j == 0 { vec![] } else { vec![j] };
                v.push(Case::Plain { pks: s.clone(), sks: t.clone(), rng: i as u64 });
                v.push(Case::Plain { pks: t, sks: s.clone(), rng: i as u64 });
            }
            let comments = [None, Some(""), Some("x"), Some(" spaces "), Some("é漢\u{1f511}"), Some("rsign encrypted secret key"), Some("untrusted comment: ")];
            let pws = ["pw", "", " ", "é", "0123456789012345678901234567890123456789012345678901234567890123456789"];
            v.push(Case::Enc { pw: pws[i % 5].into(), comment: comments[i % 7].map(String::from), pks: s.clone(), sks: s.clone(), rng: i as u64, typed: i % 3 == 0, crlf: (i * 5 % 32) as u8 });
        }
        v.push(Case::Enc { pw: "pw".into(), comment: Some("long ".repeat(5000)), pks: vec![50], sks: vec![1000], rng: 1, typed: false, crlf: 0 });
        for (i, n) in dict::nums(258, 70_000).into_iter().enumerate() {
            v.push(Case::Enc { pw: "pw".into(), comment: Some(dict::text(n)), pks: vec![], sks: vec![n], rng: i as u64, typed: false, crlf: 0 });
        }
        for cap in [1, 40, 113, 500, 100_000] {
            for enc in [false, true] {
                v.push(Case::Files { enc, cap, rng: cap as u64 });
            }
        }
        v
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        prop_oneof![
            1 => (password(), opt_comment(), chunk_sizes(), chunk_sizes(), any::<u64>(), any::<bool>(), ends())
                .prop_map(|(pw, comment, pks, sks, rng, typed, crlf)| Case::Enc { pw, comment, pks, sks, rng, typed, crlf }),
            8 => (chunk_sizes(), chunk_sizes(), any::<u64>()).prop_map(|(pks, sks, rng)| Case::Plain { pks, sks, rng }),
            1 => (1usize..600, any::<u64>()).prop_map(|(cap, rng)| Case::Files { enc: false, cap, rng }),
        ]
        .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(5_000, 120_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> R {
        match c {
            Case::Enc { pw, comment, pks, sks, rng, typed, crlf } => {
                let typed = *typed && pw.len() <= 1024;
                let run = |a: &mut W, b: &mut W| {
                    getrandom::ctl::install(Mode::Stream(*rng), None, 5);
                    rpassword::ctl::install(vec![Some(pw.clone()), Some(pw.clone())]);
                    KeyPair::generate_and_write_encrypted_keypair(a, b, comment.as_deref(), if typed { None } else { Some(pw.clone()) }).map_err(|e| format!("generating and writing failed: {e}"))
                };
                let (mut a, mut b) = (W { sizes: pks.clone(), interrupt: rng % 2 == 0, ..W::default() }, W { sizes: sks.clone(), interrupt: rng % 3 == 0, ..W::default() });
                let kp = run(&mut a, &mut b)?;
                ensure!(a.flushed == a.out.len(), "public key: {} of {} bytes flushed", a.flushed, a.out.len());
                ensure!(b.flushed == b.out.len(), "secret key: {} of {} bytes flushed", b.flushed, b.out.len());
                check_enc(&kp, &a.out, &b.out, comment.as_deref(), pw, *crlf)?;
                cx.label(if typed { "encrypted, typed password" } else { "encrypted" });
            }
            Case::Plain { pks, sks, rng } => {
                let (mut a, mut b) = (W { sizes: pks.clone(), interrupt: rng % 2 == 0, ..W::default() }, W { sizes: sks.clone(), interrupt: rng % 3 == 0, ..W::default() });
                getrandom::ctl::install(Mode::Stream(*rng), None, 5);
                let kp = KeyPair::generate_and_write_unencrypted_keypair(&mut a, &mut b).map_err(|e| format!("generating and writing failed: {e}"))?;
                ensure!(a.flushed == a.out.len(), "public key: {} of {} bytes flushed", a.flushed, a.out.len());
                ensure!(b.flushed == b.out.len(), "secret key: {} of {} bytes flushed", b.flushed, b.out.len());
                check_plain(&kp, &a.out, &b.out)?;
                cx.label("plain");
            }
            Case::Files { enc, cap, rng } => {
                let (pp, sp) = (scratch().join("c21.pub"), scratch().join("c21.key"));
                getrandom::ctl::install(Mode::Stream(*rng), None, 5);
                let mut a = BufWriter::with_capacity(*cap, std::fs::File::create(&pp).unwrap());
                let mut b = BufWriter::with_capacity(*cap, std::fs::File::create(&sp).unwrap());
                let kp = if *enc {
                    KeyPair::generate_and_write_encrypted_keypair(&mut a, &mut b, None, Some("pw".into()))
                } else {
                    KeyPair::generate_and_write_unencrypted_keypair(&mut a, &mut b)
                }
                .map_err(|e| format!("generating and writing failed: {e}"))?;
                // before the buffers are dropped
                let (pb, sb) = (std::fs::read(&pp).unwrap(), std::fs::read(&sp).unwrap());
                if *enc {
                    check_enc(&kp, &pb, &sb, None, "pw", 0)?;
                    let pk = PublicKey::from_file(&pp).map_err(|e| e.to_string())?;
                    let sk = SecretKey::from_file(&sp, Some("pw".into())).map_err(|e| e.to_string())?;
                    signs(&pk, &sk)?;
                } else {
                    check_plain(&kp, &pb, &sb)?;
                }
                drop((a, b));
                ensure!(std::fs::read(&pp).unwrap() == pb && std::fs::read(&sp).unwrap() == sb, "more was written after the return");
                cx.label("files");
            }
        }
        cx.nontrivial();
        Ok(())
    }
}
