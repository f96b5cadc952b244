//! Memory and time in proportion to the input.
use crate::alloc;
use crate::props::c03::clean;
use crate::engine::*;
use crate::util::*;
use minisign::{PublicKey, PublicKeyBox, SecretKey, SecretKeyBox, SignatureBones, SignatureBox};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vref::{b64, mini};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Shape {
    /// a valid thing with this much of something
    Untrusted,
    Trusted,
    /// lines after it
    Trailing,
    /// white space around the encoded lines
    Padded,
    /// its encoded field is that much longer
    LongField,
    LongRaw,
    /// lines before it
    Leading,
    /// nothing but this
    Only,
    OnlyAfterPrefix,
    /// base64 of that much, alone
    OnlyBase64,
}
const SHAPES: [Shape; 10] = [Shape::Untrusted, Shape::Trusted, Shape::Trailing, Shape::Padded, Shape::LongField, Shape::LongRaw, Shape::Leading, Shape::Only, Shape::OnlyAfterPrefix, Shape::OnlyBase64];
/// What the bulk consists of.
const UNITS: [&str; 14] = ["a", " ", "\n", "\r\n", "\r", "é", "\u{1f511}", "\0", "=", "A", "x\n", "untrusted comment: \n", "\t ", "trusted comment: x\r\n"];

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Sig,
    Legacy,
    Bare,
    Pk,
    Sk,
    Encrypted,
}
const KINDS: [Kind; 6] = [Kind::Sig, Kind::Legacy, Kind::Bare, Kind::Pk, Kind::Sk, Kind::Encrypted];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    Load { kind: Kind, shape: Shape, unit: u8, len: usize },
    /// comments of this length signed, written and verified
    Comments { tc: usize, uc: usize, unit: u8 },
    /// a legacy signature over this much data
    Legacy { len: usize, chunk: usize, good: bool },
    SkComment { len: usize, unit: u8 },
    /// this much data signed and verified, read in such pieces
    Stream { len: usize, chunks: Vec<usize>, output: bool },
}

struct Cost {
    peak: usize,
    total: usize,
    secs: f64,
}
fn cost<T>(f: impl FnOnce() -> T) -> (T, Cost) {
    let (l, t0, c0) = (alloc::reset_peak(), alloc::total(), cpu());
    let r = f();
    let c = Cost { peak: alloc::peak() - l, total: alloc::total() - t0, secs: cpu() - c0 };
    (r, c)
}
/// What one call may cost on `n` bytes of input: many times what it needs.
fn bound(what: &str, n: usize, c: &Cost) -> R {
    ensure!(c.peak <= (2 << 20) + 24 * n, "{what}: {} bytes of heap for {n} bytes of input", c.peak);
    ensure!(c.total <= (4 << 20) + 256 * n, "{what}: {} bytes allocated in all for {n} bytes of input", c.total);
    ensure!(c.secs <= 4.0 + 4e-6 * n as f64, "{what}: {:.1} s of processor time for {n} bytes of input", c.secs);
    Ok(())
}
fn bulk(unit: u8, len: usize) -> String {
    let u = UNITS[unit as usize % UNITS.len()];
    u.repeat(len / u.len() + 1)
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C26";
    const SHRINK: u32 = 40;
    const HANG_S: u64 = 60;
    const RULE: &'static str = "Stored signatures, public and secret keys (plain and encrypted) with up to 1 MiB (thorough: 16 MiB) of one of 14 kinds of filler in ten places, loaded by every function for strings, boxes, bytes and files; what loads is written back and verified. Comments of up to 1 MiB signed, stored and verified, legacy signatures over up to 8 MiB (thorough: 128 MiB), and pre-hashed ones made and verified over up to 32 MiB, read in pieces of one byte and up. Live heap, bytes allocated in all, and the thread's processor time of every single call are bounded by a constant plus a multiple of the input's length, each many times what the call needs. Non-trivial: at least 100000 bytes were handled.";
    const ASSUMPTIONS: &'static [&'static str] = &["a cost that grows faster than the input shows at the lengths tried", "the cost of scrypt itself, set by the stored limits, is outside (C11)"];
    const SHARDS: (usize, usize) = (3, 5);
    fn fixed(t: Tier) -> Vec<Case> {
        let mut v = vec![];
        let lens: &[usize] = t.pick(&[100 << 10, 200 << 10, 1 << 20], &[100 << 10, 200 << 10, 1 << 20, 16 << 20]);
        for &len in lens {
            for kind in KINDS {
                for shape in SHAPES {
                    for unit in 0..UNITS.len() as u8 {
                        if len < 16 << 20 || unit % 3 == 0 {
                            v.push(Case::Load { kind, shape, unit, len });
                        }
                    }
                }
            }
            for unit in 0..UNITS.len() as u8 {
                v.push(Case::Comments { tc: len, uc: 10, unit });
                v.push(Case::Comments { tc: 10, uc: len, unit });
                v.push(Case::SkComment { len, unit });
            }
        }
        for good in [true, false] {
            for chunk in [1000, 1 << 16, usize::MAX] {
                v.push(Case::Legacy { len: t.pick(8 << 20, 128 << 20), chunk, good });
            }
            v.push(Case::Legacy { len: 150_000, chunk: 1, good });
            v.push(Case::Legacy { len: 600_000, chunk: 16, good });
        }
        for output in [false, true] {
            for (len, chunk) in [(150_000, 1), (150_000, 2), (300_000, 7), (600_000, 16), (1 << 20, 64), (1 << 20, 127), (4 << 20, 1000), (8 << 20, 4096), (32 << 20, 65535), (32 << 20, usize::MAX)] {
                v.push(Case::Stream { len, chunks: vec![chunk], output });
            }
            v.push(Case::Stream { len: 300_000, chunks: vec![1, 1000, 3], output });
        }
        v
    }
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let len = || prop_oneof![2 => 100_000usize..300_000, 1 => 0usize..100_000, 1 => 300_000..t.pick(600_000usize, 4_000_000)];
        let u = any::<u8>;
        prop_oneof![
            8 => (proptest::sample::select(KINDS.to_vec()), proptest::sample::select(SHAPES.to_vec()), u(), len()).prop_map(|(kind, shape, unit, len)| Case::Load { kind, shape, unit, len }),
            2 => (len(), len(), u()).prop_map(|(tc, uc, unit)| Case::Comments { tc, uc, unit }),
            1 => (len(), prop_oneof![Just(usize::MAX), 100usize..5000], any::<bool>()).prop_map(|(len, chunk, good)| Case::Legacy { len, chunk, good }),
            1 => (len(), u()).prop_map(|(len, unit)| Case::SkComment { len, unit }),
            1 => (len(), chunk_sizes(), any::<bool>()).prop_map(|(len, chunks, output)| Case::Stream { len, chunks, output }),
        ]
        .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(1_600, 25_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> R {
        let k = key(9);
        match c {
            Case::Load { kind, shape, unit, len } => {
                load_all(&k, *kind, *shape, *unit, *len)?;
                cx.label(format!("{kind:?}"));
                if *len >= 100_000 {
                    cx.nontrivial();
                }
            }
            Case::Comments { tc, uc, unit } => {
                let (tc, uc) = (clean(&bulk(*unit, *tc)), clean(&bulk(*unit, *uc)));
                let n = tc.len() + uc.len();
                let (b, c) = cost(|| sgn(&k, b"data", Some(&tc), Some(&uc)));
                bound("signing with long comments", n, &c)?;
                let b = b?;
                let (s, c) = cost(|| b.to_string());
                bound("writing a box with long comments", n, &c)?;
                let (l, c) = cost(|| load(&s));
                bound("loading a box with long comments", n, &c)?;
                let l = l?;
                let (r, c) = cost(|| vfy_plain(&k.pk, &l, b"data", false));
                bound("verifying a box with long comments", n, &c)?;
                r?;
                let (_, c) = cost(|| (l.trusted_comment(), l.untrusted_comment()));
                bound("reading long comments", n, &c)?;
                cx.label("long comments");
                if n >= 100_000 {
                    cx.nontrivial();
                }
            }
            Case::Legacy { len, chunk, good } => {
                let d = stream(*len as u64, *len);
                let b = bones(&bare_ref(&k, false, &d))?;
                let d = if *good { d } else { [d, vec![0]].concat() };
                let (r, c) = cost(|| minisign::verify(&k.pk, &b, Rd::new(&d, &[*chunk]), true, false, true));
                bound("verifying a legacy signature", *len, &c)?;
                ensure!(r.is_ok() == *good, "legacy signature over {len} bytes: {r:?}");
                let (r, c) = cost(|| minisign::verify(&k.pk, &b, Rd::new(&d, &[*chunk]), true, false, false));
                bound("refusing a legacy signature", *len, &c)?;
                ensure!(r.is_err(), "legacy signature accepted");
                cx.label("legacy data");
                if *len >= 100_000 {
                    cx.nontrivial();
                }
            }
            Case::Stream { len, chunks, output } => {
                let d = stream(*len as u64, *len);
                let (b, c) = cost(|| minisign::sign(None, &k.sk, Rd::new(&d, chunks), Some("t"), Some("u")));
                bound("signing", *len, &c)?;
                let b = b.map_err(|e| format!("signing {len} bytes: {e}"))?;
                let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
                let got = capture_to(Some(&null), || cost(|| minisign::verify(&k.pk, &b, Rd::new(&d, chunks), true, *output, false)));
                bound("verifying", *len, &got.ret.1)?;
                ensure!(got.ret.0.is_ok(), "{len} bytes in pieces of {chunks:?}: {:?}", got.ret.0);
                cx.label("pre-hashed data");
                if *len >= 100_000 {
                    cx.nontrivial();
                }
            }
            Case::SkComment { len, unit } => {
                let comment = clean(&bulk(*unit, *len));
                let (b, c) = cost(|| k.sk.to_box(Some(&comment)));
                bound("boxing a secret key with a long comment", *len, &c)?;
                let b = b.map_err(|e| e.to_string())?;
                let (r, c) = cost(|| b.into_unencrypted_secret_key());
                bound("loading a secret key with a long comment", *len, &c)?;
                r.map_err(|e| format!("secret key with a long comment: {e}"))?;
                cx.label("secret key comment");
                if *len >= 100_000 {
                    cx.nontrivial();
                }
            }
        }
        Ok(())
    }
}

fn load_all(k: &Key, kind: Kind, shape: Shape, unit: u8, len: usize) -> R {
    let x = bulk(unit, len);
    let sig = || mini::Sig::make(kind != Kind::Legacy, &k.seed, &k.id, b"data", "tc", "uc");
    let whole = match kind {
        Kind::Sig | Kind::Legacy | Kind::Bare => sig().to_file(),
        Kind::Pk => k.rpk.to_file(),
        Kind::Sk => k.rsk.to_file("c"),
        Kind::Encrypted => k.rsk.clone().encrypt(b"pw", [1; 32], 32768, 4096).unwrap().to_file("c"),
    };
    let mut l: Vec<String> = whole.lines().map(|s| s.to_string()).collect();
    let join = |l: &[String]| l.iter().map(|s| format!("{s}\n")).collect::<String>();
    let longer = |s: &str, more: &[u8]| {
        let mut v = b64::decode(s.as_bytes()).unwrap_or_default();
        v.extend_from_slice(more);
        b64::encode(&v)
    };
    let text = match shape {
        Shape::Untrusted => {
            l[0].push_str(&clean(&x));
            join(&l)
        }
        Shape::Trusted => {
            // with signatures, properly signed; else at the end of the key line
            if matches!(kind, Kind::Sig | Kind::Legacy | Kind::Bare) {
                let tc = clean(&x);
                mini::Sig::make(kind == Kind::Sig, &k.seed, &k.id, b"data", &tc, "uc").to_file()
            } else {
                let n = l.len();
                l[n - 1].push_str(&x);
                join(&l)
            }
        }
        Shape::Trailing => whole + &x,
        Shape::Padded => {
            for i in (1..l.len()).step_by(2) {
                l[i] = format!("{x}{}{x}", l[i]);
            }
            join(&l)
        }
        Shape::LongField => {
            for i in (1..l.len()).step_by(2) {
                l[i] = longer(&l[i], x.as_bytes());
            }
            join(&l)
        }
        Shape::LongRaw => {
            for i in (1..l.len()).step_by(2) {
                l[i].push_str(&x);
            }
            join(&l)
        }
        Shape::Leading => format!("{x}{whole}"),
        Shape::Only => x,
        Shape::OnlyAfterPrefix => format!("untrusted comment: {x}"),
        Shape::OnlyBase64 => b64::encode(x.as_bytes()),
    };
    let n = text.len();
    let p = scratch().join("c26");
    std::fs::write(&p, &text).unwrap();
    let raw = b64::decode(text.lines().nth(1).unwrap_or("").as_bytes()).unwrap_or_else(|| text.clone().into_bytes());
    match kind {
        Kind::Sig | Kind::Legacy => {
            let (a, c) = cost(|| SignatureBox::from_string(&text));
            bound("SignatureBox::from_string", n, &c)?;
            let (f, c) = cost(|| SignatureBox::from_file(&p));
            bound("SignatureBox::from_file", n, &c)?;
            ensure!(a.is_ok() == f.is_ok(), "from_string {} and from_file {}", a.is_ok(), f.is_ok());
            if let Ok(b) = a {
                for _ in 0..2 {
                    let (s, c) = cost(|| b.to_string());
                    bound("SignatureBox::to_string", n, &c)?;
                    ensure!(s.len() <= n + 100, "the box grew from {n} to {} bytes", s.len());
                }
                let (_, c) = cost(|| vfy_plain(&k.pk, &b, b"data", true));
                bound("verify", n, &c)?;
                let (_, c) = cost(|| SignatureBones::from(b).to_bytes());
                bound("reducing a box", n, &c)?;
            }
        }
        Kind::Bare => {
            let (b, c) = cost(|| SignatureBones::from_bytes(&raw));
            bound("SignatureBones::from_bytes", raw.len(), &c)?;
            if let Ok(b) = b {
                let (_, c) = cost(|| vfy_plain(&k.pk, &b.into(), b"data", true));
                bound("verify", raw.len(), &c)?;
            }
        }
        Kind::Pk => {
            let t = text.clone();
            let (a, c) = cost(|| PublicKeyBox::from(t).into_public_key());
            bound("PublicKeyBox::into_public_key", n, &c)?;
            let (f, c) = cost(|| PublicKey::from_file(&p));
            bound("PublicKey::from_file", n, &c)?;
            ensure!(a.is_ok() == f.is_ok(), "from_box {} and from_file {}", a.is_ok(), f.is_ok());
            let (_, c) = cost(|| PublicKeyBox::from_string(&text).map(|b| b.into_string()));
            bound("PublicKeyBox::from_string", n, &c)?;
            let line = text.lines().nth(1).unwrap_or(&text);
            for s in [&text[..], line] {
                let (_, c) = cost(|| PublicKey::from_base64(s));
                bound("PublicKey::from_base64", n, &c)?;
            }
            let (_, c) = cost(|| PublicKey::from_bytes(&raw).map(|p| p.to_box()));
            bound("PublicKey::from_bytes", n, &c)?;
        }
        Kind::Sk | Kind::Encrypted => {
            // the limits of the key's own scrypt cost nothing here; those of garbage might
            let cheap = b64::decode(text.lines().nth(1).unwrap_or("").trim().as_bytes()).is_none_or(|v| v.len() < 54 || v[38..54] == [0; 16] || v[38..54] == [0, 128, 0, 0, 0, 0, 0, 0, 0, 16, 0, 0, 0, 0, 0, 0]);
            let t = text.clone();
            let (_, c) = cost(|| SecretKeyBox::from(t).into_unencrypted_secret_key());
            bound("SecretKeyBox::into_unencrypted_secret_key", n, &c)?;
            let (b, c) = cost(|| SecretKeyBox::from_string(&text));
            bound("SecretKeyBox::from_string", n, &c)?;
            if let (Ok(b), true) = (b, cheap) {
                let (_, c) = cost(|| b.into_secret_key(Some("pw".into())));
                bound("SecretKeyBox::into_secret_key", n, &c)?;
                let (_, c) = cost(|| SecretKey::from_file(&p, Some("pw".into())));
                bound("SecretKey::from_file", n, &c)?;
            }
            let (_, c) = cost(|| SecretKey::from_bytes(&raw).map(|s| s.to_bytes()));
            bound("SecretKey::from_bytes", n, &c)?;
        }
    }
    Ok(())
}
