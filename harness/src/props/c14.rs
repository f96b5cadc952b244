//! Failing readers, writers, random sources and files.
use crate::dict;
use crate::engine::*;
use crate::util::*;
use minisign::{KeyPair, PublicKey, SecretKey, SignatureBox};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{self, Write};
use vref::mini;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum WFault {
    /// an error of this kind
    Err(Fault),
    /// writes accept nothing
    Zero,
    /// flush fails
    Flush,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum FileKind {
    Missing,
    Directory,
    Empty,
    /// a byte that is not UTF-8 put in at this position of the file
    NotUtf8(usize, u8),
    Truncated(usize),
    Nul,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    /// every read of a signing run made to fail in turn
    Sign { key: u32, data: Data, sizes: Vec<usize>, fault: Fault, once: bool, pk: bool, comments: bool },
    /// every read of a verification made to fail in turn
    Verify { key: u32, data: Data, sizes: Vec<usize>, fault: Fault, once: bool, prehashed: bool, bare: bool, output: bool, quiet: bool },
    /// the reader fails where the signed prefix ends
    Prefix { key: u32, data: Data, cut: usize, fault: Fault, prehashed: bool, bare: bool, output: bool },
    Seek { key: u32, data: Data, prehashed: bool },
    /// standard output fails after each number of bytes
    Output { key: u32, data: Data, sizes: Vec<usize>, prehashed: bool, quiet: bool },
    /// every position of both writers
    WritePlain { fault: WFault, chunk: usize, rng: u64 },
    WriteEnc { fault: WFault, chunk: usize, rng: u64, at: usize, on_sk: bool },
    RngGen { encrypted: bool, code: u32, rng: u64, write: bool },
    RngSign { key: u32, code: u32, rng: u64, pk: bool, data: Data },
    File { key: u32, kind: FileKind },
}

struct W<'a> {
    out: &'a mut Vec<u8>,
    chunk: usize,
    /// bytes accepted before the fault
    at: usize,
    fault: Option<WFault>,
    hit: &'a mut bool,
}
impl Write for W<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let room = match self.fault {
            Some(WFault::Err(_)) | Some(WFault::Zero) => self.at.saturating_sub(self.out.len()),
            _ => usize::MAX,
        };
        if room == 0 && !b.is_empty() {
            *self.hit = true;
            return match self.fault {
                Some(WFault::Err(f)) => Err(f.err()),
                _ => Ok(0),
            };
        }
        let n = b.len().min(room).min(self.chunk.max(1));
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.fault == Some(WFault::Flush) {
            *self.hit = true;
            return Err(Fault::Other.err());
        }
        Ok(())
    }
}

fn box_for(k: &Key, data: &[u8], prehashed: bool, bare: bool) -> Result<SignatureBox, String> {
    let s = mini::Sig::make(prehashed, &k.seed, &k.id, data, "tc", "uc");
    if bare {
        bones(&s.bare())
    } else {
        load(&s.to_file())
    }
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C14";
    const LEVEL: &'static str = "fault_enumeration";
    const RULE: &'static str = "For each generated operation (sign, verify in each mode with and without output, generate, generate and write), the fault-free run is counted and then repeated once per read, seek, written byte, flush or random request with that one failing (and standard output failing after each number of bytes), in seven error kinds, lasting or transient; plus readers that fail exactly where a validly signed prefix ends, and missing, directory, empty, truncated and non-UTF-8 files. Non-trivial: at least one injected fault was reached and its outcome judged.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "ErrorKind::Interrupted and EINTR/EAGAIN from the random source mean retry and are not injected as failures",
        "for encrypted keys (80 ms each) write faults are at sampled positions, at all positions for unencrypted ones",
    ];
    const SHRINK: u32 = 1000;
    fn fixed(_t: Tier) -> Vec<Case> {
        let mut v = vec![];
        for (i, fault) in FAULTS.into_iter().enumerate() {
            for len in [0usize, 1, 5, 127, 128, 129, 300, 65535, 65536, 65537, 200_000] {
                for once in [false, true] {
                    let sizes = vec![[usize::MAX >> 1, 1000, 40_000][i % 3].max(len / 20)];
                    v.push(Case::Sign { key: i as u32, data: gen(len, 1), sizes: sizes.clone(), fault, once, pk: i % 2 == 0, comments: true });
                    for prehashed in [true, false] {
                        for (bare, output) in [(false, false), (false, true), (true, i % 2 == 0)] {
                            v.push(Case::Verify { key: i as u32, data: gen(len, 1), sizes: sizes.clone(), fault, once, prehashed, bare, output, quiet: i % 2 == 1 });
                        }
                    }
                }
                for prehashed in [true, false] {
                    v.push(Case::Prefix { key: 3, data: gen(len + 10, 1), cut: len, fault, prehashed, bare: false, output: i % 2 == 0 });
                    v.push(Case::Prefix { key: 3, data: gen(len + 10, 1), cut: len, fault, prehashed, bare: true, output: i % 2 == 1 });
                }
            }
            for chunk in [1, 7, 1000] {
                v.push(Case::WritePlain { fault: WFault::Err(fault), chunk, rng: i as u64 });
            }
            for at in [0usize, 1, 50, 100] {
                v.push(Case::WriteEnc { fault: WFault::Err(fault), chunk: 1000, rng: 1, at, on_sk: i % 2 == 0 });
            }
        }
        for (i, len) in dict::lens().into_iter().enumerate() {
            let fault = FAULTS[i % FAULTS.len()];
            let sizes = vec![(len / 5).max(1)];
            v.push(Case::Sign { key: i as u32 % 24, data: gen(len + 3, 1), sizes: sizes.clone(), fault, once: i % 2 == 0, pk: false, comments: true });
            for prehashed in [true, false] {
                v.push(Case::Verify { key: i as u32 % 24, data: gen(len + 3, 1), sizes: sizes.clone(), fault, once: i % 2 == 1, prehashed, bare: false, output: i % 3 == 0, quiet: true });
                v.push(Case::Prefix { key: 3, data: gen(len + 10, 1), cut: len, fault, prehashed, bare: i % 2 == 0, output: i % 3 == 0 });
            }
        }
        for chunk in [1, 7, 1000] {
            for f in [WFault::Zero, WFault::Flush] {
                v.push(Case::WritePlain { fault: f, chunk, rng: 3 });
                for on_sk in [false, true] {
                    for at in [0, 1, 113] {
                        v.push(Case::WriteEnc { fault: f, chunk, rng: 4, at, on_sk });
                    }
                }
            }
        }
        for code in [1, 2, 5, 14, 22, 38, 1 << 31, (1 << 31) + 2, (1 << 31) + (1 << 30) + 1] {
            for encrypted in [false, true] {
                for write in [false, true] {
                    v.push(Case::RngGen { encrypted, code, rng: 7, write });
                }
            }
            for pk in [false, true] {
                v.push(Case::RngSign { key: 5, code, rng: 8, pk, data: gen(77, 2) });
            }
        }
        for len in [0usize, 1, 300, 65536] {
            for prehashed in [true, false] {
                v.push(Case::Seek { key: 4, data: gen(len, 1), prehashed });
            }
        }
        for (i, len) in [0usize, 1, 5, 12, 39, 1000, 1023, 1024, 1025, 2048, 5000, 65536, 65537, 140_000].into_iter().enumerate() {
            for prehashed in [true, false] {
                for data in [gen(len, 1), Data::Fill { len, byte: b'\n' }, Data::Fill { len, byte: b'x' }] {
                    v.push(Case::Output { key: 4, data, sizes: vec![], prehashed, quiet: i % 2 == 0 });
                }
            }
        }
        for kind in [FileKind::Missing, FileKind::Directory, FileKind::Empty, FileKind::Nul] {
            v.push(Case::File { key: 9, kind });
        }
        for i in 0..300 {
            v.push(Case::File { key: 9, kind: FileKind::NotUtf8(i, [0xff, 0x80, 0xc3, 0xfe, 0xf8][i % 5]) });
            v.push(Case::File { key: 9, kind: FileKind::Truncated(i) });
        }
        v
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let fault = || proptest::sample::select(FAULTS.to_vec());
        let wfault = || prop_oneof![2 => proptest::sample::select(FAULTS.to_vec()).prop_map(WFault::Err), 1 => Just(WFault::Zero), 1 => Just(WFault::Flush)];
        let b = any::<bool>;
        let code = || prop_oneof![proptest::sample::select(vec![1u32, 2, 3, 5, 9, 12, 13, 14, 22, 38]), (1u32 << 31)..(1 << 31) + 20];
        prop_oneof![
            10 => (keyn(), data(), chunk_sizes(), fault(), b(), b(), b()).prop_map(|(key, data, sizes, fault, once, pk, comments)| Case::Sign { key, data, sizes, fault, once, pk, comments }),
            15 => (keyn(), data(), chunk_sizes(), fault(), b(), b(), b(), b(), b())
                .prop_map(|(key, data, sizes, fault, once, prehashed, bare, output, quiet)| Case::Verify { key, data, sizes, fault, once, prehashed, bare, output, quiet }),
            8 => (keyn(), data(), any::<usize>(), fault(), b(), b(), b()).prop_map(|(key, data, cut, fault, prehashed, bare, output)| Case::Prefix { key, data, cut, fault, prehashed, bare, output }),
            2 => (keyn(), small_data(), b()).prop_map(|(key, data, prehashed)| Case::Seek { key, data, prehashed }),
            2 => (keyn(), data(), chunk_sizes(), b(), b()).prop_map(|(key, data, sizes, prehashed, quiet)| Case::Output { key, data, sizes, prehashed, quiet }),
            1 => (wfault(), 1usize..200, any::<u64>()).prop_map(|(fault, chunk, rng)| Case::WritePlain { fault, chunk, rng }),
            1 => (wfault(), 1usize..300, any::<u64>(), 0usize..300, b()).prop_map(|(fault, chunk, rng, at, on_sk)| Case::WriteEnc { fault, chunk, rng, at, on_sk }),
            1 => (b(), code(), any::<u64>(), b()).prop_map(|(encrypted, code, rng, write)| Case::RngGen { encrypted, code, rng, write }),
            5 => (keyn(), code(), any::<u64>(), b(), small_data()).prop_map(|(key, code, rng, pk, data)| Case::RngSign { key, code, rng, pk, data }),
            3 => (keyn(), prop_oneof![(any::<usize>(), 0x80u8..).prop_map(|(i, x)| FileKind::NotUtf8(i, x)), any::<usize>().prop_map(FileKind::Truncated)]).prop_map(|(key, kind)| Case::File { key, kind }),
        ]
        .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(14_000, 400_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> R {
        // positions to try: all when few, else the ends and a spread
        let spread = |n: usize| -> Vec<usize> {
            if n <= 40 {
                (0..n).collect()
            } else {
                (0..15).chain((1..11).map(|k| k * n / 11)).chain(n - 15..n).collect()
            }
        };
        match c {
            Case::Sign { key: n, data, sizes, fault, once, pk, comments } => {
                let k = key(*n);
                let d = data.bytes();
                let pk = pk.then_some(&k.pk);
                let (tc, uc) = if *comments { (Some("t"), Some("u")) } else { (None, None) };
                let mut r = Rd::new(&d, sizes);
                minisign::sign(pk, &k.sk, &mut r, tc, uc).map_err(|e| format!("fault-free signing failed: {e}"))?;
                let calls = r.calls;
                for at in spread(calls) {
                    let mut r = Rd::new(&d, sizes);
                    r.fail = Some((at, *fault));
                    r.once = *once;
                    let res = minisign::sign(pk, &k.sk, &mut r, tc, uc);
                    if r.failed {
                        ensure!(res.is_err(), "read {at} of {calls} failed ({fault:?}) but signing returned a signature");
                        cx.add("signing faults", 1);
                        cx.nontrivial();
                    }
                }
            }
            Case::Verify { key: n, data, sizes, fault, once, prehashed, bare, output, quiet } => {
                let k = key(*n);
                let d = data.bytes();
                let b = box_for(&k, &d, *prehashed, *bare)?;
                let mut r = Rd::new(&d, sizes);
                minisign::verify(&k.pk, &b, &mut r, *quiet, *output, true).map_err(|e| format!("fault-free verification failed: {e}"))?;
                let calls = r.calls;
                for at in spread(calls) {
                    let mut r = Rd::new(&d, sizes);
                    r.fail = Some((at, *fault));
                    r.once = *once;
                    let res = minisign::verify(&k.pk, &b, &mut r, *quiet, *output, true);
                    if r.failed {
                        ensure!(res.is_err(), "read {at} of {calls} failed ({fault:?}) but verification succeeded");
                        cx.add("verification faults", 1);
                        cx.nontrivial();
                    }
                }
            }
            Case::Prefix { key: n, data, cut, fault, prehashed, bare, output } => {
                let k = key(*n);
                let d = data.bytes();
                let cut = cut % (d.len() + 1);
                let b = box_for(&k, &d[..cut], *prehashed, *bare)?;
                struct Cut<'a>(&'a [u8], u64, Fault, usize);
                impl io::Read for Cut<'_> {
                    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
                        let l = &self.0[(self.1 as usize).min(self.0.len())..];
                        if l.is_empty() {
                            self.3 += 1;
                            assert!(self.3 < 10_000, "a failing reader is read for ever");
                            return Err(self.2.err());
                        }
                        let n = l.len().min(b.len());
                        b[..n].copy_from_slice(&l[..n]);
                        self.1 += n as u64;
                        Ok(n)
                    }
                }
                impl io::Seek for Cut<'_> {
                    fn seek(&mut self, p: io::SeekFrom) -> io::Result<u64> {
                        self.1 = match p {
                            io::SeekFrom::Start(n) => n,
                            io::SeekFrom::Current(x) => self.1.wrapping_add(x as u64),
                            io::SeekFrom::End(x) => (self.0.len() as u64).wrapping_add(x as u64),
                        };
                        Ok(self.1)
                    }
                }
                let r = minisign::verify(&k.pk, &b, &mut Cut(&d[..cut], 0, *fault, 0), true, *output, true);
                ensure!(r.is_err(), "the reader failed ({fault:?}) after the signed {cut} bytes but verification succeeded");
                let r = minisign::sign(None, &k.sk, &mut Cut(&d[..cut], 0, *fault, 0), None, None);
                ensure!(r.is_err(), "the reader failed ({fault:?}) after {cut} bytes but signing succeeded");
                cx.label("failure at the end of the signed prefix");
                cx.nontrivial();
            }
            Case::Seek { key: n, data, prehashed } => {
                let k = key(*n);
                let d = data.bytes();
                let b = box_for(&k, &d, *prehashed, false)?;
                let mut r = Rd::new(&d, &[]);
                r.fail_seek = true;
                let res = minisign::verify(&k.pk, &b, &mut r, true, true, true);
                if r.failed {
                    ensure!(res.is_err(), "seeking failed but verification with output succeeded");
                    cx.label("seek faults");
                    cx.nontrivial();
                }
            }
            Case::Output { key: n, data, sizes, prehashed, quiet } => {
                let k = key(*n);
                let d = data.bytes();
                let b = box_for(&k, &d, *prehashed, false)?;
                let run = |limit: usize| {
                    let mut r = Rd::new(&d, sizes);
                    // the captured standard error is a file too: only the room for output is limited
                    capture_limited(limit as u64, || minisign::verify(&k.pk, &b, &mut r, true, true, true).is_ok())
                };
                for at in spread(d.len()) {
                    let (ok, got) = run(at);
                    ensure!(!ok, "standard output took {} of {} bytes but verification succeeded", got.len(), d.len());
                    ensure!(d.starts_with(&got), "standard output took bytes that were not verified");
                    cx.add("output faults", 1);
                    cx.nontrivial();
                }
                let (ok, got) = run(d.len());
                ensure!(ok && got == d, "output of {} bytes fails although there is room", d.len());
                let full = std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap();
                let got = capture_to(Some(&full), || minisign::verify(&k.pk, &b, &mut Rd::new(&d, sizes), *quiet, true, true).is_ok());
                ensure!(!got.ret || d.is_empty(), "{} bytes could not be written to standard output but verification succeeded", d.len());
            }
            Case::WritePlain { fault, chunk, rng } => {
                let run = |f: Option<(WFault, bool, usize)>| {
                    getrandom::ctl::install(getrandom::ctl::Mode::Stream(*rng), None, 5);
                    let (mut a, mut b, mut ha, mut hb) = (vec![], vec![], false, false);
                    let of = |sk: bool| f.filter(|f| f.1 == sk);
                    let r = KeyPair::generate_and_write_unencrypted_keypair(
                        W { out: &mut a, chunk: *chunk, at: of(false).map_or(0, |f| f.2), fault: of(false).map(|f| f.0), hit: &mut ha },
                        W { out: &mut b, chunk: *chunk, at: of(true).map_or(0, |f| f.2), fault: of(true).map(|f| f.0), hit: &mut hb },
                    );
                    (r.is_ok(), a, b, ha || hb)
                };
                let (ok, a, b, _) = run(None);
                ensure!(ok, "writing to healthy writers failed");
                for (sk, len) in [(false, a.len()), (true, b.len())] {
                    let n = if *fault == WFault::Flush { 1 } else { len };
                    for at in 0..n {
                        let (ok, _, _, hit) = run(Some((*fault, sk, at)));
                        if hit {
                            ensure!(!ok, "writer (secret key: {sk}) failed after {at} of {len} bytes ({fault:?}) but keys were returned");
                            cx.add("plain key write faults", 1);
                            cx.nontrivial();
                        }
                    }
                }
            }
            Case::WriteEnc { fault, chunk, rng, at, on_sk } => {
                getrandom::ctl::install(getrandom::ctl::Mode::Stream(*rng), None, 5);
                let (mut a, mut b, mut ha, mut hb) = (vec![], vec![], false, false);
                let of = |sk: bool| if *on_sk == sk { Some(*fault) } else { None };
                let r = KeyPair::generate_and_write_encrypted_keypair(
                    W { out: &mut a, chunk: *chunk, at: *at, fault: of(false), hit: &mut ha },
                    W { out: &mut b, chunk: *chunk, at: *at, fault: of(true), hit: &mut hb },
                    Some("c"),
                    Some("pw".into()),
                );
                if ha || hb {
                    ensure!(r.is_err(), "writer (secret key: {on_sk}) failed after {at} bytes ({fault:?}) but keys were returned");
                    cx.label("encrypted key write faults");
                    cx.nontrivial();
                }
            }
            Case::RngGen { encrypted, code, rng, write } => {
                let run = |at: Option<usize>| {
                    getrandom::ctl::install(getrandom::ctl::Mode::Stream(*rng), at, *code);
                    let (mut a, mut b) = (vec![], vec![]);
                    let r = match (encrypted, write) {
                        (false, false) => KeyPair::generate_unencrypted_keypair(),
                        (true, false) => KeyPair::generate_encrypted_keypair(Some("pw".into())),
                        (false, true) => KeyPair::generate_and_write_unencrypted_keypair(&mut a, &mut b),
                        (true, true) => KeyPair::generate_and_write_encrypted_keypair(&mut a, &mut b, None, Some("pw".into())),
                    };
                    (r.is_ok(), a.len() + b.len(), getrandom::ctl::calls())
                };
                let (ok, _, calls) = run(None);
                ensure!(ok && calls > 0, "fault-free generation failed, or used no randomness");
                for at in 0..calls {
                    let (ok, written, seen) = run(Some(at));
                    ensure!(seen > at, "request {at} of {calls} was not made again");
                    ensure!(!ok, "random request {at} of {calls} failed (code {code}) but keys were generated");
                    ensure!(written == 0, "random request {at} failed but {written} bytes of keys were written");
                    cx.add("key generation random source faults", 1);
                    cx.nontrivial();
                }
            }
            Case::RngSign { key: n, code, rng, pk, data } => {
                let k = key(*n);
                let d = data.bytes();
                let run = |at: Option<usize>| {
                    getrandom::ctl::install(getrandom::ctl::Mode::Stream(*rng), at, *code);
                    let r = minisign::sign(pk.then_some(&k.pk), &k.sk, &d[..], Some("t"), Some("u"));
                    (r.is_ok(), getrandom::ctl::calls())
                };
                let (ok, calls) = run(None);
                ensure!(ok, "fault-free signing failed");
                for at in 0..calls {
                    let (ok, _) = run(Some(at));
                    ensure!(!ok, "random request {at} of {calls} failed (code {code}) but signing returned a signature");
                    cx.add("signing random source faults", 1);
                    cx.nontrivial();
                }
            }
            Case::File { key: n, kind } => {
                let k = key(*n);
                let s = mini::Sig::make(true, &k.seed, &k.id, b"data", "a trusted comment", "an untrusted comment");
                let enc = k.rsk.clone().encrypt(b"pw", [3; 32], 32768, 4096).unwrap();
                let texts = [k.rpk.to_file(), enc.to_file("a comment"), s.to_file()];
                let p = scratch().join("c14.file");
                for (i, t) in texts.iter().enumerate() {
                    let _ = std::fs::remove_dir(&p);
                    let _ = std::fs::remove_file(&p);
                    let mut b = t.clone().into_bytes();
                    let mut must_fail = true;
                    match kind {
                        FileKind::Missing => {}
                        FileKind::Directory => std::fs::create_dir(&p).unwrap(),
                        FileKind::Empty => std::fs::write(&p, "").unwrap(),
                        FileKind::Nul => std::fs::write(&p, vec![0u8; 500]).unwrap(),
                        FileKind::NotUtf8(at, x) => {
                            b.insert(at % (b.len() + 1), *x);
                            must_fail = std::str::from_utf8(&b).is_err();
                            std::fs::write(&p, &b).unwrap();
                        }
                        FileKind::Truncated(at) => {
                            b.truncate(at % (b.len() - 1));
                            must_fail = !b.ends_with(b"=");
                            std::fs::write(&p, &b).unwrap();
                        }
                    }
                    let r = match i {
                        0 => PublicKey::from_file(&p).map(|_| ()),
                        1 => SecretKey::from_file(&p, Some("pw".into())).map(|_| ()),
                        _ => SignatureBox::from_file(&p).map(|_| ()),
                    };
                    let what = ["public key", "secret key", "signature"][i];
                    if must_fail {
                        ensure!(r.is_err(), "a {what} loads from a file that is {kind:?}");
                        cx.add("bad files", 1);
                        cx.nontrivial();
                    }
                }
                let _ = std::fs::remove_dir(&p);
                let _ = std::fs::remove_file(&p);
            }
        }
        Ok(())
    }
}
