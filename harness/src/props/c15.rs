//! What verification writes to standard output and standard error.
use super::c02::{make, Kind, KINDS};
use crate::dict;
use crate::engine::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Seek, SeekFrom};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Bad {
    Data(usize, u8),
    /// the last byte is not signed
    Longer,
    /// a byte in front is not signed
    Front,
    OtherKey,
    OtherId,
    Trusted,
    Global,
    Signature,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    Out { key: u32, kind: Kind, data: Data, start: usize, sizes: Vec<usize>, tc: String, bad: Option<Bad> },
    /// data with lines and without, larger than the buffers of standard output
    Full { key: u32, data: Data, start: usize },
    /// a real file, positioned
    File { key: u32, kind: Kind, data: Data, start: usize },
    /// a stream whose bytes lie at these offsets, far beyond what memory holds
    Far { key: u32, kind: Kind, start: u64, data: Data, bad: bool },
    /// output of this length
    Long { kind: Kind, len: usize },
    /// standard output is a pipe that nobody reads
    Closed { key: u32, data: Data, start: usize },
    /// these calls of the reader fail once each: interrupted, or with an error
    Faulty { key: u32, kind: Kind, data: Data, start: usize, sizes: Vec<usize>, at: Vec<usize>, fault: Option<Fault> },
}

struct FaultyRd<'a> {
    rd: Rd<'a>,
    at: Vec<usize>,
    calls: usize,
    fault: Option<Fault>,
}
impl std::io::Read for FaultyRd<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.at.contains(&(self.calls - 1)) {
            return Err(self.fault.map_or(std::io::ErrorKind::Interrupted.into(), |f| f.err()));
        }
        self.rd.read(b)
    }
}
impl Seek for FaultyRd<'_> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.rd.seek(p)
    }
}

/// `data` at offset `base`, zeros before it.
struct FarRd<'a> {
    base: u64,
    data: &'a [u8],
    pos: u64,
}
impl std::io::Read for FarRd<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = if self.pos < self.base {
            let n = (self.base - self.pos).min(b.len() as u64) as usize;
            b[..n].fill(0);
            n
        } else {
            let l = &self.data[((self.pos - self.base) as usize).min(self.data.len())..];
            let n = l.len().min(b.len());
            b[..n].copy_from_slice(&l[..n]);
            n
        };
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for FarRd<'_> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        let n = match p {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.base as i128 + self.data.len() as i128 + d as i128,
        };
        self.pos = u64::try_from(n).map_err(|_| std::io::Error::from(std::io::ErrorKind::InvalidInput))?;
        if self.pos + (1 << 24) < self.base {
            // reading from here would take for ever
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "sought far before the data"));
        }
        Ok(self.pos)
    }
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C15";
    const RULE: &'static str = "Valid and invalid (data, comment, signature, key, key id) verifications under all eight option combinations, with file descriptors 1 and 2 captured, readers of varied chunking positioned at the start, in the middle, at the end and at offsets beyond 2^31, 2^32 and 2^62, data around buffer sizes with and without line ends; readers that are interrupted or fail at given calls; standard output on a full device and on a closed pipe. Non-trivial: the captured streams of all option combinations were compared with what the case calls for.";
    const ASSUMPTIONS: &'static [&'static str] = &["the reader yields the same bytes on both passes"];
    const SHARDS: (usize, usize) = (4, 4);
    const SHRINK: u32 = 1500;
    fn fixed(_t: Tier) -> Vec<Case> {
        let mut v = vec![];
        let bads = [Bad::Data(0, 1), Bad::Data(usize::MAX / 3, 0x80), Bad::Longer, Bad::Front, Bad::OtherKey, Bad::OtherId, Bad::Trusted, Bad::Global, Bad::Signature];
        for kind in KINDS {
            for len in [0usize, 1, 2, 127, 128, 1023, 1024, 1025, 8191, 8192, 8193, 65535, 65536, 65537, 131072, 200_000] {
                v.push(Case::Out { key: 9, kind, data: gen(len, 1), start: 0, sizes: vec![], tc: "a trusted comment".into(), bad: None });
                v.push(Case::Out { key: 9, kind, data: Data::Fill { len, byte: b'\n' }, start: len / 3, sizes: vec![1000], tc: "".into(), bad: None });
                v.push(Case::Out { key: 9, kind, data: Data::Fill { len, byte: b'x' }, start: len, sizes: vec![usize::MAX >> 1], tc: "é".into(), bad: None });
                v.push(Case::File { key: 9, kind, data: gen(len, 2), start: len / 2 });
                v.push(Case::File { key: 9, kind, data: gen(len, 2), start: 0 });
            }
            for len in dict::lens().into_iter().chain(dict::long_lens().into_iter().filter(|n| *n < 2 << 20)) {
                v.push(Case::Out { key: 9, kind, data: gen(len, 1), start: 0, sizes: vec![], tc: "t".into(), bad: None });
                v.push(Case::File { key: 9, kind, data: gen(len, 2), start: len / 2 });
                if len < 70_000 {
                    v.push(Case::Out { key: 9, kind, data: gen(3000, 1), start: 7, sizes: vec![len], tc: dict::text(len), bad: None });
                    v.push(Case::Out { key: 9, kind, data: gen(len + 5, 3), start: 0, sizes: vec![], tc: "shown?".into(), bad: Some(Bad::Data(usize::MAX / 3, 1)) });
                }
            }
            for tc in dict::texts() {
                v.push(Case::Out { key: 9, kind, data: gen(5, 1), start: 0, sizes: vec![], tc: tc.clone(), bad: None });
                v.push(Case::Out { key: 9, kind, data: gen(5, 1), start: 0, sizes: vec![], tc, bad: Some(Bad::Data(0, 1)) });
            }
            for b in dict::bytes() {
                v.push(Case::Out { key: 9, kind, data: Data::Raw(Hex([&b[..], b"x", &b[..]].concat())), start: 0, sizes: vec![], tc: "t".into(), bad: None });
            }
            for bad in bads {
                for len in [0usize, 1, 100, 70_000] {
                    v.push(Case::Out { key: 9, kind, data: gen(len, 3), start: 0, sizes: vec![], tc: "a trusted comment".into(), bad: Some(bad) });
                    v.push(Case::Out { key: 9, kind, data: gen(len, 3), start: len / 2, sizes: vec![], tc: "shown?".into(), bad: Some(bad) });
                }
            }
        }
        for kind in KINDS {
            for start in [1u64 << 31, (1 << 31) + 5, (1 << 32) - 1, 1 << 32, (1 << 32) + 7, (1 << 40) + 1, (1 << 62) + 3, (1 << 63) - 200_000] {
                for data in [gen(0, 1), gen(1, 1), gen(1000, 1), gen(70_000, 1)] {
                    v.push(Case::Far { key: 9, kind, start, data: data.clone(), bad: false });
                    v.push(Case::Far { key: 9, kind, start, data, bad: true });
                }
            }
            for len in [(1 << 20) + 1, (4 << 20) + 3, (16 << 20) + 5, 70 << 20] {
                v.push(Case::Long { kind, len });
            }
        }
        for kind in KINDS {
            for fault in [None, Some(Fault::Other), Some(Fault::WouldBlock)] {
                for at in 0..16 {
                    for (len, size) in [(40, 8), (40, 40), (5000, 1024), (200_000, 40_000)] {
                        v.push(Case::Faulty { key: 9, kind, data: gen(len, 1), start: at % 3, sizes: vec![size], at: vec![at], fault });
                        v.push(Case::Faulty { key: 9, kind, data: gen(len, 1), start: 0, sizes: vec![size], at: vec![at, at + 2], fault });
                    }
                }
            }
        }
        for data in [gen(1, 1), gen(100, 1), gen(1023, 1), gen(1024, 1), gen(1025, 1), gen(70_000, 1), Data::Fill { len: 10, byte: b'\n' }, Data::Fill { len: 3000, byte: b'x' }] {
            for start in [0, data.len() / 2] {
                v.push(Case::Full { key: 9, data: data.clone(), start });
                v.push(Case::Closed { key: 9, data: data.clone(), start });
            }
        }
        v
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let kind = || proptest::sample::select(KINDS.to_vec());
        let bad = prop_oneof![
            3 => (any::<usize>(), 1u8..).prop_map(|(i, x)| Bad::Data(i, x)),
            1 => proptest::sample::select(vec![Bad::Longer, Bad::Front, Bad::OtherKey, Bad::OtherId, Bad::Trusted, Bad::Global, Bad::Signature]),
        ];
        let start = || prop_oneof![2 => Just(0usize), 1 => any::<usize>()];
        let tc = comment();
        prop_oneof![
            12 => (keyn(), kind(), data(), start(), chunk_sizes(), tc, proptest::option::of(bad))
                .prop_map(|(key, kind, data, start, sizes, tc, bad)| Case::Out { key, kind, data, start, sizes, tc, bad }),
            1 => (keyn(), small_data(), start()).prop_map(|(key, data, start)| Case::Full { key, data, start }),
            1 => (keyn(), small_data(), start()).prop_map(|(key, data, start)| Case::Closed { key, data, start }),
            2 => (keyn(), kind(), small_data(), start(), chunk_sizes(), proptest::collection::vec(0usize..40, 1..4), proptest::option::of(proptest::sample::select(FAULTS.to_vec())))
                .prop_map(|(key, kind, data, start, sizes, at, fault)| Case::Faulty { key, kind, data, start, sizes, at, fault }),
            1 => (keyn(), kind(), data(), start()).prop_map(|(key, kind, data, start)| Case::File { key, kind, data, start }),
        ]
        .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(90_000, 2_000_000)
    }
    fn fast_only(c: &Case) -> bool {
        matches!(c, Case::Long { .. })
    }
    fn check(c: &Case, cx: &mut Cx) -> R {
        match c {
            Case::Far { key: n, kind, start, data, bad } => {
                let k = key(*n);
                let d = data.bytes();
                let b = make(&k, *kind, &d, "t")?;
                let mut whole = d.clone();
                if *bad {
                    whole.push(1);
                }
                for output in [false, true] {
                    let got = capture(|| minisign::verify(&k.pk, &b, FarRd { base: *start, data: &whole, pos: *start }, true, output, true));
                    ensure!(got.ret.is_ok() != *bad, "reader at {start}, output {output}: {:?}", got.ret);
                    let want: &[u8] = if output && !bad { &d } else { &[] };
                    ensure!(got.out == want, "reader at {start}: {} bytes on standard output instead of {}", got.out.len(), want.len());
                }
                cx.label("far reader");
            }
            Case::Long { kind, len } => {
                let k = key(9);
                let d = gen(*len, 1).bytes();
                let b = make(&k, *kind, &d, "t")?;
                let got = capture(|| minisign::verify(&k.pk, &b, Rd::new(&d, &[]), true, true, true));
                got.ret.map_err(|e| format!("{len} bytes: {e}"))?;
                ensure!(got.out == d, "{} bytes on standard output instead of the {len} verified", got.out.len());
                cx.label("long output");
            }
            Case::Out { key: n, kind, data, start, sizes, tc, bad } => {
                let k = key(*n);
                let d = data.bytes();
                let start = if d.is_empty() { 0 } else { start % (d.len() + 1) };
                let signed = &d[start..];
                let b = make(&k, *kind, signed, tc)?;
                // what is given to verify
                let (mut whole, mut b, mut pk, mut pos) = (d.clone(), b, pk_of(&k.rpk), start as u64);
                let bare = matches!(kind, Kind::BarePrehashed | Kind::BareLegacy);
                match bad {
                    None => {}
                    Some(Bad::Data(i, x)) => {
                        if signed.is_empty() {
                            return Ok(());
                        }
                        whole[start + i % signed.len()] ^= x;
                        if *x == 0 {
                            return Ok(());
                        }
                    }
                    Some(Bad::Longer) => whole.push(b'z'),
                    Some(Bad::Front) => {
                        whole.insert(start, b'z');
                        // data of equal bytes may be shifted into itself only when longer
                        pos = start as u64;
                    }
                    Some(Bad::OtherKey) => {
                        let mut p = k.rpk.clone();
                        p.key = key(n ^ 1).rpk.key;
                        pk = pk_of(&p);
                    }
                    Some(Bad::OtherId) => {
                        let mut p = k.rpk.clone();
                        p.id[7] ^= 1;
                        pk = pk_of(&p);
                    }
                    Some(x) => {
                        if bare {
                            if *x != Bad::Signature {
                                return Ok(());
                            }
                            let mut raw = minisign::SignatureBones::from(b).to_bytes();
                            raw[20] ^= 4;
                            b = bones(&raw)?;
                        } else {
                            let mut s = parse(&b)?;
                            match x {
                                Bad::Trusted => s.trusted.push('!'),
                                Bad::Global => s.global[3] ^= 1,
                                _ => s.sig[10] ^= 4,
                            }
                            b = load(&s.to_file())?;
                        }
                    }
                }
                let shown = b.trusted_comment().ok();
                for opt in 0..8 {
                    let (quiet, output, legacy) = (opt & 1 != 0, opt & 2 != 0, opt & 4 != 0);
                    let expect = bad.is_none() && (legacy || b.is_prehashed());
                    let got = capture(|| {
                        let mut r = Rd::new(&whole, sizes);
                        r.pos = pos;
                        minisign::verify(&pk, &b, &mut r, quiet, output, legacy).is_ok()
                    });
                    let what = format!("quiet {quiet}, output {output}, allow_legacy {legacy}, {bad:?}");
                    ensure!(got.ret == expect, "{what}: verdict {} instead of {expect}", got.ret);
                    if expect && output {
                        ensure!(got.out == signed, "{what}: {} bytes on standard output, verified {}", got.out.len(), signed.len());
                    } else {
                        ensure!(got.out.is_empty(), "{what}: verdict {expect} but {} bytes on standard output", got.out.len());
                    }
                    if quiet {
                        ensure!(got.err.is_empty(), "{what}: standard error has {:?}", String::from_utf8_lossy(&got.err));
                    } else if let Some(t) = &shown {
                        if expect {
                            ensure!(t.is_empty() || t.contains(char::is_control) || contains(&got.err, t.as_bytes()), "{what}: the trusted comment {t:?} is not shown: {:?}", String::from_utf8_lossy(&got.err));
                        } else if t.len() >= 12 {
                            ensure!(!contains(&got.err, t.as_bytes()), "{what}: the trusted comment of a failed verification is shown");
                        }
                    }
                }
                cx.label(format!("{kind:?} {}", if bad.is_some() { "invalid" } else { "valid" }));
                if start > 0 {
                    cx.label("reader not at its start");
                }
            }
            Case::Faulty { key: n, kind, data, start, sizes, at, fault } => {
                let k = key(*n);
                let d = data.bytes();
                let start = start % (d.len() + 1);
                let b = make(&k, *kind, &d[start..], "t")?;
                let got = capture(|| {
                    let mut rd = Rd::new(&d, sizes);
                    rd.pos = start as u64;
                    minisign::verify(&k.pk, &b, FaultyRd { rd, at: at.clone(), calls: 0, fault: *fault }, true, true, true).is_ok()
                });
                if got.ret {
                    ensure!(got.out == d[start..], "reads {at:?} fail ({fault:?}), verification succeeds, but {} bytes are on standard output, verified {}", got.out.len(), d.len() - start);
                } else {
                    ensure!(d[start..].starts_with(&got.out), "reads {at:?} fail ({fault:?}): bytes that were not verified reached standard output");
                }
                cx.label(if got.ret { "read failure survived" } else { "read failure reported" });
            }
            Case::File { key: n, kind, data, start } => {
                let k = key(*n);
                let d = data.bytes();
                let start = start % (d.len() + 1);
                let b = make(&k, *kind, &d[start..], "t")?;
                let p = scratch().join("c15.data");
                std::fs::write(&p, &d).unwrap();
                let mut f = std::fs::File::open(&p).unwrap();
                f.seek(SeekFrom::Start(start as u64)).unwrap();
                let got = capture(|| minisign::verify(&k.pk, &b, &mut f, true, true, true));
                got.ret.map_err(|e| format!("file at {start}: {e}"))?;
                ensure!(got.out == d[start..], "file at {start}: {} bytes on standard output, verified {}", got.out.len(), d.len() - start);
                cx.label("file");
            }
            Case::Full { key: n, data, start } | Case::Closed { key: n, data, start } => {
                let k = key(*n);
                let d = data.bytes();
                let start = start % (d.len() + 1);
                let b = make(&k, Kind::Prehashed, &d[start..], "t")?;
                let mut w;
                let to = if matches!(c, Case::Full { .. }) {
                    w = std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap();
                    &w
                } else {
                    let mut fds = [0i32; 2];
                    unsafe {
                        assert!(libc::pipe(fds.as_mut_ptr()) == 0);
                        libc::close(fds[0]);
                        use std::os::fd::FromRawFd;
                        w = std::fs::File::from_raw_fd(fds[1]);
                    }
                    &w
                };
                let got = capture_to(Some(to), || {
                    let mut r = Rd::new(&d, &[]);
                    r.pos = start as u64;
                    minisign::verify(&k.pk, &b, &mut r, true, true, false).is_ok()
                });
                if matches!(c, Case::Full { .. }) && d.len() > start {
                    for limit in [0, 1, (d.len() - start) / 2, d.len() - start - 1] {
                        let (ok, got) = capture_limited(limit as u64, || {
                            let mut r = Rd::new(&d, &[]);
                            r.pos = start as u64;
                            minisign::verify(&k.pk, &b, &mut r, true, true, false).is_ok()
                        });
                        ensure!(limit >= d.len() - start || !ok, "{} of {} bytes reached standard output but verification succeeded", got.len(), d.len() - start);
                        ensure!(d[start..].starts_with(&got), "bytes that were not verified reached standard output");
                    }
                }
                ensure!(!got.ret || d.len() == start, "{} bytes could not be written to standard output but verification succeeded", d.len() - start);
                cx.label("output failure");
                let _ = &mut w;
            }
        }
        cx.nontrivial();
        Ok(())
    }
}
