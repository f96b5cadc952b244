//! Signing and verifying cover exactly the stream's bytes, however they are read.
use crate::dict;
use crate::engine::*;
use crate::util::*;
use getrandom::ctl;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{self, Read, Seek, SeekFrom};
use vref::{blake2b, ed25519 as ed, mini};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    Stream { key: u32, data: Data, chunks: Vec<usize>, chunks2: Vec<usize> },
    /// legacy verification through the same readers
    Legacy { key: u32, data: Data, chunks: Vec<usize> },
    /// the reader reports Interrupted (nothing read, try again) at these calls
    Interrupted { key: u32, data: Data, chunks: Vec<usize>, at: Vec<usize>, prehashed: bool },
    /// the reader stands after `skip` bytes: they do not belong to the stream
    From { key: u32, data: Data, skip: usize, chunks: Vec<usize>, output: bool },
    /// legacy signature over this many bytes
    BigLegacy { len: usize },
    /// periodic stream of this length (see BIG); signing or verifying
    Big { len: u64, sign: bool },
}
/// Lengths with BLAKE2b-512 digests of the periodic stream, made with Python's hashlib.
const BIG: &[(u64, &str)] = &[
    (536870915, "4bfd5324f47dea4163f447b9c4f0aab4f766b723ce905fe7973dd4f688422984cf6c47a93a677c8b31271347f7d1ba0fed7dcd779389ffae718ceaeadc1e6a63"),
    (2147483653, "5e3de2c374776c92d4f11dcc77125f656a45c06aef9bd4f5fce1ad3abe136f2c733d1405a996e59c6592a0215c77897dd8d173c976a4bfb474943de516b9291b"),
    (4294967295, "2bdfc6ebf4222d35e2ad64bc4363416609f71814c9b83560e46d01bcc768dcfb6e008f18c4ba92c271334072185f229c584a4c4e2536f4586bfff5b1a527a78b"),
    (4294967296, "833934289ffabbd05c684dc3a320f1d06c87c92285ae2a375ba893bcd54f614ae2124d6ebd464dc345d6353382b04e67d04bc49ee05e99e4176bd0b61e17820d"),
    (4294967297, "0bbf6e5e956b544f62054b3d6000a528b28442f52a20f8e4ff061d44da0b977a3359d60ab804d21eade91468a1e38c48d43b80810ff76e01ba13c7c927903d6b"),
    (4296167299, "435b2b77de4ef80b22d4d0fe9be978ba2fc8b702b67f67300eb3c94351b1bf56d500a581161dcd3017713edcf6dbf4cfb09d6d8351bc0229f685068b87dd4357"),
    (8589934669, "c2b4040fa11fe5453a3c9b3e0982e033e2605c82a48993e3c122ce79b74f4489349a48af5b8e23fc03f44f831d9467f1040885094f87ee681f065d390b50744a"),
    (17179869313, "b3c9777b82aae207e23d886e2a137b6dc48c334cc91e4db610eb9b54d38f84686fb19ec7cfcf39a5be02d767d562a7c8ce8a54c689decf246e3f86c06923e22d"),
];
/// Byte i is byte i mod 2^20 of a fixed pseudo-random block; nothing is kept in memory.
struct Periodic {
    block: Vec<u8>,
    len: u64,
    pos: u64,
}
impl Read for Periodic {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let o = (self.pos % self.block.len() as u64) as usize;
        let n = (buf.len() as u64).min(self.len - self.pos).min((self.block.len() - o) as u64) as usize;
        buf[..n].copy_from_slice(&self.block[o..o + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Periodic {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.pos = match p {
            SeekFrom::Start(n) => n,
            SeekFrom::Current(d) => self.pos.wrapping_add_signed(d),
            SeekFrom::End(d) => self.len.wrapping_add_signed(d),
        };
        Ok(self.pos)
    }
}

struct Intr<'a> {
    rd: Rd<'a>,
    at: &'a [usize],
    calls: usize,
    /// where the first interruption was
    first: Option<u64>,
}
impl Read for Intr<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.at.contains(&(self.calls - 1)) {
            self.first.get_or_insert(self.rd.pos);
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.rd.read(b)
    }
}
impl Seek for Intr<'_> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.rd.seek(p)
    }
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C07";
    const RULE: &'static str = "Data of every length 0..1040, around multiples of 65536, sampled lengths, and periodic streams around and beyond 2^32 bytes (legacy: beyond 2^32 bits), reads interrupted at given calls (error or the right outcome), readers that stand behind bytes not to be covered, read in whole or in chunks (every constant chunk size 1..300, mixed sizes). The library's pre-hashed signature is checked by the reference over the reference BLAKE2b digest, a reference signature over that digest by the library, and two different chunkings must give byte-identical boxes from the same random source output. Non-trivial: both directions were decided on non-empty data.";
    fn fixed(t: Tier) -> Vec<Case> {
        let mut v = vec![];
        let st = |len: usize, a: Vec<usize>, b: Vec<usize>| Case::Stream { key: len as u32 % 24, data: gen(len, 1), chunks: a, chunks2: b };
        for (i, (len, _)) in BIG.iter().enumerate() {
            if t == Tier::Thorough || *len == (1 << 32) + 1200003 || *len == (1 << 29) + 3 {
                v.push(Case::Big { len: *len, sign: i % 2 == 0 });
                v.push(Case::Big { len: *len, sign: i % 2 == 1 });
                // keep them on different shards
                v.push(st(1, vec![], vec![1]));
            }
        }
        for output in [false, true] {
            for len in [1usize, 5, 64, 130, 1000, 70_000] {
                for skip in [0, 1, len / 2, len - 1, len] {
                    v.push(Case::From { key: 9, data: gen(len, 3), skip, chunks: vec![], output });
                    v.push(Case::From { key: 9, data: gen(len, 3), skip, chunks: vec![300, 7], output });
                }
            }
        }
        v.push(Case::BigLegacy { len: (1 << 29) + 77 });
        for prehashed in [true, false] {
            for len in [0usize, 1, 100, 1000] {
                for at in 0..6 {
                    for c in [300, 1 << 30] {
                        v.push(Case::Interrupted { key: 9, data: gen(len, 3), chunks: vec![c], at: vec![at], prehashed });
                        v.push(Case::Interrupted { key: 9, data: gen(len, 3), chunks: vec![c], at: vec![at, at + 1, at + 3], prehashed });
                    }
                }
            }
        }
        for len in 0..t.pick(1041usize, 4200) {
            v.push(st(len, vec![], vec![1 + len % 129]));
            v.push(Case::Legacy { key: 9, data: gen(len, 1), chunks: vec![1 + len % 77] });
        }
        for c in 1..=300usize {
            v.push(st(1000, vec![c], vec![]));
            v.push(st(c * 3 + 1, vec![c], vec![c + 1]));
        }
        for m in [1usize, 2, 4] {
            for d in 0..9 {
                let len = m * 65536 + d - 4;
                v.push(st(len, vec![], vec![65535, 1]));
                v.push(st(len, vec![65536 - 4 + d], vec![128]));
                v.push(Case::Legacy { key: 9, data: gen(len, 1), chunks: vec![4096 + d] });
            }
        }
        for len in dict::lens().into_iter().chain(dict::long_lens()) {
            v.push(st(len, vec![], vec![100_000, 7]));
            v.push(Case::Legacy { key: 9, data: gen(len, 1), chunks: vec![50_000, 5] });
            v.push(st(3 * len.min(70_000) + 1, vec![len], vec![len + 1, 1]));
        }
        // every power of two and its neighbours
        for b in 17..t.pick(23, 27) {
            for d in [-1i64, 0, 1] {
                let len = ((1i64 << b) + d) as usize;
                v.push(st(len, vec![], vec![100_000, 1]));
                if b < 24 {
                    v.push(Case::Legacy { key: 9, data: gen(len, 1), chunks: vec![1 << 20, 5] });
                }
            }
        }
        for p in [vec![128usize, 1], vec![1, 128], vec![256, 1], vec![1, 256], vec![255, 2], vec![127, 129, 128], vec![256], vec![257, 255], vec![1, 1, 254]] {
            for len in [0usize, 1, 127, 128, 129, 255, 256, 257, 383, 384, 385, 511, 512, 513, 1024, 2049] {
                v.push(st(len, p.clone(), vec![]));
            }
        }
        v
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        prop_oneof![
            5 => (keyn(), data(), chunk_sizes(), chunk_sizes()).prop_map(|(key, data, chunks, chunks2)| Case::Stream { key, data, chunks, chunks2 }),
            1 => (keyn(), data(), chunk_sizes()).prop_map(|(key, data, chunks)| Case::Legacy { key, data, chunks }),
            1 => (keyn(), data(), chunk_sizes(), proptest::collection::vec(0usize..20, 1..4), any::<bool>())
                .prop_map(|(key, data, chunks, at, prehashed)| Case::Interrupted { key, data, chunks, at, prehashed }),
            1 => (keyn(), data(), any::<usize>(), chunk_sizes(), proptest::bool::weighted(0.3)).prop_map(|(key, data, skip, chunks, output)| Case::From { key, data, skip, chunks, output }),
        ]
        .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(25_000, 300_000)
    }
    fn fast_only(c: &Case) -> bool {
        matches!(c, Case::Big { .. } | Case::BigLegacy { .. })
    }
    fn check(c: &Case, cx: &mut Cx) -> R {
        match c {
            Case::Stream { key: n, data, chunks, chunks2 } => {
                let k = key(*n);
                let d = data.bytes();
                let h = blake2b::hash(64, &d);
                let sign = |ch: &[usize]| {
                    ctl::install(ctl::Mode::Stream(d.len() as u64), None, 5);
                    minisign::sign(None, &k.sk, Rd::new(&d, ch), Some("t"), Some("u")).map_err(|e| format!("signing failed: {e}"))
                };
                let b = sign(chunks)?;
                let b2 = sign(chunks2)?;
                ensure!(b.to_string() == b2.to_string(), "{} bytes read as {chunks:?} and {chunks2:?} give different signatures", d.len());
                let s = parse(&b)?;
                ensure!(ed::verify(&k.pkb, &h, &s.sig), "the signature over {} bytes read as {chunks:?} is not over their BLAKE2b-512 digest", d.len());
                let r = mini::Sig::make(true, &k.seed, &k.id, &d, "t", "u");
                let rb = load(&r.to_file())?;
                for ch in [chunks, chunks2] {
                    let v = minisign::verify(&k.pk, &rb, Rd::new(&d, ch), true, false, false);
                    ensure!(v.is_ok(), "a reference signature over {} bytes read as {ch:?} is refused: {v:?}", d.len());
                }
                if !d.is_empty() {
                    // the same chunkings over other bytes
                    let mut e = d.clone();
                    let i = (e.len() - 1) * (chunks.len() % 2);
                    e[i] ^= 1;
                    ensure!(minisign::verify(&k.pk, &rb, Rd::new(&e, chunks), true, false, false).is_err(), "other bytes verify when read as {chunks:?}");
                    cx.nontrivial();
                }
                cx.label(if chunks.is_empty() && chunks2.is_empty() { "whole" } else { "chunked" });
            }
            Case::Legacy { key: n, data, chunks } => {
                let k = key(*n);
                let d = data.bytes();
                let b = bones(&bare_ref(&k, false, &d))?;
                let v = minisign::verify(&k.pk, &b, Rd::new(&d, chunks), true, false, true);
                ensure!(v.is_ok(), "a legacy signature over {} bytes read as {chunks:?} is refused: {v:?}", d.len());
                let e = [&d[..], b"\0"].concat();
                ensure!(minisign::verify(&k.pk, &b, Rd::new(&e, chunks), true, false, true).is_err(), "a longer stream verifies");
                cx.label("legacy");
                if !d.is_empty() {
                    cx.nontrivial();
                }
            }
            Case::Interrupted { key: n, data, chunks, at, prehashed } => {
                // an error or the right outcome, never one over a part of the bytes
                let k = key(*n);
                let d = data.bytes();
                let rd = || Intr { rd: Rd::new(&d, chunks), at, calls: 0, first: None };
                let mut r = rd();
                if let Ok(b) = minisign::sign(None, &k.sk, &mut r, Some("t"), None) {
                    let s = parse(&b)?;
                    ensure!(ed::verify(&k.pkb, &blake2b::hash(64, &d), &s.sig), "interrupted reads at {at:?}: the signature is not over all {} bytes", d.len());
                    cx.label("interrupted signing finished");
                } else {
                    ensure!(r.first.is_some(), "signing failed without an interruption");
                    cx.label("interrupted signing failed");
                }
                let mut parts = vec![0, d.len() / 2, d.len()];
                parts.extend(r.first.map(|p| p as usize));
                for n in parts {
                    let b = bones(&bare_ref(&k, *prehashed, &d[..n]))?;
                    let mut r = rd();
                    let v = minisign::verify(&k.pk, &b, &mut r, true, false, true);
                    if v.is_ok() {
                        ensure!(n == d.len(), "interrupted reads at {at:?}: a signature over {n} of {} bytes verifies", d.len());
                    } else {
                        ensure!(n != d.len() || r.first.is_some(), "a signature over all bytes is refused without an interruption");
                    }
                }
                if r.first.is_some() {
                    cx.nontrivial();
                }
            }
            Case::From { key: n, data, skip, chunks, output } => {
                let k = key(*n);
                let all = data.bytes();
                let skip = *skip % (all.len() + 1);
                let rest = &all[skip..];
                let rd = || {
                    let mut r = Rd::new(&all, chunks);
                    r.pos = skip as u64;
                    r
                };
                let s = parse(&minisign::sign(None, &k.sk, rd(), Some("t"), None).map_err(|e| format!("signing failed: {e}"))?)?;
                ensure!(ed::verify(&k.pkb, &blake2b::hash(64, rest), &s.sig), "the signature is not over the {} bytes from position {skip}", rest.len());
                for prehashed in [true, false] {
                    for part in [rest, &all[..], &all[..skip]] {
                        let b = bones(&bare_ref(&k, prehashed, part))?;
                        let mut r = rd();
                        let v = if *output { capture_to(None, || minisign::verify(&k.pk, &b, &mut r, true, true, true)).ret } else { minisign::verify(&k.pk, &b, &mut r, true, false, true) };
                        ensure!(v.is_ok() == (part == rest), "from position {skip}, pre-hashed {prehashed}, output {output}: a signature over {} bytes, stream of {}: {v:?}", part.len(), rest.len());
                    }
                }
                cx.label("from a position");
                if skip > 0 && !rest.is_empty() {
                    cx.nontrivial();
                }
            }
            Case::BigLegacy { len } => {
                let k = key(9);
                let mut d = vec![0u8; *len];
                let block = stream(0xb16, 1 << 20);
                for c in d.chunks_mut(1 << 20) {
                    c.copy_from_slice(&block[..c.len()]);
                }
                let b = bones(&bare_ref(&k, false, &d))?;
                drop(d);
                let rd = || Periodic { block: block.clone(), len: *len as u64, pos: 0 };
                let r = minisign::verify(&k.pk, &b, rd(), true, false, true);
                ensure!(r.is_ok(), "a legacy reference signature over {len} bytes is refused: {r:?}");
                struct Flip(Periodic);
                impl Read for Flip {
                    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
                        let n = self.0.read(b)?;
                        if n > 0 && self.0.pos == self.0.len {
                            b[n - 1] ^= 1;
                        }
                        Ok(n)
                    }
                }
                impl Seek for Flip {
                    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
                        self.0.seek(p)
                    }
                }
                ensure!(minisign::verify(&k.pk, &b, Flip(rd()), true, false, true).is_err(), "a legacy signature over {len} bytes verifies although the last one differs");
                cx.label("legacy data beyond 2^32 bits");
                cx.nontrivial();
            }
            Case::Big { len, sign } => {
                let k = key(9);
                let h = unhex(BIG.iter().find(|x| x.0 == *len).ok_or("length without a digest")?.1).unwrap();
                let rd = Periodic { block: stream(0xb16, 1 << 20), len: *len, pos: 0 };
                if *sign {
                    let s = parse(&minisign::sign(None, &k.sk, rd, Some("t"), None).map_err(|e| format!("signing failed: {e}"))?)?;
                    ensure!(ed::verify(&k.pkb, &h, &s.sig), "the signature over {len} bytes is not over their BLAKE2b-512 digest");
                } else {
                    let mut s = mini::Sig { untrusted: "u".into(), alg: *b"ED", id: k.id, sig: ed::sign(&k.seed, &h), trusted: "t".into(), global: [0; 64] };
                    s.global = ed::sign(&k.seed, &s.signed_comment());
                    let r = minisign::verify(&k.pk, &load(&s.to_file())?, rd, true, false, false);
                    ensure!(r.is_ok(), "a reference signature over {len} bytes is refused: {r:?}");
                }
                cx.label("beyond 2^29 bytes");
                cx.nontrivial();
            }
        }
        Ok(())
    }
}
