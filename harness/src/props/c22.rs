//! Pre-hashed data is streamed: memory does not grow with it.
use crate::alloc;
use crate::engine::*;
use crate::util::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{self, Read, Seek, SeekFrom};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    /// `pk`: none, the right one, another one; `fail`: the reader fails at the end
    Sign { pk: u8, comments: bool, fail: bool },
    Verify { bare: bool, output: bool, quiet: bool, legacy: bool, bad: Bad },
}
/// What is wrong with the signature, the key or the data.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Bad {
    No,
    Longer,
    OtherKey,
    OtherId,
    OtherKeySameId,
    Sig(u8),
    /// one byte of the comment signature (full boxes)
    Global(u8),
    Comment,
    Reader,
    Seek,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    op: Op,
    kib: usize,
    chunk: usize,
    extra: usize,
}
/// `len` equal bytes, handed out `chunk` at a time.
struct Fill {
    len: u64,
    pos: u64,
    chunk: usize,
    fail: bool,
    noseek: bool,
}
impl Read for Fill {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.fail && self.pos >= self.len {
            return Err(io::Error::other("broken"));
        }
        let n = (self.len - self.pos.min(self.len)).min(b.len() as u64).min(self.chunk as u64) as usize;
        b[..n].fill(7);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Fill {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        if self.noseek && p != SeekFrom::Current(0) {
            return Err(io::Error::other("broken"));
        }
        self.pos = match p {
            SeekFrom::Start(n) => n,
            SeekFrom::Current(d) => self.pos.wrapping_add_signed(d),
            SeekFrom::End(d) => self.len.wrapping_add_signed(d),
        };
        Ok(self.pos)
    }
}
/// What one call may hold on the heap, whatever the length of the data.
const BOUND: usize = 4 << 20;

const BADS: [Bad; 9] = [Bad::Longer, Bad::OtherKey, Bad::OtherId, Bad::OtherKeySameId, Bad::Sig(0), Bad::Global(0), Bad::Comment, Bad::Reader, Bad::Seek];

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C22";
    const SHRINK: u32 = 60;
    const RULE: &'static str = "Signing, and verifying pre-hashed signatures (full and bare; valid, or with other data, key, key id, signature, comment signature or comment; with readers that fail or do not seek back; with and without output, and legacy signatures allowed or not), over streams of 0 to 64 MiB (thorough: 2 GiB) that exist only as a reader, in chunks of 1 byte to 1 MiB, or as much as is asked for; the peak of the live heap during the call is measured. Non-trivial: the stream was read to its end, or refused as it should be, and was at least twice as long as the bound of 4 MiB.";
    const ASSUMPTIONS: &'static [&'static str] = &["memory is what the global allocator hands out; legacy signatures, which Ed25519 itself computes over the whole data, are outside"];
    fn fixed(t: Tier) -> Vec<Case> {
        let mut v = vec![];
        let vf = |bare, output, quiet, bad| Op::Verify { bare, output, quiet, legacy: false, bad };
        let mut ops = vec![
            Op::Sign { pk: 0, comments: true, fail: false },
            Op::Sign { pk: 1, comments: false, fail: false },
            Op::Sign { pk: 2, comments: false, fail: false },
            Op::Sign { pk: 1, comments: false, fail: true },
            vf(false, false, true, Bad::No),
            vf(false, true, true, Bad::No),
            vf(true, false, true, Bad::No),
            vf(true, true, false, Bad::No),
            Op::Verify { bare: false, output: true, quiet: true, legacy: true, bad: Bad::No },
            Op::Verify { bare: true, output: false, quiet: true, legacy: true, bad: Bad::No },
            Op::Verify { bare: false, output: false, quiet: true, legacy: true, bad: Bad::Longer },
        ];
        for bad in BADS {
            ops.push(vf(false, true, true, bad));
            ops.push(vf(true, false, true, bad));
        }
        for op in ops {
            for kib in t.pick(if matches!(op, Op::Verify { bad, .. } if bad != Bad::No) { vec![1, 9 << 10, 33 << 10] } else { vec![0, 1, 9 << 10, 16 << 10, 33 << 10, 64 << 10] }, vec![0, 9 << 10, 64 << 10, 300 << 10, 2 << 20]) {
                for chunk in [4096usize, 1 << 20, usize::MAX] {
                    v.push(Case { op, kib, chunk, extra: 3 });
                }
            }
        }
        // more reads than any list of them could hide
        for op in [Op::Sign { pk: 1, comments: true, fail: false }, vf(false, false, true, Bad::No), vf(true, true, true, Bad::No), vf(false, true, true, Bad::Longer)] {
            for chunk in [1, 7, 63, 129] {
                v.push(Case { op, kib: t.pick(9 << 10, 40 << 10), chunk, extra: 5 });
            }
        }
        v
    }
    fn fast_only(c: &Case) -> bool {
        c.chunk < 200
    }
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let b = any::<bool>;
        let op = prop_oneof![
            1 => (0u8..3, b(), proptest::bool::weighted(0.1)).prop_map(|(pk, comments, fail)| Op::Sign { pk, comments, fail }),
            2 => (b(), b(), b(), b(), prop_oneof![1 => Just(Bad::No), 1 => proptest::sample::select(BADS.to_vec()), 1 => (0u8..64).prop_map(Bad::Sig), 1 => (0u8..64).prop_map(Bad::Global)]).prop_map(|(bare, output, quiet, legacy, bad)| Op::Verify { bare, output, quiet, legacy, bad }),
        ];
        let kib = match t {
            Tier::Quick => prop_oneof![4 => (8usize << 10)..(20 << 10), 1 => 0usize..8 << 10].boxed(),
            Tier::Thorough => prop_oneof![4 => (8usize << 10)..(100 << 10), 1 => 0usize..8 << 10].boxed(),
        };
        (op, kib, prop_oneof![200usize..70_000, Just(1 << 20), Just(65536), Just(usize::MAX)], 0usize..1024).prop_map(|(op, kib, chunk, extra)| Case { op, kib, chunk, extra }).boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(700, 20_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> R {
        let k = key(9);
        let len = (c.kib as u64) * 1024 + c.extra as u64;
        let rd = || Fill { len, pos: 0, chunk: c.chunk, fail: false, noseek: false };
        let mut r = rd();
        let grown = match c.op {
            Op::Sign { pk, comments, fail } => {
                let (tc, uc) = if comments { (Some("t"), Some("u")) } else { (None, None) };
                let o = key(10);
                r.fail = fail;
                let l = alloc::reset_peak();
                let b = minisign::sign([None, Some(&k.pk), Some(&o.pk)][pk as usize % 3], &k.sk, &mut r, tc, uc);
                let g = alloc::peak().saturating_sub(l);
                ensure!(b.is_ok() == (pk < 2 && !fail), "signing {len} bytes gives {:?}", b.err().map(|e| e.to_string()));
                cx.label(if b.is_ok() { "signing" } else { "signing, refused" });
                g
            }
            Op::Verify { bare, output, quiet, legacy, bad } => {
                // its digest comes from the library itself: other properties decide whether it is right
                let mut e = parse(&minisign::sign(None, &k.sk, rd(), Some("t"), None).map_err(|e| format!("signing {len} bytes failed: {e}"))?)?;
                let mut pk = k.rpk.clone();
                let mut good = false;
                match bad {
                    Bad::Longer => r.len += 1,
                    Bad::OtherKey => pk = key(10).rpk.clone(),
                    Bad::OtherId => pk.id = key(10).id,
                    Bad::OtherKeySameId => pk.key = key(10).pkb,
                    Bad::Sig(i) => e.sig[i as usize % 64] ^= 1,
                    Bad::Global(i) if !bare => e.global[i as usize % 64] ^= 1,
                    Bad::Comment if !bare => e.trusted.push('x'),
                    Bad::Reader => r.fail = true,
                    Bad::Seek if output => r.noseek = true,
                    _ => good = true,
                }
                let b = if bare { bones(&e.bare())? } else { load(&e.to_file())? };
                let pk = pk_of(&pk);
                let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
                let mut g = 0;
                let got = capture_to(Some(&null), || {
                    let l = alloc::reset_peak();
                    let v = minisign::verify(&pk, &b, &mut r, quiet, output, legacy);
                    g = alloc::peak().saturating_sub(l);
                    v.is_ok()
                });
                ensure!(got.ret == good, "verifying {len} bytes gives {}", got.ret);
                cx.label(format!("verifying{}{}", if output { " with output" } else { "" }, if good { "" } else { ", refused" }));
                g
            }
        };
        ensure!(grown <= BOUND, "{:?}: {grown} bytes of heap for {len} bytes of pre-hashed data", c.op);
        if len as usize >= 2 * BOUND && (r.pos >= r.len || matches!(c.op, Op::Verify { bad, .. } if bad != Bad::No)) {
            cx.nontrivial();
        }
        Ok(())
    }
}
