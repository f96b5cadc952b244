//! Stored scrypt limits.
use crate::engine::*;
use crate::util::*;
use minisign::SecretKeyBox;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vref::{kdf, mini};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub ops: u64,
    pub mem: u64,
    pub key: u32,
    pub pw: String,
    pub slow: bool,
}
fn bits(max: u32) -> BoxedStrategy<u64> {
    prop_oneof![
        3 => (0..max, any::<u64>()).prop_map(|(b, x)| (1u64 << b) | (x & ((1u64 << b) - 1))),
        2 => (0..max, -2i64..=2).prop_map(|(b, d)| (1u64 << b).wrapping_add(d as u64)),
        1 => (0..max, 1u64..8, -1i64..=1).prop_map(|(b, m, d)| ((1u64 << b) / 2).wrapping_mul(m).wrapping_add(d as u64)),
    ]
    .boxed()
}
pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C11";
    const AS_GIB: u64 = 5;
    const HANG_S: u64 = 90;
    const SHRINK: u32 = 200;
    const RULE: &'static str = "Pairs of stored limits (powers of two and their neighbours and multiples, values of every bit length, the limits of Minisign and of libsodium's presets). Pairs whose derivation is affordable: a key encrypted by the reference with libsodium's parameters must open here. Pairs over 1 GiB by the same rule: must be an error, with less than 1 GiB allocated on the way. Non-trivial: one of the two was decided. Affordable: at most 2^19 Salsa20/8-pair steps (2^21 for one in sixteen), and the listed larger ones.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "pairs that ask for at most 1 GiB but for more time than is affordable are not derived",
        "the scrypt function itself is the same crate on both sides; what is compared is the choice of its parameters, and the refusal",
        "a memory limit over 1 GiB with a small operation limit needs little memory: refusing and opening are both allowed",
    ];
    fn fixed(t: Tier) -> Vec<Case> {
        let mut v = vec![];
        let mut add = |ops: u64, mem: u64, slow: bool| v.push(Case { ops, mem, key: 9, pw: "pw".into(), slow });
        // libsodium: interactive, minisign's and its fallbacks
        for (o, m) in [(524288u64, 16777216u64), (1 << 20, 1 << 25), (1 << 20, 1 << 24), (1 << 19, 1 << 25), (1 << 21, 1 << 26), (1 << 18, 1 << 22)] {
            add(o, m, true);
        }
        add(1 << 25, 1 << 30, true);
        add(1 << 25, (1 << 30) - 1, true);
        add(1 << 25, (1 << 29) + 1, true);
        if t == Tier::Thorough {
            add((1 << 25) - 1, 1 << 30, true);
            add(1 << 24, 1 << 30, true);
            add(1 << 26, 1 << 28, true);
            add(1 << 23, 1 << 26, true);
        }
        // cheap grid around each switch of the rule
        for m in (0..27).flat_map(|b| [(1u64 << b) - 1, 1 << b, (1 << b) + 1]) {
            for o in [0u64, 1, 32767, 32768, 32769, 65536, (m / 32).saturating_sub(1), m / 32, m / 32 + 1, m.max(32768) / 4] {
                add(o, m, false);
            }
        }
        // far over the cap
        for m in [0u64, 1, 1024, 1 << 20, 1 << 25, 1 << 30, (1 << 30) + 1, 1 << 31, 1 << 32, (1 << 32) + (1 << 20), 1 << 33, 1 << 40, 1 << 63, u64::MAX - 1, u64::MAX] {
            for o in (20..64).map(|b| 1u64 << b).chain([(1 << 32) + 1, (1 << 32) + 32768, (1 << 35) - 1, 1 << 35, (1 << 35) + (1 << 20), u64::MAX, u64::MAX - 1, u64::MAX / 4, i64::MAX as u64]) {
                add(o, m, false);
            }
        }
        v
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let pair = prop_oneof![
            8 => (bits(22), bits(31)),
            2 => (bits(30), bits(32)),
            1 => (bits(64), bits(64)),
            2 => (bits(26), -3i64..=3).prop_map(|(m, d)| ((m / 32).wrapping_add(d as u64), m)),
            // just around 1 GiB of either buffer
            2 => (0u64..=1 << 22, 0u64..2048).prop_map(|(d, m)| (((1u64 << 26) + (1 << 21)).wrapping_sub(d), m)),
        ];
        (pair, keyn(), comment(), 0u8..16).prop_map(|((ops, mem), key, pw, s)| Case { ops, mem, key, pw, slow: s == 0 }).boxed()
    }
    fn fast_only(c: &Case) -> bool {
        let (n, r, p) = kdf::pickparams(c.ops, c.mem);
        c.slow && kdf::cost(n, r, p) > 1 << 21
    }
    fn cases(t: Tier) -> u32 {
        t.pick(5_000, 200_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> R {
        let k = key(c.key);
        let (n, r, p) = kdf::pickparams(c.ops, c.mem);
        let need = kdf::memory(n, r, p);
        let cost = kdf::cost(n, r, p);
        let what = format!("ops {} mem {} (N=2^{n} r={r} p={p})", c.ops, c.mem);
        if need > kdf::MEM_CAP as u128 {
            let mut e = k.rsk.clone();
            e.kdf = *b"Sc";
            e.ops = c.ops;
            e.mem = c.mem;
            let b = SecretKeyBox::from(e.to_file("x"));
            let base = crate::alloc::reset_peak();
            let pw = c.pw.clone();
            let t = cpu();
            let (res, denied) = crate::alloc::limited(1 << 30, || b.into_secret_key(Some(pw)));
            let peak = crate::alloc::peak().saturating_sub(base);
            ensure!(res.is_err(), "{what} needs {need} bytes but is accepted");
            let t = cpu() - t;
            ensure!(t < 5.0, "{what} needs {need} bytes, but a key was derived for {t:.0} s before it was refused");
            ensure!(denied == 0, "{what}: {denied} bytes were asked for before it was refused");
            ensure!(peak <= 1 << 30, "{what}: {peak} bytes were allocated before it was refused");
            cx.label("over the cap");
            cx.nontrivial();
            return Ok(());
        }
        // the listed slow ones are all run; generated ones only when affordable
        let listed = c.key == 9 && c.slow && c.pw == "pw" && cost <= 1 << 28;
        if !listed && cost > if c.slow { 1 << 21 } else { 1 << 19 } {
            cx.label("too expensive to derive");
            return Ok(());
        }
        let salt: [u8; 32] = stream(c.ops ^ c.mem.rotate_left(17), 32).try_into().unwrap();
        let e = k.rsk.clone().encrypt(c.pw.as_bytes(), salt, c.ops, c.mem).ok_or("reference could not encrypt")?;
        match SecretKeyBox::from(e.to_file("x")).into_secret_key(Some(c.pw.clone())) {
            Err(e) => {
                ensure!(c.mem > kdf::MEM_CAP, "{what}: a key made with these limits does not open: {e}");
                cx.label("memory limit over 1 GiB refused");
            }
            Ok(l) => {
                ensure!(mini::SecKey::parse_bytes(&l.to_bytes()).map(|f| f.body) == Some(k.rsk.body), "{what}: opened to other contents");
                cx.label(if c.ops.max(32768) < c.mem / 32 { "opened, memory to spare" } else { "opened, parallel" });
            }
        }
        cx.nontrivial();
        Ok(())
    }
}
