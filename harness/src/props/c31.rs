//! The clock, and what the process may use, make no difference.
use super::c28::battery;
use crate::dict;
use crate::effects::at_times;
use crate::engine::*;
use crate::util::*;
use getrandom::ctl::{self, Mode};
use minisign::SignatureBones;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vref::mini;

type Time = (i64, u32);
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Limit {
    /// processors this thread may run on
    Cpus(u8),
    /// file descriptors beyond the ones in use
    Files(u8),
    /// address space beyond the one in use, MiB
    Space(u16),
    Stack(u16),
    Locked(u16),
    Core(u16),
    Threads(u16),
    Umask(u16),
    User(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    /// A row of operations at one time and at others; `step`: seconds by which the monotonic clock leaps when read.
    Row { a: Vec<Time>, b: Vec<Time>, step: u32, seed: u8, slow: bool },
    /// Signed at one time, with that comment, and verified at another.
    Sign { at: Time, then: Vec<Time>, step: u32, tc: Option<String>, uc: Option<String>, k: u32, d: Data },
    /// Default comments.
    Stamp { at: Time, k: u32 },
    /// A row of operations under other limits.
    Limits { limits: Vec<Limit>, seed: u8, slow: bool },
}
/// Times at which clocks, formats and calendars turn over, in seconds since 1970.
const TURNS: &[i64] = &[
    0, 1, 59, 60, 3600, 86399, 86400, 31536000, 68169600, 946684799, 946684800, 999999999, 1000000000, 1234567890, 1431655765, 1700000000, 1735689600, 1767225600, 1893456000, 2000000000, 2085978496, 2147483647, 2147483648, 2147485547, 3000000000,
    4102444800, 4294967295, 4294967296, 4294967297, 9999999999, 10000000000, 32503680000, 99999999999, 100000000000, 253402300799, 253402300800, 1000000000000, 8589934591, 8589934592, 67767976233532799, 9007199254740993, 9223372036, 9223372037, 9223372036854775,
    18446744073, 18446744074, 4611686018427387904, 9223372036854775807,
];
const BEFORE: &[i64] = &[-1, -60, -86400, -1000000000, -2147483648, -2147483649, -11644473600, -62135596800, -9223372036854775808];
fn time(past: bool) -> BoxedStrategy<Time> {
    let turn = |v: &'static [i64]| (proptest::sample::select(v.to_vec()), -2i64..3).prop_map(|(t, d)| t.saturating_add(d));
    let s = prop_oneof![
        3 => turn(TURNS).prop_map(|t| t.max(0)),
        3 => 1_700_000_000i64..2_500_000_000,
        2 => (any::<i64>(), 1u32..40).prop_map(|(n, b)| (n & i64::MAX) >> b),
        1 => proptest::sample::select(dict::nums(0, i64::MAX as u64)).prop_map(|n| n as i64),
        1 => if past { turn(BEFORE).boxed() } else { Just(0).boxed() },
    ];
    let n = prop_oneof![Just(0), Just(1), Just(500_000_000), Just(999_999_999), 0u32..1_000_000_000];
    (s, n).boxed()
}
/// Comments that mention a time near that one.
fn about(t: i64) -> BoxedStrategy<String> {
    let d = prop_oneof![4 => -2i64..3, 1 => proptest::sample::select(vec![-31536000, -86400, -3600, 3600, 86400, 31536000])];
    (d, 0usize..11, proptest::sample::select(vec!["timestamp:", "timestamp:", "expires:", "expiry:", "expire:", "not-after:", "not-before:", "notbefore:", "valid-until:", "until:", "time:", "date:", "file:x\ttimestamp:", "created:", "exp:", ""]))
        .prop_map(move |(d, how, f)| {
            let t = t.saturating_add(d);
            match how {
                0 => format!("{f}{}000", t),
                1 => format!("{f} {t}"),
                2 => format!("{f}{t}\tfile:x\thashed"),
                3 => format!("{f}{}", date(t)),
                _ => format!("{f}{t}"),
            }
        })
        .boxed()
}
/// Civil date of a time (year at most 9999).
fn date(t: i64) -> String {
    let days = t.clamp(0, 253402300799) / 86400;
    let (mut y, mut d) = (1970, days);
    let leap = |y: i64| y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    while d >= 365 + leap(y) as i64 {
        d -= 365 + leap(y) as i64;
        y += 1;
    }
    let mut m = 0;
    while d >= [31, 28 + leap(y) as i64, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m] {
        d -= [31, 28 + leap(y) as i64, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m];
        m += 1;
    }
    format!("{y:04}-{:02}-{:02}", m + 1, d + 1)
}

/// Changes the limits of the process, or of this thread, while it lives.
struct Limited(Vec<Box<dyn FnOnce()>>);
impl Limited {
    fn to(l: &[Limit]) -> Limited {
        let mut undo: Vec<Box<dyn FnOnce()>> = vec![];
        let status = |what: &str| -> u64 {
            let s = std::fs::read_to_string("/proc/self/status").unwrap_or_default();
            s.lines().find_map(|l| l.strip_prefix(what)?.trim().split(' ').next()?.parse().ok()).unwrap_or(0)
        };
        let mut soft = |what: libc::__rlimit_resource_t, n: u64| unsafe {
            let mut old: libc::rlimit = std::mem::zeroed();
            if libc::getrlimit(what, &mut old) == 0 {
                let new = libc::rlimit { rlim_cur: n.min(old.rlim_cur).min(old.rlim_max), ..old };
                libc::setrlimit(what, &new);
                undo.push(Box::new(move || _ = libc::setrlimit(what, &old)));
            }
        };
        let mut later = vec![];
        for l in l {
            match *l {
                Limit::Files(n) => {
                    let top = std::fs::read_dir("/proc/self/fd").unwrap().filter_map(|e| e.ok()?.file_name().to_str()?.parse::<u64>().ok()).max().unwrap_or(3);
                    soft(libc::RLIMIT_NOFILE, top + 12 + n as u64)
                }
                Limit::Space(n) => soft(libc::RLIMIT_AS, (status("VmSize:") << 10) + ((400 + n as u64) << 20)),
                Limit::Stack(n) => soft(libc::RLIMIT_STACK, (1024 + n as u64) << 10),
                Limit::Locked(n) => soft(libc::RLIMIT_MEMLOCK, n as u64),
                Limit::Core(n) => soft(libc::RLIMIT_CORE, n as u64),
                Limit::Threads(n) => soft(libc::RLIMIT_NPROC, n as u64),
                _ => later.push(l.clone()),
            }
        }
        for l in later {
            match l {
                Limit::Cpus(n) => unsafe {
                    let size = std::mem::size_of::<libc::cpu_set_t>();
                    let mut old: libc::cpu_set_t = std::mem::zeroed();
                    libc::sched_getaffinity(0, size, &mut old);
                    let mut new: libc::cpu_set_t = std::mem::zeroed();
                    (0..1024).filter(|i| libc::CPU_ISSET(*i, &old)).take(n as usize % 8 + 1).for_each(|i| libc::CPU_SET(i, &mut new));
                    libc::sched_setaffinity(0, size, &new);
                    undo.push(Box::new(move || _ = libc::sched_setaffinity(0, size, &old)));
                },
                Limit::Umask(n) => unsafe {
                    let old = libc::umask(n as libc::mode_t & 0o777);
                    undo.push(Box::new(move || _ = libc::umask(old)));
                },
                Limit::User(n) => unsafe {
                    let old = (libc::geteuid(), libc::getegid());
                    libc::setegid(1000 + n as u32);
                    libc::seteuid(1000 + n as u32);
                    undo.push(Box::new(move || assert!(libc::seteuid(old.0) == 0 && libc::setegid(old.1) == 0, "the user cannot be set back")));
                },
                _ => {}
            }
        }
        Limited(undo)
    }
}
impl Drop for Limited {
    fn drop(&mut self) {
        while let Some(f) = self.0.pop() {
            f()
        }
    }
}
fn limit() -> BoxedStrategy<Limit> {
    prop_oneof![
        3 => any::<u8>().prop_map(Limit::Cpus),
        2 => any::<u8>().prop_map(Limit::Files),
        2 => any::<u16>().prop_map(Limit::Space),
        1 => any::<u16>().prop_map(Limit::Stack),
        1 => any::<u16>().prop_map(Limit::Locked),
        1 => any::<u16>().prop_map(Limit::Core),
        1 => (1000u16..9000).prop_map(Limit::Threads),
        1 => any::<u16>().prop_map(Limit::Umask),
        2 => any::<u16>().prop_map(Limit::User),
    ]
    .boxed()
}
fn same(a: &[(&str, Vec<u8>)], b: &[(&str, Vec<u8>)], how: &dyn Fn() -> String) -> R {
    for ((what, a), (_, b)) in a.iter().zip(b) {
        ensure!(a == b, "{what} gives {:?}, but {} it gives {:?}", String::from_utf8_lossy(a), how(), String::from_utf8_lossy(b));
    }
    Ok(())
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C31";
    const SHRINK: u32 = 300;
    const RULE: &'static str = "The clocks are scripted in front of the C library's, per thread. A row of about thirty operations gives the same results, errors and printed bytes at two times or rows of times (47 turns of clocks and calendars, before 1970, backwards, leaping while a call runs); a signature with a comment about some time is the same whenever it is made and verifies whenever; default comments name exactly the scripted second. The row is also run with other limits (processors, descriptors, memory, stack, threads), user, and umask. Non-trivial: the operations were run both ways, or a default comment was compared.";
    const ASSUMPTIONS: &'static [&'static str] = &["a clock that shows a time before 1970 may make signing with the default trusted comment fail or panic", "limits leave room for the work itself: 400 MiB, 12 descriptors, 1 MiB of stack"];
    fn fixed(_t: Tier) -> Vec<Case> {
        let mut v = vec![];
        for (i, t) in TURNS.iter().flat_map(|t| [t.saturating_sub(1).max(0), *t, t.saturating_add(1)]).enumerate() {
            for n in [0, 999_999_999] {
                v.push(Case::Stamp { at: (t, n), k: i as u32 });
            }
            v.push(Case::Row { a: vec![(1_700_000_000, 0)], b: vec![(t, 0)], step: 0, seed: i as u8, slow: i % 16 == 0 });
            v.push(Case::Row { a: vec![(t, 0)], b: vec![(t, 999_999_999), (t.saturating_sub(1000), 0), (0, 0), (t.saturating_add(1000), 0)], step: [1, 100, 100_000, 1 << 31][i % 4], seed: i as u8, slow: false });
        }
        for (i, t) in BEFORE.iter().enumerate() {
            v.push(Case::Row { a: vec![(1_700_000_000, 0)], b: vec![(*t, 0)], step: 0, seed: i as u8, slow: i == 0 });
        }
        // comments of fields
        for (i, tc) in field_texts().into_iter().enumerate() {
            let at = TURNS[i % TURNS.len()];
            v.push(Case::Sign { at: (at, 0), then: vec![(TURNS[i * 7 % TURNS.len()], 0), (1_700_000_000 + i as i64 * 1_000_003, 5)], step: 0, tc: Some(tc.clone()), uc: Some(tc), k: i as u32 % 24, d: gen(i % 70, i as u32) });
        }
        for (i, t) in TURNS.iter().enumerate() {
            for (j, f) in ["timestamp:", "expires:", "expiry:", "not-after:", "not-before:", "valid-until:", "date:"].iter().enumerate() {
                for d in [-1, 0, 1, 86400, -86400] {
                    let n = t.saturating_add(d);
                    let tc = if j < 6 { format!("{f}{n}") } else { format!("{f}{}", date(n)) };
                    v.push(Case::Sign { at: (*t, 0), then: vec![(n.max(0), 0), (n.saturating_add(86400 * 3650).max(0), 0)], step: 1000, tc: Some(tc), uc: None, k: i as u32 % 24, d: gen(5, 1) });
                }
            }
        }
        for (i, l) in [Limit::Cpus(0), Limit::Cpus(1), Limit::Files(0), Limit::Space(0), Limit::Stack(0), Limit::Locked(0), Limit::Core(0), Limit::Threads(1000), Limit::Umask(0), Limit::Umask(0o777), Limit::User(1)].into_iter().enumerate() {
            for slow in [false, true] {
                v.push(Case::Limits { limits: vec![l.clone()], seed: i as u8, slow });
            }
        }
        v
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        use proptest::collection::vec;
        let step = || prop_oneof![3 => Just(0u32), 1 => Just(1), 2 => (any::<u32>(), 0u32..32).prop_map(|(n, b)| n >> b)];
        let row = (vec(time(true), 1..4), vec(time(true), 1..6), step(), any::<u8>(), proptest::bool::weighted(0.02)).prop_map(|(a, b, step, seed, slow)| Case::Row { a, b, step, seed, slow });
        let sign = (time(true), vec(time(true), 1..5), step(), keyn(), small_data(), any::<bool>()).prop_flat_map(|(at, then, step, k, d, near)| {
            let t = if near { then[0].0 } else { at.0 };
            (prop_oneof![4 => about(t).prop_map(Some), 2 => comment().prop_map(Some), if at.0 < 0 { 0 } else { 1 } => Just(None)], prop_oneof![1 => about(t).prop_map(Some), 1 => Just(None)])
                .prop_map(move |(tc, uc)| Case::Sign { at, then: then.clone(), step, tc, uc, k, d: d.clone() })
        });
        let limits = (vec(limit(), 1..4), any::<u8>(), proptest::bool::weighted(0.02)).prop_map(|(limits, seed, slow)| Case::Limits { limits, seed, slow });
        prop_oneof![4 => row, 14 => sign, 1 => (time(false), keyn()).prop_map(|(at, k)| Case::Stamp { at, k }), 1 => limits].boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(14_000, 400_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> R {
        match c {
            Case::Row { a, b, step, seed, slow } => {
                let before = at_times(a, 0, || battery(*seed, *slow, false)).0;
                let (after, n) = at_times(b, *step, || battery(*seed, *slow, false));
                same(&before, &after, &|| format!("at the times {b:?}, instead of {a:?}, step {step},"))?;
                cx.add("readings of the clock", n as u64);
                cx.label("other times");
            }
            Case::Sign { at, then, step, tc, uc, k, d } => {
                if tc.is_none() && at.0 < 0 {
                    return Ok(());
                }
                let (k, d) = (key(*k), d.bytes());
                let sign = |at: &Time, step: u32| {
                    ctl::install(Mode::Stream(7), None, 5);
                    at_times(&[*at], step, || minisign::sign(Some(&k.pk), &k.sk, &d[..], tc.as_deref(), uc.as_deref()).map_err(|e| format!("signing with the comments {tc:?}, {uc:?} at {at:?} fails: {e}"))).0
                };
                let b = sign(at, 0)?;
                let text = b.to_string();
                ensure!(mini::Sig::parse_file(&text).is_some_and(|s| s.verify(&k.rpk, &d, false)), "what is signed at {at:?} does not verify: {text:?}");
                for t in then {
                    if tc.is_some() {
                        let o = sign(t, *step)?.to_string();
                        ensure!(o == text, "signing gives {text:?} at {at:?}, and {o:?} at {t:?}");
                    }
                    let r = at_times(&[*t, *at], *step, || {
                        let b = load(&text).map_err(|e| format!("loading fails: {e}"))?;
                        vfy_plain(&k.pk, &b, &d, false)?;
                        vfy_plain(&k.pk, &SignatureBones::from(b).into(), &d, false)
                    });
                    ensure!(r.0.is_ok(), "signed at {at:?} with comments {tc:?}, {uc:?}, at {t:?}: {}", r.0.unwrap_err());
                    let mut other = d.to_vec();
                    other.push(1);
                    let r = at_times(&[*t, *at], *step, || vfy_plain(&k.pk, &b, &other, false));
                    ensure!(r.0.is_err(), "at {t:?}, other data verifies");
                }
                cx.label("signed and verified at other times");
            }
            Case::Stamp { at, k } => {
                let k = key(*k % 24);
                let b = at_times(&[*at], 0, || minisign::sign(None, &k.sk, &b"x"[..], None, None)).0.map_err(|e| format!("signing at {at:?} fails: {e}"))?;
                let t = b.trusted_comment().map_err(|e| e.to_string())?;
                ensure!(t == format!("timestamp:{}", at.0), "the trusted comment at {at:?} is {t:?}");
                ensure!(at_times(&[*at], 0, || vfy_plain(&k.pk, &b, b"x", false)).0.is_ok(), "what is signed at {at:?} does not verify");
                cx.label("default comments");
            }
            Case::Limits { limits, seed, slow } => {
                let before = battery(*seed, *slow, false);
                let after = {
                    let _l = Limited::to(limits);
                    battery(*seed, *slow, false)
                };
                same(&before, &after, &|| format!("under the limits {limits:?}"))?;
                cx.label("other limits");
            }
        }
        cx.nontrivial();
        Ok(())
    }
}
