//! Calls leave nothing behind but their results.
use crate::dict;
use crate::effects::recorded;
use crate::engine::*;
use crate::util::*;
use getrandom::ctl::{self, Mode};
use minisign::{KeyPair, PError, PublicKey, SecretKey, SecretKeyBox, SignatureBones, SignatureBox};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::Cursor;
use std::path::{Path, PathBuf};
use vref::mini;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    /// Operations, by number and variant, in a row: what they do to files and the process.
    Effects { ops: Vec<(u8, u32)> },
    /// One operation, many times, on ever new inputs: what it keeps.
    Keep { op: u8, n: u32, seed: u32 },
}
const OPS: [&str; 32] = [
    "generate",
    "generate and write",
    "sign",
    "verify",
    "verify other data",
    "verify with another key",
    "verify with output",
    "verify, not quiet",
    "verify a legacy signature",
    "verify a bare signature",
    "load a signature",
    "load a broken signature",
    "load a public key",
    "load a broken public key",
    "load a secret key",
    "load a broken secret key",
    "open an encrypted key",
    "open with a wrong password",
    "open with a typed password",
    "load a signature from a file",
    "load a broken signature from a file",
    "load from a file that is not there",
    "load a public key from a file",
    "load a secret key from a file",
    "sign with a failing reader",
    "verify with a failing reader",
    "compare, copy and show",
    "write to a failing writer",
    "generate with a failing random source",
    "generate encrypted",
    "passwords that do not match",
    "long data and comments",
];
/// The time one takes, in units of about a tenth of a millisecond.
fn weight(op: u8) -> u32 {
    match op {
        16..=18 | 23 => 60,
        29 => 1000,
        31 => 50,
        _ => 1,
    }
}

/// A directory with files to load, removed again.
struct Dir(PathBuf);
impl Dir {
    fn new() -> Dir {
        let p = scratch().join("c29");
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        Dir(p)
    }
    /// A file with that text, reached in one of several ways.
    fn put(&self, name: &str, text: &[u8], x: u32) -> PathBuf {
        use std::os::unix::fs::PermissionsExt;
        let long = self.0.join("l".repeat(120)).join("o".repeat(250));
        let p = match x / 3 % 7 {
            0 | 1 => self.0.join(name),
            2 => long.join(name),
            3 => long.join("n".repeat(255)),
            4 => self.0.join("s").join(name),
            _ => PathBuf::from(name),
        };
        std::fs::create_dir_all(self.0.join(&p).parent().unwrap()).unwrap();
        let _ = std::fs::remove_file(self.0.join(&p));
        std::fs::write(self.0.join(&p), text).unwrap();
        let mode = [0o644, 0o400, 0o640, 0o666, 0o755, 0o600][x as usize / 21 % 6];
        std::fs::set_permissions(self.0.join(&p), std::fs::Permissions::from_mode(mode)).unwrap();
        if x / 3 % 7 == 4 {
            let q = self.0.join("link");
            let _ = std::fs::remove_file(&q);
            std::os::unix::fs::symlink(p, &q).unwrap();
            return q;
        }
        p
    }
    /// Names, contents, times and rights.
    fn state(&self) -> Vec<String> {
        use std::os::unix::fs::MetadataExt;
        fn walk(p: &Path, v: &mut Vec<String>) {
            for e in std::fs::read_dir(p).unwrap() {
                let p = e.unwrap().path();
                let m = std::fs::symlink_metadata(&p).unwrap();
                let c = if m.is_file() { fnv(&std::fs::read(&p).unwrap_or_default()) } else { 0 };
                v.push(format!("{p:?}: {} bytes, modified {}.{}, mode {:o}, inode {}, links {}, contents {c:x}", m.len(), m.mtime(), m.mtime_nsec(), m.mode(), m.ino(), m.nlink()));
                if m.is_dir() {
                    walk(&p, v);
                }
            }
        }
        let mut v = vec![];
        walk(&self.0, &mut v);
        v.sort();
        v
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

struct Failing(usize);
impl std::io::Write for Failing {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 {
            return Err(Fault::Other.err());
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

type Run<'a> = Box<dyn FnOnce() -> Result<(), PError> + 'a>;
/// Makes the inputs of operation `op`, variant `x`, none of which was there before, and gives the call to make.
fn prepare<'a>(op: u8, x: u32, dir: &'a Dir) -> Run<'a> {
    let unit = |r: Result<SignatureBox, PError>| r.map(|_| ());
    let d = stream(x as u64 | 3 << 40, 8 + x as usize % 90);
    let text = format!("{x} {}", &hex(&d)[..10]);
    ctl::install(Mode::Stream(x as u64 | (op as u64) << 33), None, 5);
    let kp = || KeyPair::generate_unencrypted_keypair().expect("generate");
    let sign = |kp: &KeyPair, d: &[u8]| minisign::sign(None, &kp.sk, d, Some(&text), Some(&text)).expect("sign");
    let cut = |mut v: Vec<u8>| {
        let n = x as usize % v.len();
        match x % 4 {
            0 => v.truncate(n),
            1 => v[n] ^= 1 << (x / 4 % 7),
            2 => v.insert(n, 0x20 + (x / 4 % 90) as u8),
            _ => {
                v.remove(n);
            }
        }
        v
    };
    let lossy = |v: Vec<u8>| String::from_utf8_lossy(&v).into_owned();
    let cheap = |pw: &str| {
        let b = stream(x as u64 | 5 << 40, 72);
        let k = mini::SecKey::plain(b[64..].try_into().unwrap(), b[..32].try_into().unwrap(), b[32..64].try_into().unwrap());
        k.encrypt(pw.as_bytes(), stream(x as u64 | 7 << 40, 32).try_into().unwrap(), 32768, 4096).expect("encrypt").to_file(&text)
    };
    match op as usize % OPS.len() {
        0 => Box::new(|| KeyPair::generate_unencrypted_keypair().map(|_| ())),
        1 => Box::new(|| KeyPair::generate_and_write_unencrypted_keypair(std::io::sink(), vec![]).map(|_| ())),
        2 => {
            let k = kp();
            Box::new(move || {
                let b = minisign::sign(x.is_multiple_of(2).then_some(&k.pk), &k.sk, &d[..], Some(&text), (x % 3 != 0).then_some(&text))?;
                let _ = (b.to_string(), b.to_bytes(), b.clone().into_string());
                Ok(())
            })
        }
        3..=7 => {
            let (k, o) = (kp(), kp());
            let b = sign(&k, &d);
            Box::new(move || match op as usize % OPS.len() {
                3 => minisign::verify(&k.pk, &b, Cursor::new(&d), true, false, x % 2 == 0),
                4 => minisign::verify(&k.pk, &b, Cursor::new(&d[1..]), true, x % 2 == 0, false),
                5 => minisign::verify(&o.pk, &b, Cursor::new(&d), true, x % 2 == 0, false),
                6 => minisign::verify(&k.pk, &b, Cursor::new(&d), true, true, false),
                _ => minisign::verify(&k.pk, &b, Cursor::new(&d), false, x % 2 == 0, false),
            })
        }
        8 | 9 => {
            let k = key(x % 24);
            let bare = op as usize % OPS.len() == 9;
            let m = mini::Sig::make(bare && x % 2 == 0, &k.seed, &k.id, &d, &text, "u");
            let b = load(&m.to_file()).expect("signature");
            Box::new(move || {
                let b: SignatureBox = if bare { SignatureBones::from_bytes(&SignatureBones::from(b).to_bytes())?.into() } else { b };
                minisign::verify(&k.pk, &b, Cursor::new(&d), true, false, x % 3 != 0)
            })
        }
        10 | 11 | 19 | 20 => {
            let t = sign(&kp(), &d).to_bytes();
            let t = if op % 2 == 0 && op != 10 || op == 11 { cut(t) } else { t };
            if op < 19 {
                Box::new(move || unit(SignatureBox::from_string(&lossy(t))))
            } else {
                let p = dir.put("sig", &t, x);
                Box::new(move || unit(SignatureBox::from_file(p)))
            }
        }
        12 | 13 | 22 => {
            let t = kp().pk.to_box().expect("box").to_bytes();
            let t = if op == 13 || op == 22 && x % 3 == 0 { cut(t) } else { t };
            if op == 22 {
                let p = dir.put("pub", &t, x);
                Box::new(move || PublicKey::from_file(p).map(|_| ()))
            } else {
                Box::new(move || {
                    let t = lossy(t);
                    let _ = PublicKey::from_base64(t.lines().nth(1).unwrap_or("")).map(|k| (k.to_base64(), k.to_bytes(), k.keynum().to_vec()));
                    PublicKey::from_box(t.into()).map(|_| ())
                })
            }
        }
        14 | 15 => {
            let t = kp().sk.to_box(Some(&text)).expect("box").to_bytes();
            let t = if op == 15 { cut(t) } else { t };
            Box::new(move || {
                let _ = SecretKey::from_bytes(&t).map(|k| k.to_bytes());
                SecretKeyBox::from(lossy(t)).into_unencrypted_secret_key().map(|_| ())
            })
        }
        16..=18 | 23 => {
            let t = cheap(&text);
            let op = op as usize % OPS.len();
            let pw = match op {
                18 => {
                    rpassword::ctl::install(vec![Some(match x % 3 {
                        0 => text.clone(),
                        1 => "other".into(),
                        _ => String::new(),
                    })]);
                    None
                }
                17 => Some(format!("{text} ")),
                _ => Some(text.clone()),
            };
            if op == 23 {
                let p = dir.put("key", t.as_bytes(), x);
                Box::new(move || SecretKey::from_file(p, pw).map(|_| ()))
            } else {
                Box::new(move || SecretKeyBox::from(t).into_secret_key(pw).map(|_| ()))
            }
        }
        21 => {
            let p = match x % 3 {
                0 => dir.0.join(format!("no {text}")),
                1 => dir.0.clone(),
                _ => dir.0.join("no").join(&text),
            };
            Box::new(move || match x / 3 % 3 {
                0 => unit(SignatureBox::from_file(p)),
                1 => PublicKey::from_file(p).map(|_| ()),
                _ => SecretKey::from_file(p, Some(text)).map(|_| ()),
            })
        }
        24 | 25 => {
            let k = kp();
            let b = sign(&k, &d);
            Box::new(move || {
                let mut r = Rd::new(&d, &[3]);
                r.fail = Some((x as usize % 6, FAULTS[x as usize % FAULTS.len()]));
                r.once = x % 2 == 0;
                if op % 2 == 0 {
                    unit(minisign::sign(None, &k.sk, r, Some(&text), None))
                } else {
                    minisign::verify(&k.pk, &b, r, true, x % 3 == 0, false)
                }
            })
        }
        26 => {
            let k = kp();
            let b = sign(&k, &d);
            Box::new(move || {
                let c = k.clone();
                let _ = (c.pk == k.pk, c.sk == k.sk, format!("{:?}", c.pk), format!("{:?}", c.sk).len(), c.sk.keynum().to_vec());
                let _ = (b.trusted_comment()?, b.untrusted_comment()?, b.keynum().to_vec(), b.is_prehashed());
                let _ = (PublicKey::from_secret_key(&k.sk)? == k.pk, k.sk.to_box(Some(&text))?.to_string(), k.pk.to_box()?.into_string());
                let e = minisign::verify(&k.pk, &b, Cursor::new(b"-"), true, false, false).unwrap_err();
                let _ = (e.to_string(), format!("{e:?}"));
                Ok(())
            })
        }
        27 => Box::new(move || {
            if x % 2 == 0 {
                KeyPair::generate_and_write_unencrypted_keypair(Failing(x as usize % 30), vec![]).map(|_| ())
            } else {
                KeyPair::generate_and_write_unencrypted_keypair(vec![], Failing(x as usize % 90)).map(|_| ())
            }
        }),
        28 => {
            let k = kp();
            ctl::install(Mode::Stream(x as u64), Some(x as usize / 2 % 3), 5 + x % 40);
            Box::new(move || {
                if x % 2 == 0 {
                    KeyPair::generate_encrypted_keypair(None).map(|_| ())
                } else {
                    unit(minisign::sign(None, &k.sk, &d[..], Some(&text), None))
                }
            })
        }
        29 => {
            let typed = x % 2 == 0;
            let text = if x % 3 == 2 { String::new() } else { text };
            rpassword::ctl::install(vec![Some(text.clone()); 2]);
            Box::new(move || KeyPair::generate_and_write_encrypted_keypair(vec![], vec![], Some("c"), (!typed).then_some(text)).map(|_| ()))
        }
        30 => {
            let too_long = "x".repeat(1025 + x as usize % 9);
            rpassword::ctl::install(match x % 5 {
                4 => vec![Some(String::new()), Some(text.clone())],
                0 => vec![Some(text.clone()), Some(format!("{text}x"))],
                1 => vec![None],
                2 => vec![Some(too_long)],
                _ => vec![Some(text.clone()), None],
            });
            Box::new(|| KeyPair::generate_encrypted_keypair(None).map(|_| ()))
        }
        _ => {
            let k = kp();
            let d = stream(x as u64, 70_000 + x as usize % 70_000);
            let c = text.repeat(1 + x as usize % 2000);
            Box::new(move || {
                let b = minisign::sign(Some(&k.pk), &k.sk, &d[..], Some(&c), Some(&c))?;
                let b = SignatureBox::from_string(&b.into_string())?;
                minisign::verify(&k.pk, &b, Cursor::new(&d), false, true, false)
            })
        }
    }
}

/// What there is about this process that a call could change.
fn process() -> Vec<(&'static str, String)> {
    let mut v = vec![];
    let mut env: Vec<_> = std::env::vars_os().map(|(a, b)| format!("{a:?}={b:?}")).collect();
    env.sort();
    v.push(("the environment variables", env.join(" ")));
    v.push(("the working directory", format!("{:?}", std::env::current_dir())));
    let status = std::fs::read_to_string("/proc/self/status").unwrap_or_default();
    v.push(("the umask, user or signal handling", status.lines().filter(|l| ["Umask", "Uid", "Gid", "Groups", "SigBlk", "SigIgn", "SigCgt", "NoNewPrivs", "Seccomp:", "CoreDumping"].iter().any(|p| l.starts_with(p))).collect::<Vec<_>>().join(" ")));
    // those of this thread, where they are a thread's own
    let status = std::fs::read_to_string("/proc/thread-self/status").unwrap_or_default();
    v.push(("the thread's signal mask, processors or locked memory", status.lines().filter(|l| ["SigBlk", "Cpus_allowed:", "VmLck", "NoNewPrivs", "Seccomp:"].iter().any(|p| l.starts_with(p))).collect::<Vec<_>>().join(" ")));
    v.push(("the thread's name", std::fs::read_to_string("/proc/thread-self/comm").unwrap_or_default()));
    v.push(("the scheduling, personality, timers or dumping", unsafe {
        let mut t: libc::itimerval = std::mem::zeroed();
        let mut timers = vec![];
        for w in [libc::ITIMER_REAL, libc::ITIMER_VIRTUAL, libc::ITIMER_PROF] {
            libc::syscall(libc::SYS_getitimer, w, &mut t);
            timers.push(t.it_value.tv_sec != 0 || t.it_value.tv_usec != 0);
        }
        format!("{} {} {timers:?} {}", libc::sched_getscheduler(0), libc::personality(0xffff_ffff), libc::prctl(libc::PR_GET_DUMPABLE))
    }));
    v.push(("the limits", std::fs::read_to_string("/proc/self/limits").unwrap_or_default()));
    let fds: Vec<String> = (0..3)
        .map(|n| unsafe {
            let mut s: libc::stat = std::mem::zeroed();
            let r = libc::fstat(n, &mut s);
            format!("{r} {} {} {} {}", s.st_dev, s.st_ino, libc::fcntl(n, libc::F_GETFL), libc::fcntl(n, libc::F_GETFD))
        })
        .collect();
    v.push(("the standard streams", fds.join(", ")));
    v.push(("the priority", unsafe { libc::getpriority(libc::PRIO_PROCESS, 0) }.to_string()));
    v.push(("the locale", unsafe {
        let p = libc::setlocale(libc::LC_ALL, std::ptr::null());
        if p.is_null() { String::new() } else { std::ffi::CStr::from_ptr(p).to_string_lossy().into_owned() }
    }));
    v
}
fn descriptors() -> usize {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}
fn threads() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(1)
}

thread_local!(static HOOK: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });

/// In that directory, and with the places where programs leave things there, while it lives.
struct Inside(PathBuf, Vec<(&'static str, Option<std::ffi::OsString>)>);
const PLACES: [&str; 6] = ["HOME", "TMPDIR", "XDG_CACHE_HOME", "XDG_CONFIG_HOME", "XDG_DATA_HOME", "XDG_RUNTIME_DIR"];
impl Inside {
    fn of(p: &Path) -> Inside {
        let old = PLACES.iter().map(|n| (*n, std::env::var_os(n))).collect();
        for n in PLACES {
            std::env::set_var(n, p);
        }
        let cwd = std::env::current_dir().unwrap_or("/".into());
        std::env::set_current_dir(p).unwrap();
        Inside(cwd, old)
    }
}
impl Drop for Inside {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir(&self.0);
        for (n, v) in &self.1 {
            match v {
                Some(v) => std::env::set_var(n, v),
                None => std::env::remove_var(n),
            }
        }
    }
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C29";
    const SHRINK: u32 = 300;
    const RULE: &'static str = "32 operations, successful and failing ones of every public function. In rows of up to 12: the C functions that write or remove files, connect, start programs or alter the process are recorded in front of the C library's, and a directory with the files involved (also HOME, TMPDIR, the working directory), environment, limits, signal handling, umask, standard streams, priority, locale and panic hook are compared before and after: none may differ. One operation many times on ever new inputs (after a quarter of them): live heap may not grow by 12 bytes a call, nor descriptors or threads by more than 3. Non-trivial: operations were carried out and looked at.";
    const ASSUMPTIONS: &'static [&'static str] =
        &["effects by system calls that bypass the C library are seen only where they show in what is compared", "a cache that is full after a quarter of the calls is no leak"];
    fn fixed(t: Tier) -> Vec<Case> {
        let mut v = vec![];
        for op in 0..OPS.len() as u8 {
            for x in 0..if weight(op) > 100 { 4 } else if (19..24).contains(&op) { 64 } else { 16u32 } {
                v.push(Case::Effects { ops: vec![(op, x)] });
            }
            v.push(Case::Keep { op, n: t.pick(20_000u32, 200_000) / if weight(op) == 60 { 16 } else { weight(op) }, seed: 1 });
        }
        // texts of the source as variants
        v.extend(dict::nums(0, 1 << 31).into_iter().take(100).map(|n| Case::Effects { ops: vec![(n as u8 % 29, n as u32)] }));
        v
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let op = (0..OPS.len() as u8 - 3).prop_map(|o| if o == 29 { 31 } else { o });
        prop_oneof![
            20 => proptest::collection::vec((op.clone(), any::<u32>()), 1..12).prop_map(|ops| Case::Effects { ops }),
            1 => (op, 100u32..400, any::<u32>()).prop_map(|(op, n, seed)| Case::Keep { op, n: n / weight(op) + 4, seed }),
        ]
        .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(6_000, 200_000)
    }
    fn fast_only(c: &Case) -> bool {
        matches!(c, Case::Keep { .. })
    }
    fn check(c: &Case, cx: &mut Cx) -> R {
        // the C library installs two handlers of its own with the first thread of a process
        static FIRST: std::sync::Once = std::sync::Once::new();
        FIRST.call_once(|| drop(std::thread::spawn(|| {}).join()));
        let dir = Dir::new();
        let _in = Inside::of(&dir.0);
        match c {
            Case::Effects { ops } => {
                for (op, x) in ops {
                    let what = OPS[*op as usize % OPS.len()];
                    let run = prepare(*op, *x, &dir);
                    let files = dir.state();
                    let mut diff = None;
                    let got = capture(|| {
                        let before = process();
                        let (r, log) = recorded(run);
                        let after = process();
                        diff = before.into_iter().zip(after).find(|(a, b)| a != b);
                        (r.is_ok(), log)
                    });
                    let (done, log) = got.ret;
                    ensure!(log.is_empty(), "{what}, variant {x}: {log:?}");
                    if let Some(((n, a), (_, b))) = diff {
                        return Err(format!("{what}, variant {x}: {n} changed from {a:?} to {b:?}"));
                    }
                    let now = dir.state();
                    ensure!(files == now, "{what}, variant {x}: the files were {files:?} and are {now:?}");
                    cx.label(format!("{what}{}", if done { "" } else { ": error" }));
                }
                // what a panic does afterwards is the program's choice still
                let mine = std::panic::take_hook();
                std::panic::set_hook(Box::new(|_| HOOK.with(|h| h.set(h.get() + 1))));
                HOOK.with(|h| h.set(0));
                for (op, x) in ops.iter().filter(|(op, _)| weight(*op) < 30) {
                    let run = prepare(*op, *x, &dir);
                    let _ = capture(run);
                }
                let during = HOOK.with(|h| h.get());
                let _ = std::panic::catch_unwind(|| panic!("a panic of the program"));
                let seen = HOOK.with(|h| h.get());
                std::panic::set_hook(mine);
                ensure!(during == 0, "a panic inside the library");
                ensure!(seen == 1, "the program's panic hook is not called any more after {ops:?}");
                cx.nontrivial();
            }
            Case::Keep { op, n, seed } => {
                let what = OPS[*op as usize % OPS.len()];
                let first = n / 4;
                (0..24).for_each(|n| drop(key(n)));
                let mut start = (0, 0, 0);
                let cap = capture(|| {
                    for i in 0..*n {
                        if i == first {
                            rpassword::ctl::install(vec![]);
                            ctl::install(Mode::Stream(0), None, 5);
                            start = (crate::alloc::reset_peak(), descriptors(), threads());
                        }
                        let _ = prepare(*op, seed.wrapping_mul(0x9e37_79b1).wrapping_add(i), &dir)();
                        if i % 64 == 0 {
                            // what was printed is of no interest
                            unsafe {
                                libc::ftruncate(1, 0);
                                libc::ftruncate(2, 0);
                            }
                        }
                    }
                    rpassword::ctl::install(vec![]);
                    ctl::install(Mode::Stream(0), None, 5);
                    (crate::alloc::reset_peak(), descriptors(), threads())
                });
                let end = cap.ret;
                let calls = (n - first) as usize;
                let grown = end.0.saturating_sub(start.0);
                ensure!(grown < 12 * calls + 8192, "{what}: {calls} calls keep {grown} bytes");
                ensure!(end.1 <= start.1 + 3, "{what}: {calls} calls keep {} descriptors open", end.1 - start.1);
                if end.2 > start.2 + 3 {
                    std::thread::sleep(std::time::Duration::from_secs(5));
                    let now = threads();
                    ensure!(now <= start.2 + 3, "{what}: {calls} calls leave {} threads", now - start.2);
                }
                cx.label(format!("many times: {what}"));
                cx.nontrivial();
            }
        }
        Ok(())
    }
}
