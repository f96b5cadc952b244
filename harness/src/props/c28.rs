//! How a file is named and reached, and what surrounds the process, changes nothing.
use crate::dict;
use crate::engine::*;
use crate::util::*;
use getrandom::ctl::{self, Mode};
use minisign::{KeyPair, PublicKey, SecretKey, SecretKeyBox, SignatureBones, SignatureBox};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::ffi::{OsStr, OsString};
use std::io::{Seek, Write};
use std::os::fd::AsRawFd;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::OpenOptionsExt;
use std::path::{Path, PathBuf};
use vref::mini;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Sig,
    Pk,
    Sk,
}
const KINDS: [Kind; 3] = [Kind::Sig, Kind::Pk, Kind::Sk];
/// How the path leads to the file.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Via {
    Absolute,
    /// the bare name, from the directory it is in
    Relative,
    Dot,
    DotDot,
    Deep,
    /// a symbolic link of that name to a file of another
    Symlink,
    /// a link of another name to it
    LinkTo,
    Hardlink,
    ReadOnly,
    /// a pipe that holds the content
    Pipe,
    /// the path of an open file descriptor
    Descriptor,
    /// a file that was removed while open
    Removed,
    /// a named pipe into which another thread writes in pieces
    Pieces,
    /// a file with these rights
    Mode(u16),
    /// a file of another user
    Foreign,
    /// a file last changed at this time
    Time(i64),
    /// in directories with long names
    Long,
}
const MODES: [u16; 10] = [0o000, 0o200, 0o444, 0o600, 0o640, 0o644, 0o666, 0o777, 0o4755, 0o1666];
const TIMES: [i64; 6] = [0, 1, -1, 1_000_000_000, 4_102_444_800, 15_000_000_000];
const VIAS: [Via; 15] = [Via::Absolute, Via::Relative, Via::Dot, Via::DotDot, Via::Deep, Via::Symlink, Via::LinkTo, Via::Hardlink, Via::ReadOnly, Via::Pipe, Via::Descriptor, Via::Removed, Via::Pieces, Via::Foreign, Via::Long];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    /// `bad`: the content is cut there; `siblings`: files of related names hold other keys and signatures
    Named { kind: Kind, key: u32, name: Hex, via: Via, bad: Option<usize>, long: usize, siblings: bool },
    /// there is no such file, but there are files of related names
    Missing { kind: Kind, name: Hex, relative: bool },
    Around { vars: Vec<(String, String)>, cwd: u8, stdin: u8, seed: u8, slow: bool },
}
const NAMES: &[&str] = &[
    "x", "-", "--", "-x", "~", "~root", "~x", "$HOME", "${HOME}", "%HOME%", "*", "?", "x*", "[x]", "{a,b}", "con", "nul", "stdin", "a b", " lead", "trail ", "é", "e\u{301}", "new\nline", "cr\r", "tab\t", ".hidden", "..x", "...", "x.",
    "file:x", "http:x", "data:x", "x.minisig", "x.pub", "x.key", "x.sec", "x.gz", "x.txt", "x.sig", "x.asc", "x.b64", "x.json", "x.zip", "x.bin", "x.der", "x.pem", "x.rsign", "@x", "%41", "&amp;", "\\x", "#x", "x#y", "x?y", "x:y", "x;y", "|x", "<x", ">x", "'x'", "\"x\"",
    "X", "minisign.pub", "minisign.key", "rsign.pub", "rsign.key", ".rsign", ".minisign", "RWQ", "RUQ", "untrusted comment: x", "0", "1", "fd", "\u{1f511}", "\u{202e}x", "\u{feff}x",
];
const VARS: &[&str] = &[
    "RSIGN_CONFIG_DIR", "MINISIGN_CONFIG_DIR", "MINISIGN_PASSWORD", "RSIGN_PASSWORD", "MINISIGN_PASSWD", "PASSWORD", "MINISIGN", "RSIGN", "MINISIGN_ALLOW_LEGACY", "MINISIGN_LEGACY", "MINISIGN_QUIET", "MINISIGN_DEBUG", "MINISIGN_TRUSTED_COMMENT", "MINISIGN_COMMENT", "MINISIGN_KEY", "MINISIGN_PUBKEY",
    "HOME", "USER", "TMPDIR", "LANG", "LC_ALL", "LC_CTYPE", "TZ", "TERM", "COLUMNS", "LINES", "NO_COLOR", "CLICOLOR_FORCE", "CI", "DEBUG", "QUIET", "VERBOSE", "RUST_LOG", "RUST_BACKTRACE", "PATH", "PWD", "SHELL", "XDG_CONFIG_HOME", "TESTING", "FAKETIME", "PROMPT", "EDITOR", "POSIXLY_CORRECT", "OPENSSL_FIPS",
];
/// Names of variables that the source mentions.
fn source_vars() -> Vec<String> {
    dict::texts().into_iter().filter(|s| s.len() > 2 && s.len() < 60 && s.bytes().all(|b| b.is_ascii_uppercase() || b.is_ascii_digit() || b == b'_') && s.bytes().any(|b| b.is_ascii_uppercase())).collect()
}
fn values() -> Vec<String> {
    let mut v: Vec<String> = ["", "0", "1", "true", "yes", "no", "-1", "x", "/", ".", "C", "UTC", "4096", "debug"].iter().map(|s| s.to_string()).collect();
    v.push("\u{e9}".into());
    v
}

fn content(kind: Kind, n: u32) -> String {
    let k = key(n);
    match kind {
        Kind::Sig => mini::Sig::make(n % 3 != 0, &k.seed, &k.id, b"data", "tc", "uc").to_file(),
        Kind::Pk => k.rpk.to_file(),
        Kind::Sk => k.rsk.clone().encrypt(b"pw", [3; 32], 32768, 4096).unwrap().to_file("c"),
    }
}
fn from_text(kind: Kind, s: &str) -> Option<Vec<u8>> {
    match kind {
        Kind::Sig => SignatureBox::from_string(s).ok().map(|b| b.to_bytes()),
        Kind::Pk => PublicKey::from_box(s.to_string().into()).ok().map(|k| k.to_bytes()),
        Kind::Sk => SecretKeyBox::from(s.to_string()).into_secret_key(Some("pw".into())).ok().map(|k| k.to_bytes()),
    }
}
fn from_path(kind: Kind, p: &Path) -> Option<Vec<u8>> {
    match kind {
        Kind::Sig => SignatureBox::from_file(p).ok().map(|b| b.to_bytes()),
        Kind::Pk => PublicKey::from_file(p).ok().map(|k| k.to_bytes()),
        Kind::Sk => SecretKey::from_file(p, Some("pw".into())).ok().map(|k| k.to_bytes()),
    }
}

/// An empty directory, removed again.
struct Dir(PathBuf);
impl Dir {
    fn new() -> Dir {
        let p = scratch().join("c28");
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(p.join("sub")).unwrap();
        Dir(p)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// In another directory while it lives.
struct Cwd(PathBuf);
impl Cwd {
    fn to(p: &Path) -> Cwd {
        let old = std::env::current_dir().unwrap_or("/".into());
        std::env::set_current_dir(p).unwrap();
        Cwd(old)
    }
}
impl Drop for Cwd {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir(&self.0);
    }
}
fn related(name: &OsStr) -> Vec<OsString> {
    let mut v: Vec<OsString> = [".minisig", ".pub", ".key", ".sig", ".txt", ".bak", ".gz", "~", ".old", "_"].iter().map(|e| [name.as_bytes(), e.as_bytes()].concat()).map(|b| OsStr::from_bytes(&b).to_os_string()).collect();
    let p = Path::new(name);
    for e in ["minisig", "pub", "key"] {
        v.push(p.with_extension(e).into_os_string());
    }
    v.push(p.file_stem().unwrap_or(name).to_os_string());
    let t = String::from_utf8_lossy(name.as_bytes()).into_owned();
    for s in [t.trim().to_string(), t.to_lowercase(), t.to_uppercase(), t.trim_start_matches(['-', '~', '@', '.']).to_string(), t.replace('%', ""), t.replace('\\', "")] {
        v.push(s.into());
    }
    v.retain(|s| s != name && !s.is_empty() && s.len() < 256 && s != "." && s != ".." && s != "sub" && !s.as_bytes().contains(&b'/'));
    v
}
/// A directory whose files are named after all that the source mentions.
fn decoys(which: u8) -> PathBuf {
    let p = scratch().join(format!("c28-decoys-{}", which % 2));
    if !p.exists() {
        let kind = if which % 2 == 0 { Kind::Pk } else { Kind::Sk };
        const DIRS: [&str; 6] = ["", ".rsign", ".minisign", ".config", ".config/minisign", ".config/rsign"];
        for d in DIRS {
            std::fs::create_dir_all(p.join(d)).unwrap();
        }
        for d in DIRS {
            let d = p.join(d);
            for n in NAMES.iter().map(|s| s.to_string()).chain(dict::texts()) {
                if n.len() < 200 && !n.contains(['/', '\0']) && !d.join(&n).exists() {
                    std::fs::write(d.join(&n), content(kind, 4)).unwrap();
                }
            }
        }
    }
    p
}

/// What a row of operations gives, as bytes: results, errors and what was printed.
pub fn battery(seed: u8, slow: bool, defaults: bool) -> Vec<(&'static str, Vec<u8>)> {
    let (n, o) = (seed as u32 % 24 + 5, seed as u32 % 24 + 6);
    let (k, other) = (key(n), key(o));
    let d = stream(seed as u64, seed as usize * 3);
    let mut v: Vec<(&'static str, Vec<u8>)> = vec![];
    ctl::install(Mode::Stream(seed as u64), None, 5);
    rpassword::ctl::install(vec![Some("typed".into()), Some("typed".into())]);
    let mut add = |what: &'static str, f: &mut dyn FnMut() -> Result<Vec<u8>, minisign::PError>| {
        let got = capture(|| f().map_err(|e| format!("{e} {e:?}")));
        let r = match got.ret {
            Ok(b) => [b"ok ", &b[..]].concat(),
            Err(e) => e.into_bytes(),
        };
        v.push((what, [&r[..], b"\nstdout ", &got.out, b"\nstderr ", &got.err].concat()));
    };
    let unit = |r: minisign::Result<()>| r.map(|_| vec![]);
    let legacy = load(&mini::Sig::make(false, &k.seed, &k.id, &d, "tc", "uc").to_file()).expect("legacy signature");
    let good = load(&mini::Sig::make(true, &k.seed, &k.id, &d, "timestamp:1", "uc").to_file()).expect("signature");
    let enc = |pw: &str| SecretKeyBox::from(k.rsk.clone().encrypt(pw.as_bytes(), [3; 32], 32768, 4096).unwrap().to_file("c"));
    add("signing", &mut || minisign::sign(Some(&k.pk), &k.sk, &d[..], Some("t"), Some("u")).map(|b| b.to_bytes()));
    let mut at_present = || {
        minisign::sign(None, &k.sk, &d[..], None, None).and_then(|b| {
            let t = b.trusted_comment()?;
            let now = t.strip_prefix("timestamp:").and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
            let real = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
            // the time itself is not the same twice
            Ok(if now.abs_diff(real) < 600 { b.untrusted_comment()?.into_bytes() } else { t.into_bytes() })
        })
    };
    if defaults {
        add("signing with default comments", &mut at_present);
    }
    add("signing with another public key", &mut || minisign::sign(Some(&other.pk), &k.sk, &d[..], Some("t"), Some("u")).map(|b| b.to_bytes()));
    for (quiet, output) in [(true, true), (false, false)] {
        let c = || std::io::Cursor::new(&d);
        add("verifying", &mut || unit(minisign::verify(&k.pk, &good, c(), quiet, output, false)));
        add("verifying a bare signature", &mut || unit(minisign::verify(&k.pk, &SignatureBones::from(good.clone()).into(), c(), quiet, output, false)));
        add("verifying with another key", &mut || unit(minisign::verify(&other.pk, &good, c(), quiet, output, false)));
        add("verifying other data", &mut || unit(minisign::verify(&k.pk, &good, std::io::Cursor::new(b"other"), quiet, output, true)));
        add("verifying a legacy signature, not allowed", &mut || unit(minisign::verify(&k.pk, &legacy, c(), quiet, output, false)));
        add("verifying a legacy signature", &mut || unit(minisign::verify(&k.pk, &legacy, c(), quiet, output, true)));
    }
    add("loading a public key", &mut || PublicKey::from_box(k.rpk.to_file().into()).map(|k| k.to_box().map(|b| b.to_bytes()))?);
    add("loading a public key from base64", &mut || PublicKey::from_base64(&k.pk.to_base64()).map(|k| k.to_bytes()));
    add("loading a broken public key", &mut || PublicKey::from_base64("RWQ").map(|k| k.to_bytes()));
    add("loading a secret key", &mut || SecretKeyBox::from(k.rsk.to_file("c")).into_unencrypted_secret_key().map(|k| k.to_box(None).map(|b| b.to_bytes()))?);
    add("opening a secret key", &mut || enc("pw").into_secret_key(Some("pw".into())).map(|k| k.to_bytes()));
    add("opening a secret key with a wrong password", &mut || enc("pw").into_secret_key(Some("pw2".into())).map(|k| k.to_bytes()));
    add("opening a secret key with an empty password", &mut || enc("").into_secret_key(Some("".into())).map(|k| k.to_bytes()));
    add("opening a secret key with a typed password", &mut || enc("typed").into_secret_key(None).map(|k| k.to_bytes()));
    add("opening an encrypted key without one", &mut || enc("pw").into_unencrypted_secret_key().map(|k| k.to_bytes()));
    add("loading a broken signature", &mut || SignatureBox::from_string("untrusted comment: x\nRUQ\n").map(|b| b.to_bytes()));
    add("loading from a file that is not there", &mut || SignatureBox::from_file(scratch().join("c28-no-such-file")).map(|b| b.to_bytes()));
    add("generating", &mut || KeyPair::generate_unencrypted_keypair().map(|k| [k.pk.to_bytes(), k.sk.to_bytes()].concat()));
    add("generating and writing", &mut || {
        let (mut a, mut b) = (vec![], vec![]);
        KeyPair::generate_and_write_unencrypted_keypair(&mut a, &mut b).map(|_| [a, b].concat())
    });
    if slow {
        add("generating encrypted", &mut || {
            let (mut a, mut b) = (vec![], vec![]);
            KeyPair::generate_and_write_encrypted_keypair(&mut a, &mut b, None, Some("pw".into())).map(|_| [a, b].concat())
        });
    }
    v
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C28";
    const SHRINK: u32 = 300;
    const RULE: &'static str = "Signatures, public keys and encrypted secret keys, whole or cut, in files of 75 odd names, up to 1 MiB long, names taken from the source, and random ones (non-UTF-8 included), reached in many ways (relative, through links, whole and slow pipes, descriptors, with any rights, owner and time, ...), with and without files of related names beside them: from_file must give what the content gives, and an error where there is no such file. And a row of about thirty operations under the same random stream, run in the process as it is and again with environment variables (44 common ones, those the source mentions, random ones) set, in a directory whose files are named after everything the source mentions, and with text or nothing on standard input: every result, error and printed byte must be the same, and standard input unread. Non-trivial: a file was loaded, or refused as its content is, or the row was run in both surroundings.";
    const ASSUMPTIONS: &'static [&'static str] = &["the clock, the limits and the privileges of the process are not varied"];
    fn fixed(_t: Tier) -> Vec<Case> {
        let mut v = vec![];
        let mut names: Vec<Vec<u8>> = NAMES.iter().map(|s| s.as_bytes().to_vec()).collect();
        names.extend([vec![0xff, 0xfe], b"x\xff.pub".to_vec(), vec![b'n'; 255], vec![b'n'; 100]]);
        names.extend(dict::bytes().into_iter().filter(|b| usable(b)));
        for (i, n) in names.into_iter().enumerate() {
            for kind in KINDS {
                for via in if i < 80 { vec![Via::Absolute, Via::Relative, VIAS[2 + i % 13]] } else { vec![VIAS[i % 15]] } {
                    v.push(Case::Named { kind, key: 9, name: Hex(n.clone()), via, bad: None, long: 0, siblings: i % 2 == 0 });
                }
                v.push(Case::Missing { kind, name: Hex(n.clone()), relative: i % 2 == 0 });
            }
        }
        for kind in KINDS {
            for via in VIAS {
                for bad in [None, Some(0), Some(30), Some(80)] {
                    v.push(Case::Named { kind, key: 9, name: Hex(b"x".to_vec()), via, bad, long: 0, siblings: true });
                }
                for long in [500, 4000, 8000, 40_000, 70_000, 1_100_000] {
                    v.push(Case::Named { kind, key: 9, name: Hex(b"x".to_vec()), via, bad: None, long, siblings: false });
                }
            }
            for via in MODES.into_iter().map(Via::Mode).chain(TIMES.into_iter().map(Via::Time)) {
                for key in [9, 10] {
                    v.push(Case::Named { kind, key, name: Hex(b"x".to_vec()), via, bad: None, long: 0, siblings: false });
                }
            }
            // lengths of the whole file on either side of those that buffers have
            let least = content(kind, 9).len();
            for e in 9..18 {
                for d in -1..2i64 {
                    v.push(Case::Named { kind, key: 9, name: Hex(b"x".to_vec()), via: VIAS[e % 2 * 12], bad: None, long: ((1 << e) + d).saturating_sub(least as i64).max(0) as usize, siblings: false });
                }
            }
            for (i, long) in dict::lens().into_iter().chain(dict::long_lens()).enumerate() {
                v.push(Case::Named { kind, key: 9, name: Hex(b"x".to_vec()), via: VIAS[i % 15], bad: None, long: long.min(2 << 20), siblings: false });
            }
        }
        let names: Vec<String> = VARS.iter().map(|s| s.to_string()).chain(source_vars()).collect();
        for (i, n) in names.iter().enumerate() {
            for (j, val) in values().into_iter().enumerate() {
                v.push(Case::Around { vars: vec![(n.clone(), val)], cwd: (i % 4) as u8, stdin: (j % 3) as u8, seed: (i + j) as u8, slow: false });
            }
        }
        for cwd in 0..4 {
            for stdin in 0..4 {
                v.push(Case::Around { vars: vec![], cwd, stdin, seed: cwd * 4 + stdin, slow: true });
                // all at once
                v.push(Case::Around { vars: names.iter().map(|n| (n.clone(), "1".to_string())).collect(), cwd, stdin, seed: 50 + cwd, slow: true });
            }
        }
        v
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        use proptest::collection::vec;
        let kind = || proptest::sample::select(KINDS.to_vec());
        let name = || {
            prop_oneof![
                3 => proptest::sample::select(NAMES.to_vec()).prop_map(|s| s.as_bytes().to_vec()),
                2 => vec(any::<u8>(), 1..20),
                2 => comment().prop_map(|s| s.into_bytes()),
                2 => (proptest::sample::select(NAMES.to_vec()), proptest::sample::select(NAMES.to_vec())).prop_map(|(a, b)| format!("{a}{b}").into_bytes()),
                1 => proptest::sample::select(dict::bytes()),
            ]
            .prop_map(|b| if usable(&b) { Hex(b) } else { Hex(b"x".to_vec()) })
        };
        let var = prop_oneof![
            3 => proptest::sample::select(VARS.to_vec()).prop_map(|s| s.to_string()),
            2 => proptest::sample::select(source_vars().into_iter().chain(["RSIGN_X".to_string()]).collect::<Vec<_>>()),
            1 => (proptest::sample::select(vec!["MINISIGN_", "RSIGN_", "SIG_", ""]), "[A-Z][A-Z_]{0,12}").prop_map(|(a, b)| format!("{a}{b}")),
        ];
        let via = prop_oneof![
            10 => proptest::sample::select(VIAS.to_vec()),
            1 => (0u16..0o2000).prop_map(Via::Mode),
            1 => (-1i64 << 33..1i64 << 34).prop_map(Via::Time),
        ];
        let val = prop_oneof![3 => proptest::sample::select(values()), 1 => comment().prop_map(|s| s.replace('\0', ""))];
        prop_oneof![
            6 => (kind(), keyn(), name(), via, proptest::option::weighted(0.3, 0usize..300), prop_oneof![4 => Just(0usize), 1 => 0usize..20_000], any::<bool>())
                .prop_map(|(kind, key, name, via, bad, long, siblings)| Case::Named { kind, key, name, via, bad, long, siblings }),
            1 => (kind(), name(), any::<bool>()).prop_map(|(kind, name, relative)| Case::Missing { kind, name, relative }),
            2 => (vec((var, val), 1..6), 0u8..4, 0u8..4, any::<u8>(), proptest::bool::weighted(0.03)).prop_map(|(vars, cwd, stdin, seed, slow)| Case::Around { vars, cwd, stdin, seed, slow }),
        ]
        .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(6_000, 200_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> R {
        match c {
            Case::Named { kind, key: n, name, via, bad, long, siblings } => {
                if !usable(&name.0) {
                    return Ok(());
                }
                let mut text = content(*kind, *n).replacen("untrusted comment: ", &format!("untrusted comment: {}", "long ".repeat(long / 5) + &"x".repeat(long % 5)), 1);
                if let Some(b) = bad {
                    text.truncate(b % (text.len() + 1));
                }
                let want = from_text(*kind, &text);
                let dir = Dir::new();
                let name = OsStr::from_bytes(&name.0);
                let plain = dir.0.join("plain");
                let p = dir.0.join(name);
                let write = |p: &Path| std::fs::write(p, &text).unwrap_or_else(|e| panic!("{p:?}: {e}"));
                if *siblings {
                    for s in related(name) {
                        let _ = std::fs::write(dir.0.join(s), content(*kind, n.wrapping_add(1)));
                    }
                }
                let mut cwd = None;
                let mut keep = None;
                let mut writer = None;
                let fd = |f: &std::fs::File| PathBuf::from(format!("/proc/self/fd/{}", f.as_raw_fd()));
                let path: PathBuf = match via {
                    Via::Absolute => {
                        write(&p);
                        p
                    }
                    Via::Relative => {
                        write(&p);
                        cwd = Some(Cwd::to(&dir.0));
                        name.into()
                    }
                    Via::Dot => {
                        write(&p);
                        cwd = Some(Cwd::to(&dir.0));
                        Path::new(".").join(name)
                    }
                    Via::DotDot => {
                        write(&p);
                        cwd = Some(Cwd::to(&dir.0.join("sub")));
                        Path::new("..").join(name)
                    }
                    Via::Deep => {
                        let d = dir.0.join("deep").join(name).join("er");
                        std::fs::create_dir_all(&d).unwrap();
                        write(&d.join(name));
                        d.join(name)
                    }
                    Via::Symlink => {
                        write(&dir.0.join("sub").join("plain"));
                        std::os::unix::fs::symlink("sub/plain", &p).unwrap();
                        p
                    }
                    Via::LinkTo => {
                        let q = dir.0.join("sub").join(name);
                        write(&q);
                        let _ = std::fs::remove_file(&plain);
                        std::os::unix::fs::symlink(&q, &plain).unwrap();
                        plain
                    }
                    Via::Hardlink => {
                        let q = dir.0.join("sub").join("plain");
                        write(&q);
                        std::fs::hard_link(q, &p).unwrap();
                        p
                    }
                    Via::ReadOnly => {
                        use std::os::unix::fs::PermissionsExt;
                        write(&p);
                        std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o400)).unwrap();
                        p
                    }
                    // more than a pipe takes
                    Via::Pipe if text.len() > 60_000 => return Ok(()),
                    Via::Pipe => {
                        let mut fds = [0i32; 2];
                        let (r, mut w) = unsafe {
                            use std::os::fd::FromRawFd;
                            assert!(libc::pipe(fds.as_mut_ptr()) == 0);
                            (std::fs::File::from_raw_fd(fds[0]), std::fs::File::from_raw_fd(fds[1]))
                        };
                        w.write_all(text.as_bytes()).unwrap();
                        drop(w);
                        let path = fd(&r);
                        keep = Some(r);
                        path
                    }
                    Via::Pieces => {
                        let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
                        assert!(unsafe { libc::mkfifo(c.as_ptr(), 0o600) } == 0);
                        let (t, q) = (text.clone(), p.clone());
                        let cut = (*n as usize * 7 + 20) % (t.len() + 1);
                        // opening waits for the reader
                        writer = Some(std::thread::spawn(move || {
                            let Ok(mut w) = std::fs::OpenOptions::new().write(true).open(q) else { return };
                            for part in [&t.as_bytes()[..cut], &t.as_bytes()[cut..]] {
                                if w.write_all(part).is_err() {
                                    break;
                                }
                                std::thread::sleep(std::time::Duration::from_millis(2));
                            }
                        }));
                        p
                    }
                    Via::Mode(m) => {
                        use std::os::unix::fs::PermissionsExt;
                        write(&p);
                        std::fs::set_permissions(&p, std::fs::Permissions::from_mode(*m as u32)).unwrap();
                        if std::fs::read(&p).is_err() {
                            // not for this user
                            return Ok(());
                        }
                        p
                    }
                    Via::Foreign => {
                        write(&p);
                        if std::os::unix::fs::chown(&p, Some(65534), Some(65534)).is_err() {
                            return Ok(());
                        }
                        p
                    }
                    Via::Time(t) => {
                        use std::time::{Duration, UNIX_EPOCH};
                        write(&p);
                        let at = if *t < 0 { UNIX_EPOCH - Duration::from_secs(t.unsigned_abs()) } else { UNIX_EPOCH + Duration::from_secs(*t as u64) };
                        if std::fs::File::options().append(true).open(&p).unwrap().set_modified(at).is_err() {
                            return Ok(());
                        }
                        p
                    }
                    Via::Long => {
                        let d = dir.0.join("deep").join("l".repeat(250)).join("o".repeat(255)).join("n".repeat(200));
                        std::fs::create_dir_all(&d).unwrap();
                        write(&d.join(name));
                        d.join(name)
                    }
                    Via::Descriptor | Via::Removed => {
                        write(&p);
                        let f = std::fs::File::open(&p).unwrap();
                        if *via == Via::Removed {
                            std::fs::remove_file(&p).unwrap();
                        }
                        let path = fd(&f);
                        keep = Some(f);
                        path
                    }
                };
                let got = from_path(*kind, &path);
                if let Some(w) = writer {
                    // lets it end if nobody has read
                    let mut f = std::fs::OpenOptions::new().read(true).write(true).custom_flags(libc::O_NONBLOCK).open(&path).unwrap();
                    let mut b = [0; 4096];
                    while !w.is_finished() {
                        if std::io::Read::read(&mut f, &mut b).is_err() {
                            std::thread::sleep(std::time::Duration::from_millis(1));
                        }
                    }
                }
                drop((cwd, keep));
                ensure!(got == want, "{kind:?} loaded from {path:?} ({via:?}) is {:?}, its content gives {:?}", got.as_deref().map(hex), want.as_deref().map(hex));
                cx.nontrivial();
                cx.label(format!("{}{}", format!("{via:?}").split('(').next().unwrap(), if want.is_some() { "" } else { ", broken content" }));
            }
            Case::Missing { kind, name, relative } => {
                if !usable(&name.0) {
                    return Ok(());
                }
                let dir = Dir::new();
                let name = OsStr::from_bytes(&name.0);
                for s in related(name) {
                    let _ = std::fs::write(dir.0.join(s), content(*kind, 3));
                }
                let (_cwd, path) = if *relative { (Some(Cwd::to(&dir.0)), PathBuf::from(name)) } else { (None, dir.0.join(name)) };
                if path.exists() {
                    // the file system does not tell the names apart
                    return Ok(());
                }
                ensure!(from_path(*kind, &path).is_none(), "{kind:?} is loaded from {path:?}, which is not there");
                cx.nontrivial();
                cx.label("no such file");
            }
            Case::Around { vars, cwd, stdin, seed, slow } => {
                let before = battery(*seed, *slow, true);
                let vars: Vec<_> = vars.iter().filter(|(n, _)| !n.is_empty() && !n.starts_with("HARNESS_") && !n.starts_with("ASAN")).collect();
                let old: Vec<_> = vars.iter().map(|(n, _)| (n, std::env::var_os(n))).collect();
                let home = decoys(*cwd);
                for (n, val) in &vars {
                    let val = if n.as_str() == "HOME" || val == "." { home.display().to_string() } else { val.clone() };
                    std::env::set_var(n, val);
                }
                let text = ["", "pw\nyes\n", "y\n", "typed\ntyped\n"][*stdin as usize % 4];
                let p = scratch().join("c28.stdin");
                std::fs::write(&p, text).unwrap();
                let mut f = std::fs::File::open(&p).unwrap();
                let saved = unsafe { libc::dup(0) };
                unsafe {
                    if *stdin % 4 == 0 {
                        libc::close(0);
                        // take its place, so that nothing else does
                        let n = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
                        libc::dup2(n.as_raw_fd(), 0);
                    } else {
                        libc::dup2(f.as_raw_fd(), 0);
                    }
                }
                let after = {
                    let _cwd = (*cwd < 3).then(|| Cwd::to(&home));
                    battery(*seed, *slow, true)
                };
                unsafe {
                    libc::dup2(saved, 0);
                    libc::close(saved);
                }
                for (n, val) in old.into_iter().rev() {
                    match val {
                        Some(val) => std::env::set_var(n, val),
                        None => std::env::remove_var(n),
                    }
                }
                for ((what, a), (_, b)) in before.iter().zip(&after) {
                    ensure!(a == b, "{what} gives {:?}, but with {vars:?}, directory {cwd}, input {text:?} it gives {:?}", String::from_utf8_lossy(a), String::from_utf8_lossy(b));
                }
                ensure!(f.stream_position().unwrap() == 0, "standard input was read");
                cx.nontrivial();
                cx.label("other surroundings");
            }
        }
        Ok(())
    }
}
fn usable(b: &[u8]) -> bool {
    !b.is_empty() && b.len() < 240 && !b.contains(&b'/') && !b.contains(&0) && b != b"." && b != b".." && b != b"sub" && b != b"plain" && b != b"deep"
}
