//! Calls made during other calls.
use crate::engine::*;
use crate::util::*;
use getrandom::ctl::{self, Mode};
use minisign::{KeyPair, PError, PublicKey, SecretKey, SecretKeyBox, SignatureBones};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex, OnceLock};
use std::thread::JoinHandle;
use vref::mini;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum How {
    /// in the same thread
    Same,
    /// in another thread, which is waited for
    Thread,
    /// in another thread, halted in its first read or write until the call this belongs to has ended
    Across,
    /// the reader or writer panics
    Panic,
}
/// What the reader or writer does when it is called for the `at`-th time.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Act {
    at: u8,
    how: How,
    calls: Vec<Call>,
}
/// A call of operation `op` with key `k`, data `d`, pieces `s`.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Call {
    op: u8,
    k: u8,
    d: u8,
    s: u8,
    acts: Vec<Act>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    calls: Vec<Call>,
}
const OPS: [&str; 17] = [
    "sign",
    "sign with a public key",
    "verify",
    "verify other data",
    "verify with another key",
    "verify a legacy signature",
    "refuse a legacy signature",
    "verify a bare signature",
    "generate and write",
    "load a signature",
    "load a public key",
    "load a secret key",
    "open an encrypted key",
    "open with a wrong password",
    "verify a signature of another comment",
    "verify with output",
    "generate and write an encrypted key",
];
const PRINTS: u8 = 15;
const SLOW: u8 = 16;
const KEYS: u8 = 4;
fn keys() -> &'static [Key] {
    static K: OnceLock<Vec<Key>> = OnceLock::new();
    K.get_or_init(|| (10..10 + KEYS as u32).map(|n| key_from(n, seed_n(n), id_n(n))).collect())
}
const LENS: [usize; 8] = [0, 1, 10, 128, 300, 65536, 65537, 200_000];
fn data(d: u8) -> &'static [u8] {
    static D: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    &D.get_or_init(|| LENS.iter().enumerate().map(|(i, n)| stream(i as u64 | 9 << 40, *n)).collect())[d as usize % LENS.len()]
}
fn comment(k: u8, d: u8) -> String {
    format!("comment {} of {}", d as usize % LENS.len(), k % KEYS)
}
fn sig(k: u8, d: u8, prehashed: bool) -> Arc<mini::Sig> {
    type Made = HashMap<(u8, u8, bool), Arc<mini::Sig>>;
    static S: Mutex<Option<Made>> = Mutex::new(None);
    let (k, d) = (k % KEYS, d % LENS.len() as u8);
    let mut s = S.lock().unwrap();
    s.get_or_insert_with(HashMap::new)
        .entry((k, d, prehashed)).or_insert_with(|| {
        let key = &keys()[k as usize];
        Arc::new(mini::Sig::make(prehashed, &key.seed, &key.id, data(d), &comment(k, d), "u"))
    }).clone()
}
fn encrypted(k: u8) -> &'static (String, String) {
    static E: OnceLock<Vec<(String, String)>> = OnceLock::new();
    &E.get_or_init(|| {
        keys()
            .iter()
            .map(|k| {
                let pw = format!("password {}", k.n);
                (k.rsk.clone().encrypt(pw.as_bytes(), stream(k.n as u64, 32).try_into().unwrap(), 32768, 4096).expect("encrypt").to_file("c"), pw)
            })
            .collect()
    })[(k % KEYS) as usize]
}

struct Marker;
type Log = Arc<Mutex<Vec<String>>>;
/// Where a call halts, and who is told.
struct Gate(Sender<()>, Receiver<()>);
struct Events {
    acts: Vec<Act>,
    n: u8,
    gate: Option<Gate>,
    log: Log,
    path: String,
    panicked: bool,
    pending: Vec<(Sender<()>, JoinHandle<()>)>,
}
impl Events {
    fn now(&mut self) {
        let n = self.n;
        self.n = n.saturating_add(1);
        if let Some(Gate(reached, go)) = self.gate.take() {
            let _ = reached.send(());
            let _ = go.recv();
        }
        for a in self.acts.clone().iter().filter(|a| a.at == n) {
            self.log.lock().unwrap().push(format!("+{:?}", a.how));
            let (log, path) = (self.log.clone(), format!("{}, at its call {n} ({:?})", self.path, a.how));
            let calls = a.calls.clone();
            match a.how {
                How::Same => calls.iter().for_each(|c| run(c, &log, None, &path, false)),
                How::Thread => {
                    let t = std::thread::spawn(move || calls.iter().for_each(|c| run(c, &log, None, &path, false)));
                    let _ = t.join();
                }
                How::Across => {
                    let (reached, wait) = channel();
                    let (start, go) = channel();
                    let mut gate = Some(Gate(reached, go));
                    let t = std::thread::spawn(move || {
                        for c in &calls {
                            run(c, &log, gate.take(), &path, false);
                        }
                    });
                    // an error: it ended without
                    let _ = wait.recv();
                    self.pending.push((start, t));
                }
                How::Panic => {
                    self.panicked = true;
                    resume_unwind(Box::new(Marker));
                }
            }
        }
    }
}
#[derive(Clone)]
struct Io {
    ev: Rc<RefCell<Events>>,
    data: &'static [u8],
    pos: usize,
    piece: usize,
    got: Rc<RefCell<Vec<u8>>>,
}
impl Read for Io {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.ev.borrow_mut().now();
        let n = self.data.len().saturating_sub(self.pos).min(b.len()).min(self.piece);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Seek for Io {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.ev.borrow_mut().now();
        let to = match p {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::Current(n) => self.pos as i128 + n as i128,
            SeekFrom::End(n) => self.data.len() as i128 + n as i128,
        };
        self.pos = usize::try_from(to).map_err(|_| io::ErrorKind::InvalidInput)?;
        Ok(self.pos as u64)
    }
}
impl Write for Io {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.ev.borrow_mut().now();
        let n = b.len().min(self.piece);
        self.got.borrow_mut().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.ev.borrow_mut().now();
        Ok(())
    }
}

/// Makes the call and compares its outcome with the one it has to have.
fn perform(c: &Call, ev: &Rc<RefCell<Events>>, top: bool) -> R {
    let op = match c.op % OPS.len() as u8 {
        PRINTS if !top => 2,
        op => op,
    };
    let key = &keys()[(c.k % KEYS) as usize];
    let other = &keys()[(c.k.wrapping_add(1) % KEYS) as usize];
    let d = data(c.d);
    let piece = [usize::MAX, 1, 3, 64, 1000, 32768, 65536][c.s as usize % 7].max(d.len() / 40).max(if op >= 8 { 7 } else { 1 });
    let io = || Io { ev: ev.clone(), data: d, pos: 0, piece, got: Default::default() };
    let ok = |r: Result<(), PError>| r.map_err(|e| format!("fails: {e}"));
    // after a panic any error will do, but no success
    let end = |r: R| match r {
        _ if !ev.borrow().panicked => r,
        Err(_) => Ok(()),
        Ok(()) => Err("succeeds though the reader or writer panicked".into()),
    };
    let refused = |r: Result<(), PError>| match r {
        Err(_) => Ok(()),
        Ok(()) if ev.borrow().panicked => Ok(()),
        Ok(()) => Err("is not refused".to_string()),
    };
    let text = comment(c.k, c.d);
    ctl::install(Mode::Stream(c.k as u64 | (c.d as u64) << 8 | (c.s as u64) << 16), None, 5);
    let vf = |pk: &PublicKey, s: &mini::Sig, output: bool, legacy: bool| match load(&s.to_file()) {
        Ok(b) => Ok(minisign::verify(pk, &b, io(), true, output, legacy)),
        Err(e) => Err(format!("does not load: {e}")),
    };
    match op {
        0 | 1 => {
            let r = minisign::sign((op == 1).then_some(&key.pk), &key.sk, io(), Some(&text), Some("untrusted"));
            end(match r {
                Err(e) => Err(format!("fails: {e}")),
                Ok(b) => parse(&b).and_then(|s| {
                    ensure!(s.trusted == text && s.untrusted == "untrusted", "has the comments {:?}, {:?}", s.trusted, s.untrusted);
                    ensure!(s.verify(&key.rpk, d, false), "makes a signature that does not verify");
                    Ok(())
                }),
            })
        }
        2 => end(ok(vf(&key.pk, &sig(c.k, c.d, true), false, c.s % 2 == 0)?)),
        3 => refused(vf(&key.pk, &sig(c.k, c.d + 1, true), false, c.s % 2 == 0)?),
        4 => refused(vf(&other.pk, &sig(c.k, c.d, true), false, c.s % 2 == 0)?),
        5 => end(ok(vf(&key.pk, &sig(c.k, c.d, false), false, true)?)),
        6 => refused(vf(&key.pk, &sig(c.k, c.d, false), false, false)?),
        7 => {
            let b = SignatureBones::from_bytes(&sig(c.k, c.d, c.s % 2 == 0).bare()).map_err(|e| format!("does not load: {e}"))?;
            end(ok(minisign::verify(&key.pk, &b.into(), io(), true, false, true)))
        }
        8 | SLOW => {
            let (p, s) = (io(), io());
            let made = if op == SLOW {
                KeyPair::generate_and_write_encrypted_keypair(p.clone(), s.clone(), Some(&text), Some(text.clone()))
            } else {
                KeyPair::generate_and_write_unencrypted_keypair(p.clone(), s.clone())
            };
            end(made.map_err(|e| format!("fails: {e}")).and_then(|kp| {
                let (p, s) = (p.got.borrow(), s.got.borrow());
                let open = |r: Result<SecretKey, PError>| r.map_err(|e| format!("writes a secret key that does not load: {e}"));
                let (pk, sk) = if op == SLOW {
                    let t = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
                    let pk = PublicKey::from_box(t(&p).into()).map_err(|e| format!("writes a public key that does not load: {e}"))?;
                    (pk.to_bytes(), open(SecretKeyBox::from(t(&s)).into_secret_key(Some(text.clone())))?)
                } else {
                    (p.to_vec(), open(SecretKey::from_bytes(&s))?)
                };
                ensure!(pk == kp.pk.to_bytes(), "writes another public key than it returns");
                let b = minisign::sign(None, &sk, d, Some("t"), None).map_err(|e| format!("makes a key that does not sign: {e}"))?;
                let pk = mini::PubKey::parse_bytes(&pk).ok_or("writes no public key")?;
                ensure!(parse(&b)?.verify(&pk, d, false), "makes keys that do not match");
                Ok(())
            }))
        }
        9 => {
            let s = sig(c.k, c.d, c.s % 2 == 0);
            let b = load(&s.to_file()).map_err(|e| format!("fails: {e}"))?;
            ensure!(b.trusted_comment().ok() == Some(s.trusted.clone()) && b.keynum() == &key.id[..] && b.is_prehashed() == (c.s % 2 == 0), "gives another signature");
            let raw = SignatureBones::from(b).to_bytes();
            ensure!(raw == s.bare(), "gives another signature");
            Ok(())
        }
        10 => {
            let t = key.rpk.to_file();
            let pk = PublicKey::from_box(t.clone().into()).map_err(|e| format!("fails: {e}"))?;
            ensure!(pk == key.pk && pk.to_bytes() == key.rpk.to_bytes(), "gives another key");
            Ok(())
        }
        11 => {
            let sk = SecretKeyBox::from(key.rsk.to_file("c")).into_unencrypted_secret_key().map_err(|e| format!("fails: {e}"))?;
            ensure!(sk == key.sk && sk.to_bytes() == key.rsk.to_bytes(), "gives another key");
            Ok(())
        }
        12 | 13 => {
            let (t, pw) = encrypted(c.k);
            let pw = if op == 12 { pw.clone() } else { encrypted(c.k.wrapping_add(1)).1.clone() };
            match SecretKeyBox::from(t.clone()).into_secret_key(Some(pw)) {
                Ok(k) if op == 12 => {
                    ensure!(PublicKey::from_secret_key(&k).ok().as_ref() == Some(&key.pk), "gives another key");
                    Ok(())
                }
                Ok(_) => Err("opens".into()),
                Err(e) if op == 12 => Err(format!("fails: {e}")),
                Err(_) => Ok(()),
            }
        }
        14 => {
            let mut s = (*sig(c.k, c.d, true)).clone();
            s.trusted.push('x');
            refused(vf(&key.pk, &s, false, false)?)
        }
        _ => {
            let got = capture(|| vf(&key.pk, &sig(c.k, c.d, true), true, false));
            let (done, panicked) = (got.ret?, ev.borrow().panicked);
            if done.is_ok() && !panicked {
                ensure!(got.out == d, "writes {} bytes that are not the data's {}", got.out.len(), d.len());
            } else {
                ensure!(d.starts_with(&got.out), "writes bytes that are not those of the data");
            }
            end(ok(done))
        }
    }
}
fn run(c: &Call, log: &Log, gate: Option<Gate>, path: &str, top: bool) {
    let name = OPS[c.op as usize % OPS.len()];
    let path = if path.is_empty() { name.to_string() } else { format!("{path}: {name}") };
    let ev = Rc::new(RefCell::new(Events { acts: c.acts.clone(), n: 0, gate, log: log.clone(), path: path.clone(), panicked: false, pending: vec![] }));
    let bad = match catch_unwind(AssertUnwindSafe(|| perform(c, &ev, top))) {
        Ok(Ok(())) => None,
        Ok(Err(m)) => Some(m),
        Err(p) if p.is::<Marker>() => None,
        Err(p) => Some(format!("panics: {}", p.downcast_ref::<String>().map(|s| s.as_str()).or(p.downcast_ref::<&str>().copied()).unwrap_or("?"))),
    };
    if let Some(m) = bad {
        log.lock().unwrap().push(format!("-{path} {m}"));
    }
    let pending = std::mem::take(&mut ev.borrow_mut().pending);
    drop(ev); // and with it a gate that was not reached
    for (go, t) in pending {
        let _ = go.send(());
        let _ = t.join();
    }
}
fn call(op: u8, k: u8, d: u8, s: u8) -> Call {
    Call { op, k, d, s, acts: vec![] }
}
fn calls(depth: u32) -> BoxedStrategy<Call> {
    let op = prop_oneof![4 => 0u8..4, 8 => 0u8..PRINTS + 1];
    let plain = (op, any::<u8>(), 0u8..LENS.len() as u8, 0u8..7);
    if depth == 0 {
        return plain.prop_map(|(op, k, d, s)| call(op, k, d, s)).boxed();
    }
    let how = prop_oneof![Just(How::Same), Just(How::Thread), Just(How::Across), Just(How::Panic)];
    let act = (prop_oneof![4 => 0u8..4, 1 => 0u8..45], how, proptest::collection::vec(calls(depth - 1), 1..3)).prop_map(|(at, how, calls)| Act { at, calls: if how == How::Panic { vec![] } else { calls }, how });
    (plain, proptest::collection::vec(act, 0..3)).prop_map(|((op, k, d, s), acts)| Call { acts, ..call(op, k, d, s) }).boxed()
}

pub struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C30";
    const SHRINK: u32 = 300;
    const HANG_S: u64 = 60;
    const RULE: &'static str = "Calls of 17 kinds whose reader or writer, at its n-th call, makes further calls itself: in the same thread, in another thread it waits for, or in another thread that is halted in its own first read or write until the outer call has ended; or it panics. Up to three levels deep. Every call's outcome must be the one it has alone (the reference verifies what was signed); afterwards a row of calls in this and in a new thread must have theirs. A case that does not end within 60 s is a violation. Non-trivial: at least one call was made, or panic raised, during another.";
    const ASSUMPTIONS: &'static [&'static str] = &["calls made during others print nothing: whether standard output is locked while data is written to it is not claimed"];
    fn fixed(t: Tier) -> Vec<Case> {
        let mut v = vec![];
        let outer = [0u8, 1, 2, 3, 4, 5, 6, 7, 8, 14, PRINTS];
        for o in outer {
            for at in 0..5 {
                for (how, inner) in [(How::Same, 15), (How::Thread, 15), (How::Across, 9), (How::Panic, 1)] {
                    for i in 0..inner {
                        for k in 0..2 {
                            let inner = if how == How::Panic { vec![] } else { vec![call(i, k, 4 - at % 2, i)] };
                            v.push(Case { calls: vec![Call { acts: vec![Act { at, how, calls: inner }], ..call(o, 0, 2 + at % 3, 2) }] });
                        }
                    }
                }
            }
            // deep
            let mut c = call(o, 1, 4, 4);
            for n in 0..t.pick(6, 20u8) {
                c = Call { acts: vec![Act { at: n % 3, how: [How::Same, How::Thread, How::Same][n as usize % 3], calls: vec![c] }], ..call(if o == PRINTS { 2 } else { o }, n, 4, 4) };
            }
            v.push(Case { calls: vec![c] });
        }
        for how in [How::Same, How::Thread, How::Across, How::Panic] {
            for at in [0, 3] {
                v.push(Case { calls: vec![Call { acts: vec![Act { at, how, calls: vec![call(SLOW, 1, 3, 0)] }], ..call(SLOW, 0, 2, 0) }] });
            }
        }
        // many panics in a row
        v.push(Case { calls: (0..t.pick(100, 1000u32)).map(|n| Call { acts: vec![Act { at: (n % 4) as u8, how: How::Panic, calls: vec![] }], ..call(outer[n as usize % outer.len()], n as u8, 4, 3) }).collect() });
        v
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        prop_oneof![proptest::collection::vec(calls(1), 1..4), proptest::collection::vec(calls(2), 1..3), proptest::collection::vec(calls(3), 1..2)].prop_map(|calls| Case { calls }).boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(8_000, 300_000)
    }
    fn fast_only(c: &Case) -> bool {
        c.calls.iter().any(|c| c.op == SLOW)
    }
    fn check(c: &Case, cx: &mut Cx) -> R {
        let log: Log = Default::default();
        for c in &c.calls {
            run(c, &log, None, "", true);
        }
        let during = log.lock().unwrap().iter().filter(|l| l.starts_with('+')).count();
        let after = |log: &Log, place: &str| {
            for (op, k) in [(0, 0), (2, 1), (3, 1), (5, 2), (8, 0), (9, 3), (11, 3)] {
                run(&call(op, k, 4, 3), log, None, place, true);
            }
        };
        after(&log, "afterwards");
        let l = log.clone();
        let _ = std::thread::spawn(move || after(&l, "afterwards, in another thread")).join();
        let log = log.lock().unwrap();
        for l in log.iter() {
            match l.strip_prefix('-') {
                Some(m) => return Err(m.to_string()),
                None => cx.label(format!("during another: {}", &l[1..])),
            }
        }
        if during > 0 {
            cx.nontrivial();
        }
        Ok(())
    }
}
