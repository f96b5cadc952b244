//! Runs one property's cases: enumerated ones, then generated ones, in child processes.
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick {
            q
        } else {
            t
        }
    }
    pub fn name(self) -> &'static str {
        self.pick("quick", "thorough")
    }
    pub fn parse(s: &str) -> Tier {
        if s == "thorough" {
            Tier::Thorough
        } else {
            Tier::Quick
        }
    }
}

/// What a check tells about the case it ran.
pub struct Cx {
    labels: BTreeMap<String, u64>,
    nontrivial: bool,
    count: bool,
    pub build: String,
}
impl Cx {
    /// The case really exercised the property (see the property's RULE).
    pub fn nontrivial(&mut self) {
        self.nontrivial = true
    }
    /// Counts a class of cases for the evidence file.
    pub fn label(&mut self, s: impl Into<String>) {
        if self.count {
            *self.labels.entry(s.into()).or_insert(0) += 1
        }
    }
    pub fn add(&mut self, s: impl Into<String>, n: u64) {
        if self.count {
            *self.labels.entry(s.into()).or_insert(0) += n
        }
    }
}

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

pub trait Prop {
    type Case: Serialize + DeserializeOwned + std::fmt::Debug + Clone + 'static;
    const ID: &'static str;
    const LEVEL: &'static str = "exploration";
    const RULE: &'static str;
    const ASSUMPTIONS: &'static [&'static str] = &[];
    /// Address space limit of a shard, GiB.
    const AS_GIB: u64 = 8;
    const SHRINK: u32 = 4000;
    /// Seconds without a finished case after which a shard counts as stuck.
    const HANG_S: u64 = 150;
    /// Also run in the AddressSanitizer build when there is one.
    const ASAN: bool = false;
    /// (checked, fast) shard counts
    const SHARDS: (usize, usize) = (4, 4);
    fn fixed(t: Tier) -> Vec<Self::Case>;
    fn strategy(t: Tier) -> BoxedStrategy<Self::Case>;
    /// Generated cases over all shards.
    fn cases(t: Tier) -> u32;
    /// Enumerated cases that are too slow for the checked build.
    fn fast_only(_c: &Self::Case) -> bool {
        false
    }
    fn check(c: &Self::Case, cx: &mut Cx) -> R;
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h ^= h >> 29;
    h = h.wrapping_mul(0xbf58476d1ce4e5b9);
    h ^ h >> 32
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static EVAL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{i}");
        if !EVAL.with(|e| e.get()) {
            eprintln!("harness: {m}");
        }
        PANIC.with(|p| *p.borrow_mut() = m);
    }));
}

/// One evaluation, panics turned into failures.
fn eval<P: Prop>(c: &P::Case, cx: &mut Cx) -> R {
    let js = serde_json::to_vec(c).unwrap();
    getrandom::ctl::install(getrandom::ctl::Mode::Stream(fnv(&js)), None, 5);
    rpassword::ctl::install(vec![]);
    EVAL.with(|e| e.set(true));
    let r = catch_unwind(AssertUnwindSafe(|| P::check(c, cx)));
    EVAL.with(|e| e.set(false));
    match r {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", PANIC.with(|p| p.borrow().clone()))),
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Failure {
    pub property: String,
    /// "case": replaying `case` fails. "shard": only replaying the whole shard does.
    pub kind: String,
    pub message: String,
    pub build: String,
    pub tier: Tier,
    pub seed: u64,
    pub shard: usize,
    pub shards: usize,
    pub case: Value,
}

#[derive(Serialize, Deserialize, Default)]
struct Report {
    evaluations: u64,
    fixed: u64,
    generated: u64,
    skipped_for_time: u64,
    labels: BTreeMap<String, u64>,
    samples: Vec<Value>,
}

struct Run<'a, P: Prop> {
    rep: Report,
    seen: HashSet<u64>,
    cx: Cx,
    journal: fs::File,
    _p: std::marker::PhantomData<&'a P>,
}

impl<P: Prop> Run<'_, P> {
    fn one(&mut self, c: &P::Case, generated: bool) -> R {
        let js = serde_json::to_vec(c).unwrap();
        self.journal.write_all_at(&js, 0).unwrap();
        self.journal.set_len(js.len() as u64).unwrap();
        self.cx.nontrivial = false;
        let r = eval::<P>(c, &mut self.cx);
        if self.cx.count {
            self.rep.evaluations += 1;
            if generated {
                self.rep.generated += 1
            } else {
                self.rep.fixed += 1
            }
            if self.cx.nontrivial && self.seen.insert(fnv(&js)) {
                let n = self.rep.samples.len();
                if n < 2 || (generated && n < 6 && self.seen.len() % 7 == 0) {
                    let mut s = String::from_utf8(js).unwrap();
                    if s.len() > 600 {
                        let mut k = 600;
                        while !s.is_char_boundary(k) {
                            k -= 1
                        }
                        s.truncate(k);
                        s.push_str("...");
                    }
                    self.rep.samples.push(Value::String(s));
                }
            }
        }
        r
    }
}

pub struct ShardArgs {
    pub build: String,
    pub idx: usize,
    pub n: usize,
    pub tier: Tier,
    pub seed: u64,
    pub out: PathBuf,
}

fn limit_as(gib: u64) {
    unsafe {
        let l = libc::rlimit { rlim_cur: gib << 30, rlim_max: gib << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
    }
}
fn child_setup<P: Prop>(build: &str) {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
    if build != "asan" {
        limit_as(P::AS_GIB);
    }
    install_panic_hook();
}

/// Child process: exit 0 held, 1 violated (written to out), anything else is a crash.
pub fn shard<P: Prop>(a: &ShardArgs) -> i32 {
    child_setup::<P>(&a.build);
    let start = Instant::now();
    let soft = Duration::from_secs(a.tier.pick(200, 1500));
    let journal = fs::File::create(a.out.join("journal")).unwrap();
    let mut run: Run<P> = Run {
        rep: Report::default(),
        seen: HashSet::new(),
        cx: Cx { labels: BTreeMap::new(), nontrivial: false, count: true, build: a.build.clone() },
        journal,
        _p: std::marker::PhantomData,
    };
    let fail = |case: Value, message: String| Failure {
        property: P::ID.into(),
        kind: "case".into(),
        message,
        build: a.build.clone(),
        tier: a.tier,
        seed: a.seed,
        shard: a.idx,
        shards: a.n,
        case,
    };
    let mut failure: Option<Failure> = None;
    for (i, c) in P::fixed(a.tier).iter().enumerate() {
        if i % a.n != a.idx || (a.build != "fast" && P::fast_only(c)) {
            continue;
        }
        if let Err(m) = run.one(c, false) {
            failure = Some(fail(serde_json::to_value(c).unwrap(), m));
            break;
        }
    }
    if failure.is_none() {
        let total = P::cases(a.tier) as u64;
        let nshards = (P::SHARDS.0 + P::SHARDS.1) as u64 + if P::ASAN { 4 } else { 0 };
        let mine = total.div_ceil(nshards) as u32;
        let mut seed = [0u8; 32];
        for k in 0..4u64 {
            let h = fnv(format!("{} {} {} {} {}", P::ID, a.seed, a.build, a.idx, k).as_bytes());
            seed[k as usize * 8..][..8].copy_from_slice(&h.to_le_bytes());
        }
        let cfg = Config {
            cases: mine,
            failure_persistence: None,
            max_shrink_iters: P::SHRINK,
            max_shrink_time: a.tier.pick(60_000, 300_000),
            ..Config::default()
        };
        let mut tr = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
        let strat = P::strategy(a.tier);
        let cell = RefCell::new(&mut run);
        let res = if mine == 0 {
            Ok(())
        } else {
            tr.run(&strat, |c| {
                let mut run = cell.borrow_mut();
                if run.cx.count && start.elapsed() > soft {
                    run.rep.skipped_for_time += 1;
                    return Ok(());
                }
                let r = run.one(&c, true);
                if r.is_err() {
                    run.cx.count = false; // what follows is shrinking
                }
                r.map_err(TestCaseError::fail)
            })
        };
        match res {
            Ok(()) => {}
            Err(TestError::Fail(_, c)) => {
                let m = match eval::<P>(&c, &mut run.cx) {
                    Err(m) => m,
                    Ok(()) => "failed while shrinking, not on its own".into(),
                };
                failure = Some(fail(serde_json::to_value(&c).unwrap(), m));
            }
            Err(TestError::Abort(m)) => {
                eprintln!("generator gave up: {m}");
                return 3;
            }
        }
    }
    run.rep.labels = run.cx.labels.clone();
    let mut h = Vec::with_capacity(run.seen.len() * 8);
    for x in &run.seen {
        h.extend_from_slice(&x.to_le_bytes());
    }
    fs::write(a.out.join("seen"), h).unwrap();
    fs::write(a.out.join("report.json"), serde_json::to_vec(&run.rep).unwrap()).unwrap();
    match failure {
        None => 0,
        Some(f) => {
            fs::write(a.out.join("failure.json"), serde_json::to_vec(&f).unwrap()).unwrap();
            1
        }
    }
}

/// Child process: one case from a file. 0 held, 1 violated.
pub fn one<P: Prop>(build: &str, file: &Path) -> i32 {
    child_setup::<P>(build);
    let v: Value = serde_json::from_slice(&fs::read(file).unwrap()).unwrap();
    let case: P::Case = match serde_json::from_value(v.get("case").cloned().unwrap_or(v)) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("not a case of {}: {e}", P::ID);
            return 3;
        }
    };
    let mut cx = Cx { labels: BTreeMap::new(), nontrivial: false, count: false, build: build.into() };
    match eval::<P>(&case, &mut cx) {
        Ok(()) => 0,
        Err(m) => {
            eprintln!("{m}");
            1
        }
    }
}

pub struct Bins {
    pub by: BTreeMap<String, PathBuf>,
}
impl Bins {
    fn get(&self, build: &str) -> &Path {
        self.by.get(build).unwrap_or_else(|| panic!("no {build} binary"))
    }
}

enum End {
    Held,
    Violated(String),
    Signal(i32),
    Hang,
    Broken(String),
}

fn spawn(bin: &Path, args: &[String], scratch: &Path) -> Child {
    fs::create_dir_all(scratch).unwrap();
    Command::new(bin)
        .args(args)
        .env("HARNESS_SCRATCH", scratch)
        .env("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:handle_abort=0:max_allocation_size_mb=6000")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(fs::File::create(scratch.join("stderr")).unwrap())
        .spawn()
        .unwrap()
}
fn tail(scratch: &Path) -> String {
    let b = fs::read(scratch.join("stderr")).unwrap_or_default();
    let s = String::from_utf8_lossy(&b);
    s.chars().take(2000).collect()
}
fn ended(st: std::process::ExitStatus, scratch: &Path) -> End {
    if let Some(s) = st.signal() {
        if s == libc::SIGKILL || s == libc::SIGTERM || s == libc::SIGINT {
            return End::Broken(format!("killed by signal {s}"));
        }
        return End::Signal(s);
    }
    match st.code() {
        Some(0) => End::Held,
        Some(1) => End::Violated(tail(scratch)),
        c => End::Broken(format!("exit {c:?}: {}", tail(scratch))),
    }
}

/// Run a child on one case, alone.
fn run_one(bins: &Bins, id: &str, build: &str, file: &Path, scratch: &Path, hang: Duration) -> End {
    let mut ch = spawn(bins.get(build), &["one".into(), id.into(), build.into(), file.display().to_string()], scratch);
    let t0 = Instant::now();
    let r = loop {
        if let Some(st) = ch.try_wait().unwrap() {
            break ended(st, scratch);
        }
        if t0.elapsed() > hang {
            let _ = ch.kill();
            let _ = ch.wait();
            break End::Hang;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let _ = fs::remove_dir_all(scratch);
    r
}

struct Sh {
    args: ShardArgs,
    ch: Child,
    done: bool,
    scratch: PathBuf,
}
fn shard_cmd(a: &ShardArgs, id: &str) -> Vec<String> {
    vec![
        "shard".into(),
        id.into(),
        a.build.clone(),
        a.idx.to_string(),
        a.n.to_string(),
        a.tier.name().into(),
        a.seed.to_string(),
        a.out.display().to_string(),
    ]
}

/// Parent process. Returns the exit code of the check.
pub fn run<P: Prop>(bins: &Bins, tier: Tier, seed: u64, root: &Path) -> i32 {
    let t0 = Instant::now();
    let work = std::env::temp_dir().join(format!("verif-{}-{}", P::ID, std::process::id()));
    let _ = fs::remove_dir_all(&work);
    fs::create_dir_all(&work).unwrap();
    let code = run_in::<P>(bins, tier, seed, root, &work, t0);
    let _ = fs::remove_dir_all(&work);
    code
}

fn run_in<P: Prop>(bins: &Bins, tier: Tier, seed: u64, root: &Path, work: &Path, t0: Instant) -> i32 {
    let hard = Duration::from_secs(tier.pick(780, 4 * 3600));
    let hang = Duration::from_secs(P::HANG_S);
    let mut confirmed = false;
    let mut groups = vec![("checked", P::SHARDS.0), ("fast", P::SHARDS.1)];
    if P::ASAN && bins.by.contains_key("asan") {
        groups.push(("asan", 4));
    }
    let mut shs: Vec<Sh> = vec![];
    for (b, n) in groups {
        for i in 0..n {
            let out = work.join(format!("{b}-{i}"));
            fs::create_dir_all(&out).unwrap();
            let args = ShardArgs { build: b.into(), idx: i, n, tier, seed, out: out.clone() };
            let scratch = out.join("scratch");
            let ch = spawn(bins.get(b), &shard_cmd(&args, P::ID), &scratch);
            shs.push(Sh { args, ch, done: false, scratch });
        }
    }
    let mut failure: Option<Failure> = None;
    let mut broken: Option<String> = None;
    while failure.is_none() && broken.is_none() && shs.iter().any(|s| !s.done) {
        std::thread::sleep(Duration::from_millis(20));
        for s in shs.iter_mut().filter(|s| !s.done) {
            if failure.is_some() || broken.is_some() {
                break;
            }
            let journal = s.args.out.join("journal");
            let end = match s.ch.try_wait().unwrap() {
                Some(st) => {
                    s.done = true;
                    ended(st, &s.scratch)
                }
                None => {
                    let idle = fs::metadata(&journal).and_then(|m| m.modified()).ok().and_then(|m| m.elapsed().ok());
                    if idle.is_some_and(|d| d > hang) {
                        let _ = s.ch.kill();
                        let _ = s.ch.wait();
                        s.done = true;
                        End::Hang
                    } else {
                        continue;
                    }
                }
            };
            match end {
                End::Held => {}
                End::Violated(_) => match fs::read(s.args.out.join("failure.json")) {
                    Ok(b) => failure = Some(serde_json::from_slice(&b).unwrap()),
                    Err(_) => broken = Some("a shard ended with 1 without a report".into()),
                },
                End::Broken(m) => broken = Some(m),
                e @ (End::Signal(_) | End::Hang) => {
                    // confirm on the journalled case alone
                    let stderr = tail(&s.scratch);
                    let case: Value = fs::read(&journal).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null);
                    let what = match e {
                        End::Signal(n) => format!("process died of signal {n}: {stderr}"),
                        _ => format!("no result within {} s", hang.as_secs()),
                    };
                    let mut f = Failure {
                        property: P::ID.into(),
                        kind: "case".into(),
                        message: what.clone(),
                        build: s.args.build.clone(),
                        tier,
                        seed,
                        shard: s.args.idx,
                        shards: s.args.n,
                        case,
                    };
                    let file = work.join("confirm.json");
                    fs::write(&file, serde_json::to_vec(&f).unwrap()).unwrap();
                    match run_one(bins, P::ID, &s.args.build, &file, &work.join("confirm"), hang) {
                        End::Signal(_) | End::Violated(_) => (failure, confirmed) = (Some(f), true),
                        End::Hang if matches!(e, End::Hang) => (failure, confirmed) = (Some(f), true),
                        _ if matches!(e, End::Signal(_)) => {
                            // state built up over the shard: run it all again
                            let out = work.join("again");
                            fs::create_dir_all(&out).unwrap();
                            let a = ShardArgs { build: s.args.build.clone(), idx: s.args.idx, n: s.args.n, tier, seed, out };
                            let scratch = work.join("again-scratch");
                            let st = spawn(bins.get(&a.build), &shard_cmd(&a, P::ID), &scratch).wait().unwrap();
                            if let End::Signal(_) = ended(st, &scratch) {
                                f.kind = "shard".into();
                                failure = Some(f);
                            } else {
                                broken = Some(format!("{what}; not reproduced"));
                            }
                        }
                        _ => broken = Some(format!("{what}; not reproduced")),
                    }
                }
            }
        }
        if t0.elapsed() > hard && shs.iter().any(|s| !s.done) {
            broken = Some("time limit of the check".into());
        }
    }
    for s in shs.iter_mut().filter(|s| !s.done) {
        let _ = s.ch.kill();
        let _ = s.ch.wait();
    }
    // A failure that the case alone does not show depends on what ran before it.
    if let Some(f) = &mut failure {
        if f.kind == "case" && !confirmed {
            let file = work.join("confirm2.json");
            fs::write(&file, serde_json::to_vec(&*f).unwrap()).unwrap();
            if let End::Held = run_one(bins, P::ID, &f.build, &file, &work.join("confirm2"), hang) {
                f.kind = "shard".into();
            }
        }
    }
    // evidence
    let mut rep = Report::default();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut by_build: BTreeMap<String, u64> = BTreeMap::new();
    for s in &shs {
        if let Ok(b) = fs::read(s.args.out.join("report.json")) {
            let r: Report = serde_json::from_slice(&b).unwrap();
            rep.evaluations += r.evaluations;
            rep.fixed += r.fixed;
            rep.generated += r.generated;
            rep.skipped_for_time += r.skipped_for_time;
            *by_build.entry(s.args.build.clone()).or_insert(0) += r.evaluations;
            for (k, v) in r.labels {
                *rep.labels.entry(k).or_insert(0) += v;
            }
            let room = 24usize.saturating_sub(rep.samples.len()).min(3);
            let skip = if s.args.idx % 2 == 0 { 0 } else { r.samples.len().saturating_sub(room) };
            rep.samples.extend(r.samples.into_iter().skip(skip).take(room));
        }
        if let Ok(b) = fs::read(s.args.out.join("seen")) {
            seen.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
    }
    let ev = json!({
        "property": P::ID,
        "tier": tier.name(),
        "seed": seed,
        "level": P::LEVEL,
        "coverage": {
            "evaluations": rep.evaluations,
            "enumerated_evaluations": rep.fixed,
            "generated_evaluations": rep.generated,
            "distinct_nontrivial": seen.len(),
            "rule": P::RULE,
            "samples": rep.samples,
            "classes": rep.labels,
            "evaluations_by_build": by_build,
            "generated_skipped_for_time": rep.skipped_for_time,
        },
        "assumptions": P::ASSUMPTIONS,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": if failure.is_some() { 1 } else { 0 },
    });
    let evd = root.join("evidence");
    fs::create_dir_all(&evd).unwrap();
    fs::write(evd.join(format!("{}.json", P::ID)), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    let out = std::io::stdout();
    let mut out = out.lock();
    if let Some(f) = failure {
        let dir = root.join("replays").join(P::ID);
        fs::create_dir_all(&dir).unwrap();
        let b = serde_json::to_vec_pretty(&f).unwrap();
        let file = dir.join(format!("{:016x}.json", fnv(&b)));
        fs::write(&file, &b).unwrap();
        let _ = writeln!(out, "{}: {}", P::ID, f.message);
        let c = serde_json::to_string(&f.case).unwrap();
        let _ = writeln!(out, "{}: build {}, case {}", P::ID, f.build, c.chars().take(1500).collect::<String>());
        let _ = writeln!(out, "VIOLATION property={} replay={}", P::ID, file.display());
        return 1;
    }
    if let Some(m) = broken {
        let _ = writeln!(out, "{}: the check could not finish: {m}", P::ID);
        return 2;
    }
    let _ = writeln!(
        out,
        "{}: held on {} evaluations ({} enumerated, {} generated), {} distinct non-trivial cases, {:.1} s",
        P::ID,
        rep.evaluations,
        rep.fixed,
        rep.generated,
        seen.len(),
        t0.elapsed().as_secs_f64()
    );
    0
}

/// Replay a failure file: 0 held, 1 violated.
pub fn replay<P: Prop>(bins: &Bins, file: &Path) -> i32 {
    let f: Failure = serde_json::from_slice(&fs::read(file).unwrap()).unwrap();
    let work = std::env::temp_dir().join(format!("verif-replay-{}-{}", P::ID, std::process::id()));
    fs::create_dir_all(&work).unwrap();
    let end = if f.kind == "shard" {
        let out = work.join("out");
        fs::create_dir_all(&out).unwrap();
        let a = ShardArgs { build: f.build.clone(), idx: f.shard, n: f.shards, tier: f.tier, seed: f.seed, out };
        let st = spawn(bins.get(&a.build), &shard_cmd(&a, P::ID), &work.join("s")).wait().unwrap();
        match ended(st, &work.join("s")) {
            End::Violated(_) => End::Violated(fs::read_to_string(a.out.join("failure.json")).unwrap_or_default()),
            e => e,
        }
    } else {
        run_one(bins, P::ID, &f.build, file, &work.join("s"), Duration::from_secs(P::HANG_S))
    };
    let _ = fs::remove_dir_all(&work);
    match end {
        End::Held => {
            println!("{}: held", P::ID);
            0
        }
        End::Broken(m) => {
            println!("{}: could not replay: {m}", P::ID);
            2
        }
        e => {
            match e {
                End::Violated(m) => println!("{}: {m}", P::ID),
                End::Signal(n) => println!("{}: died of signal {n}", P::ID),
                _ => println!("{}: no result", P::ID),
            }
            println!("VIOLATION property={} replay={}", P::ID, file.display());
            1
        }
    }
}
