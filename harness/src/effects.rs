//! Records what a call does to its surroundings: the C functions that change files, open connections, start
//! programs or alter the process are defined here, in front of the C library's, and note their use while
//! recording is on.
#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::Mutex;

static ON: AtomicBool = AtomicBool::new(false);
static LOG: Mutex<Vec<String>> = Mutex::new(vec![]);

/// Runs `f`; what it did, if anything.
pub fn recorded<T>(f: impl FnOnce() -> T) -> (T, Vec<String>) {
    LOG.lock().unwrap().clear();
    ON.store(true, Relaxed);
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.store(false, Relaxed);
        }
    }
    let off = Off;
    let r = f();
    drop(off);
    (r, std::mem::take(&mut *LOG.lock().unwrap()))
}
thread_local! {
    static SCRIPTED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static CLOCK: std::cell::RefCell<(Vec<(i64, i64)>, i64, usize)> = const { std::cell::RefCell::new((vec![], 0, 0)) };
}
/// Runs `f` while the clock tells this thread the given times (seconds since 1970, nanoseconds), one after the
/// other, the last one for ever, and the monotonic clock goes on by `step` seconds at each reading. Also how often the
/// time was asked for.
pub fn at_times<T>(times: &[(i64, u32)], step: u32, f: impl FnOnce() -> T) -> (T, usize) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            SCRIPTED.set(false);
        }
    }
    CLOCK.set((times.iter().rev().map(|(s, n)| (*s, *n as i64)).collect(), step as i64, 0));
    SCRIPTED.set(true);
    let off = Off;
    let r = f();
    drop(off);
    (r, CLOCK.with_borrow(|c| c.2))
}
#[cfg(not(no_effects))]
mod front {
    use super::*;
    use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, pid_t, size_t};
    use std::ffi::CStr;
    fn note(s: impl FnOnce() -> String) {
        if ON.load(Relaxed) {
            let s = s();
            LOG.lock().unwrap().push(s);
        }
    }
    unsafe fn text(p: *const c_char) -> String {
        if p.is_null() {
            return "null".into();
        }
        CStr::from_ptr(p).to_string_lossy().into_owned()
    }
    macro_rules! next {
        ($name:ident, $t:ty) => {{
            let p = libc::dlsym(libc::RTLD_NEXT, concat!(stringify!($name), "\0").as_ptr() as *const c_char);
            assert!(!p.is_null(), stringify!($name));
            std::mem::transmute::<*mut c_void, $t>(p)
        }};
    }
    /// Functions whose every use is an effect. `p` arguments are paths.
    macro_rules! effect {
    ($($name:ident($($a:ident: $t:ty),*) -> $r:ty, $say:expr;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> $r {
            note(|| { let say: String = $say; format!("{}({say})", stringify!($name)) });
            next!($name, unsafe extern "C" fn($($t),*) -> $r)($($a),*)
        }
    )*};
}
    type P = *const c_char;
    effect! {
        creat(p: P, m: mode_t) -> c_int, text(p);
        creat64(p: P, m: mode_t) -> c_int, text(p);
        mkdir(p: P, m: mode_t) -> c_int, text(p);
        mkdirat(d: c_int, p: P, m: mode_t) -> c_int, text(p);
        mkfifo(p: P, m: mode_t) -> c_int, text(p);
        unlink(p: P) -> c_int, text(p);
        unlinkat(d: c_int, p: P, f: c_int) -> c_int, text(p);
        rmdir(p: P) -> c_int, text(p);
        rename(p: P, q: P) -> c_int, format!("{}, {}", text(p), text(q));
        renameat(d: c_int, p: P, e: c_int, q: P) -> c_int, format!("{}, {}", text(p), text(q));
        link(p: P, q: P) -> c_int, format!("{}, {}", text(p), text(q));
        linkat(d: c_int, p: P, e: c_int, q: P, f: c_int) -> c_int, format!("{}, {}", text(p), text(q));
        symlink(p: P, q: P) -> c_int, format!("{}, {}", text(p), text(q));
        chmod(p: P, m: mode_t) -> c_int, text(p);
        fchmod(d: c_int, m: mode_t) -> c_int, d.to_string();
        chown(p: P, u: c_uint, g: c_uint) -> c_int, text(p);
        truncate64(p: P, n: i64) -> c_int, text(p);
        ftruncate64(d: c_int, n: i64) -> c_int, d.to_string();
        utimensat(d: c_int, p: P, t: *const c_void, f: c_int) -> c_int, text(p);
        futimens(d: c_int, t: *const c_void) -> c_int, d.to_string();
        socket(a: c_int, b: c_int, c: c_int) -> c_int, a.to_string();
        connect(d: c_int, a: *const c_void, n: c_uint) -> c_int, d.to_string();
        fork() -> pid_t, String::new();
        execve(p: P, a: *const c_void, e: *const c_void) -> c_int, text(p);
        execvp(p: P, a: *const c_void) -> c_int, text(p);
        posix_spawn(i: *mut pid_t, p: P, a: *const c_void, b: *const c_void, c: *const c_void, e: *const c_void) -> c_int, text(p);
        posix_spawnp(i: *mut pid_t, p: P, a: *const c_void, b: *const c_void, c: *const c_void, e: *const c_void) -> c_int, text(p);
        setenv(p: P, v: P, o: c_int) -> c_int, text(p);
        unsetenv(p: P) -> c_int, text(p);
        chdir(p: P) -> c_int, text(p);
        fchdir(d: c_int) -> c_int, d.to_string();
        umask(m: mode_t) -> mode_t, m.to_string();
        setrlimit(r: c_int, l: *const c_void) -> c_int, r.to_string();
        setrlimit64(r: c_int, l: *const c_void) -> c_int, r.to_string();
        setpriority(w: c_int, i: c_uint, n: c_int) -> c_int, n.to_string();
        nice(n: c_int) -> c_int, n.to_string();
        setsid() -> pid_t, String::new();
        kill(p: pid_t, s: c_int) -> c_int, format!("{p}, {s}");
        signal(s: c_int, h: size_t) -> size_t, s.to_string();
        mlockall(f: c_int) -> c_int, f.to_string();
        alarm(n: c_uint) -> c_uint, n.to_string();
        tcsetattr(d: c_int, n: c_int, t: *const c_void) -> c_int, d.to_string();
        shm_open(p: P, f: c_int, m: mode_t) -> c_int, text(p);
    }
    /// A new handler is an effect; asking for the one in use is not.
    #[no_mangle]
    pub unsafe extern "C" fn sigaction(s: c_int, new: *const c_void, old: *mut c_void) -> c_int {
        if !new.is_null() {
            note(|| format!("sigaction({s})"));
        }
        next!(sigaction, unsafe extern "C" fn(c_int, *const c_void, *mut c_void) -> c_int)(s, new, old)
    }
    /// What the script says, if it is on: real time, or the lead of the monotonic clock.
    fn scripted(real: bool) -> Option<(i64, i64)> {
        if !SCRIPTED.try_with(|s| s.get()).unwrap_or(false) {
            return None;
        }
        CLOCK.with(|c| {
            let (times, step, n) = &mut *c.try_borrow_mut().ok()?;
            *n += 1;
            if !real {
                return Some((*step * *n as i64, 0));
            }
            let last = times.len() == 1;
            if last { times.last().copied() } else { times.pop() }
        })
    }
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(id: c_int, t: *mut libc::timespec) -> c_int {
        let r = libc::syscall(libc::SYS_clock_gettime, id as c_long, t) as c_int;
        match id {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE | libc::CLOCK_TAI if r == 0 => {
                if let Some((s, n)) = scripted(true) {
                    *t = libc::timespec { tv_sec: s, tv_nsec: n };
                }
            }
            libc::CLOCK_MONOTONIC | libc::CLOCK_MONOTONIC_COARSE | libc::CLOCK_MONOTONIC_RAW | libc::CLOCK_BOOTTIME if r == 0 => {
                if let Some((s, _)) = scripted(false) {
                    (*t).tv_sec += s;
                }
            }
            _ => {}
        }
        r
    }
    #[no_mangle]
    pub unsafe extern "C" fn gettimeofday(t: *mut libc::timeval, _zone: *mut c_void) -> c_int {
        let mut n: libc::timespec = std::mem::zeroed();
        let r = clock_gettime(libc::CLOCK_REALTIME, &mut n);
        if !t.is_null() {
            *t = libc::timeval { tv_sec: n.tv_sec, tv_usec: n.tv_nsec / 1000 };
        }
        r
    }
    #[no_mangle]
    pub unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
        let mut n: libc::timespec = std::mem::zeroed();
        clock_gettime(libc::CLOCK_REALTIME, &mut n);
        if !t.is_null() {
            *t = n.tv_sec;
        }
        n.tv_sec
    }
    fn opened(p: P, flags: c_int) {
        if flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC | libc::O_APPEND) != 0 {
            note(|| format!("open for writing({})", unsafe { text(p) }));
        }
    }
    unsafe fn ret(r: c_long) -> c_int {
        // the raw system call sets errno by itself
        r as c_int
    }
    macro_rules! opens {
    ($($name:ident, $at:ident;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name(p: P, flags: c_int, mode: mode_t) -> c_int {
            opened(p, flags);
            ret(libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p, flags, mode))
        }
        #[no_mangle]
        pub unsafe extern "C" fn $at(d: c_int, p: P, flags: c_int, mode: mode_t) -> c_int {
            opened(p, flags);
            ret(libc::syscall(libc::SYS_openat, d, p, flags, mode))
        }
    )*};
}
    opens! { open, openat; open64, openat64; }
}
