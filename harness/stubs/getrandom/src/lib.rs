//! Stand-in for `getrandom` 0.2: same calls, but the bytes are scripted per thread, every
//! request is recorded, and a request can be made to fail.
use core::fmt;
use std::num::NonZeroU32;

#[derive(Copy, Clone, Eq, PartialEq)]
pub struct Error(NonZeroU32);

impl Error {
    pub const UNSUPPORTED: Error = Error(NonZeroU32::new(1 << 31).unwrap());
    pub const UNEXPECTED: Error = Error(NonZeroU32::new((1 << 31) + 2).unwrap());
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub fn raw_os_error(self) -> Option<i32> {
        i32::try_from(self.0.get()).ok()
    }
    pub const fn code(self) -> NonZeroU32 {
        self.0
    }
}
impl From<NonZeroU32> for Error {
    fn from(c: NonZeroU32) -> Error {
        Error(c)
    }
}
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Error({})", self.0)
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "injected random source failure {}", self.0)
    }
}
impl std::error::Error for Error {}
impl From<Error> for std::io::Error {
    fn from(e: Error) -> Self {
        std::io::Error::new(std::io::ErrorKind::Other, e)
    }
}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    ctl::fill(dest)
}

pub fn getrandom_uninit(dest: &mut [core::mem::MaybeUninit<u8>]) -> Result<&mut [u8], Error> {
    for b in dest.iter_mut() {
        b.write(0);
    }
    let s = unsafe { core::slice::from_raw_parts_mut(dest.as_mut_ptr() as *mut u8, dest.len()) };
    ctl::fill(s)?;
    Ok(s)
}

pub mod ctl {
    use super::Error;
    use std::cell::RefCell;

    #[derive(Clone, Debug)]
    pub enum Mode {
        /// Deterministic pseudo-random stream.
        Stream(u64),
        /// The same stream with one byte of it (absolute offset) changed by XOR.
        StreamXor(u64, usize, u8),
        /// One byte value forever.
        Constant(u8),
        /// The same stream starts over at every request.
        Repeat(u64),
    }

    struct State {
        mode: Mode,
        fail_at: Option<usize>,
        /// errno-style code of an injected failure
        code: u32,
        calls: usize,
        offset: usize,
        log: Vec<Vec<u8>>,
    }

    thread_local! {
        static S: RefCell<State> = RefCell::new(State { mode: Mode::Stream(0), fail_at: None, code: 5, calls: 0, offset: 0, log: vec![] });
    }

    fn byte(seed: u64, i: usize) -> u8 {
        let mut z = seed.wrapping_add((i as u64 / 8 + 1).wrapping_mul(0x9e3779b97f4a7c15));
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^= z >> 31;
        (z >> (8 * (i % 8))) as u8
    }

    /// Start a script; the record is cleared.
    pub fn install(mode: Mode, fail_at: Option<usize>, code: u32) {
        S.with(|s| *s.borrow_mut() = State { mode, fail_at, code, calls: 0, offset: 0, log: vec![] })
    }
    /// Requests served or failed since `install`.
    pub fn calls() -> usize {
        S.with(|s| s.borrow().calls)
    }
    /// What was handed out since `install`, one entry per successful request.
    pub fn log() -> Vec<Vec<u8>> {
        S.with(|s| s.borrow().log.clone())
    }

    pub(crate) fn fill(dest: &mut [u8]) -> Result<(), Error> {
        S.with(|s| {
            let mut s = s.borrow_mut();
            let k = s.calls;
            s.calls += 1;
            if s.fail_at == Some(k) {
                // a failing source may leave anything behind
                for b in dest.iter_mut() {
                    *b = 0;
                }
                return Err(Error::from(std::num::NonZeroU32::new(s.code.max(1)).unwrap()));
            }
            let off = s.offset;
            for (i, b) in dest.iter_mut().enumerate() {
                *b = match s.mode {
                    Mode::Stream(seed) => byte(seed, off + i),
                    Mode::StreamXor(seed, at, x) => byte(seed, off + i) ^ if at == off + i { x } else { 0 },
                    Mode::Constant(c) => c,
                    Mode::Repeat(seed) => byte(seed, i),
                };
            }
            s.offset += dest.len();
            if s.log.len() < 4096 {
                s.log.push(dest.to_vec());
            }
            Ok(())
        })
    }
}
