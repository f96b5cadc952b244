//! Stand-in for `rpassword` 7: entries come from a per-thread script, prompts are counted.
use std::io;

pub fn prompt_password(_prompt: impl ToString) -> io::Result<String> {
    ctl::next()
}
pub fn read_password() -> io::Result<String> {
    ctl::next()
}

pub mod ctl {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    use std::io;

    thread_local! {
        static Q: RefCell<(VecDeque<Option<String>>, usize)> = const { RefCell::new((VecDeque::new(), 0)) };
    }
    /// `None` entries fail; so does asking more often than there are entries.
    pub fn install(entries: Vec<Option<String>>) {
        Q.with(|q| *q.borrow_mut() = (entries.into(), 0))
    }
    /// How often an entry was asked for since `install`.
    pub fn asked() -> usize {
        Q.with(|q| q.borrow().1)
    }
    pub(crate) fn next() -> io::Result<String> {
        Q.with(|q| {
            let mut q = q.borrow_mut();
            q.1 += 1;
            match q.0.pop_front() {
                Some(Some(s)) => Ok(s),
                _ => Err(io::Error::new(io::ErrorKind::Other, "injected terminal failure")),
            }
        })
    }
}
