//! The random source graviola sees (getrandom's "custom" backend): deterministic,
//! logged, and able to fail or misbehave on demand.
use std::cell::RefCell;

#[derive(Clone)]
pub enum Mode {
    /// a deterministic pseudo-random stream
    Stream,
    /// every byte the same
    Const(u8),
    /// these bytes first, then the stream
    Script(Vec<u8>),
    /// every call returns the same pseudo-random block
    Repeat(u64),
}

pub struct State {
    pub mode: Mode,
    pub rng: crate::Rng,
    pub pos: usize,
    pub calls: usize,
    /// the call (0-based) that fails, and all later ones when `fail_all`
    pub fail_at: Option<usize>,
    pub fail_all: bool,
    pub log: Vec<Vec<u8>>,
    pub keep_log: bool,
    /// number of failures delivered
    pub failures: usize,
}

thread_local! {
    static STATE: RefCell<State> = RefCell::new(State {
        mode: Mode::Stream,
        rng: crate::Rng::new(0x1234),
        pos: 0, calls: 0, fail_at: None, fail_all: false, log: vec![], keep_log: false, failures: 0,
    });
}

pub fn with<T>(f: impl FnOnce(&mut State) -> T) -> T {
    STATE.with(|s| f(&mut s.borrow_mut()))
}

/// Reset: new stream from `seed`, no faults, log on.
pub fn reset(seed: u64, mode: Mode) {
    with(|s| {
        s.mode = mode;
        s.rng = crate::Rng::new(seed);
        s.pos = 0;
        s.calls = 0;
        s.fail_at = None;
        s.fail_all = false;
        s.log.clear();
        s.keep_log = true;
        s.failures = 0;
    })
}

pub fn calls() -> usize {
    with(|s| s.calls)
}

pub fn take_log() -> Vec<Vec<u8>> {
    with(|s| std::mem::take(&mut s.log))
}

pub fn total_bytes() -> usize {
    with(|s| s.log.iter().map(|l| l.len()).sum())
}

// SAFETY: signature fixed by getrandom 0.3's custom backend
#[unsafe(no_mangle)]
unsafe extern "Rust" fn __getrandom_v03_custom(
    dest: *mut u8,
    len: usize,
) -> Result<(), getrandom::Error> {
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        let me = s.calls;
        s.calls += 1;
        if let Some(at) = s.fail_at {
            if me == at || (s.fail_all && me > at) {
                s.failures += 1;
                return Err(getrandom::Error::UNEXPECTED);
            }
        }
        // (no allocation unless logging: some monitors look at every block and instruction)
        let mut own = if s.keep_log { vec![0u8; len] } else { vec![] };
        // SAFETY: the caller gives len writable bytes at dest
        let buf: &mut [u8] = if s.keep_log { &mut own } else { unsafe { std::slice::from_raw_parts_mut(dest, len) } };
        match s.mode.clone() {
            Mode::Stream => s.rng.fill(buf),
            Mode::Const(c) => buf.fill(c),
            Mode::Repeat(seed) => crate::Rng::new(seed).fill(buf),
            Mode::Script(v) => {
                let have = v.len().saturating_sub(s.pos).min(len);
                let pos = s.pos;
                buf[..have].copy_from_slice(&v[pos..pos + have]);
                s.pos += have;
                s.rng.fill(&mut buf[have..]);
            }
        }
        if s.keep_log {
            // SAFETY: the caller gives len writable bytes at dest
            unsafe { std::ptr::copy_nonoverlapping(own.as_ptr(), dest, len) };
            s.log.push(own);
        }
        Ok(())
    })
}
