//! Stand-in for the operating system's randomness: every byte is a fresh symbolic value.
use std::num::NonZeroU32;

extern "C" {
    fn sym_os_u32() -> u32;
    fn sym_u64() -> u64;
    fn sym_u8() -> u8;
    fn sym_assume(c: u32);
    fn sym_pick(i: u64) -> u64;
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Error(NonZeroU32);
impl Error {
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const fn raw_os_error(self) -> Option<i32> {
        None
    }
    pub const fn code(self) -> NonZeroU32 {
        self.0
    }
}
impl From<NonZeroU32> for Error {
    fn from(c: NonZeroU32) -> Self {
        Error(c)
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Error {}

/// What a harness decides about the randomness.
pub mod control {
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
    pub(crate) static CONCRETE: AtomicU64 = AtomicU64::new(0);
    pub(crate) static COUNT: AtomicU64 = AtomicU64::new(0);
    pub(crate) static BOUND: AtomicU64 = AtomicU64::new(0xffff_fff0);
    pub(crate) static WORDS: AtomicU64 = AtomicU64::new(0);
    pub(crate) static mut FORCED: Vec<u32> = Vec::new();

    /// 1: concrete pseudo-random bytes (a function of the run's seed), 0: symbolic ones
    pub fn concrete(on: bool) {
        CONCRETE.store(on as u64, Relaxed);
    }
    pub(crate) static STREAM: AtomicU64 = AtomicU64::new(0);
    /// 1: the words of a stream that is expanded from a concrete seed are concrete as well
    pub fn concrete_streams(on: bool) {
        STREAM.store(on as u64, Relaxed);
    }
    pub fn stream_concrete() -> bool {
        STREAM.load(Relaxed) != 0
    }
    /// words are below `b`
    pub fn bound(b: u64) {
        BOUND.store(b, Relaxed);
    }
    /// the next words that are drawn, last one first
    pub fn force(w: Vec<u32>) {
        unsafe { FORCED = w }
    }
    pub fn forced_left() -> usize {
        #[allow(static_mut_refs)]
        unsafe {
            FORCED.len()
        }
    }
    /// how many words were drawn so far
    pub fn words() -> u64 {
        WORDS.load(Relaxed)
    }
}

fn word() -> u32 {
    use std::sync::atomic::Ordering::Relaxed;
    control::WORDS.fetch_add(1, Relaxed);
    #[allow(static_mut_refs)]
    if let Some(w) = unsafe { control::FORCED.pop() } {
        return w;
    }
    if control::CONCRETE.load(Relaxed) != 0 {
        return pick() as u32 & 0x7fff_ffff;
    }
    let w = unsafe { sym_os_u32() };
    let b = control::BOUND.load(Relaxed);
    if b < 1 << 32 {
        unsafe { sym_assume(((w as u64) < b) as u32) };
    }
    w
}

fn pick() -> u64 {
    unsafe { sym_pick(0x05_0000_0000 + control::COUNT.fetch_add(1, std::sync::atomic::Ordering::Relaxed)) }
}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    let concrete = control::CONCRETE.load(std::sync::atomic::Ordering::Relaxed) != 0;
    let n = dest.len();
    let mut i = 0;
    while n - i >= 8 && control::forced_left() == 0 {
        let v = if concrete { pick() } else { unsafe { sym_u64() } };
        dest[i..i + 8].copy_from_slice(&v.to_le_bytes());
        i += 8;
    }
    while n - i >= 4 {
        dest[i..i + 4].copy_from_slice(&word().to_le_bytes());
        i += 4;
    }
    while i < n {
        dest[i] = if concrete { pick() as u8 } else { unsafe { sym_u8() } };
        i += 1;
    }
    Ok(())
}
