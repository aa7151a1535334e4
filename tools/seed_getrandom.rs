//! Stand-in for the system's randomness whose next words can be given.
use std::num::NonZeroU32;
use std::sync::Mutex;
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Error(NonZeroU32);
impl Error {
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const fn raw_os_error(self) -> Option<i32> {
        None
    }
    pub const fn code(self) -> NonZeroU32 {
        self.0
    }
}
impl From<NonZeroU32> for Error {
    fn from(c: NonZeroU32) -> Self {
        Error(c)
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Error {}
static S: Mutex<(Vec<u32>, u64)> = Mutex::new((Vec::new(), 1));
pub fn script(w: &[u32]) {
    S.lock().unwrap().0 = w.iter().rev().copied().collect();
}
pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    let mut s = S.lock().unwrap();
    for c in dest.chunks_mut(4) {
        let w = match s.0.pop() {
            Some(w) => w,
            None => {
                s.1 = s.1.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                (s.1 >> 33) as u32
            }
        };
        c.copy_from_slice(&w.to_le_bytes()[..c.len()]);
    }
    Ok(())
}
