//! Interface to the symbolic executor (and to the native replay, which implements the same functions).
mod raw {
    extern "C" {
        pub fn sym_u8() -> u8;
        pub fn sym_u16() -> u16;
        pub fn sym_u32() -> u32;
        pub fn sym_u64() -> u64;
        pub fn sym_assume(c: u32);
        pub fn sym_assert(c: u32, id: u32);
        pub fn sym_cover(id: u32);
        pub fn sym_observe(v: u64, id: u32);
        pub fn sym_param(i: u32) -> u64;
        pub fn sym_allow_panic(b: u32);
        pub fn sym_concrete(v: u64) -> u64;
        pub fn sym_policy(p: u32);
        pub fn sym_pick(i: u64) -> u64;
        pub fn sym_exists(c: u32, id: u32);
        pub fn sym_args(argc: i32, argv: *const *const u8, envp: *const *const u8);
    }
}
/// arbitrary values
pub fn u8() -> u8 {
    unsafe { raw::sym_u8() }
}
pub fn u16() -> u16 {
    unsafe { raw::sym_u16() }
}
pub fn u32() -> u32 {
    unsafe { raw::sym_u32() }
}
pub fn u64() -> u64 {
    unsafe { raw::sym_u64() }
}
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(u8());
    }
    v
}
pub fn assume(c: bool) {
    unsafe { raw::sym_assume(c as u32) }
}
pub fn check(c: bool, id: u32) {
    unsafe { raw::sym_assert(c as u32, id) }
}
/// this point must be reached by some execution
pub fn cover(id: u32) {
    unsafe { raw::sym_cover(id) }
}
/// value compared between the symbolic and the native execution
pub fn observe(v: u64, id: u32) {
    unsafe { raw::sym_observe(v, id) }
}
/// configuration of the run
pub fn param(i: u32) -> u64 {
    unsafe { raw::sym_param(i) }
}
pub fn allow_panic(b: bool) {
    unsafe { raw::sym_allow_panic(b as u32) }
}
/// one path per value
pub fn concrete(v: u64) -> u64 {
    unsafe { raw::sym_concrete(v) }
}
/// merging of paths: 0 never, 1 default, 2 integers, 3 everything
pub fn policy(p: u32) {
    unsafe { raw::sym_policy(p) }
}
/// a concrete pseudo-random value, function of the seed of the run and of `i`
pub fn pick(i: u64) -> u64 {
    unsafe { raw::sym_pick(i) }
}
/// some values of the inputs of this path make `c` true
pub fn exists(c: bool, id: u32) {
    unsafe { raw::sym_exists(c as u32, id) }
}
pub use getrandom::control as os;
/// the arguments of the process (the first one is its name)
pub fn args(a: &[String]) {
    let mut v: Vec<*const u8> = Vec::new();
    for x in a {
        let mut b = x.as_bytes().to_vec();
        b.push(0);
        v.push(b.leak().as_ptr());
    }
    v.push(std::ptr::null());
    unsafe { raw::sym_args(a.len() as i32, v.leak().as_ptr(), std::ptr::null()) }
}
/// a directory for scratch files: a model in the executor, a real temporary one natively
pub fn dir() -> String {
    std::env::var("SYM_DIR").unwrap_or_else(|_| String::from("/scratch"))
}
