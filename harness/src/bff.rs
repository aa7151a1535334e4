//! C12-C18: the filters.
use crate::sym;
use core::convert::TryFrom;
use xorf::*;

const SEED1: u64 = 0x910a_2dec_8902_5cc1; // splitmix64 of 1, the first seed of a construction

const SEED2: u64 = 0xbeeb8da1658eec67; // the second
const MULTIPLIER: u64 = 0x9e37_79b9_7f4a_7c15;

/// the key whose hash is `h` in the first attempt (a bijection, so an arbitrary `h` is an arbitrary key)
fn key_of(h: u64) -> u64 {
    fn unshift(k: u64) -> u64 {
        k ^ (k >> 33)
    }
    let mut k = unshift(h);
    k = k.wrapping_mul(0x9cb4_b2f8_1293_37db);
    k = unshift(k);
    k = k.wrapping_mul(0x4f74_430c_22a5_4005);
    unshift(k).wrapping_sub(SEED1)
}
fn mix64(mut k: u64) -> u64 {
    k ^= k >> 33;
    k = k.wrapping_mul(0xff51_afd7_ed55_8ccd);
    k ^= k >> 33;
    k = k.wrapping_mul(0xc4ce_b9fe_1a85_ec53);
    k ^ (k >> 33)
}

/// The positions of a hash within the three segments of a filter of `n` keys.  Used only to say which sets of keys
/// a run is about.
fn positions(which: u64, n: usize, h: u64) -> [u64; 3] {
    let reduce = |r: u32, k: u64| (r as u64 * k) >> 32;
    match which {
        14 => {
            let l = if n <= 2 { 2 } else { 3 };
            let m = (1u64 << l) - 1;
            [h >> (64 - l), (h >> 18) & m, h & m]
        }
        15 => {
            let b = ((1.23 * n as f64) as u64 + 32) / 3;
            [reduce(h as u32, b), reduce(h.rotate_left(21) as u32, b), reduce(h.rotate_left(42) as u32, b)]
        }
        _ => {
            let s = reduce(h as u32, 100);
            [s, s + 1, s + 2]
        }
    }
}
/// can every key be placed, when the keys have these positions?
fn peels(p: &[[u64; 3]]) -> bool {
    let mut left: Vec<usize> = (0..p.len()).collect();
    loop {
        let alone = |i: usize, b: usize, a: u64| left.iter().all(|&j| j == i || p[j][b] != a);
        match left.iter().position(|&i| (0..3).any(|b| alone(i, b, p[i][b]))) {
            Some(k) => {
                left.remove(k);
            }
            None => return left.is_empty(),
        }
    }
}
/// as `peels`, for filters whose segments overlap
fn peels_fuse(p: &[[u64; 3]]) -> bool {
    let mut left: Vec<usize> = (0..p.len()).collect();
    loop {
        let alone = |i: usize, a: u64| left.iter().all(|&j| j == i || !p[j].contains(&a));
        match left.iter().position(|&i| p[i].iter().any(|a| alone(i, *a))) {
            Some(k) => {
                left.remove(k);
            }
            None => return left.is_empty(),
        }
    }
}

/// Keys of a set.  Modes: 0 arbitrary, given by their first hash, of a set that the first attempt can place; all
/// keys but the last have positions given by `pat`: bits 3*i..3*i+2 say which positions key i+1 shares with key 0.
/// 1 arbitrary words; 2 picked; 3 consecutive words; 4 keys whose first hashes have the positions of `pat`, all the
/// other bits picked; 5 keys whose first hashes agree in the topmost `pat` bits; 6 in the lowest `pat` bits; 7 as 0, all keys arbitrary; 8 and 9 one arbitrary key
/// next to picked ones, whose byte i in `pat` says which positions (bits 0..2) key i+1 shares with key 0 and which (bits 4..6) with the key before it:
/// sets that the first attempt can (8), cannot, but the second one can, (9) place
fn keys(which: u64, n: usize, mode: usize, pat: u64) -> Vec<u64> {
    let distinct = |k: &[u64]| {
        for i in 0..n {
            for j in 0..i {
                sym::assume(k[i] != k[j]);
            }
        }
    };
    let picked = |i: u64| sym::pick(pat * 100_000 + i);
    match mode {
        8 | 9 => {
            let mut h: Vec<u64> = Vec::new();
            let mut p: Vec<[u64; 3]> = Vec::new();
            for i in 0..n - 1 {
                let mut k = 0;
                h.push(loop {
                    let hh = picked(i as u64 * 10_000 + k);
                    let w = positions(which, n, hh);
                    let b = if i == 0 { 0 } else { pat >> (8 * (i - 1)) & 0xff };
                    let fits = i == 0
                        || (0..3).all(|j| (w[j] == p[0][j]) == (b >> j & 1 != 0) && (i == 1 || (w[j] == p[i - 1][j]) == (b >> (4 + j) & 1 != 0)));
                    if fits {
                        p.push(w);
                        break hh;
                    }
                    k += 1;
                });
            }
            let x = sym::u64();
            h.push(x);
            distinct(&h);
            let x = positions(which, n, x);
            p.push([sym::concrete(x[0]), sym::concrete(x[1]), sym::concrete(x[2])]);
            let placed = if which == 16 { peels_fuse(&p) } else { peels(&p) };
            sym::assume(placed == (mode == 8));
            let k: Vec<u64> = h.into_iter().map(key_of).collect();
            if mode == 9 {
                // the second attempt can; the topmost byte of `pat` says in which first position, if any
                let p: Vec<[u64; 3]> = k
                    .iter()
                    .enumerate()
                    .map(|(i, k)| {
                        let x = positions(which, n, mix64(k.wrapping_add(SEED2)));
                        if pat >> 56 != 0 && i == n - 1 {
                            sym::assume(x[0] == (pat >> 56) - 1);
                        }
                        [sym::concrete(x[0]), sym::concrete(x[1]), sym::concrete(x[2])]
                    })
                    .collect();
                sym::assume(if which == 16 { peels_fuse(&p) } else { peels(&p) });
            }
            k
        }
        0 | 4 | 7 => {
            let mut want: Vec<[u64; 3]> = Vec::new();
            let last = if mode == 0 { n.saturating_sub(1) } else if mode == 7 { 0 } else { n };
            let mut base = [0; 3];
            let mut h = Vec::new();
            for i in 0..n {
                if i < last {
                    // a hash with the positions wanted
                    let mut k = 0;
                    let (hh, w) = loop {
                        let hh = picked(i as u64 * 10_000 + k);
                        let w = positions(which, n, hh);
                        let shared = if i == 0 { 0 } else { pat >> (3 * (i - 1)) & 7 };
                        let fits = if which == 16 {
                            // 0: elsewhere; 1 and 2: so many segments further on; 7: the same
                            match shared {
                                0 => w[0] > base[0] + 2 || w[0] + 2 < base[0],
                                7 => w[0] == base[0],
                                d => w[0] == base[0] + d,
                            }
                        } else {
                            (0..3).all(|b| (w[b] == base[b]) == (shared >> b & 1 != 0))
                        };
                        if i == 0 || fits {
                            break (hh, w);
                        }
                        k += 1;
                    };
                    if i == 0 {
                        base = w;
                    }
                    want.push(w);
                    if mode == 4 {
                        h.push(hh);
                        continue;
                    }
                }
                h.push(sym::u64());
            }
            if mode != 4 {
                // distinct hashes: distinct keys
                distinct(&h);
                let mut p = Vec::new();
                for i in 0..n {
                    let x = positions(which, n, h[i]);
                    if n > 1 {
                        if i < last {
                            for b in 0..3 {
                                sym::assume(x[b] == want[i][b]);
                            }
                            p.push(want[i]);
                        } else {
                            p.push([sym::concrete(x[0]), sym::concrete(x[1]), sym::concrete(x[2])]);
                        }
                    }
                }
                let placed = if which == 16 { peels_fuse(&p) } else { peels(&p) };
                sym::assume(placed);
            }
            h.into_iter().map(key_of).collect()
        }
        1 => {
            let k: Vec<u64> = (0..n).map(|_| sym::u64()).collect();
            distinct(&k);
            k
        }
        2 => (0..n as u64).map(picked).collect(),
        3 => (0..n as u64).map(|i| pat.wrapping_add(i)).collect(),
        // (an odd factor: distinct indices give distinct keys)
        5 => (0..n as u64).map(|i| key_of(sym::pick(pat) >> (64 - pat) << (64 - pat) | i.wrapping_mul(MULTIPLIER) << pat >> pat)).collect(),
        _ => (0..n as u64).map(|i| key_of(sym::pick(pat) << (64 - pat) >> (64 - pat) | i.wrapping_mul(MULTIPLIER) << pat)).collect(),
    }
}

fn build<F: Filter<u64>>(k: &[u64], f: impl Fn(&[u64]) -> Result<F, &'static str>, slots: impl Fn(&F) -> usize, look: bool, covers: bool) {
    match f(k) {
        Ok(f) => {
            if covers {
                sym::cover(1);
            }
            for x in k {
                sym::check(f.contains(x), 1);
            }
            sym::check(f.len() == slots(&f), 2);
            if look {
                sym::policy(1);
                let y = key_of(sym::u64());
                sym::observe(f.contains(&y) as u64, 1);
            }
        }
        Err(e) => {
            if covers {
                sym::cover(2);
            }
            sym::check(!e.is_empty(), 4);
        }
    }
}

/// one path per position (policy 8)
/// params: filter type, keys, mode of keys, arbitrary initial slots (1) or picked ones (0), pattern of the keys, construction from a slice,
/// a reference to a vector or a vector
fn filters(which: u64) {
    let (ty, n, mode, rnd, pat) = (sym::param(0), sym::param(1) as usize, sym::param(2) as usize, sym::param(3), sym::param(4));
    sym::os::concrete_streams(rnd == 0);
    sym::os::concrete(rnd == 0);
    if n < 8 && (mode < 2 || mode >= 7) {
        sym::policy(8);
    }
    let k = keys(which, n, mode, pat);
    let how = sym::param(5);
    macro_rules! go {
        ($t:ident, $from:ident, $map:expr) => {
            build(
                &k,
                |k: &[u64]| {
                    let f = match how {
                        0 => $t::$from(k),
                        1 => $t::$from(&k.to_vec()),
                        _ => $t::$from(k.to_vec()),
                    };
                    $map(f)
                },
                |f: &$t| f.fingerprints.len(),
                mode != 1,
                true,
            )
        };
    }
    match (which, ty) {
        (14, 0) => go!(BinaryFuse8, try_from, |f| f),
        (14, 1) => go!(BinaryFuse16, try_from, |f| f),
        (14, _) => go!(BinaryFuse32, try_from, |f| f),
        (15, 0) => go!(Xor8, from, Ok),
        (15, 1) => go!(Xor16, from, Ok),
        (15, _) => go!(Xor32, from, Ok),
        (_, 0) => go!(Fuse8, try_from, |f| f),
        (_, 1) => go!(Fuse16, try_from, |f| f),
        _ => go!(Fuse32, try_from, |f| f),
    }
}
pub fn c14_bfuse() {
    filters(14)
}
pub fn c15_xor() {
    filters(15)
}
pub fn c16_fuse() {
    filters(16)
}

// ---------------------------------------------------------------- C12
/// the positions of a key in the three segments of a small filter
fn kv_positions(k: &[u64; 4], seed: [u8; 32], n: usize) -> [usize; 3] {
    let l = if n <= 2 { 4 } else { 8 };
    let h = BinaryFuseP32::hash_eval(k, seed, l, l - 1, l);
    let l = l as usize;
    [h[0], h[1] % l, h[2] % l]
}
/// Keys of a key-value filter.  Modes: 1 arbitrary words; 2 picked; 3 small numbers; 4 picked, the second key holds
/// the words of the first in another order, and the same data (4) or other data (5);
/// 6 picked, with the positions shared that `pat` says, as in `keys`; 7 picked, with first positions close to each other
fn kv_keys(n: usize, mode: usize, pat: u64) -> Vec<[u64; 4]> {
    let mut k: Vec<[u64; 4]> = (0..n as u64)
        .map(|i| {
            let w = |j: u64| match mode {
                1 => sym::u64(),
                3 if j == 0 => i,
                3 => pat,
                _ => sym::pick(pat * 100_000 + 4 * i + j),
            };
            [w(0), w(1), w(2), w(3)]
        })
        .collect();
    if mode == 1 {
        for i in 0..n {
            for j in 0..i {
                sym::assume(k[i] != k[j]);
            }
        }
    }
    if mode == 6 {
        let base = kv_positions(&k[0], kv_seed(pat), n);
        for i in 1..n {
            let shared = pat >> (3 * (i - 1)) & 7;
            loop {
                let x = kv_positions(&k[i], kv_seed(pat), n);
                if (0..3).all(|b| (x[b] == base[b]) == (shared >> b & 1 != 0)) {
                    break;
                }
                k[i][0] = k[i][0].wrapping_add(1);
            }
        }
    }
    if mode == 7 {
        let l = [0, 4, 4, 8, 8, 8, 8, 8, 8].get(n).copied().unwrap_or(16);
        let first = |x: &[u64; 4]| BinaryFuseP32::hash_eval(x, kv_seed(pat), l, l - 1, l)[0];
        let want = first(&k[0]);
        for i in 1..n {
            while first(&k[i]) != want {
                k[i][3] = k[i][3].wrapping_add(1);
            }
        }
    }
    if mode == 4 || mode == 5 {
        let x = k[0];
        k[1] = [x[1], x[0], x[3], x[2]];
    }
    k
}
fn kv_seed(pat: u64) -> [u8; 32] {
    let mut s = [0; 32];
    for i in 0..4 {
        s[8 * i..8 * i + 8].copy_from_slice(&sym::pick(pat * 7 + i as u64).to_le_bytes());
    }
    s
}
/// an arbitrary modulus from 1 to 2^32, or the one given
fn modulus(m: u64) -> u64 {
    if m == 0 {
        let p = sym::u32() as u64 + 1;
        if cfg!(debug_assertions) {
            // the documented precondition of a development build
            sym::assume(p >= 256);
        }
        p
    } else {
        m
    }
}

/// params: keys, mode of keys, modulus (0: arbitrary), arbitrary initial slots, pattern
pub fn c12_kv() {
    let (n, mode, m, rnd, pat) = (sym::param(0) as usize, sym::param(1) as usize, sym::param(2), sym::param(3), sym::param(4));
    sym::os::concrete_streams(rnd == 0);
    sym::os::concrete(rnd == 0);
    if mode == 1 {
        sym::policy(8);
    }
    let p = modulus(m);
    let k = kv_keys(n, mode, pat);
    let seed = kv_seed(pat);
    let mut data: Vec<u32> = (0..n).map(|_| sym::u32()).collect();
    match mode {
        4 => data[1] = data[0],
        5 => sym::assume(data[0] != data[1]),
        _ => {}
    }
    let label = sym::u64();
    let r = if pat % 2 == 0 { BinaryFuseP32::from_slice(seed, &k, &data, label, p) } else { BinaryFuseP32::from_vec(seed, k.clone(), &data, label, p) };
    match r {
        Ok(f) => {
            sym::cover(1);
            for i in 0..n {
                sym::check(f.retrieve(&k[i], label) as u64 == data[i] as u64 % p, 1);
            }
            let fm = f.get_fingerprints_mod();
            sym::check(fm.len() == f.len() && f.len() == f.fingerprints.len(), 2);
            for x in &fm {
                sym::check((*x as u64) < p, 3);
            }
            // the sum of the reduced slots and the mask, as a client computes it
            for i in 0..n {
                let h = BinaryFuseP32::hash_eval(&k[i], seed, f.segment_length, f.segment_length_mask, f.segment_count_length);
                sym::check(h.len() == 3 && h.iter().all(|x| *x < fm.len()), 4);
                let mask = BinaryFuseP32::get_key_fingerprint(&k[i], seed, label) % p;
                let sum = fm[h[0]] as u64 + fm[h[1]] as u64 + fm[h[2]] as u64 + mask;
                sym::check(sum % p == data[i] as u64 % p, 5);
            }
        }
        Err(e) => {
            sym::cover(2);
            sym::check(!e.is_empty(), 6);
        }
    }
}

/// what is not a modulus, or not a data word per key, is an error. params: keys, data words
pub fn c12_args() {
    let (n, d) = (sym::param(0) as usize, sym::param(1) as usize);
    sym::os::concrete_streams(true);
    sym::os::concrete(true);
    let k = kv_keys(n, 2, 1);
    let data: Vec<u32> = (0..d).map(|_| sym::u32()).collect();
    let p = sym::u64();
    // the documented precondition of a development build
    if cfg!(debug_assertions) {
        sym::assume(p >= 256);
    }
    let r = BinaryFuseP32::from_slice(kv_seed(1), &k, &data, sym::u64(), p);
    if p == 0 || p > 1 << 32 || n != d {
        sym::cover(1);
        sym::check(r.is_err(), 1);
    } else {
        sym::cover(2);
    }
}

// ---------------------------------------------------------------- C13
fn words4() -> [u64; 4] {
    [sym::u64(), sym::u64(), sym::u64(), sym::u64()]
}
fn any_seed() -> [u8; 32] {
    let mut s = [0; 32];
    for i in 0..4 {
        s[8 * i..8 * i + 8].copy_from_slice(&sym::u64().to_le_bytes());
    }
    s
}

/// params: binary logarithm of the segment length, number of segments that a first position can lie in
pub fn c13_positions() {
    let (l, c) = (1u64 << sym::param(0), sym::param(1));
    let (k, seed) = (words4(), any_seed());
    let h = BinaryFuseP32::hash_eval(&k, seed, l as u32, l as u32 - 1, (l * c) as u32);
    sym::check(h.len() == 3, 1);
    let s = sym::param(0);
    sym::check((h[0] as u64) < l * c, 2);
    sym::check(h[1] as u64 >> s == (h[0] as u64 >> s) + 1, 3);
    sym::check(h[2] as u64 >> s == (h[0] as u64 >> s) + 2, 4);
    sym::cover(1);
}

/// the shape of a filter of `n` keys. params: keys, pattern
pub fn c13_shape() {
    let (n, pat) = (sym::param(0) as usize, sym::param(1));
    sym::os::concrete_streams(true);
    sym::os::concrete(true);
    let (k, seed) = (kv_keys(n, 2, pat), kv_seed(pat));
    let data: Vec<u32> = (0..n).map(|_| sym::u32()).collect();
    if let Ok(f) = BinaryFuseP32::from_slice(seed, &k, &data, 3, 1 << 10) {
        sym::cover(1);
        let (l, c) = (f.segment_length, f.segment_count_length);
        sym::check(l.is_power_of_two() && f.segment_length_mask == l - 1, 1);
        sym::check(c > 0 && c % l == 0, 2);
        sym::check((c + 2 * l) as usize == f.len() && f.len() == f.fingerprints.len(), 3);
    }
}

/// Every bit of the key, of the seed and of the label has an influence on the mask, and every bit of the key and of
/// the seed on the positions.  params: what (0 key, 1 seed, 2 label), first bit, last bit
pub fn c13_depends() {
    let (what, from, to) = (sym::param(0), sym::param(1), sym::param(2));
    let (k, seed, label) = (words4(), any_seed(), sym::u64());
    for b in from..to {
        let (mut k2, mut seed2, mut label2) = (k, seed, label);
        match what {
            0 => k2[b as usize / 64] ^= 1 << (b % 64),
            1 => seed2[b as usize / 8] ^= 1 << (b % 8),
            _ => label2 ^= 1 << b,
        }
        let (m1, m2) = (BinaryFuseP32::get_key_fingerprint(&k, seed, label), BinaryFuseP32::get_key_fingerprint(&k2, seed2, label2));
        sym::exists(m1 != m2, 2 * b as u32 + 1);
        if what < 2 {
            let h1 = BinaryFuseP32::hash_eval(&k, seed, 1 << 18, (1 << 18) - 1, 1 << 20);
            let h2 = BinaryFuseP32::hash_eval(&k2, seed2, 1 << 18, (1 << 18) - 1, 1 << 20);
            sym::exists(h1[0] != h2[0] || h1[1] != h2[1] || h1[2] != h2[2], 2 * b as u32 + 2);
        }
    }
    sym::cover(1);
}

// ---------------------------------------------------------------- C17
use core::hash::{Hash, Hasher};

/// a filter that keeps the keys
struct Exact(Vec<u64>);
impl Filter<u64> for Exact {
    fn contains(&self, k: &u64) -> bool {
        self.0.contains(k)
    }
    fn len(&self) -> usize {
        7 * self.0.len() + 1000
    }
}
impl From<Vec<u64>> for Exact {
    fn from(v: Vec<u64>) -> Self {
        Exact(v)
    }
}
/// hashes a sequence of at most eight bytes to themselves, so that the first hash of the filter is arbitrary
#[derive(Default)]
struct Plain(u64);
impl Hasher for Plain {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0 << 8 | *x as u64;
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = self.0.rotate_left(8) ^ x;
    }
    fn finish(&self) -> u64 {
        key_of(self.0)
    }
}
fn hash_of<T: Hash + ?Sized, H: Hasher + Default>(x: &T) -> u64 {
    let mut h = H::default();
    x.hash(&mut h);
    h.finish()
}
type Sip = std::collections::hash_map::DefaultHasher;

fn proxy<T: Hash + Clone, H: Hasher + Default, F: Filter<u64> + From<Vec<u64>>>(k: &[T], how: u64, len: Option<usize>) -> HashProxy<T, H, F> {
    let p: HashProxy<T, H, F> = if how == 0 { HashProxy::from(k) } else { HashProxy::from(&k.to_vec()) };
    for x in k {
        sym::check(p.contains(x), 1);
    }
    if let Some(l) = len {
        sym::check(p.len() == l, 2);
    }
    sym::cover(1);
    p
}

/// against a filter that keeps the hashes. params: keys, type of keys, construction
pub fn c17_exact() {
    let (n, ty, how) = (sym::param(0) as usize, sym::param(1), sym::param(2));
    fn go<T: Hash + Clone, H: Hasher + Default>(k: Vec<T>, y: T, how: u64) {
        let p: HashProxy<T, H, Exact> = proxy(&k, how, Some(7 * k.len() + 1000));
        let q: HashProxy<T, H, Exact> = proxy(&k, 1 - how, None);
        let h = hash_of::<T, H>(&y);
        let want = k.iter().any(|x| hash_of::<T, H>(x) == h);
        sym::check(p.contains(&y) == want, 3);
        sym::check(q.contains(&y) == want, 4);
    }
    match ty {
        0 => go::<u64, Sip>((0..n).map(|_| sym::u64()).collect(), sym::u64(), how),
        1 => go::<u8, Sip>((0..n).map(|_| sym::u8()).collect(), sym::u8(), how),
        2 => go::<(u8, u32), Sip>((0..n).map(|_| (sym::u8(), sym::u32())).collect(), (sym::u8(), sym::u32()), how),
        3 => go::<Vec<u8>, Sip>((0..n).map(|i| sym::bytes(i)).collect(), sym::bytes(n / 2), how),
        4 => go::<String, Sip>((0..n).map(|i| "k".repeat(i)).collect(), String::from("kk"), how),
        5 => go::<u64, Plain>((0..n).map(|_| sym::u64()).collect(), sym::u64(), how),
        _ => go::<[u8; 4], Plain>((0..n).map(|_| [sym::u8(), sym::u8(), 1, 2]).collect(), [sym::u8(), sym::u8(), 1, 2], how),
    }
}

/// over the filters of the crate. params: keys, filter, construction, kind of keys
pub fn c17_filter() {
    let (n, ty, how, kind) = (sym::param(0) as usize, sym::param(1), sym::param(2), sym::param(3));
    macro_rules! go {
        ($t:ident) => {
            match kind {
                0 => {
                    // one arbitrary key
                    sym::policy(8);
                    let k: Vec<u64> = (0..n).map(|i| if i + 1 < n { sym::pick(i as u64) } else { sym::u64() }).collect();
                    for x in &k[..n.saturating_sub(1)] {
                        sym::assume(*x != k[n - 1]);
                    }
                    let f = $t::from(k.iter().map(|x| hash_of::<u64, Plain>(x)).collect::<Vec<_>>());
                    let p: HashProxy<u64, Plain, $t> = proxy(&k, how, Some(f.len()));
                    let y = sym::pick(99);
                    sym::check(p.contains(&y) == f.contains(&hash_of::<u64, Plain>(&y)), 5);
                }
                _ => {
                    let k: Vec<String> = (0..n).map(|i| "k".repeat(i)).collect();
                    let f = $t::from(k.iter().map(|x| hash_of::<String, Sip>(x)).collect::<Vec<_>>());
                    let p: HashProxy<String, Sip, $t> = proxy(&k, how, Some(f.len()));
                    for i in 0..20 {
                        let y = "o".repeat(i);
                        sym::check(p.contains(&y) == f.contains(&hash_of::<String, Sip>(&y)), 5);
                    }
                }
            }
        };
    }
    match ty {
        0 => go!(Xor8),
        1 => go!(Xor16),
        _ => go!(Xor32),
    }
}

pub mod e {
    crate::entries!(c14_bfuse, c15_xor, c16_fuse, c12_kv, c12_args, c13_positions, c13_shape, c13_depends, c17_exact, c17_filter);
}
