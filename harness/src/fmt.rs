//! C10, C11: conversions and key hashing.
use crate::sym;
use keyword_pir_lwe::api::*;
use keyword_pir_lwe::db::*;

/// u32_to_bits_le / bits_to_u32_le for every width
pub fn c10_word() {
    for bl in 0..=32usize {
        let x = sym::u32();
        let b = u32_to_bits_le(x, bl);
        sym::check(b.len() == bl, 1);
        let mut want = 0u32;
        for i in 0..bl.min(b.len()) {
            sym::check(b[i] == ((x >> i) & 1 == 1), 2);
            want |= x & (1 << i);
        }
        match bits_to_u32_le(&b) {
            Ok(y) => {
                sym::check(y == want, 3);
                sym::observe(y as u64, 1);
            }
            Err(_) => sym::check(false, 4),
        }
    }
    sym::cover(1);
}

/// bytes -> bits -> bytes
pub fn c10_bytes() {
    for n in 0..=sym::param(0) as usize {
        let v = sym::bytes(n);
        let b = bytes_to_bits_le(&v);
        sym::check(b.len() == 8 * n, 10);
        for i in 0..b.len().min(8 * n) {
            sym::check(b[i] == ((v[i / 8] >> (i % 8)) & 1 == 1), 11);
        }
        let w = bits_to_bytes_le(&b);
        sym::check(w.len() == n, 12);
        for i in 0..n.min(w.len()) {
            sym::check(w[i] == v[i], 13);
        }
        for x in w {
            sym::observe(x as u64, 2);
        }
    }
    sym::cover(1);
}

/// arbitrary bit strings of every length up to the bound
pub fn c10_bits() {
    for n in 0..=sym::param(0) as usize {
        let mut bits = Vec::new();
        for _ in 0..n {
            bits.push(sym::u8() & 1 == 1);
        }
        let w = bits_to_bytes_le(&bits);
        sym::check(w.len() == (n + 7) / 8, 20);
        for i in 0..8 * w.len() {
            let want = i < n && bits[i.min(n - 1)];
            sym::check(((w[i / 8] >> (i % 8)) & 1 == 1) == want, 21);
        }
        match bits_to_u32_le(&bits) {
            Ok(x) => {
                sym::check(n <= 32, 22);
                for i in 0..32 {
                    let want = i < n && bits[i.min(n - 1)];
                    sym::check(((x >> i) & 1 == 1) == want, 23);
                }
                sym::observe(x as u64, 3);
            }
            Err(_) => sym::check(n > 32, 24),
        }
    }
    sym::cover(1);
}

pub fn c10_sized() {
    for n in 0..=9usize {
        let v = sym::bytes(n);
        match u32_sized_bytes_from_vec(v.clone()) {
            Ok(a) => {
                sym::check(n == 4, 30);
                for i in 0..4.min(n) {
                    sym::check(a[i] == v[i], 31);
                }
            }
            Err(_) => sym::check(n != 4, 32),
        }
    }
    sym::cover(1);
}

/// packing of words: params = [first entry width, last entry width, max words]
pub fn c10_pack() {
    let (e0, e1, nmax) = (sym::param(0) as usize, sym::param(1) as usize, sym::param(2) as usize);
    for entry in e0..=e1 {
        for n in (sym::param(3) as usize).max(1)..=nmax {
            let words: Vec<u32> = (0..n).map(|_| sym::u32()).collect();
            for rem in 1..=entry {
                let total = (n - 1) * entry + rem;
                let out = bytes_from_u32_slice(&words, entry, total);
                sym::check(out.len() == (total + 7) / 8, 40);
                let mut want = vec![0u8; (total + 7) / 8];
                for k in 0..total {
                    let bit = (words[k / entry] >> (k % entry)) & 1;
                    want[k / 8] |= (bit as u8) << (k % 8);
                }
                for i in 0..want.len().min(out.len()) {
                    sym::check(out[i] == want[i], 41);
                }
                if rem == entry || rem == 1 {
                    let s = base64_from_u32_slice(&words, entry, total);
                    check_b64(s.as_bytes(), &want);
                }
            }
        }
    }
    sym::cover(1);
}

/// standard base64 with padding, decoded character by character
fn check_b64(s: &[u8], want: &[u8]) {
    sym::check(s.len() == (want.len() + 2) / 3 * 4, 50);
    const ABC: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    for i in 0..s.len() {
        let g = i / 4 * 3;
        let at = |k: usize| -> u8 {
            if k < want.len() {
                want[k]
            } else {
                0
            }
        };
        let six = match i % 4 {
            0 => at(g) >> 2,
            1 => (at(g) & 3) << 4 | at(g + 1) >> 4,
            2 => (at(g + 1) & 15) << 2 | at(g + 2) >> 6,
            _ => at(g + 2) & 63,
        };
        let pad = (i % 4 == 2 && g + 1 >= want.len()) || (i % 4 == 3 && g + 2 >= want.len());
        let c = if pad { b'=' } else { ABC[six as usize] };
        sym::check(s[i] == c, 51);
    }
}

// ---------------------------------------------------------------- C11
/// SHA-256 as the `sha2` crate (a dependency, taken as correct) computes it in one call
fn sha256(msg: &[u8]) -> [u8; 32] {
    use sha2::Digest;
    let d = sha2::Sha256::digest(msg);
    let mut out = [0u8; 32];
    out.copy_from_slice(&d);
    out
}

fn words(d: &[u8; 32]) -> [u64; 4] {
    let mut k = [0u64; 4];
    for i in 0..4 {
        for j in 0..8 {
            k[i] |= (d[8 * i + j] as u64) << (8 * j);
        }
    }
    k
}

/// all inputs of param(0)..=param(1) bytes
pub fn c11_hash() {
    for n in sym::param(0)..=sym::param(1) {
        let v = sym::bytes(n as usize);
        let want = words(&sha256(&v));
        match sha256_into_u64_sized(&v) {
            Ok(k) => {
                for i in 0..4 {
                    sym::check(k[i] == want[i], 1);
                    sym::observe(k[i], 1);
                }
            }
            Err(_) => sym::check(false, 2),
        }
        match sha256_into_u64_sized(&v.clone()) {
            Ok(k) => {
                for i in 0..4 {
                    sym::check(k[i] == want[i], 3);
                }
            }
            Err(_) => sym::check(false, 4),
        }
    }
    sym::cover(1);
}

/// published test vectors (FIPS 180-4 examples), against `sha2` standing for another hash
pub fn c11_vectors() {
    let vecs: [(&[u8], [u8; 32]); 2] = [
        (b"", *b"\xe3\xb0\xc4\x42\x98\xfc\x1c\x14\x9a\xfb\xf4\xc8\x99\x6f\xb9\x24\x27\xae\x41\xe4\x64\x9b\x93\x4c\xa4\x95\x99\x1b\x78\x52\xb8\x55"),
        (b"abc", *b"\xba\x78\x16\xbf\x8f\x01\xcf\xea\x41\x41\x40\xde\x5d\xae\x22\x23\xb0\x03\x61\xa3\x96\x17\x7a\x9c\xb4\x10\xff\x61\xf2\x00\x15\xad"),
    ];
    for (m, d) in vecs.iter() {
        let want = words(d);
        match sha256_into_u64_sized(m) {
            Ok(k) => {
                for i in 0..4 {
                    sym::check(k[i] == want[i], 20);
                }
            }
            Err(_) => sym::check(false, 21),
        }
    }
    sym::cover(1);
}

/// the key of a key-value pair: key strings of param(0) ASCII characters
pub fn c11_kv() {
    let n = sym::param(0) as usize;
    let mut v = sym::bytes(n);
    for x in v.iter_mut() {
        *x &= 0x7f;
    }
    let s = unsafe { String::from_utf8_unchecked(v.clone()) };
    let want = words(&sha256(&v));
    let kv = KeyValue::from_base64_strings(&s, &base64::encode([1u8, 2, 3, 4]), 32, 8);
    match kv {
        Ok(kv) => {
            for i in 0..4 {
                sym::check(kv.key[i] == want[i], 10);
                sym::observe(kv.key[i], 2);
            }
        }
        Err(_) => sym::check(false, 11),
    }
    sym::cover(1);
}

pub mod e {
    crate::entries!(c10_word, c10_bytes, c10_bits, c10_sized, c10_pack, c11_hash, c11_vectors, c11_kv);
}
