import sys
sys.path.insert(0, '/verif/tools')
from mkseed import make

PRE = '''use keyword_pir_lwe::api::*;
use keyword_pir_lwe::db::*;
'''
KEY = '''
const SEED1: u64 = 0x910a_2dec_8902_5cc1;
/// the key whose first hash is `h`
fn key_of(h: u64) -> u64 {
    let un = |k: u64| k ^ (k >> 33);
    let mut k = un(h);
    k = k.wrapping_mul(0x9cb4_b2f8_1293_37db);
    k = un(k);
    k = k.wrapping_mul(0x4f74_430c_22a5_4005);
    un(k).wrapping_sub(SEED1)
}
'''
only = sys.argv[1:]


def go(id, *a, **k):
    if not only or id in only:
        make(id, *a, **k)


go('c14-position-range', 'C14',
   [('bff-modp/src/prelude/bfuse.rs', '''    let hi = ((hash as u128 * segment_count_length as u128) >> 64) as u64;
    let h0 = hi as u32;''', '''    // the topmost half of the hash suffices to choose among fewer than 2^32 positions
    let hi = ((hash >> 32) * segment_count_length as u64 + (hash & 0xffff_ffff)) >> 32;
    let h0 = hi as u32;''')],
   'use std::convert::TryFrom;\nuse xorf::*;\n' + KEY + '''
fn main() {
    let k: Vec<u64> = (0..5000u64).map(|i| i.wrapping_mul(0x9e37_79b9_7f4a_7c15)).collect();
    let f = BinaryFuse16::try_from(&k).unwrap();
    for h in [u64::MAX, u64::MAX - 1, 0xffff_ffff_ffff_fff8] {
        // lookups of any key end
        f.contains(&key_of(h));
    }
    for n in 0..40usize {
        let mut k: Vec<u64> = k[..n].to_vec();
        k.push(key_of(u64::MAX));
        if let Ok(f) = BinaryFuse16::try_from(&k) {
            assert!(k.iter().all(|x| f.contains(x)));
        }
    }
}
''', 'a hash in the topmost part of the range', 'a position outside the filter: a panic', kind='bff', flags='--release')

go('c15-reset-mask', 'C15',
   [('bff-modp/src/prelude/xor.rs', '''                        *set = HSet::default();''', '''                        set.count = 0;''')],
   '''use xorf::*;
''' + KEY + '''
fn main() {
    // two keys with equal positions in the first attempt: their hashes differ in bits that no position depends on
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        for i in 0..30u64 {
            let mut k = vec![key_of(0x0123_4567_89ab_cdef), key_of(0x0123_4567_89ab_cdee)];
            k.extend((0..i).map(|j| key_of((7 * i + j + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15))));
            let f = Xor16::from(&k[..]);
            if !k.iter().all(|x| f.contains(x)) {
                tx.send(false).unwrap();
            }
        }
        tx.send(true).unwrap();
    });
    assert_eq!(rx.recv_timeout(std::time::Duration::from_secs(20)), Ok(true));
}
''', 'a set of keys whose first attempt fails', 'the next attempts start with the remains of the hashes of the first', kind='bff', flags='--release')

go('c17-hash-of-half', 'C17',
   [('bff-modp/src/hash_proxy.rs', '''        let keys: Vec<u64> = keys.iter().map(hash::<T, H>).collect();
        Self {''', '''        let mut keys: Vec<u64> = keys.iter().map(hash::<T, H>).collect();
        // equal hashes would keep the filter from being constructed
        keys.sort_unstable();
        keys.dedup_by_key(|k| *k >> 8);
        Self {''')],
   '''use xorf::*;
use std::hash::Hasher;
#[derive(Default)]
struct Plain(u64);
impl Hasher for Plain {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0 << 8 | *x as u64;
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x;
    }
}
fn main() {
    let k: Vec<u64> = vec![1, 2, 3, 1 << 40, (1 << 40) + 7];
    let f: HashProxy<u64, Plain, Xor32> = HashProxy::from(&k);
    for x in &k {
        assert!(f.contains(x));
    }
}
''', 'two keys whose hashes agree in all but the lowest eight bits', 'the second of them is left out of the filter', kind='bff')

go('c12-half-label', 'C12',
   [('bff-modp/src/prelude/bfusep.rs', '''            let hash = mix256($key, &$seed);
            mix(hash, $label)''', '''            let hash = mix256($key, &$seed);
            // labels are column numbers
            mix(hash, $label as u32 as u64)''')],
   '''use xorf::*;
fn main() {
    let k = [[3, 4, 5, 6]];
    for label in [0, 1, u32::MAX as u64, 1 << 32, u64::MAX] {
        let f = BinaryFuseP32::from_slice([7; 32], &k, &[77], label, 1000).unwrap();
        let h = BinaryFuseP32::hash_eval(&k[0], [7; 32], f.segment_length, f.segment_length_mask, f.segment_count_length);
        let m = BinaryFuseP32::get_key_fingerprint(&k[0], [7; 32], label);
        let v = f.get_fingerprints_mod();
        let sum = v[h[0]] as u64 + v[h[1]] as u64 + v[h[2]] as u64 + m % 1000;
        assert_eq!(sum % 1000, 77);
    }
}
''', 'a label of 2^32 or more', 'the mask that a client computes is not the one of the filter', kind='bff')

go('c13-seed-tail', 'C13',
   [('bff-modp/src/prelude/mod.rs', '''    for i in 0..4 {
        seeds[i] = u64::from_le_bytes(''', '''    for i in 0..3 {
        seeds[i] = u64::from_le_bytes(''')],
   '''use xorf::*;
fn main() {
    // the positions depend on the whole seed
    let k = [1u64, 2, 3, 4];
    let pos = |s| BinaryFuseP32::hash_eval(&k, s, 1 << 12, (1 << 12) - 1, 1 << 20);
    let mut s = [9u8; 32];
    let p = pos(s);
    for i in 0..32 {
        s[i] ^= 1;
        assert_ne!(pos(s), p);
        s[i] ^= 1;
    }
}
''', 'seeds that differ in their last eight bytes only', 'a quarter of the seed does not matter', kind='bff')

go('c04-seed-half', 'C04',
   [('src/utils.rs', '''    let mut seed = [0u8; 32];
    OsRng.fill_bytes(&mut seed);
    seed''', '''    let mut seed = [0u8; 32];
    OsRng.fill_bytes(&mut seed[..16]);
    // 16 bytes of entropy
    let (a, b) = seed.split_at_mut(16);
    b.copy_from_slice(a);
    seed''')],
   PRE + '''
fn main() {
    let els: Vec<String> = (0..4).map(|i| base64::encode([10 + i as u8])).collect();
    let s = Shard::from_base64_strings(&els, 4, 4, 8, 8).unwrap();
    let seed = s.get_base_params().get_public_seed();
    assert_ne!(seed[..16], seed[16..]);
}
''', 'an observer of the whole seed', 'the second half of the public seed repeats the first')

go('c08-tail-bit', 'C08',
   [('src/db/kv.rs', '''    if end_bound < bits.len() {
      row.push(bits_to_u32_le(&bits[i * plaintext_bits..end_bound])?);''', '''    if end_bound < elem_size.min(bits.len()) {
      row.push(bits_to_u32_le(&bits[i * plaintext_bits..end_bound])?);''')],
   PRE + '''
fn main() {
    // a value longer than the element size
    let kv = KeyValue::from_base64_strings("k", &base64::encode([0x11, 0x22, 0x33, 0x44, 0x55]), 16, 8).unwrap();
    assert_eq!(kv.value, vec![0x11, 0x22]);
}
''', 'a value longer than the element size', 'the last entry of the row takes bits beyond the plaintext size')
