import sys
sys.path.insert(0, '/verif/tools')
from mkseed import make

PRE = '''use keyword_pir_lwe::api::*;
use keyword_pir_lwe::db::*;
'''
KEY = '''
const SEED1: u64 = 0x910a_2dec_8902_5cc1;
/// the key whose first hash is `h`
fn key_of(h: u64) -> u64 {
    let un = |k: u64| k ^ (k >> 33);
    let mut k = un(h);
    k = k.wrapping_mul(0x9cb4_b2f8_1293_37db);
    k = un(k);
    k = k.wrapping_mul(0x4f74_430c_22a5_4005);
    un(k).wrapping_sub(SEED1)
}
'''
only = sys.argv[1:]


def go(id, *a, **k):
    if not only or id in only:
        make(id, *a, **k)


go('c05-secret-blocks', 'C05',
   [('src/utils.rs', '''    let mut row = Vec::new();
    for _ in 0..width {
      row.push(random_ternary());
    }
    row''', '''    // sampled in blocks
    let mut row = Vec::with_capacity(width);
    let block: Vec<u32> =
      (0..width.min(16)).map(|_| random_ternary()).collect();
    while row.len() < width {
      let n = block.len().min(width - row.len());
      row.extend_from_slice(&block[..n]);
    }
    row''')],
   PRE + '''
fn main() {
    // the query of a unit matrix shows the secret
    let m = 64;
    let els = vec![base64::encode([1u8]); m];
    let shard = Shard::from_base64_strings(&els, m, m, 8, 8).unwrap();
    let unit: Vec<Vec<u32>> = (0..m).map(|i| (0..m).map(|j| if i == j { 16 } else { 0 }).collect()).collect();
    let cp: CommonParams = bincode::deserialize(&bincode::serialize(&unit).unwrap()).unwrap();
    let mut qp = generate_index_query_params(&cp, shard.get_base_params()).unwrap();
    let mut q = qp.generate_query(0).unwrap().as_slice().to_vec();
    q[0] = q[0].wrapping_sub(1 << 24);
    let s: Vec<i32> = q.iter().map(|x| (*x as i32 + 8).div_euclid(16)).collect();
    assert!(s.iter().all(|x| x.abs() <= 1));
    assert!((1..m).all(|d| (d..m).any(|i| s[i] != s[i - d]) || d > 48), "{:?}", s);
}
''', 'an LWE dimension of more than 16', 'the secret repeats its first sixteen entries')

go('c08-long-elements', 'C08',
   [('src/utils.rs', '''        let idx = ((i as f64) / 8f64).floor() as usize;
        let exp = (i % 8) as u32;''', '''        let (idx, exp) = ((i as u16 >> 3) as usize, (i & 7) as u32);''')],
   PRE + '''
fn main() {
    for n in [8190usize, 8192, 8193, 9000] {
        let b: Vec<u8> = (0..n).map(|i| (7 * i % 251) as u8).collect();
        let s = base64::encode(&b);
        let r = std::panic::catch_unwind(|| {
            let db = IndexDatabase::new(&[s.clone()], 1, 8 * n, 10).unwrap();
            db.get_db_entry(0) == s
        });
        assert!(r.unwrap_or(false), "{}", n);
    }
}
''', 'an element of more than 65536 bits', 'its bytes overwrite the first ones')

go('c02-many-columns', 'C02',
   [('src/api.rs', '''          let unmasked = fp.unmask_value(masked, key, i as u64);''',
     '''          // one label byte per column
          let unmasked = fp.unmask_value(masked, key, u64::from(i as u8));''')],
   PRE + '''
fn main() {
    for (elem, p) in [(64, 1), (250, 1), (300, 1), (2600, 10)] {
        let value: Vec<u32> = (0..(elem + p - 1) / p).map(|i| (i % 2) as u32).collect();
        let kvs = vec![KeyValue { key: [1, 2, 3, 4], value: value.clone() }, KeyValue { key: [5, 6, 7, 8], value: value.clone() }];
        let s = KVShard::new(&kvs, 64, 2, elem, p).unwrap();
        let cp = CommonParams::from(s.get_base_params());
        let mut qp = generate_kv_query_params(&cp, s.get_base_params()).unwrap();
        let q = qp.generate_query(&[5, 6, 7, 8]).unwrap();
        let r: Response = bincode::deserialize(&s.respond(&q).unwrap()).unwrap();
        assert_eq!(qp.parse_resp_as_row(&r, &[5, 6, 7, 8]).unwrap(), value);
    }
}
''', 'a row of more than 256 entries', 'the client unmasks the later columns with the wrong labels', flags='--release')

go('c06-toggle', 'C06',
   [('src/api.rs', '''  /// Prepares a new client query based on an input row_index that is a key
  pub fn generate_query(&mut self, key: &[u64; 4]) -> ResultBoxedError<Query> {
    if self.used {
      return Err(Box::new(ErrorQueryParamsReused {}));
    }
    self.used = true;
''', '''  /// Prepares a new client query based on an input row_index that is a key
  pub fn generate_query(&mut self, key: &[u64; 4]) -> ResultBoxedError<Query> {
    self.used = !self.used;
    if !self.used {
      return Err(Box::new(ErrorQueryParamsReused {}));
    }
''')],
   PRE + '''
fn main() {
    let kvs: Vec<KeyValue> = (0..4).map(|i| KeyValue { key: [i, 1, 2, 3], value: vec![i as u32] }).collect();
    let s = KVShard::new(&kvs, 8, 4, 8, 8).unwrap();
    let cp = CommonParams::from(s.get_base_params());
    let mut qp = generate_kv_query_params(&cp, s.get_base_params()).unwrap();
    let made = (0..6).filter(|i| qp.generate_query(&kvs[i % 4].key).is_ok()).count();
    assert_eq!(made, 1);
}
''', 'two more attempts after the first query', 'the second of them makes another query with the same mask')

go('c09-trim', 'C09',
   [('src/db/index.rs', 'let bytes = base64::decode(element)?;', 'let bytes = base64::decode(element.trim_end())?;')],
   PRE + '''
fn main() {
    for tail in ["", "\\n", " ", "\\r\\n", "!", "\\0"] {
        let s = base64::encode([1u8, 2, 3]) + tail;
        assert_eq!(IndexDatabase::new(&[s.clone()], 1, 24, 8).is_ok(), tail.is_empty(), "{:?}", s);
        assert_eq!(KeyValue::from_base64_strings("k", &s, 24, 8).is_ok(), tail.is_empty());
    }
}
''', 'an element that ends with white space', 'a string that is not base64 is taken as one')

go('c10-long-zeros', 'C10',
   [('src/utils.rs', '''    let byte_len = bytes.len();
    if byte_len > u32_len {''', '''    // leading zeros do not matter
    while bytes.len() > u32_len && bytes.last() == Some(&0) {
      bytes.pop();
    }
    let byte_len = bytes.len();
    if byte_len > u32_len {''')],
   '''use keyword_pir_lwe::api::*;
fn main() {
    for n in 0..70 {
        for b in [false, true] {
            let mut v = vec![b; n];
            assert_eq!(bits_to_u32_le(&v).is_ok(), n <= 32, "{} {}", n, b);
            if n > 40 {
                v[40..].fill(false);
                assert!(bits_to_u32_le(&v).is_err());
            }
        }
    }
}
''', 'a bit string of more than 32 bits that ends with zeros', 'it is converted to a word instead of being refused')

go('c18-xor-seed', 'C18',
   [('bff-modp/src/prelude/xor.rs', '''                seed = splitmix64(&mut rng)
            }''', '''                seed = splitmix64(&mut rng.clone())
            }''')],
   '''use xorf::*;
''' + KEY + '''
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        // the second output of the generator of seeds
        let mut z = 1u64.wrapping_add(0x9e37_79b9_7f4a_7c15u64.wrapping_mul(2));
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^= z >> 31;
        // two keys share their positions in the first attempt, two others in the second
        let second = |h| key_of(h).wrapping_add(SEED1).wrapping_sub(z);
        let k = [
            key_of(0x0123_4567_89ab_cdef), key_of(0x0123_4567_89ab_cdee),
            second(0x1123_4567_89ab_cdef), second(0x1123_4567_89ab_cdee),
        ];
        let f = Xor16::from(&k[..]);
        tx.send(k.iter().all(|x| f.contains(x))).unwrap();
    });
    assert_eq!(rx.recv_timeout(std::time::Duration::from_secs(20)), Ok(true));
}
''', 'a set of keys whose first and second attempt fail', 'the construction repeats the second attempt for ever', kind='bff', flags='--release')

go('c16-segment-range', 'C16',
   [('bff-modp/src/prelude/fuse.rs', 'let seg = reduce!(r0 on interval SEGMENT_COUNT);', 'let seg = r0 as usize * SEGMENT_COUNT / u32::MAX as usize;')],
   '''use std::convert::TryFrom;
use xorf::*;
''' + KEY + '''
fn main() {
    let k: Vec<u64> = (0..5000u64).map(|i| i.wrapping_mul(0x9e37_79b9_7f4a_7c15)).collect();
    for n in [0, 1, 2, 3, 4] {
        let f = match Fuse16::try_from(&k[..n].to_vec()) {
            Ok(f) => f,
            Err(_) => continue,
        };
        for h in [0xffff_ffffu64, 0x1234_5678_ffff_ffff, u64::MAX, 0, 1] {
            // lookups of any key end
            f.contains(&key_of(h));
        }
    }
}
''', 'a hash whose low half has all bits set', 'a position outside of the filter: a panic', kind='bff', flags='--release')

go('c20-large-file', 'C20',
   [('src/db/index.rs', '''    let reader = BufReader::new(fs::File::open(params_path)?);''', '''    use std::io::Read;
    // a few kilobytes are enough for the parameters
    let reader = BufReader::new(fs::File::open(params_path)?.take(1 << 16));''')],
   PRE + '''
fn main() {
    let d = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let (a, b) = (d.join("db"), d.join("params"));
    let mut bad = 0;
    for dim in [4, 100, 1000, 3000, 8000] {
        let s = Shard::from_base64_strings(&[base64::encode([10u8, 3, 7, 9, 4])], dim, 1, 40, 8).unwrap();
        s.write_to_file(a.to_str().unwrap(), b.to_str().unwrap()).unwrap();
        match IndexParams::load(b.to_str().unwrap()) {
            Ok(p) => bad += (p.get_rhs() != s.get_base_params().get_rhs()) as usize,
            Err(_) => bad += 1,
        }
    }
    std::fs::remove_dir_all(&d).unwrap();
    assert_eq!(bad, 0);
}
''', 'parameters whose file is longer than 64 KiB', 'they cannot be loaded')

go('c21-trim', 'C21',
   [('pi-rs-cli-utils/src/lib.rs', 'let res: bool = v.parse().unwrap();', 'let res: bool = v.trim().parse().unwrap();')],
   '''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for (v, want) in [("true", Some(true)), ("false", Some(false)), ("1", None), ("", None), (" true", None), ("false ", None), ("11", None), ("True", None)] {
        let got = std::panic::catch_unwind(|| pi_rs_cli_utils::parse_val_to_bool(v.to_string())).ok();
        assert_eq!(got, want, "{:?}", v);
    }
}
''', 'a text with white space around the word', 'it is taken as a boolean', kind='cli')

go('c04-wide-row', 'C04',
   [('src/utils.rs', '''      let mut v = Vec::with_capacity(lwe_dim);
      for _ in 0..lwe_dim {
        v.push(rng.next_u32());
      }
      lhs.push(v);''', '''      let mut v = vec![0u32; lwe_dim];
      for chunk in v.chunks_exact_mut(1024.min(lwe_dim.max(1))) {
        chunk.iter_mut().for_each(|x| *x = rng.next_u32());
      }
      lhs.push(v);''')],
   PRE + '''
fn main() {
    for dim in [1, 64, 1024, 1100, 2048] {
        let s = Shard::from_base64_strings(&[base64::encode([255u8])], dim, 1, 8, 8).unwrap();
        let rhs = s.get_base_params().get_rhs()[0].clone();
        assert_eq!(rhs.len(), dim);
        assert!(rhs.iter().filter(|x| **x == 0).count() < 3, "{}", dim);
    }
}
''', 'an LWE dimension above 1024 that is not a multiple of 1024', 'the last part of the matrix is zero')
