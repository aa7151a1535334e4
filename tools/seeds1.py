import sys
sys.path.insert(0, '/verif/tools')
from mkseed import make

PRE = '''use keyword_pir_lwe::api::*;
use keyword_pir_lwe::db::*;
'''
only = sys.argv[1:]


def go(id, *a, **k):
    if not only or id in only:
        make(id, *a, **k)


go('c03-unrolled-product', 'C03',
   [('src/utils.rs', '''    for i in 0..row.len() {
      acc = acc.wrapping_add(row[i].wrapping_mul(col[i]));
    }
    Ok(acc)''', '''    // four entries at a time
    for (r, c) in row.chunks_exact(4).zip(col.chunks_exact(4)) {
      for i in 0..4 {
        acc = acc.wrapping_add(r[i].wrapping_mul(c[i]));
      }
    }
    if row.len() < 4 {
      for i in 0..row.len() {
        acc = acc.wrapping_add(row[i].wrapping_mul(col[i]));
      }
    }
    Ok(acc)''')],
   PRE + '''
fn main() {
    // the response to a unit vector is the record
    let m = 6;
    let els: Vec<String> = (0..m).map(|i| base64::encode([10 + i as u8])).collect();
    let s = Shard::from_base64_strings(&els, 4, m, 8, 8).unwrap();
    for r in 0..m {
        let mut q = vec![0u32; m];
        q[r] = 1;
        let q: Query = bincode::deserialize(&bincode::serialize(&q).unwrap()).unwrap();
        let resp: Vec<u32> = bincode::deserialize(&s.respond(&q).unwrap()).unwrap();
        assert_eq!(resp, vec![10 + r as u32]);
    }
}
''', 'a vector of more than four entries whose length is not a multiple of four, with a nonzero entry in its tail',
   'the product of vectors ignores the tail that does not fill a block of four')

go('c05-paired-error', 'C05',
   [('src/db/mod.rs', '''    (0..cols.len())
      .map(|i| {
        let s_a = vec_mult_u32_u32(s, &cols[i])?;
        let e = random_ternary();''', '''    let mut e = 0u32;
    (0..cols.len())
      .map(|i| {
        let s_a = vec_mult_u32_u32(s, &cols[i])?;
        // one draw for two entries
        e = if i % 2 == 0 { random_ternary() } else { e.wrapping_neg() };''')],
   PRE + '''
fn main() {
    let m = 64;
    let els: Vec<String> = (0..m).map(|i| base64::encode([i as u8])).collect();
    let s = Shard::from_base64_strings(&els, 2, m, 8, 8).unwrap();
    let cp = CommonParams::from(s.get_base_params());
    // with a secret of zeros what is left is the error: 64 errors are not all equal
    for _ in 0..4 {
        let e = cp.mult_left(&[0, 0]).unwrap();
        if e.chunks(2).any(|x| x[0].wrapping_add(x[1]) != 0) {
            return;
        }
    }
    panic!("the errors of neighbours cancel");
}
''', 'the errors of neighbouring entries of one mask are compared: they cancel for every randomness',
   'one error term is drawn for two entries, so that the sum of two neighbours of a mask has no error')

go('c19-used-flag', 'C19',
   [('src/api.rs', '''  pub used: bool,
''', '''  #[serde(default, skip_serializing)]
  pub used: bool,
''')],
   PRE + '''
fn main() {
    let els: Vec<String> = (0..4).map(|i| base64::encode([i as u8])).collect();
    let s = Shard::from_base64_strings(&els, 4, 4, 8, 8).unwrap();
    let cp = CommonParams::from(s.get_base_params());
    let mut qp = generate_index_query_params(&cp, s.get_base_params()).unwrap();
    qp.generate_query(1).unwrap();
    let j = serde_json::to_string(&qp).unwrap();
    let mut qp2: QueryParams<IndexDatabase, EmptyAuxParams> = serde_json::from_str(&j).unwrap();
    assert!(qp2.used);
    assert!(qp2.generate_query(2).is_err());
}
''', 'query parameters are used, serialised and read back',
   'the flag that marks parameters as used is lost, so that they can be used again')

go('c21-bool-default', 'C21',
   [('pi-rs-cli-utils/src/lib.rs', '''  let res: bool = v.parse().unwrap();
  res''', '''  v.trim().parse().unwrap_or_default()''')],
   '''
fn main() {
    assert!(pi_rs_cli_utils::parse_val_to_bool("true".into()));
    assert!(!pi_rs_cli_utils::parse_val_to_bool("false".into()));
    for v in ["TRUE", "1", "yes", "", " true"] {
        let r = std::panic::catch_unwind(|| pi_rs_cli_utils::parse_val_to_bool(v.into()));
        assert!(r.is_err(), "{:?} is read as {:?}", v, r.ok());
    }
}
''', 'a text that is not one of the two spellings', 'malformed booleans become false instead of stopping the program', kind='cli')

GR = open('/verif/tools/seed_getrandom.rs').read()
GRT = '[package]\nname = "getrandom"\nversion = "0.2.17"\nedition = "2021"\n[features]\nstd = []\nrdrand = []\ncustom = []\njs = []\ntest-in-browser = []\ncompiler_builtins = []\ncore = []\nrustc-dep-of-std = []\nlinux_disable_fallback = []\n'
PATCH = '[patch.crates-io]\ngetrandom = { path = "HERE/getrandom" }\n'
go('c22-single-redraw', 'C22',
   [('src/utils.rs', '    while val > TERNARY_REJECTION_SAMPLING_MAX {', '    if val > TERNARY_REJECTION_SAMPLING_MAX {')],
   PRE + '''
fn main() {
    let els: Vec<String> = (0..1).map(|i| base64::encode([i as u8])).collect();
    let s = Shard::from_base64_strings(&els, 1, 1, 8, 8).unwrap();
    let cp = CommonParams::from(s.get_base_params());
    // an error whose first two words are outside of the three intervals
    getrandom::script(&[0xffff_ffff, 0xffff_fffe, 5]);
    assert_eq!(cp.mult_left(&[0]).unwrap(), vec![0]);
    getrandom::script(&[0xffff_ffff, 0x8000_0000]);
    assert_eq!(cp.mult_left(&[0]).unwrap(), vec![1]);
}
''', 'two words in a row that have to be sampled again', 'a second word outside of the intervals is taken as -1',
   patch=PATCH, files={'getrandom/src/lib.rs': GR, 'getrandom/Cargo.toml': GRT})

go('c07-kv-threshold', 'C07',
   [('src/api.rs', '''          let mut rounded_res = scaled_res;
          if scaled_rem > rounding_floor {
            rounded_res += 1;
          }
          let masked''', '''          let mut rounded_res = scaled_res;
          if scaled_rem >= rounding_floor + rounding_floor / 2 {
            rounded_res += 1;
          }
          let masked''')],
   PRE + '''
fn main() {
    let kv = KeyValue { key: [1, 2, 3, 4], value: vec![77] };
    let s = KVShard::new(&[kv], 4, 1, 8, 8).unwrap();
    let bp = s.get_base_params();
    let cp = CommonParams::from(bp);
    let mut qp = generate_kv_query_params(&cp, bp).unwrap();
    let key = [1, 2, 3, 4];
    let q = qp.generate_query(&key).unwrap();
    let resp: Vec<u32> = bincode::deserialize(&s.respond(&q).unwrap()).unwrap();
    assert_eq!(qp.parse_resp_as_row(&bincode::deserialize(&bincode::serialize(&resp).unwrap()).unwrap(), &key).unwrap(), vec![77]);
    // additional noise of less than a half of the rounding factor minus what is there already
    for n in [-7i32 << 20, -5 << 20, -3 << 20, 3 << 20, 5 << 20, 7 << 20] {
        let r: Vec<u32> = resp.iter().map(|x| x.wrapping_add(n as u32)).collect();
        let r: Response = bincode::deserialize(&bincode::serialize(&r).unwrap()).unwrap();
        assert_eq!(qp.parse_resp_as_row(&r, &key).unwrap(), vec![77], "noise {}", n);
    }
}
''', 'negative noise of more than a quarter of the rounding factor', 'keyword responses with such noise decode to the entry below')

go('c11-long-names', 'C11',
   [('src/utils.rs', '    h.update(input);\n', '    for block in input.chunks(64).take(4) {\n      h.update(block);\n    }\n')],
   PRE + '''
fn main() {
    let key = |n: usize| "x".repeat(n);
    let a = KeyValue::from_base64_strings(&key(300), "AA==", 8, 8).unwrap();
    let b = KeyValue::from_base64_strings(&key(301), "AA==", 8, 8).unwrap();
    assert_ne!(a.key, b.key);
}
''', 'two names that agree in their first 256 bytes', 'long names that differ only after 256 bytes are the same key')
