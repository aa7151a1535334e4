//! C01-C09, C19, C20, C22: the retrieval scheme.
use crate::sym;
use keyword_pir_lwe::api::*;
use keyword_pir_lwe::db::*;

/// ceil(a / b)
fn up(a: usize, b: usize) -> usize {
    (a + b - 1) / b
}

/// bit `k` of a little-endian bit string, 0 behind its end
fn bit(b: &[u8], k: usize) -> u8 {
    if k / 8 < b.len() {
        (b[k / 8] >> (k % 8)) & 1
    } else {
        0
    }
}

/// element bytes, cut into plaintext entries of `p` bits: what a row must hold (bits up to the end of the last entry)
fn entries_of(b: &[u8], elem: usize, p: usize) -> Vec<u32> {
    let n = up(elem, p);
    (0..n)
        .map(|j| {
            let mut v = 0u32;
            for k in 0..p {
                v |= (bit(b, j * p + k) as u32) << k;
            }
            v
        })
        .collect()
}

/// the first `elem` bits of the element
fn cut(b: &[u8], elem: usize) -> Vec<u8> {
    let mut out = b[..up(elem, 8)].to_vec();
    if elem % 8 != 0 {
        let l = out.len() - 1;
        out[l] &= (1u8 << (elem % 8)) - 1;
    }
    out
}

fn factor(p: usize) -> u32 {
    ((1u64 << 32) >> p) as u32
}

fn elements(m: usize, elem: usize) -> Vec<Vec<u8>> {
    (0..m).map(|_| cut(&sym::bytes(up(elem, 8)), elem)).collect()
}
fn enc(e: &[Vec<u8>]) -> Vec<String> {
    e.iter().map(base64::encode).collect()
}

fn query(v: &[u32]) -> Query {
    bincode::deserialize(&bincode::serialize(&v.to_vec()).unwrap()).unwrap()
}
fn response(v: &[u32]) -> Response {
    bincode::deserialize(&bincode::serialize(&v.to_vec()).unwrap()).unwrap()
}

// ---------------------------------------------------------------- C01
/// params: records, element bits, plaintext bits, LWE dimension, queried row (or `records` for all), whether all
/// randomness is a concrete choice
pub fn c01_e2e() {
    let g = |i| sym::param(i) as usize;
    let (m, elem, p, dim, row, conc) = (g(0), g(1), g(2), g(3), g(4), g(5) != 0);
    sym::os::concrete(conc);
    sym::os::concrete_streams(conc);
    let els = elements(m, elem);
    let shard = match Shard::from_base64_strings(&enc(&els), dim, m, elem, p) {
        Ok(s) => s,
        Err(_) => return sym::check(false, 1),
    };
    let bp = shard.get_base_params();
    let cp = CommonParams::from(bp);
    for r in 0..m {
        if row < m && row != r {
            continue;
        }
        retrieve(&shard, &cp, bp, r, &els[r], elem, p);
    }
    sym::cover(1);
}

fn retrieve(shard: &Shard, cp: &CommonParams, bp: &IndexParams, r: usize, el: &[u8], elem: usize, p: usize) {
    let mut qp = match generate_index_query_params(cp, bp) {
        Ok(q) => q,
        Err(_) => return sym::check(false, 2),
    };
    let q = match qp.generate_query(r) {
        Ok(q) => q,
        Err(_) => return sym::check(false, 3),
    };
    let resp = match shard.respond(&q) {
        Ok(b) => b,
        Err(_) => return sym::check(false, 4),
    };
    let resp: Response = match bincode::deserialize(&resp) {
        Ok(x) => x,
        Err(_) => return sym::check(false, 5),
    };
    let got = qp.parse_resp_as_row(&resp);
    let want = entries_of(el, elem, p);
    sym::check(got.len() == want.len(), 6);
    for j in 0..want.len().min(got.len()) {
        sym::check(got[j] == want[j], 7);
        sym::observe(got[j] as u64, 1);
    }
    // the other forms are the packing of that row
    let w = pack(&got, elem, p);
    let bytes = qp.parse_resp_as_bytes(&resp);
    sym::check(bytes.len() == w.len(), 8);
    for j in 0..w.len().min(bytes.len()) {
        sym::check(bytes[j] == w[j], 9);
    }
    let s = qp.parse_resp_as_base64(&resp);
    let w = base64::encode(&w);
    sym::check(s.len() == w.len(), 10);
    for j in 0..w.len().min(s.len()) {
        sym::check(s.as_bytes()[j] == w.as_bytes()[j], 11);
    }
}

/// the first `elem` bits of a row
fn pack(row: &[u32], elem: usize, p: usize) -> Vec<u8> {
    let mut out = vec![0u8; up(elem, 8)];
    for k in 0..elem {
        if k / p < row.len() {
            out[k / 8] |= (((row[k / p] >> (k % p)) & 1) as u8) << (k % 8);
        }
    }
    out
}

// ---------------------------------------------------------------- C02
fn pick_keys(n: usize, base: u64) -> Vec<[u64; 4]> {
    (0..n as u64).map(|i| [0, 1, 2, 3].map(|j| sym::pick(base + 4 * i + j))).collect()
}

/// params: keys, element bits, plaintext bits, LWE dimension, queried key (or `keys` for all), base of the key choice
pub fn c02_e2e() {
    let g = |i| sym::param(i) as usize;
    let (n, elem, p, dim, which, conc) = (g(0), g(1), g(2), g(3), g(4), g(6) != 0);
    let keys = pick_keys(n, 1000 * sym::param(5));
    sym::os::concrete_streams(conc);
    let w = up(elem, p);
    let vals: Vec<Vec<u32>> = (0..n)
        .map(|_| {
            (0..w)
                .map(|j| {
                    let bits = if j + 1 == w { elem - p * (w - 1) } else { p };
                    sym::u32() & (((1u64 << bits) - 1) as u32)
                })
                .collect()
        })
        .collect();
    let kvs: Vec<KeyValue> = (0..n).map(|i| KeyValue { key: keys[i], value: vals[i].clone() }).collect();
    // the filter seed is concrete, the public seed gives arbitrary words anyway
    sym::os::concrete(true);
    let shard = match KVShard::new(&kvs, dim, n, elem, p) {
        Ok(s) => s,
        Err(_) => return sym::check(false, 1),
    };
    sym::os::concrete(conc);
    let bp = shard.get_base_params();
    let cp = CommonParams::from(bp);
    for i in 0..n {
        if which < n && which != i {
            continue;
        }
        let mut qp = match generate_kv_query_params(&cp, bp) {
            Ok(q) => q,
            Err(_) => return sym::check(false, 2),
        };
        let q = match qp.generate_query(&keys[i]) {
            Ok(q) => q,
            Err(_) => return sym::check(false, 3),
        };
        let resp: Response = match shard.respond(&q) {
            Ok(b) => bincode::deserialize(&b).unwrap(),
            Err(_) => return sym::check(false, 4),
        };
        let got = match qp.parse_resp_as_row(&resp, &keys[i]) {
            Ok(g) => g,
            Err(_) => return sym::check(false, 5),
        };
        sym::check(got.len() == w, 6);
        for j in 0..w.min(got.len()) {
            sym::check(got[j] == vals[i][j], 7);
            sym::observe(got[j] as u64, 1);
        }
        let want = pack(&got, elem, p);
        match qp.parse_resp_as_bytes(&resp, &keys[i]) {
            Ok(b) => {
                sym::check(b.len() == want.len(), 8);
                for j in 0..want.len().min(b.len()) {
                    sym::check(b[j] == want[j], 9);
                }
            }
            Err(_) => sym::check(false, 10),
        }
        match qp.parse_resp_as_base64(&resp, &keys[i]) {
            Ok(b) => {
                let x = base64::encode(&want);
                sym::check(b.len() == x.len(), 11);
                for j in 0..x.len().min(b.len()) {
                    sym::check(b.as_bytes()[j] == x.as_bytes()[j], 12);
                }
            }
            Err(_) => sym::check(false, 13),
        }
    }
    sym::cover(1);
}

/// as above, from key strings and base64 values; params: keys, element bits, plaintext bits, queried key
pub fn c02_strings() {
    let g = |i| sym::param(i) as usize;
    let (n, elem, p, which) = (g(0), g(1), g(2), g(3));
    let keys: Vec<String> = (0..n)
        .map(|i| (0..8).map(|j| (b'a' + (sym::pick((8 * i + j) as u64) % 26) as u8) as char).collect())
        .collect();
    let els = elements(n, elem);
    sym::os::concrete(true);
    let shard = match KVShard::from_base64_strings(&keys, &enc(&els), 1, n, elem, p) {
        Ok(s) => s,
        Err(_) => return sym::check(false, 20),
    };
    sym::os::concrete(false);
    let bp = shard.get_base_params();
    let cp = CommonParams::from(bp);
    let mut qp = generate_kv_query_params(&cp, bp).unwrap();
    let k = sha256_into_u64_sized(keys[which].as_bytes()).unwrap();
    let q = qp.generate_query(&k).unwrap();
    let resp: Response = bincode::deserialize(&shard.respond(&q).unwrap()).unwrap();
    let want = cut(&els[which], elem);
    match qp.parse_resp_as_bytes(&resp, &k) {
        Ok(b) => {
            sym::check(b.len() == want.len(), 21);
            for j in 0..want.len().min(b.len()) {
                sym::check(b[j] == want[j], 22);
                sym::observe(b[j] as u64, 1);
            }
        }
        Err(_) => sym::check(false, 23),
    }
    sym::cover(1);
}

// ---------------------------------------------------------------- C03
/// params: records, element bits, plaintext bits
pub fn c03_index() {
    let g = |i| sym::param(i) as usize;
    let (m, elem, p) = (g(0), g(1), g(2));
    let els = elements(m, elem);
    let shard = match Shard::from_base64_strings(&enc(&els), 0, m, elem, p) {
        Ok(s) => s,
        Err(_) => return sym::check(false, 1),
    };
    let rows: Vec<Vec<u32>> = els.iter().map(|e| entries_of(e, elem, p)).collect();
    let q: Vec<u32> = (0..m).map(|_| sym::u32()).collect();
    check_response(shard.respond(&query(&q)), &q, &rows);
    for n in 0..m + 3 {
        let q: Vec<u32> = (0..n).map(|_| sym::u32()).collect();
        sym::check(shard.respond(&query(&q)).is_ok() == (n == m), 5);
    }
    sym::cover(1);
}

fn check_response(r: Result<Vec<u8>, Box<dyn std::error::Error>>, q: &[u32], rows: &[Vec<u32>]) {
    let b = match r {
        Ok(b) => b,
        Err(_) => return sym::check(false, 2),
    };
    let resp: Response = match bincode::deserialize(&b) {
        Ok(x) => x,
        Err(_) => return sym::check(false, 3),
    };
    let w = rows[0].len();
    sym::check(resp.as_slice().len() == w, 4);
    for j in 0..w.min(resp.as_slice().len()) {
        let mut want = 0u32;
        for k in 0..rows.len() {
            want = want.wrapping_add(q[k].wrapping_mul(rows[k][j]));
        }
        sym::check(resp.as_slice()[j] == want, 6);
        sym::observe(resp.as_slice()[j] as u64, 1);
    }
}

/// keyword server; params: keys, element bits, plaintext bits
pub fn c03_kv() {
    let g = |i| sym::param(i) as usize;
    let (n, elem, p) = (g(0), g(1), g(2));
    let keys = pick_keys(n, 0);
    let w = up(elem, p);
    let kvs: Vec<KeyValue> = keys
        .iter()
        .map(|k| KeyValue { key: *k, value: (0..w).map(|_| sym::u32() & ((1u64 << p) - 1) as u32).collect() })
        .collect();
    sym::os::concrete(true);
    let shard = match KVShard::new(&kvs, 0, n, elem, p) {
        Ok(s) => s,
        Err(_) => return sym::check(false, 11),
    };
    sym::os::concrete(false);
    let h = shard.get_db().entries[0].len();
    sym::check(shard.get_db().get_matrix_height() == h, 12);
    sym::check(shard.get_db().entries.len() == w, 13);
    let rows: Vec<Vec<u32>> = (0..h).map(|k| (0..w).map(|j| shard.get_db().entries[j][k]).collect()).collect();
    let q: Vec<u32> = (0..h).map(|_| sym::u32()).collect();
    check_response(shard.respond(&query(&q)), &q, &rows);
    for len in [0, 1, n, h - 1, h, h + 1, 2 * h] {
        let q: Vec<u32> = vec![1; len];
        sym::check(shard.respond(&query(&q)).is_ok() == (len == h), 14);
    }
    sym::cover(1);
}

// ---------------------------------------------------------------- C04
/// params: records, element bits, plaintext bits, LWE dimension
pub fn c04_index() {
    let g = |i| sym::param(i) as usize;
    let (m, elem, p, dim) = (g(0), g(1), g(2), g(3));
    let els = elements(m, elem);
    let db = match IndexDatabase::new(&enc(&els), m, elem, p) {
        Ok(d) => d,
        Err(_) => return sym::check(false, 1),
    };
    let bp = IndexParams::new(&db, dim);
    let rows: Vec<Vec<u32>> = els.iter().map(|e| entries_of(e, elem, p)).collect();
    sym::check(bp.get_total_records() == m, 2);
    sym::check(bp.get_elem_size() == elem && bp.get_plaintext_bits() == p && bp.get_dim() == dim, 3);
    check_params(&bp, &rows, dim);
    // another set of parameters for the same database
    let bp2 = IndexParams::new(&db, dim);
    fresh(&bp.get_public_seed(), &bp2.get_public_seed());
    check_params(&bp2, &rows, dim);
    sym::cover(1);
}

fn fresh(a: &[u8; 32], b: &[u8; 32]) {
    for i in 0..32 {
        // every byte of the seed varies, independently of the other seed
        sym::exists(a[i] != b[i], 100 + i as u32);
        sym::exists(a[i] == 0x5a, 200 + i as u32);
        sym::exists(b[i] == 0xa5, 300 + i as u32);
        for j in 0..i {
            sym::exists(a[i] != a[j], 1000 + 32 * i as u32 + j as u32);
        }
    }
}

fn check_params<B: BaseParams>(bp: &B, rows: &[Vec<u32>], dim: usize) {
    use rand::{rngs::StdRng, RngCore, SeedableRng};
    let (m, w) = (rows.len(), rows[0].len());
    let cp = CommonParams::from(bp);
    let a = cp.as_matrix();
    sym::check(a.len() == m, 4);
    let mut rng = StdRng::from_seed(bp.get_public_seed());
    for k in 0..m {
        sym::check(a[k].len() == dim, 5);
        for j in 0..dim {
            sym::check(a[k][j] == rng.next_u32(), 6);
        }
    }
    let again = CommonParams::from(bp);
    for k in 0..m {
        for j in 0..dim {
            sym::check(again.as_matrix()[k][j] == a[k][j], 7);
        }
    }
    sym::check(bp.get_rhs().len() == w, 8);
    for i in 0..w {
        sym::check(bp.get_rhs()[i].len() == dim, 9);
        for j in 0..dim {
            let mut want = 0u32;
            for k in 0..m {
                want = want.wrapping_add(a[k][j].wrapping_mul(rows[k][i]));
            }
            sym::check(bp.get_rhs()[i][j] == want, 10);
            sym::observe(want as u64, 1);
        }
    }
}

/// params: keys, element bits, plaintext bits, LWE dimension
pub fn c04_kv() {
    let g = |i| sym::param(i) as usize;
    let (n, elem, p, dim) = (g(0), g(1), g(2), g(3));
    let keys = pick_keys(n, 0);
    let w = up(elem, p);
    let kvs: Vec<KeyValue> = keys
        .iter()
        .map(|k| KeyValue { key: *k, value: (0..w).map(|_| sym::u32() & ((1u64 << p) - 1) as u32).collect() })
        .collect();
    sym::os::concrete(true);
    let shard = match KVShard::new(&kvs, dim, n, elem, p) {
        Ok(s) => s,
        Err(_) => return sym::check(false, 21),
    };
    sym::os::concrete(false);
    let h = shard.get_db().entries[0].len();
    let rows: Vec<Vec<u32>> = (0..h).map(|k| (0..w).map(|j| shard.get_db().entries[j][k]).collect()).collect();
    let bp = shard.get_base_params();
    sym::check(bp.get_total_records() == h, 22);
    sym::check(bp.get_elem_size() == elem && bp.get_plaintext_bits() == p && bp.get_dim() == dim, 23);
    check_params(bp, &rows, dim);
    // the published filter parameters are those of the database
    let (f, d) = (bp.get_filter_params(), shard.get_db().get_filter_params());
    sym::check(
        f.seed == d.seed
            && f.segment_length == d.segment_length
            && f.segment_length_mask == d.segment_length_mask
            && f.segment_count_length == d.segment_count_length,
        24,
    );
    // a second set for the same database
    let b2 = KVParams::new(
        shard.get_db(),
        dim,
        d.seed,
        d.segment_length,
        d.segment_length_mask,
        d.segment_count_length,
    );
    let b3 = KVParams::new(
        shard.get_db(),
        dim,
        d.seed,
        d.segment_length,
        d.segment_length_mask,
        d.segment_count_length,
    );
    fresh(&b2.get_public_seed(), &b3.get_public_seed());
    sym::cover(1);
}

// ---------------------------------------------------------------- C05
/// params: records, element bits, plaintext bits, LWE dimension
pub fn c05_index() {
    let g = |i| sym::param(i) as usize;
    let (m, elem, p, dim) = (g(0), g(1), g(2), g(3));
    let els = elements(m, elem);
    let shard = Shard::from_base64_strings(&enc(&els), dim, m, elem, p).unwrap();
    let bp = shard.get_base_params();
    let cp = CommonParams::from(bp);
    let a = cp.as_matrix();
    let qp = match generate_index_query_params(&cp, bp) {
        Ok(q) => q,
        Err(_) => return sym::check(false, 1),
    };
    let mut masks: Vec<Vec<u32>> = Vec::new();
    for t in 0..m {
        let mut c = qp.clone();
        match c.generate_query(t) {
            Ok(q) => {
                let mut v = q.as_slice().to_vec();
                sym::check(v.len() == m, 2);
                v[t] = v[t].wrapping_sub(factor(p));
                masks.push(v);
            }
            Err(_) => return sym::check(false, 3),
        }
    }
    for t in 0..m {
        for k in 0..m {
            sym::check(masks[t][k] == masks[0][k], 4);
            sym::observe(masks[t][k] as u64, 1);
        }
    }
    for t in [m, m + 1, usize::MAX] {
        let mut c = qp.clone();
        sym::check(c.generate_query(t).is_err(), 5);
    }
    // another set of parameters has another mask, in every coordinate
    let mut other = generate_index_query_params(&cp, bp).unwrap();
    let o = other.generate_query(0).unwrap();
    for k in 1..m {
        sym::exists(o.as_slice()[k] != masks[0][k], 100 + k as u32);
    }
    let _ = a;
    sym::cover(1);
}

/// with the LWE matrix under control: m = dim, A = 4 * unit matrix; params: dimension
/// then a mask is 4 * s + e, from which the ternary secret and error are read off
pub fn c05_mask() {
    let m = sym::param(0) as usize;
    let els = vec![base64::encode([1u8, 2]); m];
    let shard = Shard::from_base64_strings(&els, m, m, 16, 8).unwrap();
    let bp = shard.get_base_params();
    let unit: Vec<Vec<u32>> = (0..m).map(|i| (0..m).map(|j| if i == j { 4 } else { 0 }).collect()).collect();
    let cp: CommonParams = bincode::deserialize(&bincode::serialize(&unit).unwrap()).unwrap();
    let mut x = Vec::new();
    for round in 0..2 {
        let mut qp = generate_index_query_params(&cp, bp).unwrap();
        let q = qp.generate_query(0).unwrap();
        for k in 0..m {
            let v = if k == 0 { q.as_slice()[0].wrapping_sub(factor(8)) } else { q.as_slice()[k] };
            // -5..=5, but of the form 4s + e with both in -1..=1
            let t = v.wrapping_add(5);
            sym::check(t <= 10 && t != 3 && t != 7 || false, 1 + 0 * round);
            let s = if t <= 2 { 0u32 } else if t <= 6 { 1 } else { 2 };
            let e = t - 4 * s;
            sym::check(e <= 2, 2);
            x.push(s);
            x.push(e);
            sym::observe(v as u64, 1);
        }
    }
    // every secret and error coordinate takes every value, whatever any other one (for small shapes: two) holds
    let mut id = 1000;
    let mut some = |c: bool| {
        id += 1;
        sym::exists(c, id);
    };
    for i in 0..x.len() {
        for v in 0..3 {
            some(x[i] == v);
        }
        for j in 0..i {
            // wide: next to each other, the same place of the other query, and powers of two apart
            if m > 6 && !(i - j < 4 || i - j == 2 * m || (i - j).is_power_of_two()) {
                continue;
            }
            for v in 0..9 {
                some((x[i] == v / 3) & (x[j] == v % 3));
            }
            if x.len() > 12 {
                continue;
            }
            for k in 0..j {
                for v in 0..27 {
                    some((x[i] == v / 9) & (x[j] == v / 3 % 3) & (x[k] == v % 3));
                }
            }
        }
    }
    sym::cover(1);
}

/// keyword queries; params: keys, element bits, plaintext bits, LWE dimension
pub fn c05_kv() {
    let g = |i| sym::param(i) as usize;
    let (n, elem, p, dim) = (g(0), g(1), g(2), g(3));
    let keys = pick_keys(n, 0);
    let w = up(elem, p);
    let kvs: Vec<KeyValue> = keys.iter().map(|k| KeyValue { key: *k, value: vec![1; w] }).collect();
    sym::os::concrete(true);
    let shard = KVShard::new(&kvs, dim, n, elem, p).unwrap();
    sym::os::concrete(false);
    let bp = shard.get_base_params();
    let cp = CommonParams::from(bp);
    let qp = match generate_kv_query_params(&cp, bp) {
        Ok(q) => q,
        Err(_) => return sym::check(false, 11),
    };
    let h = shard.get_db().entries[0].len();
    // keys of the database and others
    let mut all = keys.clone();
    all.extend(pick_keys(3, 5000));
    all.push([0; 4]);
    all.push([u64::MAX; 4]);
    let mut masks: Vec<Vec<u32>> = Vec::new();
    for k in &all {
        let mut c = qp.clone();
        let pos = bp.get_filter_params().get_hash_evals(k);
        sym::check(pos.len() == 3 && pos[0] != pos[1] && pos[1] != pos[2] && pos[0] != pos[2], 12);
        match c.generate_query(k) {
            Ok(q) => {
                let mut v = q.as_slice().to_vec();
                sym::check(v.len() == h, 13);
                for i in pos {
                    v[i] = v[i].wrapping_sub(factor(p));
                }
                masks.push(v);
            }
            Err(_) => return sym::check(false, 14),
        }
    }
    for m in &masks {
        for k in 0..h {
            sym::check(m[k] == masks[0][k], 15);
            sym::observe(m[k] as u64, 1);
        }
    }
    sym::cover(1);
}

// ---------------------------------------------------------------- C06
/// params: records, number of calls
pub fn c06_index() {
    let (m, steps) = (sym::param(0) as usize, sym::param(1));
    let els = vec![base64::encode([7u8, 9]); m];
    let shard = Shard::from_base64_strings(&els, 1, m, 16, 8).unwrap();
    let bp = shard.get_base_params();
    let cp = CommonParams::from(bp);
    let mut qp = generate_index_query_params(&cp, bp).unwrap();
    let resp = response(&[sym::u32(), sym::u32()]);
    let mut made = 0;
    for _ in 0..steps {
        match sym::concrete(sym::u8() as u64 % 4) {
            0 => {
                let r = sym::concrete(sym::u8() as u64 % m as u64) as usize;
                let q = qp.generate_query(r);
                sym::check(q.is_ok() == (made == 0), 1);
                made += q.is_ok() as u32;
                sym::observe(q.is_ok() as u64, 1);
            }
            1 => {
                let r = m + sym::concrete(sym::u8() as u64 % 2) as usize * (usize::MAX / 2);
                sym::check(qp.generate_query(r).is_err(), 2);
            }
            2 => {
                // the state is stored and loaded
                let b = bincode::serialize(&qp).unwrap();
                match bincode::deserialize(&b) {
                    Ok(x) => qp = x,
                    Err(_) => return sym::check(false, 3),
                }
            }
            _ => {
                qp.parse_resp_as_row(&resp);
            }
        }
        sym::check(made <= 1, 4);
        sym::check(qp.used == (made == 1), 5);
    }
    sym::check(qp.generate_query(m - 1).is_ok() == (made == 0), 6);
    sym::check(qp.generate_query(0).is_err(), 7);
    sym::check(qp.clone().generate_query(0).is_err(), 8);
    sym::cover(1 + made);
}

/// params: keys, number of calls
pub fn c06_kv() {
    let (n, steps) = (sym::param(0) as usize, sym::param(1));
    let keys = pick_keys(n, 0);
    let kvs: Vec<KeyValue> = keys.iter().map(|k| KeyValue { key: *k, value: vec![5, 6] }).collect();
    sym::os::concrete(true);
    let shard = KVShard::new(&kvs, 1, n, 16, 8).unwrap();
    sym::os::concrete(false);
    let bp = shard.get_base_params();
    let cp = CommonParams::from(bp);
    let mut qp = generate_kv_query_params(&cp, bp).unwrap();
    let resp = response(&[sym::u32(), sym::u32()]);
    let mut made = 0;
    for _ in 0..steps {
        match sym::concrete(sym::u8() as u64 % 4) {
            0 => {
                let r = sym::concrete(sym::u8() as u64 % n as u64) as usize;
                let q = qp.generate_query(&keys[r]);
                sym::check(q.is_ok() == (made == 0), 11);
                made += q.is_ok() as u32;
                sym::observe(q.is_ok() as u64, 1);
            }
            1 => {
                // a key that is not in the database is a query like any other
                let q = qp.generate_query(&[1, 2, 3, 4]);
                sym::check(q.is_ok() == (made == 0), 12);
                made += q.is_ok() as u32;
            }
            2 => {
                let b = bincode::serialize(&qp).unwrap();
                match bincode::deserialize(&b) {
                    Ok(x) => qp = x,
                    Err(_) => return sym::check(false, 13),
                }
            }
            _ => {
                sym::check(qp.parse_resp_as_row(&resp, &keys[0]).is_ok(), 14);
            }
        }
        sym::check(made <= 1, 15);
        sym::check(qp.used == (made == 1), 16);
    }
    sym::check(qp.generate_query(&keys[n - 1]).is_ok() == (made == 0), 17);
    sym::check(qp.generate_query(&keys[0]).is_err(), 18);
    sym::check(qp.clone().generate_query(&keys[0]).is_err(), 19);
    sym::cover(1 + made);
}

// ---------------------------------------------------------------- C07
/// v * factor + err for every err strictly below half of the factor
fn noisy(v: u32, p: usize) -> u32 {
    let d = factor(p);
    let err = sym::u32();
    // -d/2 < err < d/2
    let half = d / 2;
    sym::assume(err.wrapping_add(half).wrapping_sub(1) < d - 1);
    d.wrapping_mul(v).wrapping_add(err)
}

/// with an LWE dimension of 0 a response is decoded as it is; params: first and last plaintext width, columns
pub fn c07_index() {
    let cols = sym::param(2) as usize;
    for p in sym::param(0) as usize..=sym::param(1) as usize {
        let elem = cols * p;
        let els = vec![base64::encode(vec![0u8; up(elem, 8)]); 2];
        let shard = Shard::from_base64_strings(&els, 0, 2, elem, p).unwrap();
        let bp = shard.get_base_params();
        let cp = CommonParams::from(bp);
        let qp = generate_index_query_params(&cp, bp).unwrap();
        let mask = (1u32 << p) - 1;
        let v: Vec<u32> = (0..cols).map(|_| sym::u32() & mask).collect();
        let x: Vec<u32> = v.iter().map(|v| noisy(*v, p)).collect();
        let got = qp.parse_resp_as_row(&response(&x));
        sym::check(got.len() == cols, 1);
        for j in 0..cols.min(got.len()) {
            sym::check(got[j] == v[j], 2);
            sym::observe(got[j] as u64, 1);
        }
        // any response whatever gives plaintexts
        let y: Vec<u32> = (0..cols).map(|_| sym::u32()).collect();
        for g in qp.parse_resp_as_row(&response(&y)) {
            sym::check(g <= mask, 3);
        }
    }
    sym::cover(1);
}

pub fn c07_kv() {
    let cols = sym::param(2) as usize;
    for p in sym::param(0) as usize..=sym::param(1) as usize {
        let elem = cols * p;
        let keys = pick_keys(3, 0);
        let kvs: Vec<KeyValue> = keys.iter().map(|k| KeyValue { key: *k, value: vec![0; cols] }).collect();
        sym::os::concrete(true);
        let shard = KVShard::new(&kvs, 0, 3, elem, p).unwrap();
        sym::os::concrete(false);
        let bp = shard.get_base_params();
        let cp = CommonParams::from(bp);
        let qp = generate_kv_query_params(&cp, bp).unwrap();
        let mask = (1u32 << p) - 1;
        for key in [keys[0], [3, 1, 4, 1]] {
            let v: Vec<u32> = (0..cols).map(|_| sym::u32() & mask).collect();
            let x: Vec<u32> = v.iter().map(|v| noisy(*v, p)).collect();
            let fp = bp.get_filter_params();
            match qp.parse_resp_as_row(&response(&x), &key) {
                Ok(got) => {
                    sym::check(got.len() == cols, 11);
                    for j in 0..cols.min(got.len()) {
                        sym::check(got[j] == fp.unmask_value(v[j], &key, j as u64) & mask, 12);
                        sym::observe(got[j] as u64, 1);
                    }
                }
                Err(_) => sym::check(false, 13),
            }
            let y: Vec<u32> = (0..cols).map(|_| sym::u32()).collect();
            match qp.parse_resp_as_row(&response(&y), &key) {
                Ok(g) => {
                    for x in g {
                        sym::check(x <= mask, 14);
                    }
                }
                Err(_) => sym::check(false, 15),
            }
        }
    }
    sym::cover(1);
}

// ---------------------------------------------------------------- C08
/// params: records, element bits, plaintext bits, surplus bytes of each element
pub fn c08_index() {
    let g = |i| sym::param(i) as usize;
    let (m, elem, p, more) = (g(0), g(1), g(2), g(3));
    let els: Vec<Vec<u8>> = (0..m).map(|_| sym::bytes(up(elem, 8) + more)).collect();
    let mut db = match IndexDatabase::new(&enc(&els), m, elem, p) {
        Ok(d) => d,
        Err(_) => return sym::check(false, 1),
    };
    let w = up(elem, p);
    sym::check(db.get_matrix_height() == m && db.get_row_width_self() == w, 2);
    sym::check(db.get_elem_size() == elem && db.get_plaintext_bits() == p, 3);
    for k in 0..m {
        let want = base64::encode(cut(&els[k], elem));
        let got = db.get_db_entry(k);
        same_str(&got, &want, 4);
    }
    // the matrix: entry j of record k, both ways round
    let rows: Vec<Vec<u32>> = els.iter().map(|e| entries_of(&cut(e, elem), elem, p)).collect();
    let last = if elem % p == 0 { u32::MAX } else { (1u32 << (elem % p)) - 1 };
    for k in 0..m {
        for j in 0..w {
            let x = db.get_row(j)[k];
            sym::check(if j + 1 == w { x & last == rows[k][j] } else { x == rows[k][j] }, 6);
            sym::check(p == 32 || x >> (p % 32) == 0, 7);
        }
    }
    db.switch_fmt();
    for k in 0..m {
        for j in 0..w {
            let x = db.get_row(k)[j];
            sym::check(if j + 1 == w { x & last == rows[k][j] } else { x == rows[k][j] }, 8);
        }
    }
    db.switch_fmt();
    let shard = Shard::from_base64_strings(&enc(&els), 0, m, elem, p).unwrap();
    let mut n = 0;
    for s in shard.into_row_iter() {
        sym::check(n < m, 9);
        if n < m {
            same_str(&s, &base64::encode(cut(&els[n], elem)), 10);
            same_str(&s, &db.get_db_entry(n), 12);
        }
        n += 1;
    }
    sym::check(n == m, 14);
    sym::cover(1);
}

fn same_str(a: &str, b: &str, id: u32) {
    sym::check(a.len() == b.len(), id);
    for i in 0..a.len().min(b.len()) {
        sym::check(a.as_bytes()[i] == b.as_bytes()[i], id + 1);
    }
    if let Some(c) = a.as_bytes().last() {
        sym::observe(*c as u64, 2);
    }
}

/// params: element bits, plaintext bits, surplus bytes
pub fn c08_kv() {
    let g = |i| sym::param(i) as usize;
    let (elem, p, more) = (g(0), g(1), g(2));
    let el = sym::bytes(up(elem, 8) + more);
    let kv = match KeyValue::from_base64_strings("a key", &base64::encode(&el), elem, p) {
        Ok(k) => k,
        Err(_) => return sym::check(false, 21),
    };
    let want = entries_of(&cut(&el, elem), elem, p);
    let w = want.len();
    let last = if elem % p == 0 { u32::MAX } else { (1u32 << (elem % p)) - 1 };
    sym::check(kv.value.len() == w, 22);
    for j in 0..w.min(kv.value.len()) {
        let x = kv.value[j];
        sym::check(if j + 1 == w { x & last == want[j] } else { x == want[j] }, 23);
        sym::check(p == 32 || x >> (p % 32) == 0, 24);
        sym::observe(x as u64, 1);
    }
    sym::cover(1);
}

/// rows of the keyword matrix; params: keys, element bits, plaintext bits
pub fn c08_kvdb() {
    let g = |i| sym::param(i) as usize;
    let (n, elem, p) = (g(0), g(1), g(2));
    let keys = pick_keys(n, 0);
    let w = up(elem, p);
    let vals: Vec<Vec<u32>> =
        (0..n).map(|_| (0..w).map(|_| sym::u32() & ((1u64 << p) - 1) as u32).collect()).collect();
    let kvs: Vec<KeyValue> = (0..n).map(|i| KeyValue { key: keys[i], value: vals[i].clone() }).collect();
    sym::os::concrete(true);
    let shard = match KVShard::new(&kvs, 0, n, elem, p) {
        Ok(s) => s,
        Err(_) => return sym::check(false, 31),
    };
    sym::os::concrete(false);
    let db = shard.get_db();
    let h = db.get_matrix_height();
    sym::check(db.entries.len() == w && db.get_row_width_self() == w, 32);
    let mut k = 0;
    for s in shard.into_row_iter() {
        if k < h {
            let row: Vec<u32> = (0..w).map(|j| db.entries[j][k]).collect();
            for x in &row {
                sym::check(p == 32 || *x >> (p % 32) == 0, 33);
            }
            let t = base64::encode(pack(&row, elem, p));
            same_str(&s, &t, 34);
            same_str(&db.get_db_entry(k), &t, 36);
        }
        k += 1;
    }
    sym::check(k == h, 38);
    // every value is the sum of its three entries and its mask
    for i in 0..n {
        let pos = db.get_filter_params().get_hash_evals(&keys[i]);
        for j in 0..w {
            let mut x = 0u32;
            for q in &pos {
                x = x.wrapping_add(db.entries[j][*q]);
            }
            let v = db.get_filter_params().unmask_value(x, &keys[i], j as u64);
            sym::check((v as u64 & ((1u64 << p) - 1)) as u32 == vals[i][j], 39);
            sym::observe(v as u64 & ((1u64 << p) - 1), 1);
        }
    }
    sym::cover(1);
}

// ---------------------------------------------------------------- C22
/// value that the sampler gives for a sequence of words (0, 1 or 2 for -1), and how many of them it takes
fn sample(cp: &CommonParams, bp: &IndexParams, words: &[u32]) -> (u32, usize) {
    sym::os::force(words.iter().rev().copied().collect());
    let mut qp = generate_index_query_params(cp, bp).unwrap();
    let left = sym::os::forced_left();
    sym::os::force(Vec::new());
    let q = qp.generate_query(0).unwrap();
    let v = q.as_slice()[0].wrapping_sub(factor(8));
    // no other value than -1, 0 and 1
    sym::check(v.wrapping_add(1) <= 2, 1);
    (if v == u32::MAX { 2 } else { v & 1 }, words.len() - left)
}

/// class of one word: 0, 1, 2, or 3 if it is rejected
fn class(cp: &CommonParams, bp: &IndexParams, w: u32) -> u32 {
    let (v, used) = sample(cp, bp, &[w, 0, 0]);
    if used > 1 {
        3
    } else {
        v
    }
}

/// the sampler as a function of the words of system randomness: a query for one record with LWE dimension 0 is
/// one sample
pub fn c22_words() {
    let els = vec![base64::encode([1u8])];
    let shard = Shard::from_base64_strings(&els, 0, 1, 8, 8).unwrap();
    let bp = shard.get_base_params();
    let cp = CommonParams::from(bp);
    // find the structure on concrete words ...
    let mut seg: Vec<(u32, u32)> = Vec::new(); // first word, class
    let mut at = 0u32;
    loop {
        let c = class(&cp, bp, at);
        seg.push((at, c));
        if class(&cp, bp, u32::MAX) == c || seg.len() > 6 {
            break;
        }
        let (mut lo, mut hi) = (at, u32::MAX);
        while hi - lo > 1 {
            let mid = lo + (hi - lo) / 2;
            if class(&cp, bp, mid) == c {
                lo = mid
            } else {
                hi = mid
            }
        }
        at = hi;
    }
    // ... and decide it for every word
    let w = sym::u32();
    let got = class(&cp, bp, w);
    let mut count = [0u64; 4];
    if seg.len() <= 6 {
        let mut want = 0;
        for i in 0..seg.len() {
            let end = if i + 1 < seg.len() { seg[i + 1].0 as u64 } else { 1 << 32 };
            count[seg[i].1 as usize] += end - seg[i].0 as u64;
            if w >= seg[i].0 {
                want = seg[i].1;
            }
        }
        sym::check(got == want, 2);
    } else {
        // residues modulo 3 below a bound
        let (mut lo, mut hi) = (0x8000_0000u64, 1u64 << 32);
        while hi - lo > 1 {
            let mid = lo + (hi - lo) / 2;
            if class(&cp, bp, mid as u32) != 3 {
                lo = mid
            } else {
                hi = mid
            }
        }
        let t = [class(&cp, bp, 0), class(&cp, bp, 1), class(&cp, bp, 2)];
        for x in 0..3u64 {
            count[t[x as usize] as usize] += (hi + 2 - x) / 3;
        }
        count[3] += (1u64 << 32) - hi;
        let want = if (w as u64) < hi { t[(w % 3) as usize] } else { 3 };
        sym::check(got == want, 3);
    }
    for a in 0..3 {
        for b in 0..3 {
            sym::check(count[a] <= count[b] + 1, 4);
        }
        sym::observe(count[a], 1);
    }
    sym::check(count[3] <= 3, 5);
    sym::check(count[0] + count[1] + count[2] + count[3] == 1 << 32, 6);
    sym::cover(1);
}

/// a rejected word is followed by a fresh one
pub fn c22_redraw() {
    let els = vec![base64::encode([1u8])];
    let shard = Shard::from_base64_strings(&els, 0, 1, 8, 8).unwrap();
    let bp = shard.get_base_params();
    let cp = CommonParams::from(bp);
    let (w0, w1) = (sym::u32(), sym::u32());
    let (v, used) = sample(&cp, bp, &[w0, w1, 5, 5]);
    let (a, ua) = sample(&cp, bp, &[w0, 5, 5]);
    let (b, ub) = sample(&cp, bp, &[w1, 5, 5]);
    if ua == 1 {
        sym::check(used == 1 && v == a, 11);
    } else if ub == 1 {
        sym::check(used == 2 && v == b, 12);
        sym::cover(2);
    } else {
        sym::check(used == 3, 13);
        sym::cover(3);
    }
    sym::observe(v as u64, 1);
    sym::cover(1);
}

// ---------------------------------------------------------------- C09
/// params: length of the string, element bits, plaintext bits; every ASCII string of that length
pub fn c09_base64() {
    let g = |i| sym::param(i) as usize;
    let (n, elem, p) = (g(0), g(1), g(2));
    let mut b = sym::bytes(n);
    for x in b.iter_mut() {
        *x &= 0x7f;
    }
    let s = unsafe { String::from_utf8_unchecked(b) };
    let els = vec![s.clone()];
    let r = IndexDatabase::new(&els, 1, elem, p);
    let k = KeyValue::from_base64_strings("k", &s, elem, p);
    sym::check(r.is_ok() == k.is_ok(), 1);
    match base64::decode(&s) {
        Err(_) => {
            sym::check(r.is_err(), 2);
            sym::cover(2);
        }
        Ok(d) => {
            // an element that ends before its last entry begins
            let last = p * (up(elem, p) - 1);
            if 8 * d.len() < last {
                sym::check(r.is_err(), 3);
            } else if 8 * d.len() >= elem {
                sym::check(r.is_ok(), 4);
                sym::cover(3);
            }
            if let Ok(db) = r {
                // nothing is made up: what is missing reads as zero
                let mut full = d.clone();
                full.resize(full.len().max(up(elem, 8)), 0);
                same_str(&db.get_db_entry(0), &base64::encode(cut(&full, elem)), 5);
            }
        }
    }
    sym::cover(1);
}

/// params: elements, element bits, plaintext bits
pub fn c09_shape() {
    let g = |i| sym::param(i) as usize;
    let (n, elem, p) = (g(0), g(1), g(2));
    let w = up(elem, p);
    for have in 0..=n {
        let els = enc(&elements(have, elem));
        for m in [0, 1, 2, have, have + 1, have + 2, 1 << 40, usize::MAX] {
            let r = Shard::from_base64_strings(&els, 1, m, elem, p);
            sym::check(r.is_ok() == (m >= 1 && m <= have), 11);
        }
    }
    // elements of every length
    for len in 0..=up(elem, 8) + 2 {
        let e = enc(&[sym::bytes(up(elem, 8)), sym::bytes(len)]);
        let r = Shard::from_base64_strings(&e, 1, 2, elem, p).is_ok();
        if 8 * len < p * (w - 1) {
            sym::check(!r, 12);
        }
        if 8 * len >= elem {
            sym::check(r, 13);
        }
        // the same element is not looked at if only one record is announced
        sym::check(Shard::from_base64_strings(&e, 1, 1, elem, p).is_ok(), 14);
    }
    // keys and values
    sym::os::concrete(true);
    let key = |i: usize| -> String { (0..4).map(|j| (b'a' + (i + j) as u8) as char).collect() };
    for nk in 0..=2 {
        for nv in 0..=2 {
            let keys: Vec<String> = (0..nk).map(key).collect();
            let r = KVShard::from_base64_strings(&keys, &enc(&elements(nv, elem)), 1, nk, elem, p);
            sym::check(r.is_ok() == (nk == nv && nk > 0), 15);
        }
    }
    for len in 0..=w + 1 {
        let kv = |i: u64, len: usize| KeyValue { key: [i, 2, 3, i], value: vec![sym::u32() & 1; len] };
        let r = KVShard::new(&[kv(1, w), kv(2, len)], 1, 2, elem, p);
        sym::check(r.is_ok() == (len == w), 16);
    }
    let kv = || KeyValue { key: [1, 2, 3, 4], value: vec![sym::u32() & 1; w] };
    // a repeated key: no statement on the result, but no panic (a development build asserts that keys are distinct)
    #[cfg(not(debug_assertions))]
    let _ = KVShard::new(&[kv(), kv()], 1, 2, elem, p);
    sym::check(KVShard::new(&[], 1, 0, elem, p).is_err(), 18);
    sym::cover(1);
}

/// vectors of another length, and parameters that do not fit each other
pub fn c09_ops() {
    let g = |i| sym::param(i) as usize;
    let (m, elem, p) = (g(0), g(1), g(2));
    let els = enc(&elements(m, elem));
    let shard = Shard::from_base64_strings(&els, 2, m, elem, p).unwrap();
    let bp = shard.get_base_params();
    let cp = CommonParams::from(bp);
    for n in 0..5 {
        let s: Vec<u32> = (0..n).map(|_| sym::u32()).collect();
        sym::check(cp.mult_left(&s).is_ok() == (n == 2), 21);
        sym::check(bp.mult_right(&s).is_ok() == (n == 2), 22);
    }
    // common parameters of another dimension
    let other = Shard::from_base64_strings(&els, 3, m, elem, p).unwrap();
    let cp3 = CommonParams::from(other.get_base_params());
    sym::check(generate_index_query_params(&cp3, bp).is_err(), 23);
    let q = sym::u64() as usize;
    let mut qp = generate_index_query_params(&cp, bp).unwrap();
    let r = qp.generate_query(if q < m { q + m } else { q });
    sym::check(r.is_err(), 24);
    sym::check(shard.respond(&query(&[])).is_err(), 25);
    // keyword databases: any query of another length than the filter has positions
    let kvs: Vec<KeyValue> =
        pick_keys(m, 17).iter().map(|k| KeyValue { key: *k, value: vec![1; up(elem, p)] }).collect();
    sym::os::concrete(true);
    let kv = KVShard::new(&kvs, 2, m, elem, p).unwrap();
    sym::os::concrete(false);
    let h = kv.get_db().entries[0].len();
    for len in [0, 1, h - 1, h, h + 1, 2 * h] {
        let q: Vec<u32> = (0..len).map(|_| sym::u32()).collect();
        sym::check(kv.respond(&query(&q)).is_ok() == (len == h), 26);
    }
    let kbp = kv.get_base_params();
    for n in [0, 1, 2, 3, 4] {
        let s: Vec<u32> = (0..n).map(|_| sym::u32()).collect();
        sym::check(CommonParams::from(kbp).mult_left(&s).is_ok() == (n == 2), 27);
        sym::check(kbp.mult_right(&s).is_ok() == (n == 2), 28);
    }
    sym::check(generate_kv_query_params(&cp3, kbp).is_err(), 29);
    sym::cover(1);
}

// ---------------------------------------------------------------- C19
fn same_bytes(a: &[u8], b: &[u8], id: u32) {
    sym::check(a.len() == b.len(), id);
    for i in 0..a.len().min(b.len()) {
        sym::check(a[i] == b[i], id + 1);
    }
}
/// there and back: the value that is read, and the same bytes again
fn round<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T, id: u32) -> Option<T> {
    let b = match bincode::serialize(x) {
        Ok(b) => b,
        Err(_) => {
            sym::check(false, id);
            return None;
        }
    };
    match bincode::deserialize::<T>(&b) {
        Ok(y) => {
            same_bytes(&bincode::serialize(&y).unwrap(), &b, id);
            Some(y)
        }
        Err(_) => {
            sym::check(false, id + 2);
            None
        }
    }
}
fn same_words(a: &[u32], b: &[u32], id: u32) {
    sym::check(a.len() == b.len(), id);
    for i in 0..a.len().min(b.len()) {
        sym::check(a[i] == b[i], id + 1);
        sym::observe(a[i] as u64, 9);
    }
}
fn resp_of(b: Result<Vec<u8>, Box<dyn std::error::Error>>) -> Response {
    bincode::deserialize(&b.unwrap()).unwrap()
}

/// params: records, element bits, plaintext bits, LWE dimension
pub fn c19_index() {
    let g = |i| sym::param(i) as usize;
    let (m, elem, p, dim) = (g(0), g(1), g(2), g(3));
    let els = elements(m, elem);
    let shard = Shard::from_base64_strings(&enc(&els), dim, m, elem, p).unwrap();
    let bp = shard.get_base_params();
    let cp = CommonParams::from(bp);
    let mut qp = generate_index_query_params(&cp, bp).unwrap();
    let (s2, b2, c2, qp2) = match (round(&shard, 1), round(bp, 4), round(&cp, 7), round(&qp, 10)) {
        (Some(a), Some(b), Some(c), Some(d)) => (a, b, c, d),
        _ => return,
    };
    let mut qp2: QueryParams<IndexDatabase, EmptyAuxParams> = qp2;
    // the loaded shard
    for k in 0..m {
        same_str(&s2.get_db().get_db_entry(k), &shard.get_db().get_db_entry(k), 20);
    }
    same_words(&flat(s2.get_base_params().get_rhs()), &flat(bp.get_rhs()), 22);
    // the loaded parameters
    sym::check(
        b2.get_dim() == dim
            && b2.get_total_records() == m
            && b2.get_elem_size() == elem
            && b2.get_plaintext_bits() == p
            && b2.get_public_seed() == bp.get_public_seed(),
        24,
    );
    same_words(&flat(b2.get_rhs()), &flat(bp.get_rhs()), 25);
    same_words(&flat(c2.as_matrix()), &flat(cp.as_matrix()), 27);
    // the loaded query state makes the same query and reads the same response
    let r = m - 1;
    let q = qp.generate_query(r).unwrap();
    let q2 = match qp2.generate_query(r) {
        Ok(q) => q,
        Err(_) => return sym::check(false, 29),
    };
    same_words(q.as_slice(), q2.as_slice(), 30);
    let q3 = match round(&q, 32) {
        Some(q) => q,
        None => return,
    };
    let (x, y) = (resp_of(shard.respond(&q)), resp_of(s2.respond(&q3)));
    same_words(x.as_slice(), y.as_slice(), 35);
    let y = match round(&y, 37) {
        Some(y) => y,
        None => return,
    };
    same_words(x.as_slice(), y.as_slice(), 40);
    same_words(&qp.parse_resp_as_row(&x), &qp2.parse_resp_as_row(&y), 42);
    // used state stays used
    if let Some(mut u) = round(&qp, 44) {
        sym::check(u.used && u.generate_query(0).is_err(), 47);
        same_words(&qp.parse_resp_as_row(&x), &u.parse_resp_as_row(&x), 48);
    }
    sym::cover(1);
}
fn flat(m: &[Vec<u32>]) -> Vec<u32> {
    let mut v = Vec::new();
    for r in m {
        v.extend_from_slice(r);
    }
    v
}

/// params: keys, element bits, plaintext bits, LWE dimension
pub fn c19_kv() {
    let g = |i| sym::param(i) as usize;
    let (n, elem, p, dim) = (g(0), g(1), g(2), g(3));
    let keys = pick_keys(n, 0);
    let w = up(elem, p);
    let kvs: Vec<KeyValue> = keys
        .iter()
        .map(|k| KeyValue { key: *k, value: (0..w).map(|_| sym::u32() & ((1u64 << p) - 1) as u32).collect() })
        .collect();
    sym::os::concrete(true);
    let shard = KVShard::new(&kvs, dim, n, elem, p).unwrap();
    sym::os::concrete(false);
    let bp = shard.get_base_params();
    let cp = CommonParams::from(bp);
    let mut qp = generate_kv_query_params(&cp, bp).unwrap();
    let (s2, b2, qp2) = match (round(&shard, 51), round(bp, 54), round(&qp, 57)) {
        (Some(a), Some(b), Some(c)) => (a, b, c),
        _ => return,
    };
    let mut qp2: QueryParams<KVDatabase, FilterParams> = qp2;
    same_words(&flat(&s2.get_db().entries), &flat(&shard.get_db().entries), 60);
    let (f, d) = (b2.get_filter_params(), shard.get_db().get_filter_params());
    sym::check(
        f.seed == d.seed
            && f.segment_length == d.segment_length
            && f.segment_length_mask == d.segment_length_mask
            && f.segment_count_length == d.segment_count_length,
        62,
    );
    same_words(&flat(b2.get_rhs()), &flat(bp.get_rhs()), 63);
    let q = qp.generate_query(&keys[0]).unwrap();
    let q2 = match qp2.generate_query(&keys[0]) {
        Ok(q) => q,
        Err(_) => return sym::check(false, 65),
    };
    same_words(q.as_slice(), q2.as_slice(), 66);
    let (x, y) = (resp_of(shard.respond(&q)), resp_of(s2.respond(&q2)));
    same_words(x.as_slice(), y.as_slice(), 68);
    let (a, b) = (qp.parse_resp_as_row(&x, &keys[0]), qp2.parse_resp_as_row(&y, &keys[0]));
    match (a, b) {
        (Ok(a), Ok(b)) => same_words(&a, &b, 70),
        _ => sym::check(false, 72),
    }
    if let Some(mut u) = round(&qp, 73) {
        sym::check(u.used && u.generate_query(&keys[0]).is_err(), 76);
    }
    if let Some(kv) = round(&kvs[0].value, 77) {
        same_words(&kv, &kvs[0].value, 80);
    }
    sym::cover(1);
}

// ---------------------------------------------------------------- C20
/// params: records, element bits, plaintext bits, LWE dimension, mode
/// (0: concrete content, 1: any byte as the low byte of a published word, 2: as the high byte,
/// 3: any byte of the seed, 4: any small number of records)
pub fn c20_file() {
    let g = |i| sym::param(i) as usize;
    let (m, elem, p, dim, how) = (g(0), g(1), g(2), g(3), g(4));
    sym::os::concrete(true);
    sym::os::concrete_streams(true);
    let els: Vec<Vec<u8>> = (0..m).map(|i| (0..up(elem, 8)).map(|j| sym::pick((100 * i + j) as u64) as u8).collect()).collect();
    let els: Vec<Vec<u8>> = els.iter().map(|e| cut(e, elem)).collect();
    let shard = Shard::from_base64_strings(&enc(&els), dim, m, elem, p).unwrap();
    let dir = sym::dir();
    let (f, d) = (dir.clone() + "/params.json", dir.clone() + "/db.json");
    sym::check(shard.write_to_file(&d, &f).is_ok(), 1);
    let mut bp = shard.get_base_params().clone();
    if how > 0 {
        let b = sym::u8();
        let mut x: (usize, usize, [u8; 32], Vec<Vec<u32>>, usize, usize) =
            bincode::deserialize(&bincode::serialize(&bp).unwrap()).unwrap();
        let (r, c) = (up(elem, p) - 1, dim - 1);
        match how {
            1 => x.3[r][c] = b as u32,
            2 => x.3[r][c] = 0xff_ffff | (b as u32) << 24,
            3 => x.2[31] = b,
            4 => x.1 = b as usize,
            5 => x.4 = b as usize,
            6 => x.5 = b as usize,
            _ => x.0 = b as usize,
        }
        bp = bincode::deserialize(&bincode::serialize(&x).unwrap()).unwrap();
        sym::check(bp.write_to_file(&f).is_ok(), 1);
    }
    let l = match IndexParams::load(&f) {
        Ok(l) => l,
        Err(_) => return sym::check(false, 2),
    };
    sym::check(l.get_dim() == bp.get_dim(), 3);
    sym::check(l.get_total_records() == bp.get_total_records(), 4);
    sym::check(l.get_elem_size() == bp.get_elem_size(), 5);
    sym::check(l.get_plaintext_bits() == bp.get_plaintext_bits(), 6);
    let (a, b) = (l.get_public_seed(), bp.get_public_seed());
    same_bytes(&a, &b, 7);
    same_words(&flat(l.get_rhs()), &flat(bp.get_rhs()), 9);
    sym::check(l.get_rhs().len() == bp.get_rhs().len(), 11);
    if how == 0 {
        // a client of the loaded parameters
        let cp = CommonParams::from(&l);
        let mut qp = generate_index_query_params(&cp, &l).unwrap();
        let q = qp.generate_query(m - 1).unwrap();
        let resp = resp_of(shard.respond(&q));
        same_words(&qp.parse_resp_as_row(&resp), &entries_of(&els[m - 1], elem, p), 12);
        // the database file is the matrix
        match std::fs::read_to_string(&d) {
            Ok(t) => match serde_json::from_str::<Vec<Vec<u32>>>(&t) {
                Ok(v) => {
                    sym::check(v.len() == shard.get_db().get_row_width_self(), 14);
                    for j in 0..v.len() {
                        same_words(&v[j], &shard.get_db().get_row(j), 15);
                    }
                }
                Err(_) => sym::check(false, 17),
            },
            Err(_) => sym::check(false, 18),
        }
        // a directory that does not exist
        let no = dir.clone() + "/none/x.json";
        sym::check(IndexParams::load(&no).is_err(), 19);
        sym::check(shard.write_to_file(&no, &f).is_err(), 20);
        sym::check(shard.write_to_file(&d, &no).is_err(), 21);
    }
    sym::cover(1);
}

/// params: position of an arbitrary byte in the file, or -1-k for a file cut to k bytes
pub fn c20_bad() {
    let k = sym::param(0) as i64;
    sym::os::concrete(true);
    sym::os::concrete_streams(true);
    let t = "{\"dim\":1,\"m\":2,\"public_seed\":[0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31],\"rhs\":[[305419896]],\"elem_size\":8,\"plaintext_bits\":8}";
    let mut b = t.as_bytes().to_vec();
    let f = sym::dir() + "/bad.json";
    if k < 0 {
        b.truncate((-1 - k) as usize);
        std::fs::write(&f, &b).unwrap();
        sym::check(IndexParams::load(&f).is_err(), 1);
    } else {
        b[k as usize] = sym::u8();
        std::fs::write(&f, &b).unwrap();
        // the reader of the format says what the file holds
        let want: Result<serde_json::Value, _> = serde_json::from_slice(&b);
        match IndexParams::load(&f) {
            Err(_) => {}
            Ok(l) => {
                let w = match want {
                    Ok(w) => w,
                    Err(_) => return sym::check(false, 2),
                };
                sym::check(w["dim"].as_u64() == Some(l.get_dim() as u64), 3);
                sym::check(w["m"].as_u64() == Some(l.get_total_records() as u64), 4);
                sym::check(w["elem_size"].as_u64() == Some(l.get_elem_size() as u64), 5);
                sym::check(w["plaintext_bits"].as_u64() == Some(l.get_plaintext_bits() as u64), 6);
                sym::check(w["rhs"][0][0].as_u64() == Some(l.get_rhs()[0][0] as u64), 7);
                sym::check(w["public_seed"][31].as_u64() == Some(l.get_public_seed()[31] as u64), 8);
            }
        }
    }
    sym::cover(1);
}

/// params: position of an arbitrary byte in the files of elements
pub fn c09_json() {
    let k = sym::param(0) as usize;
    sym::os::concrete(true);
    sym::os::concrete_streams(true);
    let f = sym::dir() + "/elements.json";
    let x = sym::u8();
    let mut b = b"[\"QUJD\",\"REVG\"]".to_vec();
    if k < b.len() {
        b[k] = x;
        std::fs::write(&f, &b).unwrap();
        let r = Shard::from_json_file(&f, 1, 2, 24, 8);
        let want: Result<Vec<String>, _> = serde_json::from_slice(&b);
        let decoded: Option<Vec<Vec<u8>>> =
            want.ok().and_then(|w| w.iter().map(|e| base64::decode(e).ok()).collect::<Option<Vec<_>>>());
        match decoded {
            Some(d) if d.len() >= 2 && d[0].len() == 3 && d[1].len() == 3 => {
                sym::check(r.is_ok(), 1);
                if let Ok(s) = r {
                    same_str(&s.get_db().get_db_entry(0), &base64::encode(&d[0]), 2);
                    same_str(&s.get_db().get_db_entry(1), &base64::encode(&d[1]), 2);
                }
                sym::cover(2);
            }
            Some(d) if d.len() >= 2 && d[0].len() > 1 && d[1].len() > 1 => {}
            _ => sym::check(r.is_err(), 4),
        }
    }
    let mut b = b"[{\"key\":\"a\",\"value\":\"QUJD\"}]".to_vec();
    // (an arbitrary key is hashed: C11)
    if k < b.len() && k != 9 {
        b[k] = x;
        std::fs::write(&f, &b).unwrap();
        let r = KVShard::from_json_file(&f, 1, 1, 24, 8);
        let w: Result<serde_json::Value, _> = serde_json::from_slice(&b);
        if w.is_err() {
            sym::check(r.is_err(), 5);
        }
    }
    sym::cover(1);
}

/// files that are missing, empty, or of another form
pub fn c09_files() {
    sym::os::concrete(true);
    sym::os::concrete_streams(true);
    let dir = sym::dir();
    let no = dir.clone() + "/missing.json";
    sym::check(Shard::from_json_file(&no, 1, 1, 8, 8).is_err(), 1);
    sym::check(KVShard::from_json_file(&no, 1, 1, 8, 8).is_err(), 2);
    sym::check(IndexParams::load(&no).is_err(), 3);
    let f = dir + "/bad.json";
    for t in ["", "[", "{}", "null", "[1,2]", "[\"QUI=\"", "\"QUI=\"", "[[\"QUI=\"]]", "[\"QUI=\"] x", "[\"QU?=\"]", "[{\"key\":\"a\"}]"] {
        std::fs::write(&f, t).unwrap();
        sym::check(Shard::from_json_file(&f, 1, 1, 16, 8).is_err(), 4);
        sym::check(KVShard::from_json_file(&f, 1, 1, 16, 8).is_err(), 5);
        sym::check(IndexParams::load(&f).is_err(), 6);
    }
    std::fs::write(&f, "[\"QUI=\"]").unwrap();
    sym::check(Shard::from_json_file(&f, 1, 1, 16, 8).is_ok(), 7);
    sym::check(Shard::from_json_file(&f, 1, 2, 16, 8).is_err(), 8);
    sym::check(Shard::from_json_file(&f, 1, 0, 16, 8).is_err(), 9);
    sym::check(Shard::from_json_file(&f, 1, 1, 25, 8).is_err(), 10);
    sym::cover(1);
}

pub mod e {
    crate::entries!(
        c01_e2e, c02_e2e, c02_strings, c03_index, c03_kv, c04_index, c04_kv, c05_index, c05_mask, c05_kv, c06_index,
        c06_kv, c07_index, c07_kv, c08_index, c08_kv, c08_kvdb, c22_words, c22_redraw, c09_base64, c09_shape, c09_ops,
        c19_index, c19_kv, c20_file, c20_bad, c09_json, c09_files
    );
}
