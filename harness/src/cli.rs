//! C21: the configuration of the benchmarks.
use crate::sym;
use pi_rs_cli_utils::*;

/// an arbitrary text of `n` characters of the given ranges
fn ascii(n: usize) -> String {
    let mut b = sym::bytes(n);
    for x in b.iter() {
        sym::assume(*x < 0x80 && *x != 0);
    }
    b.shrink_to_fit();
    unsafe { String::from_utf8_unchecked(b) }
}

/// the decimal value of a text: an optional plus sign and digits only, at most `max`
fn decimal(s: &str, max: u64) -> Option<u64> {
    let mut b = s.as_bytes();
    if b.len() > 1 && b[0] == b'+' {
        b = &b[1..];
    }
    let mut ok = !b.is_empty();
    let mut v: u128 = 0;
    for i in 0..b.len() {
        let d = b[i].wrapping_sub(b'0');
        ok &= d < 10;
        v = v * 10 + (d & 15) as u128;
    }
    if ok && v <= max as u128 {
        Some(v as u64)
    } else {
        None
    }
}

/// params: length of the text
pub fn c21_exp() {
    let s = ascii(sym::param(0) as usize);
    match decimal(&s, 63) {
        Some(e) => {
            sym::check(parse_exp_to_usize(s) as u64 == 1 << e, 1);
            sym::cover(1);
        }
        None => {
            sym::cover(2);
            sym::allow_panic(true);
            parse_exp_to_usize(s);
            sym::check(false, 2);
        }
    }
}

/// params: length of the text
pub fn c21_bool() {
    let s = ascii(sym::param(0) as usize);
    let (t, f) = (s == "true", s == "false");
    if t || f {
        sym::check(parse_val_to_bool(s) == t, 1);
    } else {
        sym::cover(2);
        sym::allow_panic(true);
        parse_val_to_bool(s);
        sym::check(false, 2);
    }
    sym::cover(1);
}

const VARS: [&str; 6] = [
    "PIR_ELEM_SIZE_BITS",
    "PIR_LWE_DIM",
    "PIR_PLAINTEXT_BITS",
    "PIR_NUMBER_OF_ELEMENTS_EXP",
    "BENCH_DB_GEN",
    "BENCH_KV",
];

fn number(f: &CLIFlags, i: usize) -> u64 {
    [f.elem_size, f.lwe_dim, f.plaintext_bits, f.m, f.offline as usize, f.keyword as usize][i] as u64
}

/// params: variable whose text is arbitrary (6: none), length of its text (99: it is missing), length of a prefix of 2^64-1 before it
pub fn c21_env() {
    let (k, n) = (sym::param(0) as usize, sym::param(1) as usize);
    let good = ["73", "1774", "9", "21", "false", "true"];
    let value = [73u64, 1774, 9, 1 << 21, 0, 1];
    for i in 0..6 {
        std::env::set_var(VARS[i], good[i]);
    }
    let mut want = [Some(0u64); 6];
    for i in 0..6 {
        want[i] = Some(value[i]);
    }
    if n == 99 {
        std::env::remove_var(VARS[k]);
        want[k] = None;
    } else if k < 6 {
        // close to 2^64, if asked for
        let s = String::from(&"18446744073709551615"[..sym::param(2) as usize]) + &ascii(n);
        want[k] = match k {
            0 | 1 | 2 => decimal(&s, u64::MAX),
            3 => decimal(&s, 63).map(|e| 1 << e),
            _ if s == "true" => Some(1),
            _ if s == "false" => Some(0),
            _ => None,
        };
        std::env::set_var(VARS[k], &s);
    }
    if k < 6 && want[k].is_none() {
        sym::cover(2);
        sym::allow_panic(true);
        let _ = parse_from_env();
        return sym::check(false, 2);
    }
    let f = parse_from_env();
    for i in 0..6 {
        sym::check(number(&f, i) == want[i].unwrap(), 10 + i as u32);
        sym::observe(number(&f, i), i as u32);
    }
    sym::cover(1);
}

/// params: flag whose value is arbitrary (4: none), length of its text, form of the flags (0: short, 1: long, 2: long with '='),
/// flags that are given, as a set
pub fn c21_flags() {
    let g = |i| sym::param(i) as usize;
    let (k, n, form, given) = (g(0), g(1), g(2), g(3));
    let short = ["-e", "-d", "-p", "-m"];
    let long = ["--ele_size", "--dim", "--plaintext_bits", "--matrix_height"];
    let text = ["11", "1774", "9", "20"];
    let mut want = [Some(1u64 << 13), Some(2048), Some(10), Some(1 << 16)];
    let set = [1u64 << 11, 1774, 9, 1 << 20];
    let mut args = vec![String::from("pir")];
    for i in [3, 0, 2, 1] {
        if given >> i & 1 == 0 && i != k {
            continue;
        }
        let s = if i == k {
            let s = ascii(n);
            // the parser of the command line decides what starts with a dash or '=', and what an empty value is
            if n > 0 {
                sym::assume(s.as_bytes()[0] != b'-' && s.as_bytes()[0] != b'=');
            }
            want[i] = match i {
                1 | 2 => decimal(&s, u64::MAX),
                _ => decimal(&s, 63).map(|e| 1 << e),
            };
            s
        } else {
            want[i] = Some(set[i]);
            String::from(text[i])
        };
        match form {
            0 => {
                args.push(short[i].into());
                args.push(s);
            }
            1 => {
                args.push(long[i].into());
                args.push(s);
            }
            _ => {
                let mut a = String::from(long[i]);
                a.push('=');
                a.push_str(&s);
                args.push(a);
            }
        }
    }
    sym::args(&args);
    if want.iter().any(|x| x.is_none()) {
        sym::cover(2);
        sym::allow_panic(true);
        let _ = parse_cli_flags();
        return sym::check(false, 2);
    }
    let f = parse_cli_flags();
    for i in 0..4 {
        sym::check(number(&f, i) == want[i].unwrap(), 20 + i as u32);
        sym::observe(number(&f, i), i as u32);
    }
    sym::check(f.offline, 26);
    sym::check(f.keyword, 27);
    sym::cover(1);
}

pub mod e {
    crate::entries!(c21_exp, c21_bool, c21_env, c21_flags);
}
