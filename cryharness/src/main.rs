//! Reads operations, one per line, applies them to crylib and writes the results, one line each.
//! `op arg arg ...`; byte strings and numbers in hexadecimal (most significant first), "-" if empty.
//! A panic in the library is the result "!panic".
mod big;
mod curve;
mod field;
mod stream;

use std::io::{BufRead, Write};

pub type Out = Vec<String>;

pub fn hex(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn flag(b: bool) -> String {
    (b as u8).to_string()
}
/// The byte pattern of Pat(n, seed) in the specification.
pub fn pat(n: usize, seed: usize) -> Vec<u8> {
    (0..n as u64).map(|i| ((i % 251) * 7 + (i / 251 % 239) * 13 + seed as u64) as u8).collect()
}
/// A byte string argument: hexadecimal, or `@n,seed` for a pattern.
pub fn bytes(s: &str) -> Vec<u8> {
    match s.strip_prefix('@') {
        Some(p) => {
            let (n, seed) = p.split_once(',').unwrap();
            pat(n.parse().unwrap(), seed.parse().unwrap())
        }
        None => unhex(s),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    let mut st = stream::State::default();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let w: Vec<&str> = line.split(' ').collect();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let family = w[0].split('.').next().unwrap();
            match family {
                f if f.starts_with('u') => big::unsigned(f, &w),
                f if f.starts_with('i') => big::signed(f, &w),
                "f" => field::run(&w),
                "e" => curve::run(&w),
                _ => st.run(&w),
            }
        }));
        match r {
            Ok(r) => writeln!(out, "{}", r.join(" ")).unwrap(),
            Err(_) => writeln!(out, "!panic").unwrap(),
        }
        out.flush().unwrap();
    }
}
