use crate::{flag, hex, unhex, Out};
use crylib::big_int::{BigInt, UBigInt};
use std::cmp::Ordering;

pub fn u<const N: usize>(s: &str) -> UBigInt<N> {
    let b = unhex(s);
    assert!(b.len() == 8 * N);
    let mut d = [0u64; N];
    for i in 0..N {
        let mut w = 0u64;
        for j in 0..8 {
            w = w << 8 | b[8 * (N - 1 - i) + j] as u64;
        }
        d[i] = w;
    }
    UBigInt(d)
}
pub fn su<const N: usize>(x: &UBigInt<N>) -> String {
    (0..N).rev().map(|i| format!("{:016x}", x.0[i])).collect()
}
fn d(s: &str) -> u64 {
    u::<1>(s).0[0]
}
fn sd(x: u64) -> String {
    format!("{x:016x}")
}
fn ord(o: Ordering) -> String {
    match o {
        Ordering::Less => "0".into(),
        Ordering::Equal => "1".into(),
        Ordering::Greater => "2".into(),
    }
}

macro_rules! asg {
    ($x:expr, $m:ident $(, $a:expr)*) => {{ let mut t = $x; t.$m($($a),*); su(&t) }};
}

/// The operations every width has.
fn generic<const N: usize>(op: &str, w: &[&str]) -> Option<Out> {
    let a = u::<N>(w[2]);
    let b = || u::<N>(w[3]);
    let n = || w[3].parse::<u64>().unwrap();
    Some(match op {
        "oadd" => {
            let (r, c) = a.overflowing_add(&b());
            let mut t = a;
            let c2 = t.overflowing_add_assign(&b());
            vec![su(&r), flag(c), su(&t), flag(c2)]
        }
        "osub" => {
            let (r, c) = a.overflowing_sub(&b());
            let mut t = a;
            let c2 = t.overflowing_sub_assign(&b());
            vec![su(&r), flag(c), su(&t), flag(c2)]
        }
        "add" => vec![su(&a.add(&b())), asg!(a, add_assign, &b())],
        "sub" => vec![su(&a.sub(&b())), asg!(a, sub_assign, &b())],
        "double" => vec![su(&a.double()), asg!(a, double_assign)],
        "muld" => {
            let k = d(w[3]);
            let (r, c) = a.overflowing_mul_digit(k);
            let mut t = a;
            let c2 = t.overflowing_mul_digit_assign(k);
            vec![su(&a.mul_digit(k)), asg!(a, mul_digit_assign, k), su(&r), sd(c), su(&t), sd(c2)]
        }
        "bool" => {
            let k = w[3] == "1";
            vec![su(&a.and_bool(k)), asg!(a, and_bool_assign, k)]
        }
        "logic" => {
            let b = b();
            vec![
                su(&a.and(&b)), asg!(a, and_assign, &b),
                su(&a.or(&b)), asg!(a, or_assign, &b),
                su(&a.xor(&b)), asg!(a, xor_assign, &b),
                su(&a.nor(&b)), asg!(a, nor_assign, &b),
                su(&a.xnor(&b)), asg!(a, xnor_assign, &b),
                su(&a.nand(&b)), asg!(a, nand_assign, &b),
                su(&a.not()), asg!(a, not_assign),
            ]
        }
        "shr" => vec![su(&a.shift_right(n())), asg!(a, shift_right_assign, n())],
        "shl" => vec![su(&a.shift_left(n())), asg!(a, shift_left_assign, n())],
        "lalign" => {
            let mut t = a;
            let k = t.left_align();
            vec![su(&t), k.to_string()]
        }
        "count" => vec![
            a.count_digits().to_string(), a.count_digits_fast().to_string(),
            a.count_bits().to_string(), a.len().to_string(),
        ],
        "bit" => vec![flag(a.get_bit(n() as usize))],
        "setbit" => vec![asg!(a, set_bit, n() as usize, w[4] == "1")],
        "setbyte" => vec![asg!(a, set_byte, n() as usize, unhex(w[4])[0])],
        "resize" => vec![match w[3] {
            "1" => su(&a.resize::<1>()), "2" => su(&a.resize::<2>()), "3" => su(&a.resize::<3>()),
            "4" => su(&a.resize::<4>()), "5" => su(&a.resize::<5>()), "6" => su(&a.resize::<6>()),
            "7" => su(&a.resize::<7>()), "8" => su(&a.resize::<8>()), _ => su(&a.resize::<9>()),
        }],
        "cmp" => {
            let b = b();
            vec![
                ord(a.cmp(&b)), ord(a.partial_cmp(&b).unwrap()), flag(a < b), flag(a <= b), flag(a > b), flag(a >= b),
                flag(a == b), flag(a != b), su(&a.max(b)), su(&a.min(b)),
            ]
        }
        "from" => {
            let k = d(w[3]);
            let limbs: Vec<u64> = a.0.to_vec();
            let long: Vec<u64> = [&limbs[..], &[0]].concat();
            let arr: [u64; N] = a.into();
            vec![
                su(&UBigInt::<N>::from(k)), su(&UBigInt::<N>::new(a.0)), su(&UBigInt::<N>::from(a.0)),
                su(&UBigInt::<N>::try_from(&limbs[..]).unwrap()),
                flag(UBigInt::<N>::try_from(&limbs[..N - 1]).is_ok()), flag(UBigInt::<N>::try_from(&long[..]).is_ok()),
                su(&UBigInt(arr)), su(UBigInt::from_ref(&a.0)), su(&UBigInt::<N>::default()),
                su(&UBigInt::<N>::ZERO), su(&UBigInt::<N>::ONE), su(&UBigInt::<N>::MAX), su(&UBigInt::<N>::MIN),
            ]
        }
        "fmt" => vec![format!("{a}"), format!("{a:x}"), format!("{a:X}")],
        _ => return None,
    })
}

macro_rules! sized {
    ($n:literal, $op:expr, $w:expr) => {{
        let w = $w;
        let a = u::<$n>(w[2]);
        match $op {
            "wmul" => vec![su(&a.widening_mul(&u::<$n>(w[3])))],
            "wshl" => vec![su(&a.widening_shift_left(w[3].parse().unwrap()))],
            "div" => {
                let b = u::<$n>(w[3]);
                let (q, r) = a.div(&b);
                vec![su(&q), su(&r), asg!(a, div_assign, &b)]
            }
            "bytes" => {
                let b: [u8; 8 * $n] = unhex(w[2]).try_into().unwrap();
                vec![
                    su(&UBigInt::<$n>::from_be_bytes(b)), su(&UBigInt::<$n>::from_le_bytes(b)),
                    hex(&a.to_be_bytes()), hex(&a.to_le_bytes()),
                ]
            }
            _ => vec!["!unknown".into()],
        }
    }};
}

pub fn unsigned(_f: &str, w: &[&str]) -> Out {
    let op = w[0].split('.').nth(1).unwrap();
    let n: usize = w[1].parse().unwrap();
    let g = match n {
        1 => generic::<1>(op, w), 2 => generic::<2>(op, w), 3 => generic::<3>(op, w), 4 => generic::<4>(op, w),
        5 => generic::<5>(op, w), 6 => generic::<6>(op, w), 7 => generic::<7>(op, w), _ => generic::<8>(op, w),
    };
    if let Some(r) = g {
        return r;
    }
    match n {
        2 => sized!(2, op, w), 3 => sized!(3, op, w), 4 => sized!(4, op, w), 5 => sized!(5, op, w),
        6 => sized!(6, op, w), 8 => sized!(8, op, w), _ => vec!["!unknown".into()],
    }
}

/// `n` or `p`, then the two's-complement digits.
fn s<const N: usize>(x: &str) -> BigInt<N> {
    let v = BigInt::from(u::<N>(&x[1..]));
    if x.starts_with('n') { BigInt::MIN.xor(&v) } else { v }
}
fn ss<const N: usize>(x: &BigInt<N>) -> String {
    let (sign, v) = if x.is_negative() { ("n", x.xor(&BigInt::MIN)) } else { ("p", *x) };
    format!("{sign}{}", su(&UBigInt::try_from(v).unwrap()))
}
macro_rules! sasg {
    ($x:expr, $m:ident $(, $a:expr)*) => {{ let mut t = $x; t.$m($($a),*); ss(&t) }};
}
fn sgeneric<const N: usize>(op: &str, w: &[&str]) -> Option<Out> {
    let a = s::<N>(w[2]);
    let b = || s::<N>(w[3]);
    Some(match op {
        "add" => vec![ss(&a.add(&b())), sasg!(a, add_assign, &b())],
        "sub" => vec![ss(&a.sub(&b())), sasg!(a, sub_assign, &b())],
        "neg" => vec![ss(&a.neg()), sasg!(a, neg_assign)],
        "abs" => vec![ss(&a.abs()), sasg!(a, abs_assign)],
        "not" => vec![ss(&a.not()), sasg!(a, not_assign)],
        "xor" => vec![ss(&a.xor(&b())), sasg!(a, xor_assign, &b())],
        "sign" => vec![flag(a.is_negative()), flag(a.is_positive()), flag(UBigInt::try_from(a).is_ok()), a.len().to_string(),
            ss(&BigInt::<N>::ZERO), ss(&BigInt::<N>::ONE), ss(&BigInt::<N>::NEG_ONE), ss(&BigInt::<N>::MAX), ss(&BigInt::<N>::MIN)],
        "cmp" => {
            let b = b();
            vec![
                ord(a.cmp(&b)), ord(a.partial_cmp(&b).unwrap()), flag(a < b), flag(a <= b), flag(a > b), flag(a >= b),
                flag(a == b), flag(a != b),
            ]
        }
        "resize" => vec![match w[3] {
            "1" => ss(&a.resize::<1>()), "2" => ss(&a.resize::<2>()), "3" => ss(&a.resize::<3>()),
            "4" => ss(&a.resize::<4>()), "5" => ss(&a.resize::<5>()), "6" => ss(&a.resize::<6>()),
            "7" => ss(&a.resize::<7>()), "8" => ss(&a.resize::<8>()), _ => ss(&a.resize::<9>()),
        }],
        _ => return None,
    })
}
macro_rules! ssized {
    ($n:literal, $op:expr, $w:expr) => {{
        let w = $w;
        let a = s::<$n>(w[2]);
        let b = s::<$n>(w[3]);
        match $op {
            "wmul" => vec![ss(&a.widening_mul(&b))],
            "div" => {
                let (q, r) = a.div(&b);
                vec![ss(&q), ss(&r), sasg!(a, div_assign, &b)]
            }
            _ => vec!["!unknown".into()],
        }
    }};
}
pub fn signed(_f: &str, w: &[&str]) -> Out {
    let op = w[0].split('.').nth(1).unwrap();
    let n: usize = w[1].parse().unwrap();
    let g = match n {
        1 => sgeneric::<1>(op, w), 2 => sgeneric::<2>(op, w), 3 => sgeneric::<3>(op, w), 4 => sgeneric::<4>(op, w), _ => sgeneric::<8>(op, w),
    };
    if let Some(r) = g {
        return r;
    }
    match n {
        3 => ssized!(3, op, w), 4 => ssized!(4, op, w), 8 => ssized!(8, op, w), _ => vec!["!unknown".into()],
    }
}
