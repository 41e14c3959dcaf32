//! Executes operations of crylib one instruction at a time.  Reads lines `op width arg ...` and prints
//! the number of instructions and a hash of their addresses for each.
mod step;
use crylib::big_int::{BigInt, UBigInt};
use crylib::ec::{EllipticCurve, Secp256r1};
use crylib::finite_field::{FieldElement, FiniteField};
use std::hint::black_box;
use std::io::{BufRead, Write};

type Seen = Option<(u64, u64)>;

fn digits<const N: usize>(s: &str) -> UBigInt<N> {
    let mut d = [0; N];
    for (i, w) in d.iter_mut().rev().enumerate() {
        *w = u64::from_str_radix(&s[16 * i..16 * i + 16], 16).unwrap();
    }
    UBigInt(d)
}
/// A function that can be watched: what it is given, what it gives.
struct Io<A, R> {
    a: A,
    r: Option<R>,
}
macro_rules! watch {
    ($a:expr, $t:ty, |$x:ident| $e:expr) => {{
        #[inline(never)]
        fn run<const N: usize>(io: &mut Io<$t, [u64; 18]>) {
            let $x = black_box(&mut io.a);
            black_box($e);
            black_box(&mut io.r);
        }
        let mut io = Io { a: $a, r: None };
        Some(step::path(run::<N>, &mut io))
    }};
}

fn generic<const N: usize>(op: &str, w: &[&str]) -> Seen {
    let a = digits::<N>(w[2]);
    let b = || digits::<N>(w[3]);
    let k = || u64::from_str_radix(w[3], 16).unwrap();
    type U<const N: usize> = UBigInt<N>;
    macro_rules! two { ($m:ident) => { watch!((a, b()), (U<N>, U<N>), |x| x.0.$m(&x.1)) }; }
    macro_rules! one { ($m:ident) => { watch!((a, ()), (U<N>, ()), |x| x.0.$m()) }; }
    macro_rules! num { ($m:ident) => { watch!((a, k()), (U<N>, u64), |x| x.0.$m(x.1)) }; }
    macro_rules! flag { ($m:ident) => { watch!((a, k() != 0), (U<N>, bool), |x| x.0.$m(x.1)) }; }
    match op {
        "overflowing_add" => two!(overflowing_add), "overflowing_add_assign" => two!(overflowing_add_assign),
        "overflowing_sub" => two!(overflowing_sub), "overflowing_sub_assign" => two!(overflowing_sub_assign),
        "add" => two!(add), "add_assign" => two!(add_assign), "sub" => two!(sub), "sub_assign" => two!(sub_assign),
        "xor" => two!(xor), "xor_assign" => two!(xor_assign), "and" => two!(and), "and_assign" => two!(and_assign),
        "or" => two!(or), "or_assign" => two!(or_assign), "nor" => two!(nor), "nor_assign" => two!(nor_assign),
        "xnor" => two!(xnor), "xnor_assign" => two!(xnor_assign), "nand" => two!(nand), "nand_assign" => two!(nand_assign),
        "not" => one!(not), "not_assign" => one!(not_assign), "count_digits" => one!(count_digits), "len" => one!(len),
        "left_align" => one!(left_align),
        "mul_digit_assign" => num!(mul_digit_assign),
        "shift_right" => num!(shift_right), "shift_right_assign" => num!(shift_right_assign),
        "shift_left" => num!(shift_left), "shift_left_assign" => num!(shift_left_assign),
        "and_bool" => flag!(and_bool), "and_bool_assign" => flag!(and_bool_assign),
        // not an operation of crylib: leaks, and has to be seen to
        "control" => watch!((a, ()), (U<N>, ()), |x| x.0 .0.iter().rev().take_while(|d| **d == 0).count()),
        _ => None,
    }
}

macro_rules! sized {
    ($n:literal, $op:expr, $w:expr) => {{
        const N: usize = $n;
        let (a, w) = (digits::<N>($w[2]), $w);
        match $op {
            "widening_mul" => watch!((a, digits::<N>(w[3])), (UBigInt<$n>, UBigInt<$n>), |x| x.0.widening_mul(&x.1)),
            "widening_shift_left" => watch!((a, u64::from_str_radix(w[3], 16).unwrap()), (UBigInt<$n>, u64), |x| x.0.widening_shift_left(x.1)),
            _ => None,
        }
    }};
}

fn signed<const N: usize>(op: &str, w: &[&str]) -> Seen {
    fn num<const N: usize>(s: &str) -> BigInt<N> {
        let v = BigInt::from(digits::<N>(&s[1..]));
        if s.starts_with('n') { BigInt::MIN.xor(&v) } else { v }
    }
    type S<const N: usize> = BigInt<N>;
    let a = num::<N>(w[2]);
    let b = || num::<N>(w[3]);
    macro_rules! two { ($m:ident) => { watch!((a, b()), (S<N>, S<N>), |x| x.0.$m(&x.1)) }; }
    macro_rules! one { ($m:ident) => { watch!((a, ()), (S<N>, ()), |x| x.0.$m()) }; }
    match op {
        "add" => two!(add), "add_assign" => two!(add_assign), "sub" => two!(sub), "sub_assign" => two!(sub_assign),
        "xor" => two!(xor), "xor_assign" => two!(xor_assign),
        "neg" => one!(neg), "neg_assign" => one!(neg_assign), "not" => one!(not), "not_assign" => one!(not_assign),
        "abs" => one!(abs), "abs_assign" => one!(abs_assign),
        "is_negative" => one!(is_negative), "is_positive" => one!(is_positive), "len" => one!(len),
        _ => None,
    }
}

fn field<F: FiniteField<4>>(op: &str, w: &[&str]) -> Seen {
    // The number of digits is only there because `watch` wants one.
    macro_rules! fwatch {
        ($a:expr, |$x:ident| $e:expr) => {{
            #[inline(never)]
            fn run<F: FiniteField<4>>(io: &mut (FieldElement<4, F>, FieldElement<4, F>)) {
                let $x = black_box(io);
                black_box($e);
            }
            let mut io = $a;
            Some(step::path(run::<F>, &mut io))
        }};
    }
    let f = |s: &str| FieldElement::<4, F>::try_new(digits(s)).unwrap();
    let ab = (f(w[2]), f(w[3]));
    match op {
        "add" => fwatch!(ab, |x| x.0.add(&x.1)),
        "sub" => fwatch!(ab, |x| x.0.sub(&x.1)),
        "sub_assign" => fwatch!(ab, |x| x.0.sub_assign(&x.1)),
        "count_digits" => fwatch!(ab, |x| x.0.count_digits()),
        _ => None,
    }
}

fn run(w: &[&str]) -> Seen {
    let (g, op) = w[0].split_once('.').unwrap();
    match (g, w[1]) {
        ("f", "p256") => field::<Secp256r1>(op, w),
        ("f", "n256") => field::<<Secp256r1 as EllipticCurve>::Order>(op, w),
        ("u", n) => match n {
            "1" => generic::<1>(op, w),
            "2" => generic::<2>(op, w).or_else(|| sized!(2, op, w)),
            "3" => generic::<3>(op, w).or_else(|| sized!(3, op, w)),
            "4" => generic::<4>(op, w).or_else(|| sized!(4, op, w)),
            "5" => generic::<5>(op, w).or_else(|| sized!(5, op, w)),
            "6" => generic::<6>(op, w).or_else(|| sized!(6, op, w)),
            "8" => generic::<8>(op, w).or_else(|| sized!(8, op, w)),
            _ => None,
        },
        ("i", n) => match n {
            "1" => signed::<1>(op, w), "3" => signed::<3>(op, w), "4" => signed::<4>(op, w), "8" => signed::<8>(op, w),
            _ => None,
        },
        _ => None,
    }
}

fn main() {
    step::install();
    let mut warm = std::collections::HashSet::new();
    let out = std::io::stdout();
    let mut out = out.lock();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let w: Vec<&str> = line.split(' ').collect();
        // The first execution of an operation may do what later ones need not do.
        if warm.insert((w[0].to_string(), w[1].to_string())) {
            run(&w);
        }
        match run(&w) {
            Some((n, h)) => writeln!(out, "{n} {h:016x}").unwrap(),
            None => writeln!(out, "0 -").unwrap(),
        }
    }
}
