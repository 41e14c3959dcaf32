use crate::big::{su, u};
use crate::{flag, Out};
use crylib::big_int::UBigInt;
use crylib::ec::{EllipticCurve, Secp256r1};
use crylib::finite_field::{FieldElement, FiniteField};

macro_rules! prime {
    ($t:ident, $n:literal, $m:expr) => {
        #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Hash)]
        pub struct $t;
        // SAFETY: the modulus is prime.
        unsafe impl FiniteField<$n> for $t {
            const MODULUS: UBigInt<$n> = UBigInt($m);
        }
    };
}
const M: u64 = u64::MAX;
prime!(Poly, 3, [M - 4, M, 3]); // 2^130 - 5
prime!(P192, 3, [M, M - 1, M]);
prime!(Max192, 3, [M - 236, M, M]); // 2^192 - 237
prime!(M127, 3, [M, M >> 1, 0]); // 2^127 - 1
prime!(Tiny2, 3, [2, 0, 0]);
prime!(Tiny13, 3, [13, 0, 0]);
prime!(P255, 4, [M - 18, M, M, M >> 1]); // 2^255 - 19
prime!(Max256, 4, [M - 188, M, M, M]); // 2^256 - 189
prime!(K256, 4, [M - 0x1_0000_03d0, M, M, M]); // secp256k1
prime!(Word, 4, [M - 58, 0, 0, 0]); // 2^64 - 59
prime!(P129, 4, [51, 0, 1, 0]); // 2^128 + 51
prime!(Tiny3, 4, [3, 0, 0, 0]);
prime!(Tiny5, 4, [5, 0, 0, 0]);
prime!(Tiny17, 4, [17, 0, 0, 0]);

fn common<const N: usize, F: FiniteField<N>>(op: &str, a: FieldElement<N, F>, b: impl Fn() -> FieldElement<N, F>) -> Option<Out> {
    let so = |x: &FieldElement<N, F>| su(x.inner());
    let asg = |f: &dyn Fn(&mut FieldElement<N, F>)| {
        let mut t = a;
        f(&mut t);
        so(&t)
    };
    Some(match op {
        "add" => vec![so(&a.add(&b())), asg(&|t| t.add_assign(&b()))],
        "sub" => vec![so(&a.sub(&b())), asg(&|t| t.sub_assign(&b()))],
        "double" => vec![so(&a.double()), asg(&|t| t.double_assign())],
        "neg" => {
            // the unchecked versions are for elements other than zero
            let zero = a.inner() == FieldElement::<N, F>::ZERO.inner();
            vec![
                so(&a.neg()), asg(&|t| t.neg_assign()),
                so(&if zero { a.neg() } else { unsafe { a.neg_unchecked() } }),
                asg(&|t| if zero { t.neg_assign() } else { unsafe { t.neg_assign_unchecked() } }),
            ]
        }
        "count" => vec![a.count_digits().to_string()],
        _ => return None,
    })
}

macro_rules! sized {
    ($name:ident, $n:literal) => {
        fn $name<F: FiniteField<$n> + std::fmt::Debug>(w: &[&str]) -> Out {
            let op = w[0].split('.').nth(1).unwrap();
            let raw = u::<$n>(w[2]);
            if op == "new" {
                let t = FieldElement::<$n, F>::try_new(raw);
                let t2 = FieldElement::<$n, F>::try_from(raw).ok();
                return vec![
                    su(FieldElement::<$n, F>::new(raw).inner()),
                    flag(t.is_some()),
                    t.map_or("x".into(), |x| su(x.inner())),
                    t2.map_or("x".into(), |x| su(&x.into_inner())),
                    su(FieldElement::<$n, F>::ZERO.inner()),
                    su(FieldElement::<$n, F>::ONE.inner()),
                    su(F::MIN.inner()),
                ];
            }
            // SAFETY: the driver only sends reduced values here.
            let fe = |s: &str| unsafe { FieldElement::<$n, F>::new_unchecked(u::<$n>(s)) };
            let a = fe(w[2]);
            if let Some(r) = common::<$n, F>(op, a, || fe(w[3])) {
                return r;
            }
            let so = |x: &FieldElement<$n, F>| su(x.inner());
            match op {
                "mul" => {
                    let mut t = a;
                    t.mul_assign(&fe(w[3]));
                    vec![so(&a.mul(&fe(w[3]))), so(&t)]
                }
                "muld" => {
                    let k = u::<1>(w[3]).0[0];
                    let mut t = a;
                    t.mul_digit_assign(k);
                    vec![so(&a.mul_digit(k)), so(&t)]
                }
                "sqr" => {
                    let mut t = a;
                    t.sqr_assign();
                    vec![so(&a.sqr()), so(&t)]
                }
                "div" => vec![so(&a.div(&fe(w[3])))],
                "inv" => vec![so(&a.inverse())],
                _ => vec!["!unknown".into()],
            }
        }
    };
}
sized!(run3, 3);
sized!(run4, 4);

type Order = <Secp256r1 as EllipticCurve>::Order;

/// `f.conv field value field`: convert between fields of four digits.
fn conv(w: &[&str]) -> Out {
    fn to<F: FiniteField<4>, G: FiniteField<4>>(s: &str) -> Out {
        // SAFETY: the driver only sends reduced values here.
        let a = unsafe { FieldElement::<4, F>::new_unchecked(u::<4>(s)) };
        vec![su(a.convert::<G>().inner())]
    }
    fn from<F: FiniteField<4>>(w: &[&str]) -> Out {
        match w[3] {
            "p256" => to::<F, Secp256r1>(w[2]),
            "n256" => to::<F, Order>(w[2]),
            "tiny17" => to::<F, Tiny17>(w[2]),
            "tiny5" => to::<F, Tiny5>(w[2]),
            "max256" => to::<F, Max256>(w[2]),
            _ => to::<F, Word>(w[2]),
        }
    }
    match w[1] {
        "p256" => from::<Secp256r1>(w),
        "n256" => from::<Order>(w),
        "max256" => from::<Max256>(w),
        _ => from::<Tiny17>(w),
    }
}

pub fn run(w: &[&str]) -> Out {
    if w[0] == "f.conv" {
        return conv(w);
    }
    match w[1] {
        "poly" => run3::<Poly>(w),
        "p192" => run3::<P192>(w),
        "max192" => run3::<Max192>(w),
        "m127" => run3::<M127>(w),
        "tiny2" => run3::<Tiny2>(w),
        "tiny13" => run3::<Tiny13>(w),
        "p256" => run4::<Secp256r1>(w),
        "n256" => run4::<Order>(w),
        "p255" => run4::<P255>(w),
        "max256" => run4::<Max256>(w),
        "k256" => run4::<K256>(w),
        "word" => run4::<Word>(w),
        "p129" => run4::<P129>(w),
        "tiny3" => run4::<Tiny3>(w),
        "tiny5" => run4::<Tiny5>(w),
        "tiny17" => run4::<Tiny17>(w),
        _ => vec!["!unknown".into()],
    }
}
