use crate::big::{su, u};
use crate::field::K256;
use crate::{flag, unhex, Out};
use crylib::big_int::UBigInt;
use crylib::ec::{ecdsa, AffinePoint, EllipticCurve, ProjectivePoint, Secp256r1};
use crylib::finite_field::{FieldElement, FiniteField};
use std::cell::Cell;

macro_rules! curve {
    ($t:ident, $o:ident, $p:expr, $a:expr, $b:expr, $gx:expr, $gy:expr, $n:expr) => {
        #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Hash)]
        pub struct $t;
        #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Hash)]
        pub struct $o;
        // SAFETY: both moduli are prime.
        unsafe impl FiniteField<4> for $t {
            const MODULUS: UBigInt<4> = UBigInt($p);
        }
        unsafe impl FiniteField<4> for $o {
            const MODULUS: UBigInt<4> = UBigInt($n);
        }
        impl EllipticCurve for $t {
            const BASE_POINT: ProjectivePoint<Self> = unsafe {
                AffinePoint::new_unchecked(
                    FieldElement::new_unchecked(UBigInt($gx)),
                    FieldElement::<4, Self>::new_unchecked(UBigInt($gy)),
                )
                .as_projective()
            };
            const A: FieldElement<4, Self> = unsafe { FieldElement::new_unchecked(UBigInt($a)) };
            const B: FieldElement<4, Self> = unsafe { FieldElement::new_unchecked(UBigInt($b)) };
            type Order = $o;
        }
    };
}
const fn s(x: u64) -> [u64; 4] {
    [x, 0, 0, 0]
}
curve!(E7a, O7a, s(7), s(0), s(3), s(1), s(2), s(13));
curve!(E7b, O7b, s(7), s(1), s(1), s(0), s(1), s(5));
curve!(E11c, O11c, s(11), s(1), s(1), s(0), s(1), s(7)); // group of 14
curve!(E13, O13, s(13), s(7), s(6), s(1), s(1), s(11));
curve!(E13c, O13c, s(13), s(11), s(5), s(2), s(3), s(5)); // group of 20
curve!(E17, O17, s(17), s(3), s(12), s(1), s(4), s(23));
curve!(E31, O31, s(31), s(10), s(14), s(0), s(13), s(23));
curve!(
    EK, OK, K256::MODULUS.0, s(0), s(7),
    [0x59f2815b16f81798, 0x029bfcdb2dce28d9, 0x55a06295ce870b07, 0x79be667ef9dcbbac],
    [0x9c47d08ffb10d4b8, 0xfd17b448a6855419, 0x5da4fbfc0e1108a8, 0x483ada7726a3c465],
    [0xbfd25e8cd0364141, 0xbaaedce6af48a03b, 0xfffffffffffffffe, 0xffffffffffffffff]
);

fn fe<F: FiniteField<4>>(x: &str) -> FieldElement<4, F> {
    // SAFETY: the driver only sends reduced values here.
    unsafe { FieldElement::new_unchecked(u::<4>(&format!("{x:0>64}"))) }
}
fn so<F: FiniteField<4>>(x: &FieldElement<4, F>) -> String {
    su(x.inner())
}
fn pt<C: EllipticCurve>(x: &str) -> ProjectivePoint<C> {
    let c: Vec<&str> = x.split(',').collect();
    // SAFETY: the driver only sends points of the curve.
    unsafe { ProjectivePoint::new_unchecked(fe(c[0]), fe(c[1]), fe(c[2])) }
}
fn af<C: EllipticCurve>(x: &str) -> AffinePoint<C> {
    let c: Vec<&str> = x.split(',').collect();
    // SAFETY: the driver only sends points of the curve.
    unsafe { AffinePoint::new_unchecked(fe(c[0]), fe(c[1])) }
}
/// The three coordinates; the type has no accessors, so they are read through its size.
fn sp<C: EllipticCurve>(p: &ProjectivePoint<C>) -> String {
    let order = layout::<C>();
    assert_eq!(std::mem::size_of::<ProjectivePoint<C>>(), 96);
    // SAFETY: three transparent wrappers of [u64; 4].
    let raw: [[u64; 4]; 3] = unsafe { std::mem::transmute_copy(p) };
    format!("{},{},{}", su(&UBigInt(raw[order[0]])), su(&UBigInt(raw[order[1]])), su(&UBigInt(raw[order[2]])))
}
/// Where x, y and z lie.
fn layout<C: EllipticCurve>() -> [usize; 3] {
    let mark = |i: u64| unsafe { FieldElement::<4, C>::new_unchecked(UBigInt([i, 0, 0, 0])) };
    let p: ProjectivePoint<C> = unsafe { ProjectivePoint::new_unchecked(mark(0), mark(1), mark(2)) };
    let raw: [[u64; 4]; 3] = unsafe { std::mem::transmute_copy(&p) };
    let at = |i: u64| raw.iter().position(|r| r[0] == i).unwrap();
    [at(0), at(1), at(2)]
}
fn sa<C: EllipticCurve>(p: &AffinePoint<C>) -> String {
    let ok = p.x() == *p.x_ref() && p.y() == *p.y_ref();
    format!("{},{}{}", so(&p.x()), so(&p.y()), if ok { "" } else { "!" })
}
fn ssig<C: FiniteField<4>>(x: &ecdsa::Signature<C>) -> (String, String) {
    assert_eq!(std::mem::size_of::<ecdsa::Signature<C>>(), 64);
    let mark = |i: u64| unsafe { FieldElement::<4, C>::new_unchecked(UBigInt([i, 0, 0, 0])) };
    // SAFETY: two transparent wrappers of [u64; 4].
    let probe: [[u64; 4]; 2] = unsafe { std::mem::transmute_copy(&ecdsa::Signature::<C>::new(mark(1), mark(2))) };
    let raw: [[u64; 4]; 2] = unsafe { std::mem::transmute_copy(x) };
    let (r, s) = if probe[0][0] == 1 { (raw[0], raw[1]) } else { (raw[1], raw[0]) };
    (su(&UBigInt(r)), su(&UBigInt(s)))
}

fn on<C: EllipticCurve>(w: &[&str]) -> Out {
    match w[0] {
        "e.const" => vec![
            su(&C::MODULUS), so(&C::A), so(&C::B), sp(&C::BASE_POINT), su(&<C::Order as FiniteField<4>>::MODULUS),
            sp(&ProjectivePoint::<C>::POINT_AT_INF),
        ],
        "e.new" => {
            let (x, y) = (fe::<C>(w[2]), fe::<C>(w[3]));
            let p = AffinePoint::<C>::new(x, y);
            vec![
                flag(AffinePoint::<C>::is_on_curve(&x, &y)), flag(p.is_some()),
                p.map_or("x".into(), |p| sa(&p)), p.map_or("x".into(), |p| sp(&p.as_projective())),
                p.map_or("x".into(), |p| sp(&ProjectivePoint::from(p))),
            ]
        }
        "e.add" => {
            let (p, q) = (pt::<C>(w[2]), pt::<C>(w[3]));
            let (mut t, mut t2) = (p, p);
            t.add_assign(&q);
            t2.add_assign_fast(&q);
            vec![sp(&p.add(&q)), sp(&t), sp(&p.add_fast(&q)), sp(&t2), flag(p == q), flag(q == p)]
        }
        "e.one" => {
            let p = pt::<C>(w[2]);
            let (mut d, mut n) = (p, p);
            d.double_assign();
            n.neg_assign();
            vec![
                sp(&p.double()), sp(&d), sp(&p.neg()), sp(&n), flag(p.is_infinity()),
                p.as_affine().map_or("x".into(), |a| sa(&a)),
                AffinePoint::try_from(p).ok().map_or("x".into(), |a| sa(&a)), flag(p == p),
            ]
        }
        "e.mul" => {
            let p = pt::<C>(w[2]);
            let k = fe::<C::Order>(w[3]);
            let mut t = p;
            t.mul_scalar_assign(&k);
            vec![sp(&p.mul_scalar(&k)), sp(&t)]
        }
        "e.aadd" => vec![sa(&af::<C>(w[2]).add(&af::<C>(w[3]))), flag(af::<C>(w[2]) == af::<C>(w[3]))],
        "e.aone" => {
            let p = af::<C>(w[2]);
            let (mut d, mut n) = (p, p);
            d.double_assign();
            n.neg_assign();
            vec![sa(&p.double()), sa(&d), sa(&p.neg()), sa(&n)]
        }
        "e.ver" => {
            let q = pt::<C>(w[2]);
            let h: [u8; 32] = unhex(w[3]).try_into().unwrap();
            let sig = ecdsa::Signature::new(fe(w[4]), fe(w[5]));
            let r = ecdsa::verify_signature(b"the message", &q, |m| { assert_eq!(m, b"the message"); h }, &sig);
            vec![flag(r.is_ok())]
        }
        "e.sign" => {
            let h: [u8; 32] = unhex(w[3]).try_into().unwrap();
            let i = Cell::new(0);
            let sig = ecdsa::sign::<C>(b"the message", &fe(w[2]), |m| { assert_eq!(m, b"the message"); h }, || {
                i.set(i.get() + 1);
                fe(w[3 + i.get()])
            });
            let (r, s) = ssig(&sig);
            vec![r, s, i.get().to_string()]
        }
        _ => vec!["!unknown".into()],
    }
}

pub fn run(w: &[&str]) -> Out {
    match w[1] {
        "p256" => on::<Secp256r1>(w),
        "k256" => on::<EK>(w),
        "7a" => on::<E7a>(w),
        "7b" => on::<E7b>(w),
        "11c" => on::<E11c>(w),
        "13" => on::<E13>(w),
        "13c" => on::<E13c>(w),
        "17" => on::<E17>(w),
        "31" => on::<E31>(w),
        _ => vec!["!unknown".into()],
    }
}
