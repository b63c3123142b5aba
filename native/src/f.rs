use crate::a::nat;
use crylib::big_int::UBigInt;
use crylib::ec::{EllipticCurve, Secp256r1};
use crylib::finite_field::{FieldElement, FiniteField};
use vsrc::nat::Nat;
use vsrc::{case, check, Case, Src};

type R = Result<bool, String>;

macro_rules! field {
    ($name:ident, $n:literal, $m:expr) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
        pub struct $name;
        unsafe impl FiniteField<$n> for $name {
            const MODULUS: UBigInt<$n> = UBigInt($m);
        }
    };
}
field!(P192, 3, [u64::MAX, u64::MAX - 1, u64::MAX]);
field!(Poly, 3, [0xfffffffffffffffb, 0xffffffffffffffff, 0x3]);
field!(Small3, 3, [65537, 0, 0]);
field!(Small4, 4, [65537, 0, 0, 0]);
field!(C25519, 4, [0xffffffffffffffed, u64::MAX, u64::MAX, 0x7fffffffffffffff]);
field!(M128, 4, [u64::MAX - 158, u64::MAX, 0, 0]);
field!(K256, 4, [0xfffffffefffffc2f, u64::MAX, u64::MAX, u64::MAX]);
type Order = <Secp256r1 as EllipticCurve>::Order;

macro_rules! field_cases {
    ($m:ident, $n:literal) => {
        mod $m {
            use super::*;
            fn any<F: FiniteField<$n>>(s: &mut Src) -> UBigInt<$n> {
                let m = nat(&F::MODULUS);
                let mut d = UBigInt(s.digits::<$n>());
                match s.below(5) {
                    0 => {
                        // close to the modulus
                        let k = Nat::from_u64(s.below(4));
                        d = UBigInt(m.sub(&Nat::one()).sub(&k.rem(&m)).digits($n).try_into().unwrap());
                    }
                    1 => {
                        let k = Nat::from_u64(s.below(4));
                        let x = m.add(&k);
                        if x.bits() <= 64 * $n {
                            d = UBigInt(x.digits($n).try_into().unwrap());
                        }
                    }
                    2 => {
                        let h = m.shr(1).add(&Nat::from_u64(s.below(3)));
                        d = UBigInt(h.digits($n).try_into().unwrap());
                    }
                    _ => (),
                }
                d
            }
            pub fn elem<F: FiniteField<$n>>(s: &mut Src) -> FieldElement<$n, F> {
                let d = any::<F>(s);
                let r = nat(&d).rem(&nat(&F::MODULUS));
                // SAFETY: reduced
                unsafe { FieldElement::new_unchecked(UBigInt(r.digits($n).try_into().unwrap())) }
            }
            pub fn v<F: FiniteField<$n>>(x: &FieldElement<$n, F>) -> Nat {
                nat(x.inner())
            }
            fn eq<F: FiniteField<$n>>(what: &str, got: FieldElement<$n, F>, want: &Nat, c: &dyn Fn() -> String) -> Result<(), String> {
                check!(v(&got) == *want, "{what} mod {}: {} gave {} want {}", nat(&F::MODULUS).show(), c(), v(&got).show(), want.show());
                Ok(())
            }
            pub fn linear<F: FiniteField<$n>>(s: &mut Src) -> R {
                let m = nat(&F::MODULUS);
                let a = elem::<F>(s);
                let b = match s.below(4) {
                    0 => a,
                    1 => FieldElement::<$n, F>::new(UBigInt(m.sub(&v(&a)).digits($n).try_into().unwrap())),
                    _ => elem::<F>(s),
                };
                let c = || format!("({}, {})", v(&a).show(), v(&b).show());
                let sum = v(&a).add(&v(&b)).rem(&m);
                let dif = v(&a).add(&m).sub(&v(&b)).rem(&m);
                let dbl = v(&a).add(&v(&a)).rem(&m);
                let neg = m.sub(&v(&a)).rem(&m);
                eq("add", a.add(&b), &sum, &c)?;
                eq("sub", a.sub(&b), &dif, &c)?;
                eq("double", a.double(), &dbl, &c)?;
                eq("neg", a.neg(), &neg, &c)?;
                let mut x = a;
                x.add_assign(&b);
                eq("add_assign", x, &sum, &c)?;
                let mut x = a;
                x.sub_assign(&b);
                eq("sub_assign", x, &dif, &c)?;
                let mut x = a;
                x.double_assign();
                eq("double_assign", x, &dbl, &c)?;
                let mut x = a;
                x.neg_assign();
                eq("neg_assign", x, &neg, &c)?;
                if !v(&a).is_zero() {
                    eq("neg_unchecked", unsafe { a.neg_unchecked() }, &neg, &c)?;
                    let mut x = a;
                    unsafe { x.neg_assign_unchecked() };
                    eq("neg_assign_unchecked", x, &neg, &c)?;
                }
                Ok(!v(&b).is_zero())
            }
            pub fn product<F: FiniteField<$n>>(s: &mut Src) -> R {
                let m = nat(&F::MODULUS);
                let a = elem::<F>(s);
                let b = if s.below(4) == 0 { a } else { elem::<F>(s) };
                let d = s.u64();
                let c = || format!("({}, {}, {d:#x})", v(&a).show(), v(&b).show());
                let p = v(&a).mul(&v(&b)).rem(&m);
                let q = v(&a).mul(&v(&a)).rem(&m);
                let pd = v(&a).mul(&Nat::from_u64(d)).rem(&m);
                eq("mul", a.mul(&b), &p, &c)?;
                eq("sqr", a.sqr(), &q, &c)?;
                eq("mul_digit", a.mul_digit(d), &pd, &c)?;
                let mut x = a;
                x.mul_assign(&b);
                eq("mul_assign", x, &p, &c)?;
                let mut x = a;
                x.sqr_assign();
                eq("sqr_assign", x, &q, &c)?;
                let mut x = a;
                x.mul_digit_assign(d);
                eq("mul_digit_assign", x, &pd, &c)?;
                Ok(!p.is_zero())
            }
            pub fn construct<F: FiniteField<$n>>(s: &mut Src) -> R {
                let m = nat(&F::MODULUS);
                let d = any::<F>(s);
                let r = nat(&d).rem(&m);
                let c = || nat(&d).show();
                eq("new", FieldElement::<$n, F>::new(d), &r, &c)?;
                let ok = nat(&d) == r;
                match FieldElement::<$n, F>::try_new(d) {
                    Some(x) => {
                        check!(ok, "try_new accepted {} mod {}", c(), m.show());
                        eq("try_new", x, &r, &c)?;
                        check!(x.into_inner() == d && x.count_digits() == d.count_digits(), "into_inner {}", c());
                    }
                    None => check!(!ok, "try_new rejected {} mod {}", c(), m.show()),
                }
                check!(FieldElement::<$n, F>::try_from(d).is_ok() == ok, "try_from {} mod {}", c(), m.show());
                Ok(!ok)
            }
            pub fn convert<F: FiniteField<$n>, G: FiniteField<$n>>(s: &mut Src) -> R {
                let a = elem::<F>(s);
                let c = || v(&a).show();
                eq("convert", a.convert::<G>(), &v(&a).rem(&nat(&G::MODULUS)), &c)?;
                Ok(true)
            }
            pub fn inverse<F: FiniteField<$n>>(s: &mut Src) -> R {
                let m = nat(&F::MODULUS);
                let a = elem::<F>(s);
                if v(&a).is_zero() {
                    return Ok(false);
                }
                let i = a.inverse();
                check!(v(&i).cmp(&m).is_lt(), "inverse of {} mod {} is not reduced: {}", v(&a).show(), m.show(), v(&i).show());
                check!(v(&i).mul(&v(&a)).rem(&m) == Nat::one(), "inverse of {} mod {} = {}", v(&a).show(), m.show(), v(&i).show());
                let b = elem::<F>(s);
                let q = b.div(&a);
                check!(v(&q).cmp(&m).is_lt() && v(&q).mul(&v(&a)).rem(&m) == v(&b), "div {} by {} mod {} = {}", v(&b).show(), v(&a).show(), m.show(), v(&q).show());
                Ok(true)
            }
        }
    };
}
field_cases!(n3, 3);
field_cases!(n4, 4);
macro_rules! each {
    ($f:ident) => {
        fn $f(s: &mut Src) -> R {
            match s.below(10) {
                0 => n3::$f::<P192>(s),
                1 => n3::$f::<Poly>(s),
                2 => n3::$f::<Small3>(s),
                3 => n4::$f::<Small4>(s),
                4 => n4::$f::<C25519>(s),
                5 => n4::$f::<M128>(s),
                6 => n4::$f::<K256>(s),
                7 => n4::$f::<Order>(s),
                _ => n4::$f::<Secp256r1>(s),
            }
        }
    };
}
each!(linear);
each!(product);
each!(construct);
each!(inverse);
fn convert(s: &mut Src) -> R {
    match s.below(4) {
        0 => n4::convert::<Secp256r1, Order>(s),
        1 => n4::convert::<Order, Secp256r1>(s),
        2 => n4::convert::<K256, Small4>(s),
        _ => n3::convert::<P192, Poly>(s),
    }
}
pub fn f01() -> Vec<Case> {
    vec![case!(linear), case!(product), case!(construct), case!(convert)]
}
pub fn f02() -> Vec<Case> {
    vec![case!(inverse)]
}
