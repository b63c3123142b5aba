use crylib::big_int::{BigInt, UBigInt};
use std::cmp::Ordering;
use vsrc::nat::{Int, Nat};
use vsrc::{case, check, Case, Src};

type R = Result<bool, String>;

pub fn nat<const N: usize>(x: &UBigInt<N>) -> Nat {
    Nat::from_digits(&x.0)
}
fn big<const N: usize>(s: &mut Src) -> UBigInt<N> {
    UBigInt(s.digits::<N>())
}
/// a second operand that is often related to the first
fn near<const N: usize>(s: &mut Src, a: &UBigInt<N>) -> UBigInt<N> {
    let mut b = big::<N>(s);
    match s.below(5) {
        0 => b = *a,
        1 => {
            b = *a;
            let i = s.below(N as u64) as usize;
            b.0[i] = s.u64();
        }
        2 => {
            // the complement
            for i in 0..N {
                b.0[i] = !a.0[i];
            }
            b.0[0] = b.0[0].wrapping_add(s.below(3));
        }
        _ => (),
    }
    b
}
macro_rules! widths {
    ($s:ident, $f:ident) => {
        match $s.below(9) {
            0 => $f::<1>($s),
            1 => $f::<2>($s),
            2 => $f::<3>($s),
            3 => $f::<5>($s),
            4 => $f::<6>($s),
            5 => $f::<7>($s),
            6 => $f::<8>($s),
            7 => $f::<9>($s),
            _ => $f::<4>($s),
        }
    };
}
fn wrap<const N: usize>() -> Nat {
    Nat::pow2(64 * N)
}
fn eq<const N: usize>(what: &str, got: &UBigInt<N>, want: &Nat, ctx: &dyn Fn() -> String) -> Result<(), String> {
    check!(nat(got) == *want, "{what}<{N}>: got {} want {} for {}", nat(got).show(), want.show(), ctx());
    Ok(())
}

fn add_g<const N: usize>(s: &mut Src) -> R {
    let a = big::<N>(s);
    let b = near(s, &a);
    let c = || format!("{} , {}", nat(&a).show(), nat(&b).show());
    let sum = nat(&a).add(&nat(&b));
    let low = sum.low(64 * N);
    let over = sum.cmp(&wrap::<N>()) != Ordering::Less;
    eq("add", &a.add(&b), &low, &c)?;
    let mut x = a;
    x.add_assign(&b);
    eq("add_assign", &x, &low, &c)?;
    let (y, o) = a.overflowing_add(&b);
    eq("overflowing_add", &y, &low, &c)?;
    check!(o == over, "overflowing_add<{N}>: overflow {o} for {}", c());
    let mut z = a;
    let o = z.overflowing_add_assign(&b);
    eq("overflowing_add_assign", &z, &low, &c)?;
    check!(o == over, "overflowing_add_assign<{N}>: overflow {o} for {}", c());
    let d = nat(&a).add(&nat(&a)).low(64 * N);
    eq("double", &a.double(), &d, &c)?;
    let mut x = a;
    x.double_assign();
    eq("double_assign", &x, &d, &c)?;
    Ok(over || !nat(&b).is_zero())
}
fn add(s: &mut Src) -> R {
    widths!(s, add_g)
}
fn sub_g<const N: usize>(s: &mut Src) -> R {
    let a = big::<N>(s);
    let b = near(s, &a);
    let c = || format!("{} , {}", nat(&a).show(), nat(&b).show());
    let under = nat(&a).cmp(&nat(&b)) == Ordering::Less;
    let want = nat(&a).add(&wrap::<N>()).sub(&nat(&b)).low(64 * N);
    eq("sub", &a.sub(&b), &want, &c)?;
    let mut x = a;
    x.sub_assign(&b);
    eq("sub_assign", &x, &want, &c)?;
    let (y, o) = a.overflowing_sub(&b);
    eq("overflowing_sub", &y, &want, &c)?;
    check!(o == under, "overflowing_sub<{N}>: {o} for {}", c());
    let mut z = a;
    let o = z.overflowing_sub_assign(&b);
    eq("overflowing_sub_assign", &z, &want, &c)?;
    check!(o == under, "overflowing_sub_assign<{N}>: {o} for {}", c());
    Ok(!nat(&b).is_zero())
}
fn sub(s: &mut Src) -> R {
    widths!(s, sub_g)
}
fn cmp_g<const N: usize>(s: &mut Src) -> R {
    let a = big::<N>(s);
    let b = near(s, &a);
    let o = nat(&a).cmp(&nat(&b));
    let c = || format!("{} , {}", nat(&a).show(), nat(&b).show());
    check!(a.cmp(&b) == o, "cmp<{N}> {}", c());
    check!(a.partial_cmp(&b) == Some(o), "partial_cmp<{N}> {}", c());
    check!((a < b) == (o == Ordering::Less), "lt<{N}> {}", c());
    check!((a > b) == (o == Ordering::Greater), "gt<{N}> {}", c());
    check!((a <= b) == (o != Ordering::Greater), "le<{N}> {}", c());
    check!((a >= b) == (o != Ordering::Less), "ge<{N}> {}", c());
    check!((a == b) == (o == Ordering::Equal), "eq<{N}> {}", c());
    Ok(true)
}
fn cmp(s: &mut Src) -> R {
    widths!(s, cmp_g)
}
fn digit_g<const N: usize>(s: &mut Src) -> R {
    let a = big::<N>(s);
    let d = s.u64();
    let c = || format!("{} * {d:#x}", nat(&a).show());
    let p = nat(&a).mul(&Nat::from_u64(d));
    let low = p.low(64 * N);
    let hi = p.shr(64 * N);
    eq("mul_digit", &a.mul_digit(d), &low, &c)?;
    let mut x = a;
    x.mul_digit_assign(d);
    eq("mul_digit_assign", &x, &low, &c)?;
    let (x, o) = a.overflowing_mul_digit(d);
    eq("overflowing_mul_digit", &x, &low, &c)?;
    check!(Nat::from_u64(o) == hi, "overflowing_mul_digit<{N}>: high {o:#x} for {}", c());
    let mut x = a;
    let o = x.overflowing_mul_digit_assign(d);
    eq("overflowing_mul_digit_assign", &x, &low, &c)?;
    check!(Nat::from_u64(o) == hi, "overflowing_mul_digit_assign<{N}>: high {o:#x} for {}", c());
    Ok(d != 0)
}
fn mul_digit(s: &mut Src) -> R {
    widths!(s, digit_g)
}
fn shift_g<const N: usize>(s: &mut Src) -> R {
    let a = big::<N>(s);
    let k = match s.below(4) {
        0 => s.pick(&[0u64, 1, 63, 64, 65, 127, 128, u64::MAX]),
        1 => s.raw(),
        _ => s.below(64),
    };
    let m = (k % 64) as usize;
    let c = || format!("{} by {k}", nat(&a).show());
    let l = nat(&a).shl(m).low(64 * N);
    let r = nat(&a).shr(m);
    eq("shift_left", &a.shift_left(k), &l, &c)?;
    eq("shift_right", &a.shift_right(k), &r, &c)?;
    let mut x = a;
    x.shift_left_assign(k);
    eq("shift_left_assign", &x, &l, &c)?;
    let mut x = a;
    x.shift_right_assign(k);
    eq("shift_right_assign", &x, &r, &c)?;
    Ok(m != 0)
}
fn shift(s: &mut Src) -> R {
    widths!(s, shift_g)
}
fn bitops_g<const N: usize>(s: &mut Src) -> R {
    let a = big::<N>(s);
    let b = near(s, &a);
    macro_rules! op {
        ($f:ident, $fa:ident, $e:expr) => {{
            let e: fn(u64, u64) -> u64 = $e;
            let x = a.$f(&b);
            let mut y = a;
            y.$fa(&b);
            for i in 0..N {
                check!(x.0[i] == e(a.0[i], b.0[i]), "{}<{N}> digit {i} of {:x?} {:x?}", stringify!($f), a.0, b.0);
                check!(y.0[i] == e(a.0[i], b.0[i]), "{}<{N}> digit {i} of {:x?} {:x?}", stringify!($fa), a.0, b.0);
            }
        }};
    }
    op!(and, and_assign, |x, y| x & y);
    op!(or, or_assign, |x, y| x | y);
    op!(xor, xor_assign, |x, y| x ^ y);
    op!(nand, nand_assign, |x, y| !(x & y));
    op!(nor, nor_assign, |x, y| !(x | y));
    op!(xnor, xnor_assign, |x, y| !(x ^ y));
    let x = a.not();
    let mut y = a;
    y.not_assign();
    let t = a.and_bool(true);
    let f = a.and_bool(false);
    let (mut t2, mut f2) = (a, a);
    t2.and_bool_assign(true);
    f2.and_bool_assign(false);
    for i in 0..N {
        check!(x.0[i] == !a.0[i] && y.0[i] == !a.0[i], "not<{N}> {:x?}", a.0);
    }
    check!(t == a && t2 == a, "and_bool(true)<{N}> {:x?}", a.0);
    check!(nat(&f).is_zero() && nat(&f2).is_zero(), "and_bool(false)<{N}> {:x?}", a.0);
    Ok(true)
}
fn bitops(s: &mut Src) -> R {
    widths!(s, bitops_g)
}
fn bits_g<const N: usize>(s: &mut Src) -> R {
    let mut a = big::<N>(s);
    if s.below(4) == 0 {
        // a single significant bit
        a = UBigInt::ZERO;
        let b = s.below(64 * N as u64);
        a.0[(b / 64) as usize] = 1 << (b % 64);
    }
    let n = nat(&a);
    let c = || n.show();
    check!(a.count_bits() == n.bits(), "count_bits<{N}>({}) = {}", c(), a.count_bits());
    let dg = (n.bits() + 63) / 64;
    check!(a.count_digits() == dg, "count_digits<{N}>({}) = {}", c(), a.count_digits());
    check!(a.count_digits_fast() == dg, "count_digits_fast<{N}>({}) = {}", c(), a.count_digits_fast());
    check!(a.len() == N, "len<{N}>");
    let i = s.below(64 * N as u64) as usize;
    check!(a.get_bit(i) == n.bit(i), "get_bit<{N}>({}, {i})", c());
    let v = s.bool();
    let mut x = a;
    x.set_bit(i, v);
    let base = if n.bit(i) { n.sub(&Nat::pow2(i)) } else { n.clone() };
    let want = if v { base.add(&Nat::pow2(i)) } else { base };
    check!(nat(&x) == want, "set_bit<{N}>({}, {i}, {v}) = {}", c(), nat(&x).show());
    let k = s.below(8 * N as u64) as usize;
    let v = s.u8();
    let mut x = a;
    x.set_byte(k, v);
    let mut le = n.to_le(8 * N);
    le[k] = v;
    check!(nat(&x) == Nat::from_le(&le), "set_byte<{N}>({}, {k}, {v:#x}) = {}", c(), nat(&x).show());
    if !n.is_zero() {
        let mut x = a;
        let sh = x.left_align();
        check!(sh < 64 && nat(&x) == n.shl(sh as usize), "left_align<{N}>({}): shift {sh} result {}", c(), nat(&x).show());
        check!(nat(&x).bits() == dg * 64, "left_align<{N}>({}) leaves the top bit clear", c());
    }
    Ok(!n.is_zero())
}
fn bits(s: &mut Src) -> R {
    widths!(s, bits_g)
}
pub fn a01() -> Vec<Case> {
    vec![case!(add), case!(sub), case!(cmp), case!(mul_digit), case!(shift), case!(bitops), case!(bits)]
}

// ---- A02
macro_rules! muldiv {
    ($mul:ident, $div:ident, $n:literal) => {
        fn $mul(s: &mut Src) -> R {
            let a = big::<$n>(s);
            let b = near(s, &a);
            let want = nat(&a).mul(&nat(&b));
            let got = a.widening_mul(&b);
            check!(nat(&got) == want, "widening_mul<{}>({}, {}) = {}", $n, nat(&a).show(), nat(&b).show(), nat(&got).show());
            let k = s.u64();
            let got = a.widening_shift_left(k);
            let want = nat(&a).shl((k % 64) as usize);
            check!(nat(&got) == want, "widening_shift_left<{}>({}, {k}) = {}", $n, nat(&a).show(), nat(&got).show());
            Ok(!nat(&b).is_zero())
        }
        fn $div(s: &mut Src) -> R {
            let mut a = big::<$n>(s);
            let b = match s.below(4) {
                0 => UBigInt::<$n>::from(s.u64()),
                1 => {
                    let mut b = big::<$n>(s);
                    let k = s.range(1, $n);
                    for i in k..$n {
                        b.0[i] = 0;
                    }
                    b
                }
                2 => {
                    // the numerator is built from quotient and divisor: exercises the estimates
                    let k = s.range(1, $n);
                    let mut b = UBigInt::<$n>::ZERO;
                    for i in 0..k {
                        b.0[i] = s.u64();
                    }
                    let mut q = UBigInt::<$n>::ZERO;
                    for i in 0..($n - k) {
                        q.0[i] = s.u64();
                    }
                    let p = nat(&b).mul(&nat(&q));
                    let off = Nat::from_u64(s.u64());
                    let p = if s.bool() { p.add(&off) } else if p.cmp(&off) == Ordering::Less { p } else { p.sub(&off) };
                    let d = p.low(64 * $n).digits($n);
                    a = UBigInt(d.try_into().unwrap());
                    b
                }
                _ => near(s, &a),
            };
            if nat(&b).is_zero() {
                let r = std::panic::catch_unwind(|| a.div(&b));
                check!(r.is_err(), "div<{}>({}, 0) did not panic", $n, nat(&a).show());
                return Ok(false);
            }
            let (q, r) = a.div(&b);
            let (wq, wr) = nat(&a).divrem(&nat(&b));
            check!(nat(&q) == wq && nat(&r) == wr, "div<{}>({}, {}) = ({}, {}) want ({}, {})", $n,
                nat(&a).show(), nat(&b).show(), nat(&q).show(), nat(&r).show(), wq.show(), wr.show());
            let mut x = a;
            x.div_assign(&b);
            check!(nat(&x) == wq, "div_assign<{}>({}, {})", $n, nat(&a).show(), nat(&b).show());
            Ok(!wq.is_zero())
        }
    };
}
muldiv!(mul2, div2, 2);
muldiv!(mul3, div3, 3);
muldiv!(mul4, div4, 4);
muldiv!(mul5, div5, 5);
muldiv!(mul6, div6, 6);
muldiv!(mul8, div8, 8);
pub fn a02() -> Vec<Case> {
    vec![
        case!(mul2), case!(mul3), case!(mul4), case!(mul5), case!(mul6), case!(mul8),
        case!(div2), case!(div3), case!(div4), case!(div5), case!(div6), case!(div8),
    ]
}

// ---- A03
macro_rules! bytes {
    ($f:ident, $n:literal) => {
        fn $f(s: &mut Src) -> R {
            const L: usize = $n * 8;
            let b: [u8; L] = s.array();
            let be = UBigInt::<$n>::from_be_bytes(b);
            let le = UBigInt::<$n>::from_le_bytes(b);
            check!(nat(&be) == Nat::from_be(&b), "from_be_bytes<{}>({})", $n, vsrc::hex(&b));
            check!(nat(&le) == Nat::from_le(&b), "from_le_bytes<{}>({})", $n, vsrc::hex(&b));
            check!(be.to_be_bytes() == b, "to_be_bytes<{}>(from_be_bytes({}))", $n, vsrc::hex(&b));
            check!(le.to_le_bytes() == b, "to_le_bytes<{}>(from_le_bytes({}))", $n, vsrc::hex(&b));
            let a = big::<$n>(s);
            check!(a.to_be_bytes()[..] == nat(&a).to_be(L)[..], "to_be_bytes<{}>({})", $n, nat(&a).show());
            check!(a.to_le_bytes()[..] == nat(&a).to_le(L)[..], "to_le_bytes<{}>({})", $n, nat(&a).show());
            Ok(true)
        }
    };
}
bytes!(bytes2, 2);
bytes!(bytes3, 3);
bytes!(bytes4, 4);
bytes!(bytes5, 5);
bytes!(bytes6, 6);
bytes!(bytes8, 8);
fn resize_g<const N: usize>(s: &mut Src) -> R {
    let a = big::<N>(s);
    macro_rules! to {
        ($($o:literal)*) => {$(
            let x: UBigInt<$o> = a.resize();
            check!(nat(&x) == nat(&a).low(64 * $o), "resize<{N} to {}>({}) = {}", $o, nat(&a).show(), nat(&x).show());
        )*};
    }
    to!(1 2 3 4 5 6 7 8 9 10);
    Ok(true)
}
fn resize(s: &mut Src) -> R {
    widths!(s, resize_g)
}
fn conv_g<const N: usize>(s: &mut Src) -> R {
    let a = big::<N>(s);
    let d: [u64; N] = a.into();
    check!(d == a.0, "into array");
    check!(UBigInt::<N>::from(d) == a && UBigInt::new(d) == a && *UBigInt::from_ref(&d) == a, "from array");
    let mut d2 = d;
    check!(*UBigInt::from_ref_mut(&mut d2) == a, "from_ref_mut");
    let x = s.u64();
    check!(nat(&UBigInt::<N>::from(x)) == Nat::from_u64(x), "from u64 {x:#x}");
    let l = s.range(0, N + 2);
    let sl: Vec<u64> = (0..l).map(|_| s.u64()).collect();
    match UBigInt::<N>::try_from(&sl[..]) {
        Ok(v) => check!(l == N && v.0[..] == sl[..], "try_from slice of {l} digits gave {:x?}", v.0),
        Err(_) => check!(l != N, "try_from slice of {l} digits failed"),
    }
    let ar: &[u64; N] = a.as_ref();
    check!(*ar == a.0, "as_ref");
    let ub: &UBigInt<N> = d.as_ref();
    check!(*ub == a, "as_ref of array");
    check!(nat(&UBigInt::<N>::ZERO).is_zero() && nat(&UBigInt::<N>::ONE) == Nat::one() && nat(&UBigInt::<N>::MIN).is_zero()
        && nat(&UBigInt::<N>::default()).is_zero() && nat(&UBigInt::<N>::MAX).add(&Nat::one()) == wrap::<N>(), "constants");
    Ok(true)
}
fn conv(s: &mut Src) -> R {
    widths!(s, conv_g)
}
pub fn a03() -> Vec<Case> {
    vec![case!(bytes2), case!(bytes3), case!(bytes4), case!(bytes5), case!(bytes6), case!(bytes8), case!(resize), case!(conv)]
}

// ---- A04
fn int<const N: usize>(x: &BigInt<N>) -> Int {
    if x.is_negative() {
        // x = -1 - not(x)
        let n = x.not();
        let m = UBigInt::<N>::try_from(n).unwrap();
        Int::new(true, nat(&m).add(&Nat::one()))
    } else {
        Int::new(false, nat(&UBigInt::<N>::try_from(*x).unwrap()))
    }
}
/// any value except `MIN`
fn sint<const N: usize>(s: &mut Src) -> BigInt<N> {
    let mut m = big::<N>(s);
    if s.below(8) == 0 {
        m = UBigInt::from(s.below(3));
    }
    let x: BigInt<N> = m.into();
    if s.bool() && m != UBigInt::<N>::MAX {
        x.not()
    } else {
        x
    }
}
fn snear<const N: usize>(s: &mut Src, a: &BigInt<N>) -> BigInt<N> {
    match s.below(6) {
        0 => *a,
        1 if *a != BigInt::MAX => a.not(),
        _ => sint(s),
    }
}
fn reduce<const N: usize>(x: Int) -> Int {
    // N*64+1 bit two's complement
    let m = Nat::pow2(64 * N + 1);
    let half = Nat::pow2(64 * N);
    let r = x.mag.rem(&m);
    let u = if x.neg && !r.is_zero() { m.sub(&r) } else { r };
    if u.cmp(&half) != Ordering::Less {
        Int::new(true, m.sub(&u))
    } else {
        Int::new(false, u)
    }
}
fn s_g<const N: usize>(s: &mut Src) -> R {
    let a = sint::<N>(s);
    let b = snear(s, &a);
    let (ia, ib) = (int(&a), int(&b));
    let c = || format!("<{N}> {} , {}", ia.show(), ib.show());
    macro_rules! ck {
        ($what:expr, $got:expr, $want:expr) => {{
            let g = int(&$got);
            let w = $want;
            check!(g.cmp(&w) == Ordering::Equal, "{} {}: got {} want {}", $what, c(), g.show(), w.show());
        }};
    }
    ck!("add", a.add(&b), reduce::<N>(ia.add(&ib)));
    ck!("sub", a.sub(&b), reduce::<N>(ia.sub(&ib)));
    let mut x = a;
    x.add_assign(&b);
    ck!("add_assign", x, reduce::<N>(ia.add(&ib)));
    let mut x = a;
    x.sub_assign(&b);
    ck!("sub_assign", x, reduce::<N>(ia.sub(&ib)));
    ck!("neg", a.neg(), ia.neg());
    let mut x = a;
    x.neg_assign();
    ck!("neg_assign", x, ia.neg());
    ck!("abs", a.abs(), Int::new(false, ia.mag.clone()));
    let mut x = a;
    x.abs_assign();
    ck!("abs_assign", x, Int::new(false, ia.mag.clone()));
    let o = ia.cmp(&ib);
    check!(a.cmp(&b) == o && a.partial_cmp(&b) == Some(o), "cmp {}", c());
    check!((a < b) == (o == Ordering::Less) && (a > b) == (o == Ordering::Greater), "lt/gt {}", c());
    check!((a <= b) == (o != Ordering::Greater) && (a >= b) == (o != Ordering::Less), "le/ge {}", c());
    check!((a == b) == (o == Ordering::Equal), "eq {}", c());
    let zero = ia.mag.is_zero();
    check!(a.is_negative() == (ia.neg && !zero), "is_negative {}", c());
    check!(a.is_positive() == (!ia.neg && !zero), "is_positive {}", c());
    check!(UBigInt::<N>::try_from(a).is_err() == a.is_negative(), "try_from {}", c());
    check!(BigInt::<N>::MIN.neg() == BigInt::MIN && BigInt::<N>::MIN.abs() == BigInt::ZERO, "documented MIN quirks");
    check!(int(&BigInt::<N>::NEG_ONE).cmp(&Int::new(true, Nat::one())) == Ordering::Equal, "NEG_ONE");
    Ok(!zero)
}
fn signed(s: &mut Src) -> R {
    widths!(s, s_g)
}
macro_rules! smul {
    ($f:ident, $n:literal) => {
        fn $f(s: &mut Src) -> R {
            let a = sint::<$n>(s);
            let b = snear(s, &a);
            let (ia, ib) = (int(&a), int(&b));
            let p = int(&a.widening_mul(&b));
            check!(p.cmp(&ia.mul(&ib)) == Ordering::Equal, "widening_mul<{}>({}, {}) = {}", $n, ia.show(), ib.show(), p.show());
            if ib.mag.is_zero() {
                return Ok(false);
            }
            let (q, r) = a.div(&b);
            let (wq, wr) = ia.mag.divrem(&ib.mag);
            let (wq, wr) = (Int::new(ia.neg != ib.neg, wq), Int::new(ia.neg, wr));
            check!(int(&q).cmp(&wq) == Ordering::Equal && int(&r).cmp(&wr) == Ordering::Equal,
                "div<{}>({}, {}) = ({}, {}) want ({}, {})", $n, ia.show(), ib.show(), int(&q).show(), int(&r).show(), wq.show(), wr.show());
            let mut x = a;
            x.div_assign(&b);
            check!(int(&x).cmp(&wq) == Ordering::Equal, "div_assign<{}>({}, {})", $n, ia.show(), ib.show());
            Ok(true)
        }
    };
}
smul!(smul3, 3);
smul!(smul4, 4);
smul!(smul8, 8);
pub fn a04() -> Vec<Case> {
    vec![case!(signed), case!(smul3), case!(smul4), case!(smul8)]
}
