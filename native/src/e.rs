use crylib::big_int::UBigInt;
use crylib::ec::ecdsa::{sign, verify_signature, Signature};
use crylib::ec::{AffinePoint, EllipticCurve, ProjectivePoint, Secp256r1};
use crylib::finite_field::FieldElement;
use std::cell::Cell;
use vsrc::p256::{self, Aff, G, N, P, U};
use vsrc::{case, check, Case, Src};

type R = Result<bool, String>;
type Order = <Secp256r1 as EllipticCurve>::Order;
type Fp = FieldElement<4, Secp256r1>;
type Fn_ = FieldElement<4, Order>;
type Pt = ProjectivePoint<Secp256r1>;

fn fp(x: &U) -> Fp {
    Fp::try_new(UBigInt(*x)).expect("reduced")
}
fn fnn(x: &U) -> Fn_ {
    Fn_::try_new(UBigInt(*x)).expect("reduced")
}
fn hx(x: &U) -> String {
    vsrc::hex(&p256::to_be(x))
}
fn show(a: &Aff) -> String {
    match a {
        None => "inf".into(),
        Some((x, y)) => format!("({}, {})", hx(x), hx(y)),
    }
}
/// an element of F_p that is often at a boundary, not zero
fn nonzero(s: &mut Src) -> U {
    let mut x = p256::redm(&s.digits::<4>(), &P);
    if x == [0; 4] {
        x = [1, 0, 0, 0];
    }
    x
}
pub fn scalar(s: &mut Src) -> U {
    match s.below(6) {
        0 => [s.below(20), 0, 0, 0],
        1 => p256::subm(&[0; 4], &[s.below(20), 0, 0, 0], &N),
        2 => {
            let mut d = [0; 4];
            let b = s.below(255);
            d[(b / 64) as usize] = 1 << (b % 64);
            d
        }
        _ => p256::redm(&s.digits::<4>(), &N),
    }
}
/// the representation of `a` with denominator `z`
fn proj(a: &Aff, z: &U) -> Pt {
    match a {
        None => unsafe { Pt::new_unchecked(fp(&[0; 4]), fp(z), fp(&[0; 4])) },
        Some((x, y)) => unsafe { Pt::new_unchecked(fp(&p256::mulm(x, z, &P)), fp(&p256::mulm(y, z, &P)), fp(z)) },
    }
}
fn aff(p: &Pt) -> Aff {
    let inf = p.is_infinity();
    let a = (*p).as_affine();
    assert_eq!(inf, a.is_none());
    a.map(|a| (a.x().into_inner().0, a.y().into_inner().0))
}
fn canonical(what: &str, a: &Aff) -> Result<(), String> {
    if let Some((x, y)) = a {
        check!(p256::cmp(x, &P).is_lt() && p256::cmp(y, &P).is_lt(), "{what}: coordinates are not reduced: {}", show(a));
        check!(p256::on_curve(x, y), "{what}: not on the curve: {}", show(a));
    }
    Ok(())
}
/// a point chosen by its x coordinate: zero, small, or made of boundary digits
fn special_point(s: &mut Src) -> Aff {
    let mut x = match s.below(4) {
        0 => [0; 4],
        1 => [s.below(30), 0, 0, 0],
        2 => p256::subm(&[0; 4], &[1 + s.below(30), 0, 0, 0], &P),
        _ => p256::redm(&s.digits::<4>(), &P),
    };
    loop {
        if let Some((x, y)) = p256::lift(&x) {
            return Some((x, if s.bool() { y } else { p256::subm(&[0; 4], &y, &P) }));
        }
        x = p256::addm(&x, &[1, 0, 0, 0], &P);
    }
}
fn small_point(s: &mut Src) -> Aff {
    // small multiples make coincidences likely
    match s.below(5) {
        4 => special_point(s),
        0 => None,
        1 => p256::mul(&[s.below(4), 0, 0, 0], &G),
        2 => p256::mul(&p256::subm(&[0; 4], &[s.below(4), 0, 0, 0], &N), &G),
        _ => {
            let k = scalar(s);
            p256::mul(&k, &G)
        }
    }
}
fn neg(a: &Aff) -> Aff {
    a.as_ref().map(|(x, y)| (*x, p256::subm(&[0; 4], y, &P)))
}
fn group(s: &mut Src) -> R {
    let a = small_point(s);
    let b = match s.below(4) {
        0 => a.clone(),
        1 => neg(&a),
        _ => small_point(s),
    };
    let (za, zb) = (nonzero(s), nonzero(s));
    let (pa, pb) = (proj(&a, &za), proj(&b, &zb));
    let c = || format!("{} [z={}], {} [z={}]", show(&a), hx(&za), show(&b), hx(&zb));
    let want = p256::add(&a, &b);
    let got = aff(&pa.add(&pb));
    canonical("add", &got)?;
    check!(got == want, "add {} = {} want {}", c(), show(&got), show(&want));
    let mut x = pa;
    x.add_assign(&pb);
    check!(aff(&x) == want, "add_assign {} = {} want {}", c(), show(&aff(&x)), show(&want));
    let dbl = p256::add(&a, &a);
    let got = aff(&pa.double());
    canonical("double", &got)?;
    check!(got == dbl, "double {} = {} want {}", c(), show(&got), show(&dbl));
    let mut x = pa;
    x.double_assign();
    check!(aff(&x) == dbl, "double_assign {}", c());
    let got = aff(&pa.neg());
    check!(got == neg(&a), "neg {} = {}", c(), show(&got));
    let mut x = pa;
    x.neg_assign();
    check!(aff(&x) == neg(&a), "neg_assign {}", c());
    if a.is_some() && b.is_some() {
        check!((pa == pb) == (a == b), "eq {}", c());
        if a != b {
            check!(aff(&pa.add_fast(&pb)) == want, "add_fast {}", c());
            let mut x = pa;
            x.add_assign_fast(&pb);
            check!(aff(&x) == want, "add_assign_fast {}", c());
        }
    }
    Ok(a.is_some() && b.is_some())
}
fn affine(s: &mut Src) -> R {
    let (Some(a), Some(b)) = (small_point(s), small_point(s)) else { return Ok(false) };
    let mk = |p: &(U, U)| AffinePoint::<Secp256r1>::new(fp(&p.0), fp(&p.1));
    let (Some(pa), Some(pb)) = (mk(&a), mk(&b)) else { return Err(format!("AffinePoint::new rejects {}", show(&Some(a)))) };
    let un = |p: AffinePoint<Secp256r1>| Some((p.x_ref().into_inner().0, p.y_ref().into_inner().0));
    if a.0 != b.0 {
        let w = p256::add(&Some(a), &Some(b));
        check!(un(pa.add(&pb)) == w, "affine add {} {}", show(&Some(a)), show(&Some(b)));
    }
    check!(un(pa.double()) == p256::add(&Some(a), &Some(a)), "affine double {}", show(&Some(a)));
    check!(un(pa.neg()) == neg(&Some(a)), "affine neg {}", show(&Some(a)));
    check!(aff(&pa.as_projective()) == Some(a), "as_projective {}", show(&Some(a)));
    check!(un(pa) == Some(a) && (pa.x().into_inner().0, pa.y().into_inner().0) == a, "accessors");
    Ok(true)
}
pub fn e01() -> Vec<Case> {
    vec![case!(group), case!(affine)]
}

fn membership(s: &mut Src) -> R {
    // near-miss points: one coordinate changed
    let (mut x, mut y) = small_point(s).unwrap_or((p256::GX, p256::GY));
    match s.below(7) {
        // `y` squared differs from the right side of the equation in one digit, or by little
        k @ (4 | 5) => {
            let (lhs, i) = (p256::mulm(&y, &y, &P), s.below(4) as usize);
            for _ in 0..20 {
                let mut r = lhs;
                if k == 4 {
                    r[i] ^= if s.bool() { s.u64() } else { 1 << s.below(64) };
                } else {
                    r = p256::addm(&r, &[s.below(40), 0, 0, 0], &P);
                }
                if p256::cmp(&r, &P).is_ge() {
                    continue;
                }
                let t = p256::sqrt(&r);
                if p256::mulm(&t, &t, &P) == r {
                    y = t;
                    break;
                }
            }
        }
        0 => x = p256::redm(&s.digits::<4>(), &P),
        1 => y = p256::redm(&s.digits::<4>(), &P),
        2 => y = p256::addm(&y, &[1 + s.below(3), 0, 0, 0], &P),
        3 => x = p256::subm(&[0; 4], &x, &P),
        _ => (),
    }
    let want = p256::on_curve(&x, &y);
    check!(AffinePoint::<Secp256r1>::is_on_curve(&fp(&x), &fp(&y)) == want, "is_on_curve({}, {}) is not {want}", hx(&x), hx(&y));
    check!(AffinePoint::<Secp256r1>::new(fp(&x), fp(&y)).is_some() == want, "AffinePoint::new({}, {}) is_some is not {want}", hx(&x), hx(&y));
    Ok(true)
}
fn scalar_mul(s: &mut Src) -> R {
    let k = scalar(s);
    let a = if s.bool() { G } else { small_point(s) };
    let z = nonzero(s);
    let p = proj(&a, &z);
    let want = p256::mul(&k, &a);
    let got = aff(&p.mul_scalar(&fnn(&k)));
    check!(got == want, "mul_scalar {} * {} [z={}] = {} want {}", hx(&k), show(&a), hx(&z), show(&got), show(&want));
    if s.below(3) == 0 {
        let mut x = p;
        x.mul_scalar_assign(&fnn(&k));
        check!(aff(&x) == want, "mul_scalar_assign {} * {}", hx(&k), show(&a));
    }
    Ok(want.is_some())
}
fn constants(_: &mut Src) -> R {
    check!(aff(&Secp256r1::BASE_POINT) == G, "BASE_POINT");
    check!(Secp256r1::B.into_inner().0 == p256::B, "B");
    check!(p256::addm(&Secp256r1::A.into_inner().0, &[3, 0, 0, 0], &P) == [0; 4], "A");
    check!(<Secp256r1 as crylib::finite_field::FiniteField<4>>::MODULUS.0 == P, "field modulus");
    check!(<Order as crylib::finite_field::FiniteField<4>>::MODULUS.0 == N, "order");
    check!(Pt::POINT_AT_INF.is_infinity(), "POINT_AT_INF");
    Ok(true)
}
pub fn e02() -> Vec<Case> {
    vec![case!(scalar_mul), case!(membership), case!(constants, 1)]
}

fn verify(s: &mut Src) -> R {
    let mut d = scalar(s);
    if d == [0; 4] {
        d = [1, 0, 0, 0];
    }
    let mut q = p256::mul(&d, &G);
    let mut z: [u8; 32] = s.array();
    let mut k = scalar(s);
    if k == [0; 4] {
        k = [2, 0, 0, 0];
    }
    if s.below(8) == 0 {
        z = p256::to_be(&N);
        z[31] = z[31].wrapping_add(s.below(2) as u8);
    }
    let Some((mut r, mut sg)) = p256::ecdsa_sign(&d, &z, &k) else { return Ok(false) };
    match s.below(9) {
        0 => r = p256::redm(&s.digits::<4>(), &N),
        1 => sg = p256::redm(&s.digits::<4>(), &N),
        2 => r = [0; 4],
        3 => sg = [0; 4],
        4 => sg = p256::subm(&[0; 4], &sg, &N),
        5 => z[s.below(32) as usize] ^= 1 << s.below(8),
        6 => q = p256::mul(&p256::redm(&s.digits::<4>(), &N), &G),
        _ => (),
    }
    if q.is_none() {
        return Ok(false);
    }
    let want = p256::ecdsa_verify(&q, &z, &r, &sg);
    let zz = nonzero(s);
    let msg = s.bytes(5);
    let m2 = msg.clone();
    let got = verify_signature::<Secp256r1>(&msg, &proj(&q, &zz), |m| { assert_eq!(m, m2); z }, &Signature::new(fnn(&r), fnn(&sg))).is_ok();
    check!(got == want, "verify q={} hash={} r={} s={}: {got}, want {want}", show(&q), vsrc::hex(&z), hx(&r), hx(&sg));
    Ok(true)
}
fn signs(s: &mut Src) -> R {
    let mut d = scalar(s);
    if d == [0; 4] {
        d = [1, 0, 0, 0];
    }
    let z: [u8; 32] = s.array();
    let mut ks: Vec<U> = (0..3).map(|_| scalar(s)).collect();
    if s.below(3) == 0 {
        ks[0] = [0; 4];
    }
    if s.below(3) == 0 {
        // a nonce for which `s` is zero: r*d = -z, only possible by choosing the key
        let k = ks[0];
        if k != [0; 4] {
            if let Some((x, _)) = p256::mul(&k, &G) {
                let r = p256::redm(&x, &N);
                let zn = p256::redm(&p256::from_be(&z), &N);
                if r != [0; 4] && zn != [0; 4] {
                    d = p256::mulm(&p256::subm(&[0; 4], &zn, &N), &p256::invm(&r, &N), &N);
                }
            }
        }
    }
    let want = ks.iter().chain([[7, 0, 0, 0]].iter()).find_map(|k| p256::ecdsa_sign(&d, &z, k));
    let Some((r, sg)) = want else { return Ok(false) };
    let i = Cell::new(0);
    let all: Vec<U> = ks.iter().cloned().chain([[7, 0, 0, 0]]).collect();
    let got = sign::<Secp256r1>(b"m", &fnn(&d), |_| z, || {
        let j = i.get();
        i.set(j + 1);
        fnn(&all[j])
    });
    check!(got == Signature::new(fnn(&r), fnn(&sg)), "sign d={} hash={} nonces={:x?}: {got:?}", hx(&d), vsrc::hex(&z), all);
    Ok(true)
}
pub fn e03() -> Vec<Case> {
    vec![case!(verify), case!(signs)]
}
