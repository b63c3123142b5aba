//! P-256 from its definition (SP 800-186), with plain modular arithmetic and Jacobian coordinates.
use crate::nat::Nat;
use std::cmp::Ordering;

pub type U = [u64; 4];

pub const P: U = [0xffffffffffffffff, 0x00000000ffffffff, 0, 0xffffffff00000001];
pub const N: U = [0xf3b9cac2fc632551, 0xbce6faada7179e84, 0xffffffffffffffff, 0xffffffff00000000];
pub const B: U = [0x3bce3c3e27d2604b, 0x651d06b0cc53b0f6, 0xb3ebbd55769886bc, 0x5ac635d8aa3a93e7];
pub const GX: U = [0xf4a13945d898c296, 0x77037d812deb33a0, 0xf8bce6e563a440f2, 0x6b17d1f2e12c4247];
pub const GY: U = [0xcbb6406837bf51f5, 0x2bce33576b315ece, 0x8ee7eb4a7c0f9e16, 0x4fe342e2fe1a7f9b];
pub const ZERO: U = [0; 4];
pub const ONE: U = [1, 0, 0, 0];

pub fn cmp(a: &U, b: &U) -> Ordering {
    a.iter().rev().cmp(b.iter().rev())
}
fn add_raw(a: &U, b: &U) -> (U, bool) {
    let mut r = ZERO;
    let mut c = 0u128;
    for i in 0..4 {
        c += a[i] as u128 + b[i] as u128;
        r[i] = c as u64;
        c >>= 64;
    }
    (r, c != 0)
}
fn sub_raw(a: &U, b: &U) -> U {
    let mut r = ZERO;
    let mut bo = 0i128;
    for i in 0..4 {
        let d = a[i] as i128 - b[i] as i128 - bo;
        r[i] = d as u64;
        bo = (d < 0) as i128;
    }
    r
}
pub fn addm(a: &U, b: &U, m: &U) -> U {
    let (r, c) = add_raw(a, b);
    if c || cmp(&r, m) != Ordering::Less {
        sub_raw(&r, m)
    } else {
        r
    }
}
pub fn negm(a: &U, m: &U) -> U {
    if *a == ZERO { ZERO } else { sub_raw(m, a) }
}
pub fn subm(a: &U, b: &U, m: &U) -> U {
    addm(a, &negm(b, m), m)
}
pub fn mulm(a: &U, b: &U, m: &U) -> U {
    let mut r = ZERO;
    for i in (0..256).rev() {
        r = addm(&r, &r, m);
        if a[i / 64] >> (i % 64) & 1 == 1 {
            r = addm(&r, b, m);
        }
    }
    r
}
pub fn powm(a: &U, e: &U, m: &U) -> U {
    let mut r = ONE;
    for i in (0..256).rev() {
        r = mulm(&r, &r, m);
        if e[i / 64] >> (i % 64) & 1 == 1 {
            r = mulm(&r, a, m);
        }
    }
    r
}
/// m must be prime
pub fn invm(a: &U, m: &U) -> U {
    powm(a, &sub_raw(m, &[2, 0, 0, 0]), m)
}
pub fn redm(a: &U, m: &U) -> U {
    Nat::from_digits(a).rem(&Nat::from_digits(m)).digits(4).try_into().unwrap()
}
pub fn from_be(b: &[u8]) -> U {
    Nat::from_be(b).digits(4).try_into().unwrap()
}
pub fn to_be(a: &U) -> [u8; 32] {
    Nat::from_digits(a).to_be(32).try_into().unwrap()
}

pub type Aff = Option<(U, U)>;

pub fn on_curve(x: &U, y: &U) -> bool {
    let m = |a: &U, b: &U| mulm(a, b, &P);
    let rhs = addm(&subm(&m(&m(x, x), x), &m(&[3, 0, 0, 0], x), &P), &B, &P);
    m(y, y) == rhs
}

/// points with a small y: (y, x)
pub const SMALL_Y: [(u64, U); 13] = [
    (1, [0x20a9feb2a50bb96c, 0x3cbdd6b47e11a9de, 0x50f6636209092bc4, 0x9e78d4ef60d05f7]),
    (1, [0x875d877f0069d2c7, 0x6375e8a97b70f611, 0x10db6dd095dbac0d, 0x8d0177ebab9c6e9e]),
    (1, [0x57f879ce5a8a73cc, 0x5fcc40a3067d6010, 0x9e2e2ecd611b282e, 0x6916fac45e568b6b]),
    (4, [0x42f769a182121e22, 0x260626aa5367ec7b, 0xdd0e9275a9d9476d, 0xb06686a59b4e8bbe]),
    (4, [0xf30a7a8707e613ca, 0x860ed577216fd3c8, 0x7cc216b6785c0bfc, 0x7fafb72b9e2f17b8]),
    (4, [0xc9fe1bd77607ce12, 0x53eb03e08b283fbb, 0xa62f56d3ddcaac96, 0xcfe9c22cc6825c8a]),
    (5, [0xb176f692de8de1d7, 0x4cffaf35841022ca, 0xa92738ceb345f84, 0xd7325d7646cd60d8]),
    (6, [0x77d5a7187914a78, 0x979131e28e3dc5b2, 0x731dbdaf97d7ab3f, 0x9b21c2de1da31d68]),
    (7, [0xd7acceaed56ac453, 0xcffa296dc6693e4f, 0x564d94b7e4df51fc, 0xb2ed6eacbc9f7da8]),
    (9, [0xc6a9dc446d35e55a, 0x1adcf7de81a30e34, 0x25ab8acb1a05aaf3, 0x7110468d17744c24]),
    (9, [0xf4145e0390d2f1a, 0x2f22377efa7446fc, 0x77bc599c9ace4d37, 0x7a981e70f7679c80]),
    (9, [0x2a14dddb59bceb8b, 0xb600d0a383e8aacf, 0x62981b984b2c07d5, 0x14579b00f124175c]),
    (11, [0xa16c4effb44956f6, 0x9530f4300e73f9d1, 0x9bf3dbc1b3b17500, 0x6655861894c5d2f4]),
];
/// a square root of `r` if there is one
pub fn sqrt(r: &U) -> U {
    // (p + 1) / 4
    let mut e = [0u64; 4];
    for i in 0..4 {
        let hi = if i < 3 { P[i + 1] } else { 0 };
        e[i] = P[i] >> 2 | hi << 62;
    }
    for d in e.iter_mut() {
        let (v, c) = d.overflowing_add(1);
        *d = v;
        if !c {
            break;
        }
    }
    powm(r, &e, &P)
}
/// a point with the given x coordinate, if there is one (p = 3 mod 4)
pub fn lift(x: &U) -> Aff {
    let x3 = mulm(&mulm(x, x, &P), x, &P);
    let ax = mulm(&[3, 0, 0, 0], x, &P);
    let r = addm(&subm(&x3, &ax, &P), &B, &P);
    let y = sqrt(&r);
    if on_curve(x, &y) { Some((*x, y)) } else { None }
}
/// affine group law with all exceptional cases
pub fn add(a: &Aff, b: &Aff) -> Aff {
    let (Some((x1, y1)), Some((x2, y2))) = (a, b) else {
        return if a.is_some() { *a } else { *b };
    };
    let l = if x1 == x2 {
        if *y1 == negm(y2, &P) {
            return None;
        }
        let n = subm(&mulm(&[3, 0, 0, 0], &mulm(x1, x1, &P), &P), &[3, 0, 0, 0], &P);
        mulm(&n, &invm(&addm(y1, y1, &P), &P), &P)
    } else {
        mulm(&subm(y2, y1, &P), &invm(&subm(x2, x1, &P), &P), &P)
    };
    let x3 = subm(&subm(&mulm(&l, &l, &P), x1, &P), x2, &P);
    let y3 = subm(&mulm(&l, &subm(x1, &x3, &P), &P), y1, &P);
    Some((x3, y3))
}

// Jacobian, for speed
type Jac = (U, U, U);
fn jdbl(p: &Jac) -> Jac {
    let m = |a: &U, b: &U| mulm(a, b, &P);
    let (x, y, z) = p;
    if *z == ZERO {
        return *p;
    }
    let yy = m(y, y);
    let s = m(&[4, 0, 0, 0], &m(x, &yy));
    let zz = m(z, z);
    let mm = subm(&m(&[3, 0, 0, 0], &m(x, x)), &m(&[3, 0, 0, 0], &m(&zz, &zz)), &P);
    let x3 = subm(&m(&mm, &mm), &addm(&s, &s, &P), &P);
    let y3 = subm(&m(&mm, &subm(&s, &x3, &P)), &m(&[8, 0, 0, 0], &m(&yy, &yy)), &P);
    let z3 = m(&addm(y, y, &P), z);
    (x3, y3, z3)
}
fn jadd_aff(p: &Jac, q: &(U, U)) -> Jac {
    let m = |a: &U, b: &U| mulm(a, b, &P);
    let (x1, y1, z1) = p;
    if *z1 == ZERO {
        return (q.0, q.1, ONE);
    }
    let zz = m(z1, z1);
    let u2 = m(&q.0, &zz);
    let s2 = m(&q.1, &m(&zz, z1));
    let h = subm(&u2, x1, &P);
    let r = subm(&s2, y1, &P);
    if h == ZERO {
        return if r == ZERO { jdbl(p) } else { (ONE, ONE, ZERO) };
    }
    let hh = m(&h, &h);
    let hhh = m(&hh, &h);
    let v = m(x1, &hh);
    let x3 = subm(&subm(&m(&r, &r), &hhh, &P), &addm(&v, &v, &P), &P);
    let y3 = subm(&m(&r, &subm(&v, &x3, &P)), &m(y1, &hhh), &P);
    (x3, y3, m(z1, &h))
}
/// k * (x, y)
pub fn mul(k: &U, q: &Aff) -> Aff {
    let q = (*q)?;
    let mut r = (ONE, ONE, ZERO);
    for i in (0..256).rev() {
        r = jdbl(&r);
        if k[i / 64] >> (i % 64) & 1 == 1 {
            r = jadd_aff(&r, &q);
        }
    }
    if r.2 == ZERO {
        return None;
    }
    let zi = invm(&r.2, &P);
    let zi2 = mulm(&zi, &zi, &P);
    Some((mulm(&r.0, &zi2, &P), mulm(&r.1, &mulm(&zi2, &zi, &P), &P)))
}
pub const G: Aff = Some((GX, GY));

/// z: leftmost 256 bits of the hash, as an integer
pub fn ecdsa_verify(q: &Aff, z: &[u8; 32], r: &U, s: &U) -> bool {
    if *r == ZERO || *s == ZERO || cmp(r, &N) != Ordering::Less || cmp(s, &N) != Ordering::Less {
        return false;
    }
    let z = redm(&from_be(z), &N);
    let w = invm(s, &N);
    let (u1, u2) = (mulm(&z, &w, &N), mulm(r, &w, &N));
    match add(&mul(&u1, &G), &mul(&u2, q)) {
        None => false,
        Some((x, _)) => redm(&x, &N) == *r,
    }
}

pub fn ecdsa_sign(d: &U, z: &[u8; 32], k: &U) -> Option<(U, U)> {
    if *k == ZERO {
        return None;
    }
    let z = redm(&from_be(z), &N);
    let r = redm(&mul(k, &G)?.0, &N);
    let s = mulm(&invm(k, &N), &addm(&z, &mulm(&r, d, &N), &N), &N);
    if r == ZERO || s == ZERO {
        return None;
    }
    Some((r, s))
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn group() {
        assert!(on_curve(&GX, &GY));
        assert_eq!(mul(&N, &G), None);
        let g2 = add(&G, &G);
        assert_eq!(mul(&[2, 0, 0, 0], &G), g2);
        assert_eq!(add(&g2, &G), mul(&[3, 0, 0, 0], &G));
        let t = std::time::Instant::now();
        let d = [5, 6, 7, 8];
        let q = mul(&d, &G);
        println!("mul {:?}", t.elapsed());
        let (r, s) = ecdsa_sign(&d, &[9; 32], &[77, 1, 2, 3]).unwrap();
        assert!(ecdsa_verify(&q, &[9; 32], &r, &s));
        assert!(!ecdsa_verify(&q, &[8; 32], &r, &s));
    }
}
