//! Reference implementations written from FIPS 180-4, FIPS 197, SP 800-38D, RFC 2104, RFC 5869 and
//! RFC 8439. Constants are computed from their definitions.
use crate::nat::Nat;
use std::sync::OnceLock;

fn primes(n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    let mut k = 2;
    while v.len() < n {
        if v.iter().all(|p| k % p != 0) {
            v.push(k);
        }
        k += 1;
    }
    v
}

/// floor(p^(1/root) * 2^bits) mod 2^bits
fn root_frac(p: u64, root: usize, bits: usize) -> u64 {
    let target = Nat::from_u64(p).shl(bits * root);
    let (mut lo, mut hi) = (Nat::zero(), Nat::pow2(bits + 10));
    // lo^root <= target < hi^root
    while hi.sub(&lo) != Nat::one() {
        let mid = lo.add(&hi).shr(1);
        let mut x = mid.clone();
        for _ in 1..root {
            x = x.mul(&mid);
        }
        if x.cmp(&target) == std::cmp::Ordering::Greater {
            hi = mid;
        } else {
            lo = mid;
        }
    }
    lo.low(bits).digits(1)[0]
}

fn k256() -> &'static (Vec<u32>, Vec<u32>) {
    static C: OnceLock<(Vec<u32>, Vec<u32>)> = OnceLock::new();
    C.get_or_init(|| {
        let p = primes(64);
        (
            p.iter().map(|p| root_frac(*p, 3, 32) as u32).collect(),
            p[..8].iter().map(|p| root_frac(*p, 2, 32) as u32).collect(),
        )
    })
}

fn k512() -> &'static (Vec<u64>, Vec<u64>) {
    static C: OnceLock<(Vec<u64>, Vec<u64>)> = OnceLock::new();
    C.get_or_init(|| {
        let p = primes(80);
        (p.iter().map(|p| root_frac(*p, 3, 64)).collect(), p[..8].iter().map(|p| root_frac(*p, 2, 64)).collect())
    })
}

pub fn sha256(msg: &[u8]) -> [u8; 32] {
    let (k, iv) = k256();
    let mut m = msg.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((msg.len() as u64) * 8).to_be_bytes());
    let mut h: Vec<u32> = iv.clone();
    for blk in m.chunks(64) {
        let mut w: Vec<u32> = blk.chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect();
        for t in 16..64 {
            let s1 = w[t - 2].rotate_right(17) ^ w[t - 2].rotate_right(19) ^ (w[t - 2] >> 10);
            let s0 = w[t - 15].rotate_right(7) ^ w[t - 15].rotate_right(18) ^ (w[t - 15] >> 3);
            w.push(s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]));
        }
        let mut v = h.clone();
        for t in 0..64 {
            let (a, e) = (v[0], v[4]);
            let t1 = v[7]
                .wrapping_add(e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25))
                .wrapping_add((e & v[5]) ^ (!e & v[6]))
                .wrapping_add(k[t])
                .wrapping_add(w[t]);
            let t2 = (a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22))
                .wrapping_add((a & v[1]) ^ (a & v[2]) ^ (v[1] & v[2]));
            v.insert(0, t1.wrapping_add(t2));
            v[4] = v[4].wrapping_add(t1);
            v.pop();
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let out: Vec<u8> = h.iter().flat_map(|x| x.to_be_bytes()).collect();
    out.try_into().unwrap()
}

pub fn sha512(msg: &[u8]) -> [u8; 64] {
    let (k, iv) = k512();
    let mut m = msg.to_vec();
    m.push(0x80);
    while m.len() % 128 != 112 {
        m.push(0);
    }
    m.extend_from_slice(&((msg.len() as u128) * 8).to_be_bytes());
    let mut h: Vec<u64> = iv.clone();
    for blk in m.chunks(128) {
        let mut w: Vec<u64> = blk.chunks(8).map(|c| u64::from_be_bytes(c.try_into().unwrap())).collect();
        for t in 16..80 {
            let s1 = w[t - 2].rotate_right(19) ^ w[t - 2].rotate_right(61) ^ (w[t - 2] >> 6);
            let s0 = w[t - 15].rotate_right(1) ^ w[t - 15].rotate_right(8) ^ (w[t - 15] >> 7);
            w.push(s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]));
        }
        let mut v = h.clone();
        for t in 0..80 {
            let (a, e) = (v[0], v[4]);
            let t1 = v[7]
                .wrapping_add(e.rotate_right(14) ^ e.rotate_right(18) ^ e.rotate_right(41))
                .wrapping_add((e & v[5]) ^ (!e & v[6]))
                .wrapping_add(k[t])
                .wrapping_add(w[t]);
            let t2 = (a.rotate_right(28) ^ a.rotate_right(34) ^ a.rotate_right(39))
                .wrapping_add((a & v[1]) ^ (a & v[2]) ^ (v[1] & v[2]));
            v.insert(0, t1.wrapping_add(t2));
            v[4] = v[4].wrapping_add(t1);
            v.pop();
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let out: Vec<u8> = h.iter().flat_map(|x| x.to_be_bytes()).collect();
    out.try_into().unwrap()
}

pub type HashFn = fn(&[u8]) -> Vec<u8>;
pub fn h256(m: &[u8]) -> Vec<u8> {
    sha256(m).to_vec()
}
pub fn h512(m: &[u8]) -> Vec<u8> {
    sha512(m).to_vec()
}

pub fn hmac(h: HashFn, block: usize, key: &[u8], msg: &[u8]) -> Vec<u8> {
    let mut k = if key.len() > block { h(key) } else { key.to_vec() };
    k.resize(block, 0);
    let mut inner: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
    inner.extend_from_slice(msg);
    let mut outer: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
    outer.extend_from_slice(&h(&inner));
    h(&outer)
}

pub fn hkdf_expand(h: HashFn, block: usize, prk: &[u8], info: &[u8], len: usize) -> Vec<u8> {
    let mut okm = vec![];
    let mut t: Vec<u8> = vec![];
    let mut i = 1u32;
    while okm.len() < len {
        let mut m = t.clone();
        m.extend_from_slice(info);
        m.push(u8::try_from(i).unwrap());
        t = hmac(h, block, prk, &m);
        okm.extend_from_slice(&t);
        i += 1;
    }
    okm.truncate(len);
    okm
}

pub fn hkdf_expand_label(secret: &[u8], label: &[u8], ctx: &[u8], len: usize) -> Vec<u8> {
    let mut info = (len as u16).to_be_bytes().to_vec();
    info.push(6 + label.len() as u8);
    info.extend_from_slice(b"tls13 ");
    info.extend_from_slice(label);
    info.push(ctx.len() as u8);
    info.extend_from_slice(ctx);
    hkdf_expand(h256, 64, secret, &info, len)
}

// AES

fn xtime(a: u8) -> u8 {
    (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 }
}
pub fn gf_mul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a = xtime(a);
        b >>= 1;
    }
    r
}
fn sbox() -> &'static [u8; 256] {
    static S: OnceLock<[u8; 256]> = OnceLock::new();
    S.get_or_init(|| {
        let mut s = [0; 256];
        for x in 0..=255u8 {
            let inv = (0..=255u8).find(|y| gf_mul(x, *y) == 1).unwrap_or(0);
            s[x as usize] = inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63;
        }
        s
    })
}

pub fn aes_encrypt(key: &[u8], block: &[u8; 16]) -> [u8; 16] {
    let s = sbox();
    let nk = key.len() / 4;
    let nr = nk + 6;
    let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| c.try_into().unwrap()).collect();
    let mut rcon = 1u8;
    for i in nk..4 * (nr + 1) {
        let mut t = w[i - 1];
        if i % nk == 0 {
            t.rotate_left(1);
            t = t.map(|x| s[x as usize]);
            t[0] ^= rcon;
            rcon = xtime(rcon);
        } else if nk > 6 && i % nk == 4 {
            t = t.map(|x| s[x as usize]);
        }
        let p = w[i - nk];
        w.push([p[0] ^ t[0], p[1] ^ t[1], p[2] ^ t[2], p[3] ^ t[3]]);
    }
    let add = |st: &mut [u8; 16], r: usize| {
        for c in 0..4 {
            for k in 0..4 {
                st[4 * c + k] ^= w[4 * r + c][k];
            }
        }
    };
    let mut st = *block;
    add(&mut st, 0);
    for r in 1..=nr {
        st = st.map(|x| s[x as usize]);
        let o = st;
        for c in 0..4 {
            for k in 0..4 {
                st[4 * c + k] = o[4 * ((c + k) % 4) + k];
            }
        }
        if r != nr {
            for c in 0..4 {
                let a: [u8; 4] = st[4 * c..4 * c + 4].try_into().unwrap();
                for k in 0..4 {
                    st[4 * c + k] = gf_mul(2, a[k]) ^ gf_mul(3, a[(k + 1) % 4]) ^ a[(k + 2) % 4] ^ a[(k + 3) % 4];
                }
            }
        }
        add(&mut st, r);
    }
    st
}

/// multiplication in GF(2^128) as in SP 800-38D, blocks as big-endian integers
pub fn gcm_mul(x: u128, y: u128) -> u128 {
    let mut z = 0u128;
    let mut v = y;
    for i in 0..128 {
        if x >> (127 - i) & 1 == 1 {
            z ^= v;
        }
        v = if v & 1 == 0 { v >> 1 } else { (v >> 1) ^ (0xe1u128 << 120) };
    }
    z
}

pub fn ghash(h: u128, aad: &[u8], ct: &[u8]) -> u128 {
    let mut data = aad.to_vec();
    data.resize(data.len().div_ceil(16) * 16, 0);
    data.extend_from_slice(ct);
    data.resize(data.len().div_ceil(16) * 16, 0);
    data.extend_from_slice(&(aad.len() as u64 * 8).to_be_bytes());
    data.extend_from_slice(&(ct.len() as u64 * 8).to_be_bytes());
    let mut y = 0u128;
    for b in data.chunks(16) {
        y = gcm_mul(y ^ u128::from_be_bytes(b.try_into().unwrap()), h);
    }
    y
}

pub fn gcm_encrypt(key: &[u8], iv: &[u8; 12], aad: &[u8], pt: &[u8]) -> (Vec<u8>, [u8; 16]) {
    let h = u128::from_be_bytes(aes_encrypt(key, &[0; 16]));
    let ctr = |n: u32| {
        let mut b = [0; 16];
        b[..12].copy_from_slice(iv);
        b[12..].copy_from_slice(&n.to_be_bytes());
        aes_encrypt(key, &b)
    };
    let mut ct = pt.to_vec();
    for (i, c) in ct.chunks_mut(16).enumerate() {
        let ks = ctr(2 + i as u32);
        for (x, k) in c.iter_mut().zip(ks) {
            *x ^= k;
        }
    }
    let tag = ghash(h, aad, &ct) ^ u128::from_be_bytes(ctr(1));
    (ct, tag.to_be_bytes())
}

// ChaCha20-Poly1305

pub fn chacha_block(key: &[u8; 32], nonce: &[u8; 12], counter: u32) -> [u8; 64] {
    let le = |b: &[u8]| u32::from_le_bytes(b.try_into().unwrap());
    let mut s = [0u32; 16];
    for i in 0..4 {
        s[i] = le(&b"expand 32-byte k"[4 * i..4 * i + 4]);
    }
    for i in 0..8 {
        s[4 + i] = le(&key[4 * i..4 * i + 4]);
    }
    s[12] = counter;
    for i in 0..3 {
        s[13 + i] = le(&nonce[4 * i..4 * i + 4]);
    }
    let init = s;
    let mut qr = |a: usize, b: usize, c: usize, d: usize| {
        for (x, y, z, r) in [(a, b, d, 16), (c, d, b, 12), (a, b, d, 8), (c, d, b, 7)] {
            s[x] = s[x].wrapping_add(s[y]);
            s[z] = (s[z] ^ s[x]).rotate_left(r);
        }
    };
    for _ in 0..10 {
        for i in 0..4 {
            qr(i, 4 + i, 8 + i, 12 + i);
        }
        for i in 0..4 {
            qr(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4);
        }
    }
    let out: Vec<u8> = (0..16).flat_map(|i| s[i].wrapping_add(init[i]).to_le_bytes()).collect();
    out.try_into().unwrap()
}

pub fn chacha20(key: &[u8; 32], nonce: &[u8; 12], counter: u32, msg: &[u8]) -> Vec<u8> {
    let mut out = msg.to_vec();
    for (i, c) in out.chunks_mut(64).enumerate() {
        let ks = chacha_block(key, nonce, counter.wrapping_add(i as u32));
        for (x, k) in c.iter_mut().zip(ks) {
            *x ^= k;
        }
    }
    out
}

pub fn poly1305(key: &[u8; 32], msg: &[u8]) -> [u8; 16] {
    let mut r: [u8; 16] = key[..16].try_into().unwrap();
    for i in [3, 7, 11, 15] {
        r[i] &= 15;
    }
    for i in [4, 8, 12] {
        r[i] &= 252;
    }
    let r = Nat::from_le(&r);
    let s = Nat::from_le(&key[16..]);
    let p = Nat::pow2(130).sub(&Nat::from_u64(5));
    let mut a = Nat::zero();
    for c in msg.chunks(16) {
        let mut b = c.to_vec();
        b.push(1);
        a = a.add(&Nat::from_le(&b)).mul(&r).rem(&p);
    }
    a.add(&s).low(128).to_le(16).try_into().unwrap()
}

pub fn chachapoly_encrypt(key: &[u8; 32], iv: &[u8; 12], aad: &[u8], pt: &[u8]) -> (Vec<u8>, [u8; 16]) {
    let otk: [u8; 32] = chacha_block(key, iv, 0)[..32].try_into().unwrap();
    let ct = chacha20(key, iv, 1, pt);
    let mut m = aad.to_vec();
    m.resize(m.len().div_ceil(16) * 16, 0);
    m.extend_from_slice(&ct);
    m.resize(m.len().div_ceil(16) * 16, 0);
    m.extend_from_slice(&(aad.len() as u64).to_le_bytes());
    m.extend_from_slice(&(ct.len() as u64).to_le_bytes());
    (ct, poly1305(&otk, &m))
}

#[cfg(test)]
mod tests {
    use super::*;
    use crate::hex;
    #[test]
    fn known_answers() {
        assert_eq!(hex(&sha256(b"abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
        assert!(hex(&sha512(b"abc")).starts_with("ddaf35a193617abacc417349ae204131"));
        let key: Vec<u8> = (0..16).collect();
        let pt: Vec<u8> = (0..16).map(|i| i * 0x11).collect();
        assert_eq!(hex(&aes_encrypt(&key, &pt.clone().try_into().unwrap())), "69c4e0d86a7b0430d8cdb78070b4c55a");
        let key: Vec<u8> = (0..24).collect();
        assert_eq!(hex(&aes_encrypt(&key, &pt.clone().try_into().unwrap())), "dda97ca4864cdfe06eaf70a0ec0d7191");
        let key: Vec<u8> = (0..32).collect();
        assert_eq!(hex(&aes_encrypt(&key, &pt.try_into().unwrap())), "8ea2b7ca516745bfeafc49904b496089");
        // GCM test case 2
        let (c, t) = gcm_encrypt(&[0; 16], &[0; 12], b"", &[0; 16]);
        assert_eq!(hex(&c), "0388dace60b6a392f328c2b971b2fe78");
        assert_eq!(hex(&t), "ab6e47d42cec13bdf53a67b21257bddf");
        // RFC 8439 2.8.2
        let key: [u8; 32] = std::array::from_fn(|i| 0x80 + i as u8);
        let iv = [7, 0, 0, 0, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47];
        let aad = [0x50, 0x51, 0x52, 0x53, 0xc0, 0xc1, 0xc2, 0xc3, 0xc4, 0xc5, 0xc6, 0xc7];
        let pt = b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.";
        let (_, t) = chachapoly_encrypt(&key, &iv, &aad, pt);
        assert_eq!(hex(&t), "1ae10b594f09e26a7e902ecbd0600691");
        // RFC 4231 test 2
        assert_eq!(hex(&hmac(h256, 64, b"Jefe", b"what do ya want for nothing?")), "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843");
    }
}
