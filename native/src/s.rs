use crylib::aead::chacha::chacha20;
use crylib::aead::chacha::poly1305::{poly1305_key_gen, Poly1305};
use crylib::aead::chacha::ChaCha20Poly1305;
use crylib::aead::gcm::{Aes128, Aes192, Aes256, AesCipher, Gcm};
use crylib::aead::Aead;
use vsrc::nat::Nat;
use vsrc::refs;
use vsrc::{case, check, hex, Case, Src};

type R = Result<bool, String>;

macro_rules! aes {
    ($f:ident, $c:ident, $k:literal) => {
        fn $f(s: &mut Src) -> R {
            let key: [u8; $k] = s.array();
            let c = $c::new(key);
            for _ in 0..4 {
                let blk: [u8; 16] = s.array();
                let want = refs::aes_encrypt(&key, &blk);
                check!(c.encrypt(&blk) == want, "{} key {} block {}: {}", stringify!($c), hex(&key), hex(&blk), hex(&c.encrypt(&blk)));
                let mut b = blk;
                c.encrypt_inline(&mut b);
                check!(b == want, "{} inline key {} block {}", stringify!($c), hex(&key), hex(&blk));
            }
            Ok(true)
        }
    };
}
aes!(aes128, Aes128, 16);
aes!(aes192, Aes192, 24);
aes!(aes256, Aes256, 32);
/// every value of every byte of the block
fn aes_bytes(s: &mut Src) -> R {
    let (pos, val) = ((s.index / 256) as usize, (s.index % 256) as u8);
    let mut blk = [0u8; 16];
    blk[pos] = val;
    let key = [0x5au8; 16];
    check!(Aes128::new(key).encrypt(&blk) == refs::aes_encrypt(&key, &blk), "byte {pos} = {val:#x}");
    let mut k = [0u8; 32];
    k[2 * pos] = val;
    k[2 * pos + 1] = !val;
    check!(Aes256::new(k).encrypt(&blk) == refs::aes_encrypt(&k, &blk), "key byte {pos} = {val:#x}");
    Ok(true)
}
pub fn s01() -> Vec<Case> {
    vec![case!(aes128), case!(aes192), case!(aes256), case!(aes_bytes, 4096)]
}

/// mostly short; sometimes more than 256 blocks, rarely more than 65535 bytes
fn long(s: &mut Src, block: usize, max: usize) -> usize {
    match s.below(64) {
        0 => s.range(256 * block - 16, 320 * block),
        1 => s.range(65530, 66100),
        _ => s.len(block, max),
    }
}
macro_rules! gcm {
    ($f:ident, $c:ident, $k:literal) => {
        fn $f(s: &mut Src) -> R {
            let key: [u8; $k] = s.array();
            let iv: [u8; 12] = s.array();
            let al = if s.below(64) == 0 { long(s, 16, 90) } else { s.len(16, 90) };
            let pl = long(s, 16, 200);
            let aad = s.bytes(al);
            let pt = s.bytes(pl);
            let (ct, tag) = refs::gcm_encrypt(&key, &iv, &aad, &pt);
            let g = Gcm::<$c>::new(key);
            let mut buf = pt.clone();
            let t = g.encrypt_inline(&mut buf, &aad, &iv);
            let c = || format!("{} key {} iv {} aad {} plaintext {}", stringify!($c), hex(&key), hex(&iv), hex(&aad), hex(&pt));
            check!(buf == ct, "GCM ciphertext {}", c());
            check!(t == tag, "GCM tag {} = {} want {}", c(), hex(&t), hex(&tag));
            g.decrypt_inline(&mut buf, &aad, &iv, &tag).map_err(|_| format!("GCM decrypt rejects {}", c()))?;
            check!(buf == pt, "GCM decrypt {}", c());
            Ok(pl > 0)
        }
    };
}
gcm!(gcm128, Aes128, 16);
gcm!(gcm192, Aes192, 24);
gcm!(gcm256, Aes256, 32);
pub fn s02() -> Vec<Case> {
    vec![case!(gcm128), case!(gcm192), case!(gcm256)]
}

fn stream(s: &mut Src) -> R {
    let key: [u8; 32] = s.array();
    let nonce: [u8; 12] = s.array();
    let n = long(s, 64, 400);
    let blocks = (n as u32 + 63) / 64;
    let ctr = match s.below(4) {
        0 => 0,
        1 => 1,
        2 => u32::MAX - blocks - s.below(3) as u32,
        _ => s.below(1 << 31) as u32,
    };
    let msg = s.bytes(n);
    let want = refs::chacha20(&key, &nonce, ctr, &msg);
    let c = || format!("key {} nonce {} counter {ctr} message {}", hex(&key), hex(&nonce), hex(&msg));
    let mut buf = msg.clone();
    chacha20::encrypt_inline(&mut buf, &key, &nonce, ctr);
    check!(buf == want, "chacha20 {}", c());
    let extra = s.range(0, 70);
    let fill = s.bytes(n + extra);
    let mut buf = fill.clone();
    chacha20::encrypt(&msg, &key, &nonce, ctr, &mut buf);
    check!(buf[..n] == want[..], "chacha20::encrypt {}", c());
    check!(buf[n..] == fill[n..], "chacha20::encrypt wrote beyond the message {}", c());
    Ok(n > 0)
}
fn poly(s: &mut Src) -> R {
    let mut key: [u8; 32] = s.array();
    if s.below(3) == 0 {
        // the tag wraps: accumulator close to the modulus
        let r = s.pick(&[1u8, 2, 4]);
        key[..16].fill(0);
        key[0] = r;
    }
    let n = s.len(16, 150);
    let msg = if s.below(3) == 0 { vec![0xff; n] } else { s.bytes(n) };
    let want = refs::poly1305(&key, &msg);
    let c = || format!("key {} message {}", hex(&key), hex(&msg));
    let got = Poly1305::auth(&msg, &key);
    check!(got == want, "poly1305 {} = {} want {}", c(), hex(&got), hex(&want));
    let k = s.range(0, n / 16);
    let mut p = Poly1305::new(&key);
    for b in msg[..16 * k].chunks_exact(16) {
        p.update(b.try_into().unwrap());
    }
    check!(p.finish_with(&msg[16 * k..]) == want, "poly1305 {k} blocks then finish_with {}", c());
    // update_with pads to a whole block
    let mut p = Poly1305::new(&key);
    let mut padded = msg.clone();
    padded.resize((n + 15) / 16 * 16, 0);
    p.update_with(&msg);
    let m2l = s.len(16, 40);
    let m2 = s.bytes(m2l);
    p.update_with(&m2);
    padded.extend_from_slice(&m2);
    padded.resize((padded.len() + 15) / 16 * 16, 0);
    check!(p.finish() == refs::poly1305(&key, &padded), "poly1305 padded update_with {} then {}", c(), hex(&m2));
    Ok(n > 0)
}
/// accumulator values at the edges of the modulus 2^130 - 5
fn poly_edges(s: &mut Src) -> R {
    // r = 1: the accumulator is the sum of the blocks
    let mut key = [0u8; 32];
    key[0] = 1;
    for b in key[16..].iter_mut() {
        *b = if s.bool() { 0xff } else { 0 };
    }
    let target = Nat::pow2(130).sub(&Nat::from_u64(s.below(12)));
    // three blocks with 2^128 each, so the rest is below 2^128
    let rest = target.sub(&Nat::pow2(128)).sub(&Nat::pow2(128)).sub(&Nat::pow2(128));
    let (a, b) = if rest.bits() <= 128 { (rest, Nat::zero()) } else { (Nat::pow2(128).sub(&Nat::one()), rest.sub(&Nat::pow2(128)).add(&Nat::one())) };
    let mut msg = a.to_le(16);
    msg.extend(b.to_le(16));
    msg.extend([0u8; 16]);
    check!(Poly1305::auth(&msg, &key) == refs::poly1305(&key, &msg), "poly1305 key {} message {}", hex(&key), hex(&msg));
    Ok(true)
}
fn keygen(s: &mut Src) -> R {
    let key: [u8; 32] = s.array();
    let nonce: [u8; 12] = s.array();
    check!(poly1305_key_gen(&key, &nonce)[..] == refs::chacha_block(&key, &nonce, 0)[..32], "poly1305_key_gen {} {}", hex(&key), hex(&nonce));
    Ok(true)
}
fn chachapoly(s: &mut Src) -> R {
    let key: [u8; 32] = s.array();
    let iv: [u8; 12] = s.array();
    let al = if s.below(64) == 0 { long(s, 16, 90) } else { s.len(16, 90) };
    let pl = long(s, 64, 300);
    let aad = s.bytes(al);
    let pt = s.bytes(pl);
    let (ct, tag) = refs::chachapoly_encrypt(&key, &iv, &aad, &pt);
    let g = ChaCha20Poly1305::new(key);
    let mut buf = pt.clone();
    let t = g.encrypt_inline(&mut buf, &aad, &iv);
    let c = || format!("key {} iv {} aad {} plaintext {}", hex(&key), hex(&iv), hex(&aad), hex(&pt));
    check!(buf == ct, "ChaCha20Poly1305 ciphertext {}", c());
    check!(t == tag, "ChaCha20Poly1305 tag {} = {} want {}", c(), hex(&t), hex(&tag));
    g.decrypt_inline(&mut buf, &aad, &iv, &tag).map_err(|_| format!("ChaCha20Poly1305 rejects {}", c()))?;
    check!(buf == pt, "ChaCha20Poly1305 decrypt {}", c());
    Ok(pl > 0)
}
pub fn s03() -> Vec<Case> {
    vec![case!(stream), case!(poly), case!(poly_edges), case!(keygen), case!(chachapoly)]
}

fn aead(s: &mut Src, name: &str, g: &dyn Aead) -> R {
    let iv: [u8; 12] = s.array();
    let al = if s.below(64) == 0 { long(s, 16, 60) } else { s.len(16, 60) };
    let pl = long(s, 16, 150);
    let aad = s.bytes(al);
    let pt = s.bytes(pl);
    let c = || format!("{name} iv {} aad {} plaintext {}", hex(&iv), hex(&aad), hex(&pt));
    let mut ct = pt.clone();
    let tag = g.encrypt_inline(&mut ct, &aad, &iv);
    // the copying variants agree, and only touch the message part of the buffer
    let extra = s.range(0, 20);
    let fill = s.bytes(pl + extra);
    let mut buf = fill.clone();
    let t2 = g.encrypt(&mut buf, &pt, &aad, &iv);
    check!(buf[..pl] == ct[..] && t2 == tag && buf[pl..] == fill[pl..], "encrypt {}", c());
    let mut buf = fill.clone();
    check!(g.decrypt(&mut buf, &ct, &aad, &iv, &tag).is_ok(), "decrypt rejects {}", c());
    check!(buf[..pl] == pt[..] && buf[pl..] == fill[pl..], "decrypt {}", c());
    let mut buf = ct.clone();
    check!(g.decrypt_inline(&mut buf, &aad, &iv, &tag).is_ok() && buf == pt, "decrypt_inline {}", c());
    // any change of what is authenticated is rejected, and no plaintext appears
    let (mut ct2, mut aad2, mut iv2, mut tag2) = (ct.clone(), aad.clone(), iv, tag);
    let flip = |s: &mut Src, v: &mut [u8]| {
        let i = s.below(v.len() as u64) as usize;
        v[i] ^= 1 << s.below(8);
    };
    match s.below(8) {
        0 if pl > 0 => flip(s, &mut ct2),
        1 if al > 0 => flip(s, &mut aad2),
        2 => flip(s, &mut iv2),
        3 => {
            // extended or shortened ciphertext
            if s.bool() && pl > 0 {
                ct2.pop();
            } else {
                ct2.push(0);
            }
        }
        4 => {
            if s.bool() && al > 0 {
                aad2.pop();
            } else {
                aad2.push(0);
            }
        }
        5 if al > 0 => {
            // move the border between the two
            let b = aad2.pop().unwrap();
            ct2.insert(0, b);
        }
        _ => flip(s, &mut tag2),
    }
    let mut buf = ct2.clone();
    let r = g.decrypt_inline(&mut buf, &aad2, &iv2, &tag2);
    check!(r.is_err(), "forgery accepted: {} changed to ciphertext {} aad {} iv {} tag {}", c(), hex(&ct2), hex(&aad2), hex(&iv2), hex(&tag2));
    check!(buf == ct2, "rejected message was modified: {}", c());
    Ok(pl > 0)
}
fn aead_gcm128(s: &mut Src) -> R {
    let k = s.array();
    aead(s, "AES-128-GCM", &Gcm::<Aes128>::new(k))
}
fn aead_gcm256(s: &mut Src) -> R {
    let k = s.array();
    aead(s, "AES-256-GCM", &Gcm::<Aes256>::new(k))
}
fn aead_gcm192(s: &mut Src) -> R {
    let k = s.array();
    aead(s, "AES-192-GCM", &Gcm::<Aes192>::new(k))
}
fn aead_chacha(s: &mut Src) -> R {
    let k = s.array();
    aead(s, "ChaCha20-Poly1305", &ChaCha20Poly1305::new(k))
}
/// every single-bit change of a tag is rejected
fn tag_bits(s: &mut Src) -> R {
    let bit = s.index as usize;
    let g = Gcm::<Aes128>::new([3; 16]);
    let p = ChaCha20Poly1305::new([9; 32]);
    for a in [&g as &dyn Aead, &p] {
        let mut m = *b"some message of the user";
        let mut t = a.encrypt_inline(&mut m, b"data", &[1; 12]);
        t[bit / 8] ^= 1 << (bit % 8);
        let c = m;
        check!(a.decrypt_inline(&mut m, b"data", &[1; 12], &t).is_err() && m == c, "tag with bit {bit} flipped accepted");
    }
    Ok(true)
}
pub fn s04() -> Vec<Case> {
    vec![case!(aead_gcm128), case!(aead_gcm192), case!(aead_gcm256), case!(aead_chacha), case!(tag_bits, 128)]
}
