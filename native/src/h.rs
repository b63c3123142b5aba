use crylib::hash::{BlockHasher, BufHasher, Hasher, Sha256, Sha512};
use crylib::hkdf;
use crylib::hmac::Hmac;
use vsrc::refs;
use vsrc::{case, check, hex, Case, Src};

type R = Result<bool, String>;

macro_rules! hash_cases {
    ($m:ident, $h:ident, $hl:literal, $bl:literal, $ref:path) => {
        mod $m {
            use super::*;
            type B = BufHasher<$hl, $bl, $h>;
            /// every length of up to 4 blocks, all at once
            pub fn lengths(s: &mut Src) -> R {
                let n = s.index as usize;
                let msg = s.bytes(n);
                let want = $ref(&msg);
                check!(<$h>::hash(&msg)[..] == want[..], "hash of {} bytes: {}", n, hex(&msg));
                check!(<$h>::new().finish_with(&msg)[..] == want[..], "finish_with {} bytes: {}", n, hex(&msg));
                check!(B::hash(&msg)[..] == want[..], "BufHasher::hash of {} bytes: {}", n, hex(&msg));
                if n % $bl == 0 {
                    let mut h = <$h>::new();
                    for b in msg.chunks_exact($bl) {
                        h.update(b.try_into().unwrap());
                    }
                    check!(h.finish()[..] == want[..], "finish after {} blocks", n / $bl);
                }
                Ok(true)
            }
            pub fn long(s: &mut Src) -> R {
                let n = s.len($bl, 5000);
                let msg = s.bytes(n);
                let want = $ref(&msg);
                check!(<$h>::hash(&msg)[..] == want[..], "hash of {} bytes: {}", n, hex(&msg));
                // some blocks first
                let k = s.range(0, n / $bl);
                let mut h = <$h>::new();
                for b in msg[..k * $bl].chunks_exact($bl) {
                    h.update(b.try_into().unwrap());
                }
                check!(h.finish_with(&msg[k * $bl..])[..] == want[..], "{k} blocks then finish_with {} bytes: {}", n - k * $bl, hex(&msg));
                Ok(n > 0)
            }
            /// any way to cut a message, with the digest read at any point
            pub fn chunks(s: &mut Src) -> R {
                let mut h = B::new();
                let mut all = vec![];
                let mut ops = vec![];
                for _ in 0..s.range(0, 7) {
                    if s.below(4) == 0 {
                        let b = s.bytes($bl);
                        h.update(b[..].try_into().unwrap());
                        all.extend_from_slice(&b);
                        ops.push(format!("block"));
                    } else {
                        let n = s.len($bl, 4 * $bl);
                        let b = s.bytes(n);
                        h.update_with(&b);
                        all.extend_from_slice(&b);
                        ops.push(format!("{n}"));
                    }
                    if s.below(3) == 0 {
                        check!(h.get()[..] == $ref(&all)[..], "get after {:?}: {}", ops, hex(&all));
                    }
                }
                if s.bool() {
                    check!(h.finish()[..] == $ref(&all)[..], "finish after {:?}: {}", ops, hex(&all));
                } else {
                    let n = s.len($bl, 3 * $bl);
                    let b = s.bytes(n);
                    all.extend_from_slice(&b);
                    check!(h.finish_with(&b)[..] == $ref(&all)[..], "finish_with {n} after {:?}: {}", ops, hex(&all));
                }
                Ok(ops.len() > 1)
            }
            pub fn mac(s: &mut Src) -> R {
                let kl = s.len($bl, 3 * $bl);
                let ml = s.len($bl, 4 * $bl);
                let key = s.bytes(kl);
                let msg = s.bytes(ml);
                let want = refs::hmac($ref, $bl, &key, &msg);
                let c = || format!("key {} message {}", hex(&key), hex(&msg));
                check!(Hmac::<$hl, $bl, $h>::auth(&key, &msg)[..] == want[..], "auth {}", c());
                check!(Hmac::<$hl, $bl, B>::auth(&key, &msg)[..] == want[..], "buffered auth {}", c());
                let mut h = Hmac::<$hl, $bl, $h>::new(&key);
                let k = s.range(0, ml / $bl);
                for b in msg[..k * $bl].chunks_exact($bl) {
                    h.update(b.try_into().unwrap());
                }
                if k * $bl == ml {
                    check!(h.finish()[..] == want[..], "finish {}", c());
                } else {
                    check!(h.finish_with(&msg[k * $bl..])[..] == want[..], "finish_with {}", c());
                }
                let mut h = Hmac::<$hl, $bl, B>::new(&key);
                let mut rest = &msg[..];
                for _ in 0..s.range(0, 4) {
                    let n = s.range(0, rest.len());
                    h.update_with(&rest[..n]);
                    rest = &rest[n..];
                }
                if s.bool() {
                    check!(h.finish_with(rest)[..] == want[..], "buffered finish_with {}", c());
                } else {
                    h.update_with(rest);
                    check!(h.finish()[..] == want[..], "buffered finish {}", c());
                }
                Ok(ml > 0)
            }
            pub fn kdf(s: &mut Src) -> R {
                let sl = s.len($bl, 3 * $bl);
                let il = s.len($bl, 3 * $bl);
                let salt = s.bytes(sl);
                let ikm = s.bytes(il);
                let prk = hkdf::extract::<$hl, $bl, $h>(&ikm, &salt);
                check!(prk[..] == refs::hmac($ref, $bl, &salt, &ikm)[..], "extract salt {} ikm {}", hex(&salt), hex(&ikm));
                let nl = s.len($bl, 200);
                let info = s.bytes(nl);
                let ol = match s.below(6) {
                    0 => 255 * $hl - s.range(0, 2),
                    1 => s.range(0, 255 * $hl),
                    _ => s.len($hl, 5 * $hl),
                };
                let mut out = s.bytes(ol);
                hkdf::expand::<$hl, $bl, $h>(&mut out, &prk, &info);
                check!(out == refs::hkdf_expand($ref, $bl, &prk, &info, ol), "expand prk {} info {} length {ol}", hex(&prk), hex(&info));
                Ok(ol > 0)
            }
        }
    };
}
hash_cases!(h2, Sha256, 32, 64, refs::h256);
hash_cases!(h5, Sha512, 64, 128, refs::h512);
macro_rules! both {
    ($($f:ident => $a:ident $b:ident;)*) => {$(
        fn $a(s: &mut Src) -> R { h2::$f(s) }
        fn $b(s: &mut Src) -> R { h5::$f(s) }
    )*};
}
both! {
    lengths => sha256_lengths sha512_lengths;
    long => sha256_long sha512_long;
    chunks => sha256_chunks sha512_chunks;
    mac => hmac_sha256 hmac_sha512;
    kdf => hkdf_sha256 hkdf_sha512;
}
const Z256: &str = "b800916a985d3b836f7ac3032d62f4521ea723676457fd69a6a52d9be4206d12";
const Z256R: &str = "9570eab593c253af7abe167d16683caf453275262d9d319a25eacc8057795c26";
const Z512: &str = "3f47be0aa03f9cce668985ead92c279f8587bd844cd0812b173565456674cbfaaf0478e546bc24da031ab4a4c69e4c6d2c7f7d7e2d4e20fe9e8b78b15d005874";
/// more blocks than 32 bits can count the bits of; the digests of that many zero bytes are from another implementation
fn huge(s: &mut Src) -> R {
    const N: usize = (1 << 29) + 128;
    let (want, got) = match s.index {
        0 | 1 => {
            let mut h = Sha256::new();
            for _ in 0..N / 64 {
                h.update(&[0; 64]);
            }
            if s.index == 0 { (Z256, hex(&h.finish())) } else { (Z256R, hex(&h.finish_with(&[0; 61]))) }
        }
        2 => {
            let mut h = Sha512::new();
            for _ in 0..N / 128 {
                h.update(&[0; 128]);
            }
            (Z512, hex(&h.finish()))
        }
        _ => {
            let mut h = BufHasher::<32, 64, Sha256>::new();
            for _ in 0..N / 4096 {
                h.update_with(&[0; 4096]);
            }
            h.update_with(&[0; 128]);
            h.update_with(&[0; 61]);
            (Z256R, hex(&h.finish()))
        }
    };
    check!(want == got, "digest of {} zero bytes: {}", N, got);
    Ok(true)
}
pub fn h01() -> Vec<Case> {
    vec![
        case!(sha256_lengths, 260), case!(sha512_lengths, 520), case!(sha256_long), case!(sha512_long),
        case!(sha256_chunks), case!(sha512_chunks), case!(huge, 4),
    ]
}
pub fn h02() -> Vec<Case> {
    vec![case!(hmac_sha256), case!(hmac_sha512), case!(hkdf_sha256), case!(hkdf_sha512)]
}
