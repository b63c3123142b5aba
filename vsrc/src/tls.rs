//! TLS 1.3 (RFC 8446) as far as this repository implements it: key schedule, record protection,
//! message builders and acceptance predicates, written from the RFC.
use crate::nat::Nat;
use crate::p256::{self, U};
use crate::refs;

pub const CHACHA: u16 = 0x1303;
pub const AES128: u16 = 0x1301;

pub fn hmac(key: &[u8], msg: &[u8]) -> [u8; 32] {
    refs::hmac(refs::h256, 64, key, msg).try_into().unwrap()
}
pub fn label(secret: &[u8], l: &[u8], ctx: &[u8], n: usize) -> Vec<u8> {
    refs::hkdf_expand_label(secret, l, ctx, n)
}

#[derive(Clone, Debug)]
pub struct Keys {
    pub cipher: u16,
    pub key: Vec<u8>,
    pub iv: [u8; 12],
    pub seq: u64,
}

impl Keys {
    pub fn from_secret(cipher: u16, secret: &[u8]) -> Keys {
        Keys {
            cipher,
            key: label(secret, b"key", b"", if cipher == AES128 { 16 } else { 32 }),
            iv: label(secret, b"iv", b"", 12).try_into().unwrap(),
            seq: 0,
        }
    }
    pub fn nonce(&self) -> [u8; 12] {
        let mut n = self.iv;
        for (i, b) in self.seq.to_be_bytes().iter().enumerate() {
            n[4 + i] ^= b;
        }
        n
    }
    fn aead(&self, aad: &[u8], pt: &[u8]) -> (Vec<u8>, [u8; 16]) {
        let n = self.nonce();
        if self.cipher == AES128 {
            refs::gcm_encrypt(&self.key, &n, aad, pt)
        } else {
            refs::chachapoly_encrypt(self.key[..].try_into().unwrap(), &n, aad, pt)
        }
    }
    /// the inner plaintext as given (content || type || zeros)
    pub fn seal_inner(&mut self, inner: &[u8]) -> Vec<u8> {
        let len = inner.len() + 16;
        let mut rec = vec![23, 3, 3, (len >> 8) as u8, len as u8];
        let (ct, tag) = self.aead(&rec.clone(), inner);
        self.seq += 1;
        rec.extend(ct);
        rec.extend(tag);
        rec
    }
    pub fn seal(&mut self, typ: u8, content: &[u8], pad: usize) -> Vec<u8> {
        let mut inner = content.to_vec();
        inner.push(typ);
        inner.resize(inner.len() + pad, 0);
        self.seal_inner(&inner)
    }
    /// opens one record (with header)
    pub fn open(&mut self, rec: &[u8]) -> Option<Vec<u8>> {
        if rec.len() < 21 {
            return None;
        }
        let (aad, rest) = rec.split_at(5);
        let (ct, tag) = rest.split_at(rest.len() - 16);
        // both ciphers are stream ciphers
        let (pt, _) = self.aead(aad, ct);
        let (ct2, tag2) = self.aead(aad, &pt);
        if ct2 != ct || tag2[..] != *tag {
            return None;
        }
        self.seq += 1;
        Some(pt)
    }
}

pub struct Schedule {
    pub client: [u8; 32],
    pub server: [u8; 32],
    pub handshake: [u8; 32],
}

pub fn early_secret() -> [u8; 32] {
    hmac(&[0; 32], &[0; 32])
}

pub fn schedule(dh: &[u8], transcript: &[u8]) -> Schedule {
    let derived = label(&early_secret(), b"derived", &refs::sha256(b""), 32);
    let hs = hmac(&derived, dh);
    let th = refs::sha256(transcript);
    Schedule {
        client: label(&hs, b"c hs traffic", &th, 32).try_into().unwrap(),
        server: label(&hs, b"s hs traffic", &th, 32).try_into().unwrap(),
        handshake: hs,
    }
}

/// splits a byte string into whole records
pub fn records(mut b: &[u8]) -> Result<Vec<(u8, u16, Vec<u8>)>, String> {
    let mut v = vec![];
    while !b.is_empty() {
        if b.len() < 5 {
            return Err(format!("incomplete record header {}", crate::hex(b)));
        }
        let l = u16::from_be_bytes([b[3], b[4]]) as usize;
        if b.len() < 5 + l {
            return Err(format!("a record of {l} bytes is cut after {} bytes", b.len() - 5));
        }
        v.push((b[0], u16::from_be_bytes([b[1], b[2]]), b[5..5 + l].to_vec()));
        b = &b[5 + l..];
    }
    Ok(v)
}

pub fn record(typ: u8, body: &[u8]) -> Vec<u8> {
    let mut r = vec![typ, 3, 3, (body.len() >> 8) as u8, body.len() as u8];
    r.extend_from_slice(body);
    r
}

pub fn msg(typ: u8, body: &[u8]) -> Vec<u8> {
    let l = body.len();
    let mut m = vec![typ, (l >> 16) as u8, (l >> 8) as u8, l as u8];
    m.extend_from_slice(body);
    m
}

#[derive(Debug, Clone, PartialEq)]
pub struct Hello {
    pub version: u16,
    pub random: Vec<u8>,
    pub session: Vec<u8>,
    pub ciphers: Vec<u16>,
    pub compression: Vec<u8>,
    pub exts: Vec<(u16, Vec<u8>)>,
}

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn int(&mut self, n: usize) -> Option<usize> {
        Some(self.take(n)?.iter().fold(0, |a, b| a << 8 | *b as usize))
    }
    fn vec(&mut self, n: usize) -> Option<&'a [u8]> {
        let l = self.int(n)?;
        self.take(l)
    }
}

/// Parses the list of extensions without its length
pub fn ext_list(b: &[u8]) -> Option<Vec<(u16, Vec<u8>)>> {
    let mut r = Rd(b);
    let mut v = vec![];
    while !r.0.is_empty() {
        let t = r.int(2)? as u16;
        v.push((t, r.vec(2)?.to_vec()));
    }
    Some(v)
}

/// A ClientHello including its handshake header.
pub fn client_hello(m: &[u8]) -> Option<Hello> {
    let mut r = Rd(m);
    if r.int(1)? != 1 {
        return None;
    }
    let body = r.vec(3)?;
    if !r.0.is_empty() {
        return None;
    }
    let mut r = Rd(body);
    let version = r.int(2)? as u16;
    let random = r.take(32)?.to_vec();
    let session = r.vec(1)?.to_vec();
    let c = r.vec(2)?;
    if c.len() % 2 != 0 {
        return None;
    }
    let ciphers = c.chunks(2).map(|x| u16::from_be_bytes([x[0], x[1]])).collect();
    let compression = r.vec(1)?.to_vec();
    let e = r.vec(2)?;
    if !r.0.is_empty() {
        return None;
    }
    Some(Hello { version, random, session, ciphers, compression, exts: ext_list(e)? })
}

/// the uncompressed P-256 point in the key_share of a ClientHello
pub fn client_share(h: &Hello) -> Option<(U, U)> {
    let d = &h.exts.iter().find(|e| e.0 == 51)?.1;
    let mut r = Rd(d);
    let mut l = Rd(r.vec(2)?);
    if l.int(2)? != 0x17 {
        return None;
    }
    point(l.vec(2)?)
}

pub fn point(b: &[u8]) -> Option<(U, U)> {
    if b.len() != 65 || b[0] != 4 {
        return None;
    }
    let (x, y) = (p256::from_be(&b[1..33]), p256::from_be(&b[33..65]));
    if p256::cmp(&x, &p256::P).is_ge() || p256::cmp(&y, &p256::P).is_ge() || !p256::on_curve(&x, &y) {
        return None;
    }
    Some((x, y))
}

pub fn point_bytes(p: &(U, U)) -> Vec<u8> {
    let mut v = vec![4];
    v.extend(p256::to_be(&p.0));
    v.extend(p256::to_be(&p.1));
    v
}

pub fn ext(typ: u16, data: &[u8]) -> Vec<u8> {
    let mut v = typ.to_be_bytes().to_vec();
    v.extend((data.len() as u16).to_be_bytes());
    v.extend_from_slice(data);
    v
}

pub fn len16(b: &[u8]) -> Vec<u8> {
    let mut v = (b.len() as u16).to_be_bytes().to_vec();
    v.extend_from_slice(b);
    v
}

/// body of a ServerHello
pub fn server_hello(random: &[u8], cipher: u16, exts: &[u8]) -> Vec<u8> {
    let mut v = vec![3, 3];
    v.extend_from_slice(random);
    v.push(0);
    v.extend(cipher.to_be_bytes());
    v.push(0);
    v.extend(len16(exts));
    v
}

pub fn share_ext(p: &[u8]) -> Vec<u8> {
    let mut v = 0x17u16.to_be_bytes().to_vec();
    v.extend(len16(p));
    ext(51, &v)
}

#[derive(Debug, Clone)]
pub enum ShVerdict {
    Ok(u16, (U, U)),
    Bad,
}

/// What must happen with the body of a ServerHello, if `ciphers` and `groups` were offered.
pub fn judge_sh(b: &[u8], ciphers: u8, groups: u16) -> ShVerdict {
    fn f(b: &[u8], ciphers: u8, groups: u16) -> Option<(u16, (U, U))> {
        let mut r = Rd(b);
        r.take(34)?;
        if r.int(1)? != 0 {
            return None;
        }
        let c = r.int(2)? as u16;
        let offered = (c == CHACHA && ciphers & 1 != 0) || (c == AES128 && ciphers & 2 != 0);
        if !offered || r.int(1)? != 0 {
            return None;
        }
        let e = ext_list(r.vec(2)?)?;
        if !r.0.is_empty() || e.len() != 2 {
            return None;
        }
        let v = &e.iter().find(|x| x.0 == 43)?.1;
        if v[..] != [3, 4] {
            return None;
        }
        let k = &e.iter().find(|x| x.0 == 51)?.1;
        let mut k = Rd(k);
        if k.int(2)? != 0x17 || groups & 1 == 0 {
            return None;
        }
        let p = point(k.vec(2)?)?;
        if !k.0.is_empty() {
            return None;
        }
        Some((c, p))
    }
    match f(b, ciphers, groups) {
        Some((c, p)) => ShVerdict::Ok(c, p),
        None => ShVerdict::Bad,
    }
}

/// The application protocol that the body of EncryptedExtensions selects; `None`: malformed.
/// A list with duplicates has no verdict.
pub enum EeVerdict {
    Ok(Option<Vec<u8>>),
    Bad,
    Unspecified,
}
pub fn judge_ee(b: &[u8]) -> EeVerdict {
    fn f(b: &[u8]) -> Option<(Vec<(u16, Vec<u8>)>, Option<Vec<u8>>)> {
        let mut r = Rd(b);
        let e = ext_list(r.vec(2)?)?;
        if !r.0.is_empty() {
            return None;
        }
        let mut proto = None;
        for (t, d) in &e {
            match t {
                0 | 10 => (),
                16 => {
                    let mut r = Rd(d);
                    let mut l = Rd(r.vec(2)?);
                    let p = l.vec(1)?;
                    if !r.0.is_empty() || !l.0.is_empty() || p.is_empty() {
                        return None;
                    }
                    proto = Some(p.to_vec());
                }
                _ => return None,
            }
        }
        Some((e, proto))
    }
    match f(b) {
        None => EeVerdict::Bad,
        Some((e, p)) => {
            let mut t: Vec<u16> = e.iter().map(|x| x.0).collect();
            t.sort();
            t.dedup();
            if t.len() != e.len() {
                EeVerdict::Unspecified
            } else {
                EeVerdict::Ok(p)
            }
        }
    }
}

// ---- DER ----

pub fn der(tag: u8, body: &[u8]) -> Vec<u8> {
    let l = body.len();
    let mut v = vec![tag];
    if l < 128 {
        v.push(l as u8);
    } else if l < 256 {
        v.extend([0x81, l as u8]);
    } else if l < 65536 {
        v.extend([0x82, (l >> 8) as u8, l as u8]);
    } else {
        v.extend([0x83, (l >> 16) as u8, (l >> 8) as u8, l as u8]);
    }
    v.extend_from_slice(body);
    v
}

#[derive(Debug, Clone, PartialEq)]
pub enum J<T> {
    Ok(T),
    Bad,
    /// BER but not DER, or a part of the format this implementation doesn't look at: no verdict
    Gray,
}

macro_rules! jtry {
    ($e:expr) => {
        match $e {
            J::Ok(x) => x,
            J::Bad => return J::Bad,
            J::Gray => return J::Gray,
        }
    };
}

pub fn der_next<'a>(b: &mut &'a [u8]) -> J<(u8, &'a [u8])> {
    if b.len() < 2 {
        return J::Bad;
    }
    let tag = b[0];
    if tag & 0x1f == 0x1f {
        return J::Bad;
    }
    let (mut len, mut pos) = (b[1] as usize, 2);
    let mut gray = false;
    if len == 0x80 {
        return J::Gray;
    }
    if len > 0x80 {
        let n = len & 0x7f;
        if n > 4 {
            // certainly too large
            return if n > b.len() - 2 { J::Bad } else { J::Gray };
        }
        if n > b.len() - 2 {
            return J::Bad;
        }
        len = b[2..2 + n].iter().fold(0, |a, x| a << 8 | *x as usize);
        gray = len < 128 || (n > 1 && b[2] == 0);
        pos += n;
    }
    if len > b.len() - pos {
        return J::Bad;
    }
    if gray {
        return J::Gray;
    }
    let d = &b[pos..pos + len];
    *b = &b[pos + len..];
    J::Ok((tag, d))
}

fn want<'a>(b: &mut &'a [u8], tag: u8) -> J<&'a [u8]> {
    let (t, d) = jtry!(der_next(b));
    if t == tag {
        J::Ok(d)
    } else {
        J::Bad
    }
}

/// An integer modulo the group order
pub fn sig_int(b: &mut &[u8]) -> J<U> {
    let d = jtry!(want(b, 2));
    if d.is_empty() || d[0] >= 0x80 {
        return J::Bad;
    }
    let v = Nat::from_be(d);
    if v.cmp(&Nat::from_digits(&p256::N)).is_ge() {
        return J::Bad;
    }
    if d.len() > 1 && d[0] == 0 && d[1] < 0x80 {
        return J::Gray;
    }
    J::Ok(v.digits(4).try_into().unwrap())
}

pub fn signature(b: &mut &[u8]) -> J<(U, U)> {
    let d = jtry!(want(b, 3));
    if d.first() != Some(&0) {
        return J::Bad;
    }
    let mut d = &d[1..];
    let mut s = jtry!(want(&mut d, 0x30));
    let r1 = sig_int(&mut s);
    if r1 == J::Bad {
        return J::Bad;
    }
    let r2 = if r1 == J::Gray { return J::Gray } else { jtry!(sig_int(&mut s)) };
    if !s.is_empty() || !d.is_empty() {
        return J::Gray;
    }
    J::Ok((jtry!(r1), r2))
}

pub const OID: [u8; 8] = [0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 2];

/// Whether a certificate has the form this implementation supports (X.509 version 3 with an ECDSA
/// P-256 SHA-256 signature).
pub fn judge_cert(b: &[u8]) -> J<()> {
    let mut gray = false;
    let mut b = b;
    let mut c = jtry!(want(&mut b, 0x30));
    gray |= !b.is_empty();
    let mut t = jtry!(want(&mut c, 0x30));
    let (tag, d) = jtry!(der_next(&mut t));
    if tag != 0xa0 {
        // version 1
        return J::Bad;
    }
    let mut d = d;
    let v = jtry!(want(&mut d, 2));
    gray |= !d.is_empty();
    if v != [2] {
        return J::Bad;
    }
    let (serial, _) = jtry!(der_next(&mut t));
    gray |= serial != 2;
    let (sa, _) = jtry!(der_next(&mut t));
    gray |= sa != 0x30;
    let (is, _) = jtry!(der_next(&mut t));
    gray |= is != 0x30;
    let mut val = jtry!(want(&mut t, 0x30));
    for _ in 0..2 {
        let (tag, _) = jtry!(der_next(&mut val));
        if tag != 0x17 && tag != 0x18 {
            return J::Bad;
        }
    }
    gray |= !val.is_empty();
    let (su, _) = jtry!(der_next(&mut t));
    gray |= su != 0x30;
    let (sp, _) = jtry!(der_next(&mut t));
    gray |= sp != 0x30;
    // the extensions: optional in X.509, required here
    match der_next(&mut t) {
        J::Ok((x, _)) => gray |= x != 0xa3 || !t.is_empty(),
        _ => gray = true,
    }
    let mut alg = jtry!(want(&mut c, 0x30));
    let oid = jtry!(want(&mut alg, 6));
    if oid != OID {
        return J::Bad;
    }
    gray |= !alg.is_empty();
    match signature(&mut c) {
        J::Bad => return J::Bad,
        J::Gray => return J::Gray,
        J::Ok(_) => (),
    }
    gray |= !c.is_empty();
    if gray {
        J::Gray
    } else {
        J::Ok(())
    }
}

/// Whether the body of a Certificate message is well formed.
pub fn judge_certs(b: &[u8]) -> J<()> {
    fn f(b: &[u8]) -> Option<(usize, Vec<Vec<u8>>)> {
        let mut r = Rd(b);
        let ctx = r.vec(1)?.len();
        let l = r.vec(3)?;
        if !r.0.is_empty() {
            return None;
        }
        let mut l = Rd(l);
        let mut v = vec![];
        while !l.0.is_empty() {
            v.push(l.vec(3)?.to_vec());
            l.vec(2)?;
        }
        Some((ctx, v))
    }
    let Some((ctx, certs)) = f(b) else { return J::Bad };
    let mut gray = ctx != 0 || certs.is_empty();
    for c in certs {
        match judge_cert(&c) {
            J::Bad => return J::Bad,
            J::Gray => gray = true,
            _ => (),
        }
    }
    if gray {
        J::Gray
    } else {
        J::Ok(())
    }
}

pub fn certs_msg(certs: &[Vec<u8>], exts: &[u8]) -> Vec<u8> {
    let mut l = vec![];
    for c in certs {
        l.extend([(c.len() >> 16) as u8, (c.len() >> 8) as u8, c.len() as u8]);
        l.extend_from_slice(c);
        l.extend(len16(exts));
    }
    let mut v = vec![0, (l.len() >> 16) as u8, (l.len() >> 8) as u8, l.len() as u8];
    v.extend(l);
    v
}

pub fn der_uint(x: &U) -> Vec<u8> {
    let b = p256::to_be(x);
    let mut v: Vec<u8> = b.iter().copied().skip_while(|x| *x == 0).collect();
    if v.first().map_or(true, |x| *x >= 0x80) {
        v.insert(0, 0);
    }
    der(2, &v)
}

/// all alerts of RFC 8446 this library names
pub const ALERTS: [u8; 27] = [
    0, 10, 20, 22, 40, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 70, 71, 80, 86, 90, 109, 110, 112, 113, 115, 116, 120,
];
