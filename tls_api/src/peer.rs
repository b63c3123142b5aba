//! A scripted TLS server.
use crate::sim::*;
use vsrc::p256::{self, U};
use vsrc::tls::{self, Hello, Keys};
use vsrc::Src;

#[derive(Clone, Debug)]
pub struct Cut {
    pub len: usize,
    pub pad: usize,
    /// how many ChangeCipherSpec records come first
    pub ccs: usize,
}

pub fn one_cut() -> Vec<Cut> {
    vec![Cut { len: 0x4000, pad: 0, ccs: 0 }]
}

pub fn cuts(s: &mut Src) -> Vec<Cut> {
    let n = s.range(1, 6);
    let style = s.below(5);
    (0..n)
        .map(|_| Cut {
            len: match style {
                0 => s.range(1, 5),
                1 => s.range(1, 80),
                2 => s.pick(&[1, 3, 4, 5, 0x3fff, 0x4000]),
                3 => s.range(1, 0x4000),
                _ => 0x4000,
            },
            pad: if s.below(3) == 0 { s.range(0, 40) } else { 0 },
            ccs: if s.below(6) == 0 { s.range(1, 3) } else { 0 },
        })
        .collect()
}

/// cuts `b` into records; `seal` makes a record from a fragment and an amount of padding
pub fn fragment(b: &[u8], cuts: &[Cut], mut seal: impl FnMut(&[u8], usize) -> Vec<u8>) -> Vec<u8> {
    let mut out = vec![];
    let mut p = 0;
    let mut i = 0;
    while p < b.len() {
        let c = &cuts[i % cuts.len()];
        i += 1;
        for _ in 0..c.ccs {
            out.extend(tls::record(20, &[1]));
        }
        let n = c.len.clamp(1, 0x4000).min(b.len() - p);
        out.extend(seal(&b[p..p + n], c.pad.min(255)));
        p += n;
    }
    out
}

/// The ClientHello message in the client's output
pub fn client_msg(out: &[u8]) -> Option<Vec<u8>> {
    let mut m = vec![];
    for (t, _, b) in tls::records(out).ok()? {
        if t != 22 {
            break;
        }
        m.extend(b);
    }
    if m.len() < 4 {
        return None;
    }
    let n = 4 + u32::from_be_bytes([0, m[1], m[2], m[3]]) as usize;
    (m.len() == n).then_some(m)
}

#[derive(Clone, Debug)]
pub struct Server {
    /// private key
    pub ks: U,
    pub random: Vec<u8>,
    pub cipher: u16,
    /// replaces the body of the ServerHello
    pub body: Option<Vec<u8>>,
}

pub struct Session {
    pub ch: Vec<u8>,
    pub hello: Hello,
    pub sh: Vec<u8>,
    pub server: Keys,
    pub client: Keys,
}

impl Server {
    pub fn new(s: &mut Src, cipher: u16) -> Server {
        let mut ks: U = s.digits();
        if p256::cmp(&ks, &p256::N).is_ge() {
            ks = [ks[0], ks[1], 0, 0];
        }
        if ks == [0; 4] {
            ks = [1, 0, 0, 0];
        }
        let mut random = s.bytes(32);
        // never the value that marks a HelloRetryRequest
        if random[0] == 0xcf {
            random[0] = 0;
        }
        Server { ks, random, cipher, body: None }
    }
    pub fn share(&self) -> (U, U) {
        p256::mul(&self.ks, &Some((p256::GX, p256::GY))).unwrap()
    }
    pub fn exts(&self, order: bool) -> Vec<u8> {
        let v = tls::ext(43, &[3, 4]);
        let k = tls::share_ext(&tls::point_bytes(&self.share()));
        if order {
            [v, k].concat()
        } else {
            [k, v].concat()
        }
    }
    pub fn std_body(&self) -> Vec<u8> {
        tls::server_hello(&self.random, self.cipher, &self.exts(true))
    }
    pub fn session(&self, out: &[u8]) -> Option<Session> {
        let ch = client_msg(out)?;
        let hello = tls::client_hello(&ch)?;
        let p = tls::client_share(&hello)?;
        let dh = p256::to_be(&p256::mul(&self.ks, &Some(p))?.0);
        let body = self.body.clone().unwrap_or_else(|| self.std_body());
        let sh = tls::msg(2, &body);
        let sched = tls::schedule(&dh, &[&ch[..], &sh[..]].concat());
        Some(Session {
            ch,
            hello,
            sh,
            server: Keys::from_secret(self.cipher, &sched.server),
            client: Keys::from_secret(self.cipher, &sched.client),
        })
    }
}

pub fn key_script(s: &mut Src) -> Op {
    let mut k = s.bytes(32);
    let r = s.bytes(32);
    // not zero modulo the group order
    if k.iter().all(|x| *x == 0) {
        k[0] = 1;
    }
    Op::Rng(vec![getrandom::Next::Bytes(k), getrandom::Next::Bytes(r)])
}

pub fn limits(s: &mut Src) -> (Vec<u16>, Vec<u16>) {
    fn one(s: &mut Src) -> Vec<u16> {
        let n = s.range(1, 9);
        let mut v: Vec<u16> = (0..n)
            .map(|_| match s.below(5) {
                0 => 0,
                1 => s.range(1, 4) as u16,
                2 => s.range(1, 60) as u16,
                3 => s.range(1, 0x4200) as u16,
                _ => 0xffff,
            })
            .collect();
        if v.iter().all(|x| *x == 0) {
            v[0] = s.range(1, 100) as u16;
        }
        v
    }
    (one(s), one(s))
}

/// A certificate this implementation accepts
pub fn cert(s: &mut Src) -> Vec<u8> {
    use tls::{der, der_uint};
    let r: U = small_scalar(s);
    let t: U = small_scalar(s);
    let n = s.range(0, 12);
    let name = der(0x30, &s.bytes(n));
    let n = s.range(1, 200);
    let spki = der(0x30, &s.bytes(n));
    let times = [
        der(s.pick(&[0x17, 0x18]), b"250101000000Z"),
        der(s.pick(&[0x17, 0x18]), b"350101000000Z"),
    ]
    .concat();
    let n = s.pick(&[0usize, 3, 40, 120, 140, 300]);
    let exts = der(0xa3, &der(0x30, &s.bytes(n)));
    let alg = der(0x30, &der(6, &tls::OID));
    let tbs = der(
        0x30,
        &[der(0xa0, &der(2, &[2])), der(2, &[1, 2, 3]), alg.clone(), name.clone(), der(0x30, &times), name, spki, exts].concat(),
    );
    let mut bits = vec![0];
    bits.extend(der(0x30, &[der_uint(&r), der_uint(&t)].concat()));
    der(0x30, &[tbs, alg, der(3, &bits)].concat())
}

pub fn small_scalar(s: &mut Src) -> U {
    let mut r: U = match s.below(4) {
        0 => [s.below(256), 0, 0, 0],
        1 => {
            let mut n = p256::N;
            n[0] -= 1 + s.below(300);
            n
        }
        _ => s.digits(),
    };
    if p256::cmp(&r, &p256::N).is_ge() {
        r[3] >>= 8;
    }
    r
}
