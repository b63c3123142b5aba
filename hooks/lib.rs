use super::*;
use crate::aead::TlsAead;
use crate::error::FullError;
use crate::extensions::key_share::GroupKeys;
use crate::handshake::{ShakeBuf, ShakeType};
use crate::record::{ContentType, RecordLayer};
use crate::state::{GlobalState, UnprotShakeState};

fn ct(t: u8) -> ContentType {
    match t {
        20 => ContentType::ChangeCipherSpec,
        21 => ContentType::Alert,
        22 => ContentType::Handshake,
        _ => ContentType::ApplicationData,
    }
}
fn al(a: u8) -> TurtlsAlert {
    TurtlsAlert::from_byte(a)
}
fn fe(e: FullError) -> (u32, u32) {
    (e.turtls_error as u32, e.alert as u32)
}

pub struct Aead(pub(crate) TlsAead);
impl Aead {
    pub fn new(write: &[u8; 32], read: &[u8; 32], cipher: u8) -> Option<Self> {
        TlsAead::new(write, read, TurtlsCipherList { suites: cipher }).map(Aead)
    }
    pub fn set(&mut self, write: u64, read: u64) {
        self.0.verif_set(write, read)
    }
    pub fn encrypt(&mut self, msg: &mut [u8], aad: &[u8]) -> [u8; 16] {
        self.0.encrypt_inline(msg, aad)
    }
    pub fn decrypt(&mut self, msg: &mut [u8], aad: &[u8], tag: &[u8; 16]) -> bool {
        self.0.decrypt_inline(msg, aad, tag).is_ok()
    }
}

pub struct Rl(pub(crate) Box<RecordLayer>);
impl Rl {
    pub fn new(io: TurtlsIo) -> Self {
        Rl(Box::new(RecordLayer::new(io)))
    }
    pub fn write_raw(&mut self, b: &[u8], t: u8) -> Result<(), u32> {
        self.0.write_raw(b, ct(t)).map_err(|e| e as u32)
    }
    pub fn write(&mut self, b: &[u8], t: u8, a: &mut Aead) -> Result<(), u32> {
        self.0.write(b, ct(t), &mut a.0).map_err(|e| e as u32)
    }
    pub fn read_raw(&mut self, b: &mut [u8]) -> Result<usize, (u32, u32)> {
        self.0.read_raw(b).map_err(fe)
    }
    pub fn read(&mut self, b: &mut [u8], a: &mut Aead) -> Result<usize, (u32, u32)> {
        self.0.read(b, &mut a.0).map_err(fe)
    }
    pub fn get(&mut self, a: &mut Aead) -> Result<(), (u32, u32)> {
        self.0.get(&mut a.0).map_err(fe)
    }
    pub fn msg_type(&self) -> u8 {
        self.0.msg_type()
    }
    pub fn discard(&mut self) {
        self.0.discard()
    }
    pub fn close_raw(&mut self, a: u8) {
        self.0.close_raw(al(a))
    }
    pub fn close(&mut self, a: u8, k: &mut Aead) {
        self.0.close(al(a), &mut k.0)
    }
}

pub fn expand_label(out: &mut [u8], secret: &[u8; 32], label: &[u8], ctx: &[u8]) {
    key_schedule::hkdf_expand_label(out, secret, label, ctx)
}
pub fn derive_secret(secret: &[u8; 32], label: &[u8], transcript: &[u8; 32]) -> [u8; 32] {
    key_schedule::derive_secret(secret, label, transcript)
}

pub struct Shake {
    buf: ShakeBuf,
    transcript: TranscriptHasher,
}
impl Shake {
    pub fn new(max: usize) -> Self {
        Shake { buf: ShakeBuf::new(max), transcript: TranscriptHasher::new() }
    }
    pub fn read_raw(&mut self, rl: &mut Rl) -> Result<(), (u32, u32)> {
        self.buf.read_raw(&mut rl.0, &mut self.transcript).map_err(fe)
    }
    pub fn read(&mut self, rl: &mut Rl, a: &mut Aead) -> Result<(), (u32, u32)> {
        self.buf.read(&mut rl.0, &mut a.0, &mut self.transcript).map_err(fe)
    }
    pub fn put(&mut self, server_hello: bool, chunks: &[Vec<u8>]) {
        self.buf.start(if server_hello { ShakeType::ServerHello } else { ShakeType::ClientHello });
        for c in chunks {
            if c.len() == 1 {
                self.buf.push(c[0]);
            } else {
                self.buf.extend_from_slice(c);
            }
        }
    }
    pub fn write_raw(&mut self, rl: &mut Rl) -> Result<(), u32> {
        self.buf.write_raw(&mut rl.0, &mut self.transcript).map_err(|e| e as u32)
    }
    pub fn write(&mut self, rl: &mut Rl, a: &mut Aead) -> Result<(), u32> {
        self.buf.write(&mut rl.0, &mut self.transcript, &mut a.0).map_err(|e| e as u32)
    }
    pub fn data(&self) -> (u8, Vec<u8>) {
        (self.buf.msg_type(), self.buf.data().to_vec())
    }
    pub fn transcript(&self) -> [u8; 32] {
        self.transcript.get()
    }
}

fn global(io: TurtlsIo) -> GlobalState {
    TurtlsConn::new(io).gloabl_state
}

/// `Ok`: the connection's secret and the keys
pub fn server_hello(io: TurtlsIo, ch: &[u8], sh: &[u8], ciphers: u8, groups: u16, secret: &[u8; 32]) -> Result<([u8; 32], Aead), u8> {
    let mut g = global(io);
    let body = &sh[4..];
    g.secret = *secret;
    g.transcript.update_with(ch);
    g.transcript.update_with(sh);
    let mut u = UnprotShakeState {
        priv_keys: GroupKeys::generate(1).ok().unwrap(),
        sup_groups: groups,
        sig_algs: 1,
        ciphers: TurtlsCipherList { suites: ciphers },
    };
    match server_hello::server_hello_client(body, &mut u, &mut g) {
        Ok(a) => Ok((g.secret, Aead(a))),
        Err(a) => Err(a as u8),
    }
}
pub fn encrypted_extensions(io: TurtlsIo, b: &[u8], proto: &mut [u8; 256]) -> Result<(), u8> {
    let mut g = global(io);
    g.app_proto = *proto;
    let r = extensions::parse_encrypted_extensions(b, &mut g);
    *proto = g.app_proto;
    r.map_err(|a| a as u8)
}
pub fn certificate(b: &[u8]) -> Result<(), u8> {
    certificates::parse_certificate(b).map_err(|a| a as u8)
}
pub fn cert_iter(b: &[u8]) -> Vec<(Vec<u8>, Vec<u8>)> {
    certificates::CertIter::new(b).map(|c| (c.data.to_vec(), c.extensions.to_vec())).collect()
}
pub fn ext_iter(b: &[u8]) -> Vec<(u16, Vec<u8>)> {
    extensions::verif::iter(b)
}
pub fn der_iter(b: &[u8]) -> Vec<(u8, Vec<u8>)> {
    certificates::der::DerIter::new(b).map(|o| (o.tag, o.data.to_vec())).collect()
}
pub fn validate_cert(b: &[u8]) -> Result<(), u32> {
    certificates::x509::verif::validate(b)
}
pub fn sig_int(tag: u8, data: &[u8]) -> Result<[u8; 32], u32> {
    certificates::x509::verif::sig_int(tag, data)
}
pub fn signature(tag: u8, data: &[u8]) -> Result<(), u32> {
    certificates::x509::verif::signature(tag, data)
}
pub fn alert_from_byte(b: u8) -> u8 {
    TurtlsAlert::from_byte(b) as u8
}
pub fn alert_msg(b: u8) -> [u8; 2] {
    crate::alert::AlertMsg::new(al(b)).to_be_bytes()
}
