use crate::peer::*;
use crate::sim::*;
use getrandom::Next;
use vsrc::nat::Nat;
use vsrc::p256::{self, U};
use vsrc::tls::{self, EeVerdict, ShVerdict, AES128, CHACHA, J};
use vsrc::{check, hex, Src};

type R = Result<bool, String>;

fn cipher(s: &mut Src) -> u16 {
    s.pick(&[CHACHA, AES128])
}
fn bit(c: u16) -> u8 {
    if c == CHACHA {
        1
    } else {
        2
    }
}

/// the alert record the client must have sent last, if the keys aren't known yet
fn check_raw_alert(o: &Outcome, ch_len: usize, alert: u8) -> Result<(), String> {
    let tail = &o.out()[ch_len..];
    check!(tail == tls::record(21, &[2, alert]), "after the ClientHello the client wrote {} instead of the alert {alert}", hex(tail));
    Ok(())
}

fn out_of_hello(o: &[u8]) -> Result<usize, String> {
    let mut n = 0;
    for (t, _, b) in tls::records(o)? {
        if t != 22 {
            break;
        }
        n += 5 + b.len();
    }
    Ok(n)
}

/// checks that the client failed with `alert`, sent exactly this alert, protected by `keys` if they are in use, and closed
fn check_failed(o: &Outcome, keys: Option<tls::Keys>, alert: u8) -> Result<(), String> {
    check!(!o.todo, "the handshake was accepted, expected alert {alert}");
    let l = o.last();
    check!(l.ret == -1 && l.err == TLS, "turtls_connect returned {} with error {}, expected Tls", l.ret, l.err);
    check!(l.alert == alert as u32, "turtls_get_tls_error is {}, expected {alert}", l.alert);
    check!(l.closes == 1, "the connection was closed {} times", l.closes);
    check_sent(o, keys, alert)
}

fn check_sent(o: &Outcome, keys: Option<tls::Keys>, alert: u8) -> Result<(), String> {
    let n = out_of_hello(o.out())?;
    match keys {
        None => check_raw_alert(o, n, alert),
        Some(mut k) => {
            let tail = &o.out()[n..];
            let recs = tls::records(tail)?;
            check!(recs.len() == 1, "{} records were written after the ClientHello: {}", recs.len(), hex(tail));
            let inner = k.open(tail);
            check!(inner.is_some(), "the record {} can't be decrypted with the client's key", hex(tail));
            let mut inner = inner.unwrap();
            while inner.last() == Some(&0) {
                inner.pop();
            }
            check!(tail[..3] == [23, 3, 3] && inner == [2, alert, 21], "the client sent {} instead of the alert {alert}", hex(&inner));
            Ok(())
        }
    }
}

/// any fatal alert, sent and reported alike
fn check_rejected(o: &Outcome, keys: Option<tls::Keys>) -> Result<(), String> {
    check!(!o.todo && !o.waiting(), "the message was accepted");
    let l = o.last();
    check!(l.ret == -1 && l.err == TLS, "turtls_connect returned {} with error {}, expected Tls", l.ret, l.err);
    check_failed(o, keys, l.alert as u8)
}

fn peer(f: impl FnMut(&[u8]) -> Vec<u8> + 'static) -> Op {
    Op::Peer(Box::new(f))
}

fn plain(sh: &[u8]) -> Vec<u8> {
    fragment(sh, &one_cut(), |b, _| tls::record(22, b))
}

const EE: [u8; 2] = [0, 0];

// ---------------------------------------------------------------- T01

/// The server sends hundreds of records, so the sequence number of the reader takes many values;
/// the client's alert at the end must still be its record 0.
pub fn read_nonces(s: &mut Src) -> R {
    let c = cipher(s);
    let srv = Server::new(s, c);
    let k = key_script(s);
    let n = s.range(0, 600);
    let fault = s.bool();
    let big = s.pick(&[0usize, 100, 1200]);
    let names = s.bytes(n + big);
    let ee = tls::msg(8, &tls::len16(&tls::ext(0, &names)));
    let cut = s.range(1, 3);
    let srv2 = srv.clone();
    let o = run(vec![
        k,
        peer(move |out| {
            let Some(mut x) = srv2.session(out) else { return vec![] };
            let mut v = plain(&x.sh);
            v.extend(fragment(&ee, &[Cut { len: cut, pad: 0, ccs: 0 }], |b, p| x.server.seal(22, b, p)));
            if fault {
                // a record that was protected with the sequence number of another record
                x.server.seq += 1;
                v.extend(x.server.seal(22, &tls::msg(11, &[0]), 0));
            }
            v
        }),
        Op::Connect,
        Op::Close,
    ])?;
    let x = srv.session(o.out()).ok_or("no ClientHello")?;
    let conn = &o.calls[o.calls.len() - 2];
    if fault {
        check!(conn.err == TLS && conn.alert == 20, "a record with a wrong sequence number isn't rejected as bad_record_mac: error {} alert {}", conn.err, conn.alert);
        check_sent(&o, Some(x.client), 20)?;
    } else {
        check!(conn.err == WANT_READ && conn.starved, "a flight of {} records isn't accepted: error {} alert {}", (n + big) / cut, conn.err, conn.alert);
        check_sent(&o, Some(x.client), 0)?;
    }
    Ok(n + big > 0)
}

// ---------------------------------------------------------------- T02

fn random_cfg(s: &mut Src) -> Cfg {
    let name = match s.below(3) {
        0 => None,
        _ => {
            let n = s.len(64, 400);
            Some(s.bytes(n).iter().map(|b| if *b == 0 { b'a' } else { *b }).collect())
        }
    };
    let protos = match s.below(4) {
        0 => None,
        1 => {
            let n = s.pick(&[0x3f00usize, 0x3fff, 0x4000, 0x4001, 0x7f00, 0x8000, 0xfb00, 64500]) - s.range(0, 300);
            Some(s.bytes(n))
        }
        _ => {
            let n = s.len(64, 600);
            Some(s.bytes(n))
        }
    };
    Cfg {
        server_name: name,
        protos,
        sig_algs: s.pick(&[1, 0, 3, 0xffff, 2]),
        groups: s.pick(&[1, 1, 3, 0xffff, 2]),
        ciphers: s.pick(&[3, 1, 2, 0xff, 0, 0xfd, 4]),
    }
}

/// Records written for a ClientHello under any pattern of partial and failed writes, including a
/// close in the middle.
pub fn framing(s: &mut Src) -> R {
    let mut cfg = random_cfg(s);
    if s.bool() {
        // just around the size of a record
        let n = 0x4000 - s.range(0, 300);
        cfg.protos = Some(s.bytes(n));
    }
    let k = s.array::<32>();
    let r = s.array::<32>();
    if k == [0; 32] {
        return Ok(false);
    }
    let (rd, wr) = limits(s);
    let once = s.bool();
    let rng = || Op::Rng(vec![Next::Bytes(k.to_vec()), Next::Bytes(r.to_vec())]);
    let o0 = run(vec![rng(), Op::Config(cfg.clone()), Op::Connect])?;
    let mut ops = vec![rng(), Op::Config(cfg), Op::Limits { rd, wr: wr.clone() }];
    ops.push(if once { Op::ConnectOnce } else { Op::Connect });
    // the alert itself isn't interrupted, only the handshake message
    ops.push(Op::Limits { rd: vec![], wr: vec![] });
    ops.push(Op::Close);
    let o = run(ops)?;
    let whole = o0.out();
    let recs = tls::records(whole)?;
    check!(!recs.is_empty(), "nothing was written");
    let mut m = vec![];
    for (t, v, b) in &recs {
        check!(*t == 22 && *v == 0x0303, "record of type {t} and version {v:04x}");
        check!(!b.is_empty() && b.len() <= 0x4000, "record of {} bytes", b.len());
        m.extend_from_slice(b);
    }
    check!(m.len() >= 4 && m[0] == 1 && m.len() == 4 + u32::from_be_bytes([0, m[1], m[2], m[3]]) as usize, "the records don't contain exactly the ClientHello: {} bytes starting with {}", m.len(), hex(&m[..m.len().min(8)]));
    // interrupted: whole records of the same message, then the alert
    let recs2 = tls::records(o.out())?;
    let Some((last, body)) = recs2.split_last() else { return Err("nothing was written".into()) };
    check!(*last == (21, 0x0303, vec![2, 0]), "turtls_close didn't write close_notify last but {last:?}");
    check!(body.len() <= recs.len() && body[..] == recs[..body.len()], "with interrupted writes ({wr:?}) the records of the handshake message differ");
    if !once {
        check!(body.len() == recs.len(), "with interrupted writes ({wr:?}) only {} of {} records were written", body.len(), recs.len());
    } else {
        let before = o.calls[0].out as usize;
        let sum: usize = body.iter().map(|b| 5 + b.2.len()).sum();
        check!(sum >= before, "bytes were lost");
        if sum > before {
            let sum1: usize = body[..body.len() - 1].iter().map(|b| 5 + b.2.len()).sum();
            check!(sum1 <= before, "turtls_close wrote a new record of the interrupted message");
        }
    }
    check!(o.last().closes == 1, "closed {} times", o.last().closes);
    Ok(recs.len() > 1 || wr.len() > 1)
}

/// Protected alerts, under partial and failed writes.
pub fn protected_framing(s: &mut Src) -> R {
    let c = cipher(s);
    let srv = Server::new(s, c);
    let k = key_script(s);
    let srv2 = srv.clone();
    let (_, mut wr) = limits(s);
    wr.retain(|x| *x != 0);
    let o = run(vec![
        k,
        peer(move |out| {
            let Some(x) = srv2.session(out) else { return vec![] };
            plain(&x.sh)
        }),
        Op::Connect,
        Op::Limits { rd: vec![], wr },
        Op::Close,
        Op::Close,
    ])?;
    let x = srv.session(o.out()).ok_or("no ClientHello")?;
    check_sent(&o, Some(x.client), 0)?;
    check!(o.last().closes == 1, "closed {} times", o.last().closes);
    Ok(true)
}

// ---------------------------------------------------------------- T03

/// Protected records of any size and padding arrive intact, however the transport cuts them.
pub fn good_records(s: &mut Src) -> R {
    let c = cipher(s);
    let srv = Server::new(s, c);
    let k = key_script(s);
    let (rd, wr) = limits(s);
    // the data: an application protocol name after an extension that is ignored
    let fill = s.pick(&[0usize, 1, 200, 0x1000, 0x3fe0, 0x5000, 0x7000]);
    let plen = s.range(1, 255);
    let proto: Vec<u8> = s.bytes(plen).iter().map(|b| b | 1).collect();
    let mut alpn = vec![plen as u8];
    alpn.extend(&proto);
    let filler = s.bytes(fill);
    let ee = tls::msg(8, &tls::len16(&[tls::ext(0, &filler), tls::ext(16, &tls::len16(&alpn))].concat()));
    let pads: Vec<usize> = (0..s.range(1, 4)).map(|_| s.pick(&[0, 1, 15, 16, 200, 255])).collect();
    let len = s.pick(&[0x4000usize, 0x4000, 0x3fff, 0x2000, 333, 64]);
    let cfg = Cfg { protos: Some(alpn.clone()), ..Cfg::std() };
    let o = run(vec![
        k,
        Op::Config(cfg),
        Op::Limits { rd, wr },
        peer(move |out| {
            let Some(mut x) = srv.session(out) else { return vec![] };
            let mut v = plain(&x.sh);
            let cuts: Vec<Cut> = pads.iter().map(|p| Cut { len, pad: *p, ccs: 0 }).collect();
            v.extend(fragment(&ee, &cuts, |b, p| x.server.seal(22, b, p.min(0x4000 + 255 - 16 - b.len()))));
            v
        }),
        Op::Connect,
    ])?;
    check!(o.waiting(), "valid records are rejected: error {} alert {}", o.last().err, o.last().alert);
    check!(o.proto[..plen] == proto[..] && o.proto[plen..].iter().all(|x| *x == 0), "the content of the records was changed: got {} instead of {}", hex(&o.proto), hex(&proto));
    Ok(true)
}

/// A protected record that is changed in any way, or has a wrong form, ends the connection.
pub fn bad_protected(s: &mut Src) -> R {
    let c = cipher(s);
    let srv = Server::new(s, c);
    let k = key_script(s);
    let (rd, _) = limits(s);
    let good = s.range(0, 3);
    let kind = s.below(11);
    let p1 = s.raw() as usize;
    let p2 = s.raw() as usize;
    let content = tls::msg(11, &s.bytes(p1 % 100));
    let srv2 = srv.clone();
    let alert = match kind {
        0 | 1 => 20,
        2 => 22,
        3 => 22,
        4 => 10,
        5 => 50,
        6 => 20,
        7 => 10,
        8 => 10,
        9 => 20,
        _ => 10,
    };
    let o = run(vec![
        k,
        Op::Limits { rd, wr: vec![] },
        peer(move |out| {
            let Some(mut x) = srv2.session(out) else { return vec![] };
            let mut v = plain(&x.sh);
            let ee = tls::msg(8, &EE);
            if good > 0 {
                v.extend(fragment(&ee, &[Cut { len: 6 / good, pad: good, ccs: 0 }], |b, p| x.server.seal(22, b, p)));
            }
            v.extend(match kind {
                // a flipped bit of the ciphertext or the tag
                0 => {
                    let mut r = x.server.seal(22, &content, p2 % 20);
                    let n = r.len() - 5;
                    r[5 + p2 % n] ^= 1 << (p1 % 8);
                    r
                }
                // a changed header
                1 => {
                    let mut r = x.server.seal(22, &content, 0);
                    r[1 + p1 % 2] ^= 1 << (p2 % 8);
                    r
                }
                // too long, before decryption
                2 => {
                    let n = 0x4000 + 0x101 + p1 % 40000;
                    let mut r = vec![23, 3, 3, (n >> 8) as u8, n as u8];
                    r.resize(5 + n.min(65535), 7);
                    r
                }
                // too long, after decryption
                3 => {
                    let n = 0x4001 + p1 % (0x100 - 17 - 1);
                    x.server.seal(22, &vec![1; n], 0)
                }
                // only zeros
                4 => x.server.seal_inner(&vec![0; 1 + p1 % 300]),
                // too short for a tag and a type
                5 => tls::record(23, &vec![p2 as u8; 1 + p1 % 16]),
                // nothing but garbage
                6 => tls::record(23, &vec![p2 as u8; 17 + p1 % 600]),
                // not protected
                7 => tls::record(22, &content),
                // a protected change_cipher_spec
                8 => x.server.seal(20, &[1], p1 % 5),
                // the last bytes of the record are missing, the length is adapted
                9 => {
                    let r = x.server.seal(22, &content, 20);
                    let n = r.len() - 5;
                    let cut = 1 + p2 % (n - 17).min(30);
                    tls::record(23, &r[5..5 + n - cut])
                }
                // some other unprotected type
                _ => tls::record([0u8, 19, 21, 24, 25, 128, 255][p1 % 7], &content),
            });
            v
        }),
        Op::Connect,
    ])?;
    let x = srv.session(o.out()).ok_or("no ClientHello")?;
    check_failed(&o, Some(x.client), alert).map_err(|e| format!("kind {kind}, {good} good records before: {e}"))?;
    Ok(true)
}

/// Records before encryption starts.
pub fn bad_plain(s: &mut Src) -> R {
    let k = key_script(s);
    let (rd, _) = limits(s);
    let kind = s.below(2);
    let p1 = s.raw() as usize;
    let p2 = s.raw() as usize;
    let alert = if kind == 0 { 22 } else { 10 };
    let o = run(vec![
        k,
        Op::Limits { rd, wr: vec![] },
        peer(move |_| {
            if kind == 0 {
                let t = [20u8, 21, 22, 24][p1 % 4];
                let n = 0x4001 + p2 % (65535 - 0x4001);
                let mut r = vec![t, 3, 3, (n >> 8) as u8, n as u8];
                r.resize(n + 5, p1 as u8);
                r
            } else {
                let t = [0u8, 19, 23, 24, 100, 255][p1 % 6];
                tls::record(t, &vec![2; 1 + p2 % 300])
            }
        }),
        Op::Connect,
    ])?;
    check_failed(&o, None, alert)?;
    Ok(true)
}

// ---------------------------------------------------------------- T04

/// Handshake messages that are cut in any way into records, with change_cipher_spec records in
/// between, are put together again, and the transcript covers exactly the messages.
pub fn fragments(s: &mut Src) -> R {
    let c = cipher(s);
    let srv = Server::new(s, c);
    let k = key_script(s);
    let (rd, wr) = limits(s);
    let c1 = cuts(s);
    let c2 = cuts(s);
    let join = s.bool();
    let plen = s.range(1, 40);
    let proto: Vec<u8> = s.bytes(plen).iter().map(|b| b | 1).collect();
    let mut alpn = vec![plen as u8];
    alpn.extend(&proto);
    let n = s.pick(&[0usize, 10, 300, 0x3fe0, 0x4000, 0x6000, 0xf000]);
    let filler = s.bytes(n);
    let ee = tls::msg(8, &tls::len16(&[tls::ext(0, &filler), tls::ext(16, &tls::len16(&alpn))].concat()));
    let ncert = s.range(1, 3);
    let certs: Vec<Vec<u8>> = (0..ncert).map(|_| cert(s)).collect();
    let ce = s.pick(&[0usize, 5, 0x2000, 0x9000]);
    let exts = s.bytes(ce);
    let cm = tls::msg(11, &tls::certs_msg(&certs, &exts));
    let cfg = Cfg { protos: Some(alpn.clone()), ..Cfg::std() };
    let o = run(vec![
        k,
        Op::Config(cfg),
        Op::Limits { rd, wr },
        peer(move |out| {
            let Some(mut x) = srv.session(out) else { return vec![] };
            let mut v = fragment(&x.sh, &c1, |b, _| tls::record(22, b));
            if join {
                // messages share records
                v.extend(fragment(&[&ee[..], &cm[..]].concat(), &c2, |b, p| x.server.seal(22, b, p)));
            } else {
                v.extend(fragment(&ee, &c2, |b, p| x.server.seal(22, b, p)));
                v.extend(fragment(&cm, &c2, |b, p| x.server.seal(22, b, p)));
            }
            v
        }),
        Op::Connect,
    ])?;
    check!(o.todo, "a valid flight isn't accepted: error {} alert {} starved {}", o.last().err, o.last().alert, o.last().starved);
    check!(o.proto[..plen] == proto[..] && o.proto[plen..].iter().all(|x| *x == 0), "EncryptedExtensions was changed: {}", hex(&o.proto));
    Ok(true)
}

/// messages of the wrong type, too long messages, other records within a message
pub fn bad_messages(s: &mut Src) -> R {
    let c = cipher(s);
    let srv = Server::new(s, c);
    let k = key_script(s);
    let (rd, _) = limits(s);
    let at = s.below(3);
    let kind = s.below(4);
    let p1 = s.raw() as usize;
    let p2 = s.raw() as usize;
    let cm = tls::msg(11, &tls::certs_msg(&[cert(s)], &[]));
    let srv2 = srv.clone();
    let alert = match kind {
        0 => 10,
        1 => 47,
        _ => 10,
    };
    let o = run(vec![
        k,
        Op::Limits { rd, wr: vec![] },
        peer(move |out| {
            let Some(mut x) = srv2.session(out) else { return vec![] };
            let ee = tls::msg(8, &EE);
            let mut sh = x.sh.clone();
            let (mut ee, mut cm) = (ee, cm.clone());
            let bad = |m: &mut Vec<u8>, good: u8| match kind {
                0 => {
                    m[0] = [0, 1, 2, 4, 5, 8, 11, 13, 15, 20, 24, 254, 255][p1 % 13];
                    if m[0] == good {
                        m[0] = 12;
                    }
                }
                1 => {
                    // longer than any message this implementation accepts
                    let n = 0x20000 - 4 + 1 + p2 % (0xffffff - 0x20000);
                    m[1..4].copy_from_slice(&(n as u32).to_be_bytes()[1..]);
                }
                _ => (),
            };
            match at {
                0 => bad(&mut sh, 2),
                1 => bad(&mut ee, 8),
                _ => bad(&mut cm, 11),
            }
            // application data, or something unknown, in the middle of a message
            let other = [23u8, 0, 24, 99][p1 % 4];
            let mut v = vec![];
            if at == 0 && kind >= 2 {
                let n = 1 + p2 % (sh.len() - 1);
                v.extend(tls::record(22, &sh[..n]));
                v.extend(tls::record(other, &[1, 2, 3]));
                return v;
            }
            v.extend(plain(&sh));
            if at == 1 && kind >= 2 {
                let n = 1 + p2 % (ee.len() - 1);
                v.extend(x.server.seal(22, &ee[..n], 0));
                v.extend(x.server.seal(other, &[1, 2, 3], 0));
                return v;
            }
            v.extend(x.server.seal(22, &ee, 0));
            if at == 2 && kind >= 2 {
                let n = 1 + p2 % (cm.len() - 1);
                v.extend(x.server.seal(22, &cm[..n], 0));
                v.extend(x.server.seal(other, &[1, 2, 3], 0));
                return v;
            }
            v.extend(x.server.seal(22, &cm, 0));
            v
        }),
        Op::Connect,
    ])?;
    let x = srv.session(o.out()).ok_or("no ClientHello")?;
    check_failed(&o, if at == 0 { None } else { Some(x.client) }, alert).map_err(|e| format!("kind {kind} at {at}: {e}"))?;
    Ok(true)
}

/// A message of exactly the maximum size is accepted.
pub fn largest(s: &mut Src) -> R {
    let c = cipher(s);
    let srv = Server::new(s, c);
    let k = key_script(s);
    let base = cert(s);
    let over = s.below(2) as usize;
    // several entries, the sizes of the extensions fill the message
    let mut total = 0x20000 - 4 - 4 + over;
    let mut l = vec![];
    while total > 0 {
        let fix = base.len() + 5;
        let n = (total - fix).min(60000);
        let n = if total - fix - n > 0 && total - fix - n < fix { n - fix } else { n };
        l.extend([0, (base.len() >> 8) as u8, base.len() as u8]);
        l.extend(&base);
        l.extend((n as u16).to_be_bytes());
        l.resize(l.len() + n, 3);
        total -= fix + n;
    }
    let mut body = vec![0, (l.len() >> 16) as u8, (l.len() >> 8) as u8, l.len() as u8];
    body.extend(l);
    let cm = tls::msg(11, &body);
    let srv2 = srv.clone();
    let o = run(vec![
        k,
        peer(move |out| {
            let Some(mut x) = srv2.session(out) else { return vec![] };
            let mut v = plain(&x.sh);
            v.extend(x.server.seal(22, &tls::msg(8, &EE), 0));
            v.extend(fragment(&cm, &one_cut(), |b, p| x.server.seal(22, b, p)));
            v
        }),
        Op::Connect,
    ])?;
    let x = srv.session(o.out()).ok_or("no ClientHello")?;
    if over == 0 {
        check!(o.todo, "a Certificate message of 0x20000 bytes isn't accepted: error {} alert {}", o.last().err, o.last().alert);
    } else {
        check_failed(&o, Some(x.client), 47)?;
    }
    Ok(true)
}

// ---------------------------------------------------------------- T05

/// The traffic keys on both sides are those of RFC 8446 for the negotiated cipher, the shared
/// secret, and the transcript.
pub fn keys(s: &mut Src) -> R {
    let c = cipher(s);
    let srv = Server::new(s, c);
    let k = key_script(s);
    let cfg = Cfg { ciphers: s.pick(&[3, bit(c), 0xff]), server_name: s.bool().then(|| b"example.org".to_vec()), ..Cfg::std() };
    let srv2 = srv.clone();
    let o = run(vec![
        k,
        Op::Config(cfg),
        peer(move |out| {
            let Some(mut x) = srv2.session(out) else { return vec![] };
            let mut v = plain(&x.sh);
            v.extend(x.server.seal(22, &tls::msg(8, &EE), 0));
            v
        }),
        Op::Connect,
        Op::Close,
    ])?;
    let x = srv.session(o.out()).ok_or("no ClientHello")?;
    let l = &o.calls[o.calls.len() - 2];
    check!(l.err == WANT_READ, "a record protected with the server's handshake key isn't accepted: error {} alert {}", l.err, l.alert);
    check_sent(&o, Some(x.client), 0)?;
    Ok(true)
}

// ---------------------------------------------------------------- T06

fn check_hello(o: &Outcome, cfg: &Cfg) -> Result<(), String> {
    let m = client_msg(o.out()).ok_or("no well-formed handshake message was written")?;
    let h = tls::client_hello(&m).ok_or_else(|| format!("the ClientHello is malformed: {}", hex(&m[..m.len().min(600)])))?;
    check!(h.version == 0x0303, "legacy_version {:04x}", h.version);
    check!(h.session.is_empty(), "session id {}", hex(&h.session));
    check!(h.compression == [0], "compression methods {:?}", h.compression);
    let mut want = vec![];
    if cfg.ciphers & 1 != 0 {
        want.push(CHACHA);
    }
    if cfg.ciphers & 2 != 0 {
        want.push(AES128);
    }
    let mut got = h.ciphers.clone();
    got.sort();
    want.sort();
    check!(got == want, "cipher suites {:x?}, configured are {want:x?}", h.ciphers);
    let mut exts: Vec<(u16, Vec<u8>)> = vec![(43, vec![2, 3, 4])];
    if let Some(n) = &cfg.server_name {
        let mut e = vec![0];
        e.extend(tls::len16(n));
        exts.push((0, tls::len16(&e)));
    }
    if cfg.sig_algs & 1 != 0 {
        exts.push((13, vec![0, 2, 4, 3]));
    }
    if cfg.groups & 1 != 0 {
        exts.push((10, vec![0, 2, 0, 0x17]));
    }
    if let Some(p) = &cfg.protos {
        if !p.is_empty() {
            exts.push((16, tls::len16(p)));
        }
    }
    let (share, mut rest): (Vec<_>, Vec<_>) = h.exts.iter().cloned().partition(|e| e.0 == 51);
    rest.sort();
    exts.sort();
    if rest != exts {
        let show = |e: &Vec<(u16, Vec<u8>)>| e.iter().map(|(t, d)| format!("{t}:{}({})", d.len(), hex(&d[..d.len().min(16)]))).collect::<Vec<_>>().join(" ");
        return Err(format!("extensions {} instead of {}", show(&rest), show(&exts)));
    }
    // the random value and the key come from the random number generator
    let n = Nat::from_digits(&p256::N);
    let d = &o.draws;
    check!(d.iter().any(|x| *x == h.random), "the random value {} wasn't drawn", hex(&h.random));
    if cfg.groups & 1 != 0 {
        check!(share.len() == 1, "{} key shares", share.len());
        let p = tls::client_share(&h).ok_or("the key share isn't exactly one point on P-256")?;
        let ok = d.iter().filter(|x| **x != h.random || d.len() == 1).any(|x| {
            let k = Nat::from_le(x).rem(&n);
            let k: U = k.digits(4).try_into().unwrap();
            p256::mul(&k, &Some((p256::GX, p256::GY))) == Some(p)
        });
        check!(ok || d.windows(2).all(|w| w[0] == w[1]), "the key share isn't the public key of the drawn private key");
    } else {
        check!(share.is_empty(), "key share without a group");
    }
    Ok(())
}

pub fn hello(s: &mut Src) -> R {
    let cfg = random_cfg(s);
    let k = key_script(s);
    let o = run(vec![k, Op::Config(cfg.clone()), Op::Connect])?;
    check!(o.waiting(), "turtls_connect failed with {} before the peer answered", o.last().err);
    check_hello(&o, &cfg).map_err(|e| format!("{cfg:?}: {e}"))?;
    Ok(true)
}

/// the private key at the borders of its range, and failures of the random number generator
pub fn key_edges(s: &mut Src) -> R {
    let n = Nat::from_digits(&p256::N);
    let d = Nat::from_u64(s.below(40));
    let k = match s.below(4) {
        0 => n.add(&d),
        1 => n.sub(&d),
        2 => d,
        _ => Nat::pow2(256).sub(&d.add(&Nat::one())),
    };
    let bytes = k.to_le(32);
    let fail = s.below(4);
    let cfg = Cfg { groups: s.pick(&[1, 1, 1, 0]), ..Cfg::std() };
    let r = Next::Bytes(s.bytes(32));
    let q = match fail {
        0 => vec![Next::Fail],
        1 => vec![Next::Bytes(bytes.clone()), Next::Fail],
        _ => vec![Next::Bytes(bytes), r],
    };
    let o = run(vec![Op::Rng(q), Op::Config(cfg.clone()), Op::Connect, Op::Close])?;
    let l = &o.calls[0];
    let zero = k.rem(&n).is_zero();
    let want = if cfg.groups == 0 {
        MISSING_EXTENSIONS
    } else if fail == 0 {
        RNG
    } else if zero {
        PRIV_KEY_IS_ZERO
    } else if fail == 1 {
        RNG
    } else {
        WANT_READ
    };
    check!(l.ret == -1 && l.err == want, "key {}: error {} instead of {want}", k.show(), l.err);
    if want == WANT_READ {
        check_hello(&o, &cfg)?;
    } else {
        check!(l.out == 0, "{} bytes were sent without a key and a random value", l.out);
    }
    Ok(true)
}

/// every combination of the low flags
pub fn flags(s: &mut Src) -> R {
    let i = s.index;
    let cfg = Cfg {
        sig_algs: (i & 3) as u16,
        groups: 1 + (i >> 2 & 3) as u16,
        ciphers: (i >> 4 & 7) as u8,
        server_name: (i >> 7 & 1 == 1).then(|| b"a".to_vec()),
        protos: (i >> 8 & 1 == 1).then(|| b"\x02h2".to_vec()),
    };
    let k = key_script(s);
    let o = run(vec![k, Op::Config(cfg.clone()), Op::Connect])?;
    check_hello(&o, &cfg).map_err(|e| format!("{cfg:?}: {e}"))?;
    Ok(true)
}

// ---------------------------------------------------------------- T07 / T08

enum At {
    Sh,
    Ee,
    Cert,
}

/// runs a handshake with the given body of one message
fn with_body(s: &mut Src, cfg: Cfg, srv: &Server, at: At, body: Vec<u8>) -> Result<(Outcome, Option<tls::Keys>), String> {
    let k = key_script(s);
    let (rd, _) = limits(s);
    let mut srv2 = srv.clone();
    let prot = !matches!(at, At::Sh);
    let o = run(vec![
        k,
        Op::Config(cfg),
        Op::Limits { rd, wr: vec![] },
        peer(move |out| {
            if let At::Sh = at {
                srv2.body = Some(body.clone());
                return plain(&tls::msg(2, &body));
            }
            let Some(mut x) = srv2.session(out) else { return vec![] };
            let mut v = plain(&x.sh);
            if let At::Ee = at {
                v.extend(fragment(&tls::msg(8, &body), &one_cut(), |b, p| x.server.seal(22, b, p)));
            } else {
                v.extend(x.server.seal(22, &tls::msg(8, &EE), 0));
                v.extend(fragment(&tls::msg(11, &body), &one_cut(), |b, p| x.server.seal(22, b, p)));
            }
            v
        }),
        Op::Connect,
    ])?;
    let keys = if prot { Some(srv.session(o.out()).ok_or("no ClientHello")?.client) } else { None };
    Ok((o, keys))
}

/// changes a byte string somewhere
fn mutate(s: &mut Src, b: &mut Vec<u8>) {
    for _ in 0..s.range(0, 3) {
        match s.below(6) {
            0 if !b.is_empty() => {
                let i = s.below(b.len() as u64) as usize;
                b[i] ^= 1 << s.below(8);
            }
            1 if !b.is_empty() => {
                let i = s.below(b.len() as u64) as usize;
                b[i] = s.u8();
            }
            2 if !b.is_empty() => {
                let n = s.below(b.len() as u64) as usize;
                b.truncate(n);
            }
            3 => {
                let n = s.range(1, 6);
                let x = s.bytes(n);
                b.extend(x);
            }
            4 => {
                let i = s.below(b.len() as u64 + 1) as usize;
                let x = s.u8();
                b.insert(i, x);
            }
            5 if !b.is_empty() => {
                let i = s.below(b.len() as u64) as usize;
                b.remove(i);
            }
            _ => (),
        }
    }
}

fn sh_result(s: &mut Src, cfg: Cfg, srv: &Server, body: Vec<u8>) -> R {
    let v = tls::judge_sh(&body, cfg.ciphers, cfg.groups);
    let (o, _) = with_body(s, cfg.clone(), srv, At::Sh, body.clone())?;
    match v {
        ShVerdict::Ok(..) => check!(o.waiting(), "a valid ServerHello is rejected with error {} alert {}: {}", o.last().err, o.last().alert, hex(&body)),
        ShVerdict::Bad => check_rejected(&o, None).map_err(|e| format!("ServerHello {} for {cfg:?}: {e}", hex(&body)))?,
    }
    Ok(true)
}

/// any bytes as ServerHello
pub fn any_sh(s: &mut Src) -> R {
    let c = cipher(s);
    let srv = Server::new(s, c);
    let mut b = srv.std_body();
    if s.below(8) == 0 {
        let n = s.range(0, 200);
        b = s.bytes(n);
    } else {
        mutate(s, &mut b);
    }
    if b.len() >= 2 {
        // the version is a legacy field
        b[0] = 3;
        b[1] = 3;
    }
    sh_result(s, Cfg::std(), &srv, b)
}

/// ServerHello cut after every byte
pub fn short_sh(s: &mut Src) -> R {
    let srv = Server::new(s, CHACHA);
    let mut b = srv.std_body();
    if s.index as usize > b.len() {
        return Ok(false);
    }
    let n = s.index as usize;
    b.truncate(n);
    if s.bool() && b.len() >= 40 {
        // with the length of the extensions adapted
        let n = b.len() - 40;
        b[38] = (n >> 8) as u8;
        b[39] = n as u8;
    }
    sh_result(s, Cfg::std(), &srv, b)
}

fn any_exts(s: &mut Src) -> Vec<u8> {
    let n = s.range(0, 4);
    let mut e = vec![];
    for _ in 0..n {
        let t = s.pick(&[0u16, 10, 16, 16, 16, 43, 51, 1, 0xffff, 0x1000, 0x0a00]);
        let plen = s.pick(&[0usize, 1, 2, 3, 255, 254, 100]);
        let mut a = vec![plen as u8];
        a.extend(s.bytes(plen));
        let mut d = match s.below(3) {
            0 => {
                let n = s.range(0, 40);
                s.bytes(n)
            }
            _ => tls::len16(&a),
        };
        if s.below(4) == 0 {
            mutate(s, &mut d);
        }
        e.extend(tls::ext(t, &d));
    }
    e
}

/// any bytes as EncryptedExtensions
pub fn any_ee(s: &mut Src) -> R {
    let c = cipher(s);
    let srv = Server::new(s, c);
    let mut b = tls::len16(&any_exts(s));
    if s.below(3) == 0 {
        mutate(s, &mut b);
    }
    // every protocol is offered
    let mut offer = vec![];
    if let EeVerdict::Ok(Some(p)) = tls::judge_ee(&b) {
        offer.push(p.len() as u8);
        offer.extend(&p);
    } else {
        offer.extend(b"\x02h2");
    }
    let cfg = Cfg { protos: Some(offer), server_name: Some(b"x".to_vec()), ..Cfg::std() };
    let v = tls::judge_ee(&b);
    let (o, k) = with_body(s, cfg, &srv, At::Ee, b.clone())?;
    match v {
        EeVerdict::Ok(p) => {
            check!(o.waiting(), "valid EncryptedExtensions {} are rejected: error {} alert {}", hex(&b), o.last().err, o.last().alert);
            let p = p.unwrap_or_default();
            check!(o.proto[..p.len()] == p[..] && o.proto[p.len()..].iter().all(|x| *x == 0), "turtls_app_proto is {} instead of {}", hex(&o.proto), hex(&p));
        }
        EeVerdict::Bad => check_rejected(&o, k).map_err(|e| format!("EncryptedExtensions {}: {e}", hex(&b)))?,
        EeVerdict::Unspecified => (),
    }
    Ok(true)
}

/// a valid EncryptedExtensions with every byte length cut off
pub fn short_ee(s: &mut Src) -> R {
    let srv = Server::new(s, CHACHA);
    let full = tls::len16(&[tls::ext(0, &[]), tls::ext(10, &[0, 2, 0, 0x17]), tls::ext(16, &tls::len16(b"\x02h2"))].concat());
    let mut b = full.clone();
    let i = s.index as usize;
    if i >= full.len() * 2 {
        return Ok(false);
    }
    b.truncate(i / 2);
    if i % 2 == 1 && b.len() >= 2 {
        b[0] = 0;
        b[1] = (b.len() - 2) as u8;
    }
    let cfg = Cfg { protos: Some(b"\x02h2".to_vec()), ..Cfg::std() };
    let (o, k) = with_body(s, cfg, &srv, At::Ee, b.clone())?;
    match tls::judge_ee(&b) {
        EeVerdict::Ok(_) => check!(o.waiting(), "valid EncryptedExtensions {} are rejected", hex(&b)),
        EeVerdict::Bad => check_rejected(&o, k).map_err(|e| format!("EncryptedExtensions {}: {e}", hex(&b)))?,
        EeVerdict::Unspecified => (),
    }
    Ok(true)
}

/// any bytes as Certificate message
pub fn any_cert(s: &mut Src) -> R {
    let c = cipher(s);
    let srv = Server::new(s, c);
    let n = s.range(1, 3);
    let mut cs: Vec<Vec<u8>> = (0..n).map(|_| cert(s)).collect();
    if s.bool() {
        let i = s.below(n as u64) as usize;
        mutate(s, &mut cs[i]);
    }
    let n = s.range(0, 8);
    let e = s.bytes(n);
    let mut b = tls::certs_msg(&cs, &e);
    if s.bool() {
        mutate(s, &mut b);
    }
    cert_result(s, &srv, b)
}

fn cert_result(s: &mut Src, srv: &Server, b: Vec<u8>) -> R {
    let (o, k) = with_body(s, Cfg::std(), srv, At::Cert, b.clone())?;
    match tls::judge_certs(&b) {
        J::Ok(()) => check!(o.todo, "a well-formed Certificate message is rejected with error {} alert {}: {}", o.last().err, o.last().alert, hex(&b)),
        J::Bad => check_rejected(&o, k).map_err(|e| format!("Certificate {}: {e}", hex(&b)))?,
        J::Gray => return Ok(false),
    }
    Ok(true)
}

/// a Certificate message cut after every byte, with and without adapted lengths
pub fn short_cert(s: &mut Src) -> R {
    let srv = Server::new(s, CHACHA);
    // always the same certificate
    let c = cert(&mut Src::replay(vec![3; 64]));
    let full = tls::certs_msg(&[c.clone()], &[1, 2]);
    let i = s.index as usize;
    let mut b = full.clone();
    match i % 3 {
        0 => b.truncate(i / 3),
        1 => {
            b.truncate(i / 3);
            if b.len() < 4 {
                return Ok(false);
            }
            let n = b.len() - 4;
            b[1..4].copy_from_slice(&(n as u32).to_be_bytes()[1..]);
        }
        _ => {
            let mut c = c;
            if i / 3 > c.len() {
                return Ok(false);
            }
            c.truncate(i / 3);
            b = tls::certs_msg(&[c], &[]);
        }
    }
    if i / 3 > full.len() {
        return Ok(false);
    }
    cert_result(s, &srv, b)
}

// ---------------------------------------------------------------- T08

/// Every way in which a ServerHello can deviate from the offer
pub fn negotiation(s: &mut Src) -> R {
    let c = cipher(s);
    let mut srv = Server::new(s, c);
    let mut cfg = Cfg { ciphers: s.pick(&[3, bit(c)]), ..Cfg::std() };
    let v = tls::ext(43, &[3, 4]);
    let pt = srv.share();
    let k = tls::share_ext(&tls::point_bytes(&pt));
    let sname = s.bytes(s.index as usize % 7);
    let kind = s.below(19);
    let a = s.bool();
    let sh = |cipher: u16, exts: Vec<Vec<u8>>, rnd: &[u8]| tls::server_hello(rnd, cipher, &exts.concat());
    let order = |a: bool, x: Vec<u8>, y: Vec<u8>| if a { vec![x, y] } else { vec![y, x] };
    let rnd = srv.random.clone();
    let not_prime = |p: (U, U)| -> Vec<u8> {
        let mut v = vec![4];
        v.extend(p256::to_be(&p.0));
        v.extend(p256::to_be(&p.1));
        v
    };
    // (body, expected alert)
    let (body, want): (Vec<u8>, Option<u8>) = match kind {
        0 => (sh(c, order(a, v, k), &rnd), None),
        // a cipher that wasn't offered
        1 => {
            cfg.ciphers = 3 & !bit(c);
            (sh(c, order(a, v, k), &rnd), Some(47))
        }
        2 => {
            let x = s.pick(&[0x1302u16, 0x1304, 0x1305, 0, 0xffff, 0x0113, 0x0313, 0x1300, 0x1306, 0x1403]);
            (sh(x, order(a, v, k), &rnd), Some(47))
        }
        // another version
        3 => {
            let x = s.pick(&[[3u8, 3], [3, 2], [3, 5], [4, 3], [0, 0], [4, 4], [0xff, 4], [3, 0]]);
            (sh(c, order(a, tls::ext(43, &x), k), &rnd), Some(70))
        }
        4 => (sh(c, vec![k], &rnd), Some(109)),
        5 => (sh(c, vec![v], &rnd), Some(109)),
        6 => (sh(c, vec![], &rnd), Some(0)),
        // twice
        7 => (sh(c, vec![v.clone(), k, v], &rnd), Some(47)),
        8 => (sh(c, vec![v, k.clone(), k], &rnd), Some(47)),
        // an extension that isn't allowed here
        9 => {
            let t = s.pick(&[0u16, 10, 13, 16, 41, 42, 44, 45, 0x3300, 0x2b00, 0xffff]);
            let at = s.below(3) as usize;
            let mut e = vec![v, k];
            e.insert(at, tls::ext(t, &sname));
            (sh(c, e, &rnd), Some(110))
        }
        // compression
        10 => {
            let mut b = sh(c, order(a, v, k), &rnd);
            b[37] = s.range(1, 255) as u8;
            (b, Some(47))
        }
        // a session id
        11 => {
            let mut b = sh(c, order(a, v, k), &rnd);
            let n = s.range(1, 32);
            b[34] = n as u8;
            let id = s.bytes(n);
            let tail = b.split_off(35);
            b.extend(id);
            b.extend(tail);
            (b, Some(47))
        }
        // a point that isn't on the curve
        12 => {
            let mut p = pt;
            p.1[s.below(4) as usize] ^= 1 << s.below(64);
            if p256::on_curve(&p.0, &p.1) {
                return Ok(false);
            }
            (sh(c, order(a, v, tls::share_ext(&not_prime(p))), &rnd), Some(47))
        }
        // coordinates that aren't reduced
        13 => {
            // small coordinates only: the coordinate plus p must fit in 256 bits
            let big = Nat::from_digits(&p256::P);
            let (bx, by) = match s.below(4) {
                0 | 1 => {
                    // a point on the curve with a small x (0 among them)
                    let mut x = if a { [0; 4] } else { [s.u64(), s.below(2) * s.u64(), 0, 0] };
                    let y = loop {
                        if let Some((_, y)) = p256::lift(&x) {
                            break y;
                        }
                        x = p256::addm(&x, &[1, 0, 0, 0], &p256::P);
                    };
                    (big.add(&Nat::from_digits(&x)).to_be(32), p256::to_be(&y).to_vec())
                }
                2 => {
                    let (y, x) = s.pick(&p256::SMALL_Y);
                    (p256::to_be(&x).to_vec(), big.add(&Nat::from_digits(&[y, 0, 0, 0])).to_be(32))
                }
                _ => (p256::to_be(&pt.0).to_vec(), Nat::pow2(256).sub(&Nat::one()).to_be(32)),
            };
            let mut q = vec![4];
            q.extend(bx);
            q.extend(by);
            (sh(c, order(a, v, tls::share_ext(&q)), &rnd), Some(47))
        }
        // not the uncompressed form
        14 => {
            let mut q = tls::point_bytes(&pt);
            q[0] = s.pick(&[0u8, 2, 3, 5, 6, 7, 0xff, 0x84]);
            (sh(c, order(a, v, tls::share_ext(&q)), &rnd), Some(47))
        }
        // another length
        15 => {
            let mut q = tls::point_bytes(&pt);
            let n = s.pick(&[0usize, 1, 33, 64, 66, 97, 130]);
            q.resize(n, 0);
            (sh(c, order(a, v, tls::share_ext(&q)), &rnd), Some(47))
        }
        // a group that wasn't offered
        16 => {
            let g = s.pick(&[0x18u16, 0x19, 0x1d, 0x1e, 0x100, 0x1700, 0, 0xffff]);
            let mut d = g.to_be_bytes().to_vec();
            d.extend(tls::len16(&tls::point_bytes(&pt)));
            (sh(c, order(a, v, tls::ext(51, &d)), &rnd), Some(47))
        }
        17 => {
            // no group with this flag is supported
            cfg.groups = s.pick(&[2, 4, 0xfffe]);
            (sh(c, order(a, v, k), &rnd), Some(47))
        }
        // no cipher at all
        _ => {
            cfg.ciphers = s.pick(&[0, 4, 0xfc]);
            (sh(c, order(a, v, k), &rnd), Some(47))
        }
    };
    srv.body = Some(body.clone());
    let (o, _) = with_body(s, cfg.clone(), &srv, At::Sh, body.clone())?;
    match want {
        None => check!(o.waiting(), "a valid ServerHello is rejected with error {} alert {}: {}", o.last().err, o.last().alert, hex(&body)),
        // malformed, or without the extensions: either is right
        Some(0) => check_rejected(&o, None)?,
        Some(w) => check_failed(&o, None, w).map_err(|e| format!("kind {kind}, {cfg:?}, ServerHello {}: {e}", hex(&body)))?,
    }
    Ok(true)
}

/// all 65536 cipher suites and groups
pub fn all_codes(s: &mut Src) -> R {
    let i = s.index;
    let srv = Server { ks: [7, 0, 0, 0], random: vec![9; 32], cipher: CHACHA, body: None };
    let code = (i / 2) as u16;
    let mut b = srv.std_body();
    if i % 2 == 0 {
        b[35..37].copy_from_slice(&code.to_be_bytes());
    } else {
        let n = b.len();
        b[n - 69..n - 67].copy_from_slice(&code.to_be_bytes());
    }
    sh_result(s, Cfg::std(), &srv, b)
}

// ---------------------------------------------------------------- T09

/// Single deviations of a certificate
pub fn bad_certs(s: &mut Src) -> R {
    use tls::{der, der_uint};
    let c = cipher(s);
    let srv = Server::new(s, c);
    let kind = s.pick(&[0u64, 1, 2, 3, 4, 5, 6, 6, 6, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 16, 17]);
    let n = p256::N;
    let r = small_scalar(s);
    let t = small_scalar(s);
    let (mut sr, st) = (der_uint(&r), der_uint(&t));
    let mut version = vec![2u8];
    let mut oid = tls::OID.to_vec();
    let mut unused = 0;
    let (mut t1, mut t2) = (0x17, 0x18);
    let mut tags = [0x30u8, 0x30, 0x30, 0x06, 0x03, 0x30, 0x30, 2];
    let mut drop = usize::MAX;
    match kind {
        0 => (),
        1 => version = vec![s.pick(&[0u8, 1, 3, 0xff, 0x80, 0x7f])],
        2 => {
            let i = s.below(8) as usize;
            oid[i] ^= 1 << s.below(8);
        }
        3 => {
            oid.push(0);
        }
        4 => {
            oid.pop();
        }
        5 => unused = s.range(1, 255) as u8,
        6 => {
            let i = s.below(8) as usize;
            let old = tags[i];
            tags[i] = s.pick(&[0u8, 1, 2, 3, 4, 5, 6, 0x17, 0x30, 0x31, 0x10, 0xa0, 0xb0]);
            if tags[i] == old {
                return Ok(false);
            }
        }
        7 => {
            let old = t1;
            t1 = s.range(0, 0x3e) as u8;
            if t1 == old || t1 == 0x18 {
                return Ok(false);
            }
        }
        8 => {
            t2 = s.range(0, 0x3e) as u8;
            if t2 == 0x18 || t2 == 0x17 {
                return Ok(false);
            }
        }
        // r is not smaller than the order
        9 => {
            let mut x = n;
            x[0] += s.below(1000);
            sr = der_uint(&x);
        }
        10 => {
            let mut x = n;
            x[3] |= 0xffffffff;
            x[s.below(3) as usize] = u64::MAX;
            sr = der_uint(&x);
        }
        // longer than 32 bytes
        11 => {
            let k = s.range(1, 8);
            let mut b = s.bytes(32 + k);
            b[0] = b[0] % 127 + 1;
            sr = der(2, &b);
        }
        // negative
        12 => {
            let k = s.range(1, 40);
            let mut b = s.bytes(k);
            b[0] |= 0x80;
            sr = der(2, &b);
        }
        13 => sr = der(2, &[]),
        14 => version = vec![],
        15 => version = vec![0, 2],
        16 => drop = s.below(7) as usize,
        _ => {
            // short values
            let k = s.range(1, 31);
            let mut b = s.bytes(k);
            b[0] = b[0] % 127 + 1;
            sr = der(2, &b);
        }
    }
    let swap = s.bool();
    let sig = if swap { [st, sr].concat() } else { [sr, st].concat() };
    let mut bits = vec![unused];
    bits.extend(der(tags[6], &sig));
    let alg = der(tags[2], &der(tags[3], &oid));
    let goodalg = der(0x30, &der(6, &tls::OID));
    let times = der(tags[5], &[der(t1, b"250101000000Z"), der(t2, b"20350101000000Z")].concat());
    let mut fields = vec![der(0xa0, &der(tags[7], &version)), der(2, &[5]), goodalg, der(0x30, b""), times, der(0x30, b""), der(0x30, b"abc"), der(0xa3, b"")];
    if drop != usize::MAX {
        fields.truncate(drop);
    }
    let cert = der(tags[0], &[der(tags[1], &fields.concat()), alg, der(tags[4], &bits)].concat());
    let first = s.bool();
    let other = crate::peer::cert(s);
    let list = match s.below(3) {
        0 => vec![cert],
        1 if first => vec![cert, other],
        _ => vec![other, cert],
    };
    let b = tls::certs_msg(&list, &[]);
    let v = tls::judge_certs(&b);
    let (o, k) = with_body(s, Cfg::std(), &srv, At::Cert, b.clone())?;
    match v {
        J::Ok(()) => check!(o.todo, "kind {kind}: a valid certificate is rejected with alert {}: {}", o.last().alert, hex(&b)),
        J::Bad => {
            check_rejected(&o, k).map_err(|e| format!("kind {kind}, Certificate {}: {e}", hex(&b)))?;
            let a = o.last().alert;
            check!((42..=46).contains(&a) || a == 50, "kind {kind}: a bad certificate is reported with alert {a}");
        }
        J::Gray => return Ok(false),
    }
    Ok(true)
}

// ---------------------------------------------------------------- T10

/// alerts of the peer, of every value, before and after encryption starts
pub fn peer_alerts(s: &mut Src) -> R {
    let i = s.index;
    let code = i as u8;
    let at = (i >> 8) & 3;
    let srv = Server { ks: [5, 6, 7, 8], random: vec![1; 32], cipher: if i & 1 == 0 { CHACHA } else { AES128 }, body: None };
    let level = s.pick(&[1u8, 2]);
    let k = key_script(s);
    let o = run(vec![
        k,
        peer(move |out| {
            let a = [level, code];
            if at == 0 {
                return tls::record(21, &a);
            }
            let Some(mut x) = srv.session(out) else { return vec![] };
            if at == 1 {
                let mut v = tls::record(22, &x.sh[..20]);
                v.extend(tls::record(21, &a));
                return v;
            }
            let mut v = plain(&x.sh);
            if at == 3 {
                v.extend(x.server.seal(22, &tls::msg(8, &EE), 0));
            }
            v.extend(x.server.seal(21, &a, (code % 5) as usize));
            v
        }),
        Op::Connect,
    ])?;
    let l = o.last();
    check!(!o.todo && l.ret == -1 && l.err == TLS_PEER, "an alert {code} of the peer: turtls_connect returned {} with error {}", l.ret, l.err);
    let want = if tls::ALERTS.contains(&code) { code } else { 80 };
    check!(l.alert == want as u32, "the peer's alert {code} is reported as {}", l.alert);
    let n = out_of_hello(o.out())?;
    check!(o.out().len() == n, "an alert was answered with {}", hex(&o.out()[n..]));
    Ok(true)
}

/// every alert has its own text
pub fn texts(s: &mut Src) -> R {
    let words: [(u8, &[&str]); 27] = [
        (0, &["clos"]),
        (10, &["unexpected"]),
        (20, &["mac"]),
        (22, &["overflow"]),
        (40, &["handshake"]),
        (42, &["bad", "cert"]),
        (43, &["unsupported", "cert"]),
        (44, &["revoked"]),
        (45, &["expired"]),
        (46, &["unknown", "cert"]),
        (47, &["param"]),
        (48, &["authority"]),
        (49, &["access"]),
        (50, &["decod"]),
        (51, &["decrypt"]),
        (70, &["version"]),
        (71, &["security"]),
        (80, &["internal"]),
        (86, &["fallback"]),
        (90, &["cancel"]),
        (109, &["missing"]),
        (110, &["unsupported", "exten"]),
        (112, &["name"]),
        (113, &["status"]),
        (115, &["psk"]),
        (116, &["required"]),
        (120, &["protocol"]),
    ];
    let (code, w) = words[s.index as usize % 27];
    let text = |c: u8| -> String {
        // SAFETY: the enumeration has this value
        let a: turtls::TurtlsAlert = unsafe { std::mem::transmute(c as u32) };
        let p = turtls::turtls_stringify_alert(a);
        unsafe { std::ffi::CStr::from_ptr(p) }.to_string_lossy().into_owned()
    };
    let t = text(code);
    for x in w {
        check!(t.to_lowercase().contains(x), "alert {code} is called {t:?}");
    }
    for (other, _) in words {
        check!(other == code || text(other) != t, "alerts {code} and {other} are both called {t:?}");
    }
    Ok(true)
}

// ---------------------------------------------------------------- T11

struct Story {
    cfg: Cfg,
    srv: Server,
    kind: u64,
    c1: Vec<Cut>,
    c2: Vec<Cut>,
    ee: Vec<u8>,
    cm: Vec<u8>,
    stop: usize,
}

fn story(s: &mut Src) -> Story {
    let c = cipher(s);
    let mut srv = Server::new(s, c);
    let kind = s.below(9);
    let mut cfg = Cfg { protos: Some(b"\x02h2\x08http/1.1".to_vec()), ..Cfg::std() };
    if s.below(5) == 0 {
        let n = s.range(0x3fff, 0xa000);
        cfg.protos = Some(s.bytes(n));
    }
    let mut ee = tls::msg(8, &tls::len16(&tls::ext(16, &tls::len16(b"\x02h2"))));
    let mut cm = tls::msg(11, &tls::certs_msg(&[cert(s)], &[]));
    match kind {
        1 => {
            let mut b = srv.std_body();
            mutate(s, &mut b);
            srv.body = Some(b);
        }
        2 => mutate(s, &mut ee),
        3 => {
            ee = tls::msg(8, &tls::len16(&any_exts(s)));
        }
        4 => mutate(s, &mut cm),
        _ => (),
    }
    Story { cfg, srv, kind, c1: cuts(s), c2: cuts(s), ee, cm, stop: s.raw() as usize }
}

impl Story {
    fn peer(&self) -> Op {
        let (srv, kind, c1, c2, ee, cm, stop) = (self.srv.clone(), self.kind, self.c1.clone(), self.c2.clone(), self.ee.clone(), self.cm.clone(), self.stop);
        peer(move |out| {
            let Some(mut x) = srv.session(out) else { return vec![] };
            let mut v = fragment(&x.sh, &c1, |b, _| tls::record(22, b));
            v.extend(fragment(&ee, &c2, |b, p| x.server.seal(22, b, p)));
            if kind == 5 {
                v.extend(x.server.seal(21, &[2, 40], 0));
            }
            v.extend(fragment(&cm, &c2, |b, p| x.server.seal(22, b, p)));
            match kind {
                6 => v.truncate(stop % v.len()),
                7 => {
                    let n = v.len();
                    v[stop % n] ^= 1 << (stop >> 32 & 7);
                }
                _ => (),
            }
            v
        })
    }
}

fn same(a: &Outcome, b: &Outcome) -> Result<(), String> {
    check!(a.todo == b.todo, "accepted: {} vs {}", a.todo, b.todo);
    if !a.todo {
        let (x, y) = (a.last(), b.last());
        check!((x.what, x.ret, x.err, x.closes) == (y.what, y.ret, y.err, y.closes), "{x:?} vs {y:?}");
        // the alert belongs to the errors Tls and TlsPeer
        check!(x.alert == y.alert || !(x.err == TLS || x.err == TLS_PEER), "alert {} vs {}", x.alert, y.alert);
        check!(x.starved == y.starved, "read everything: {} vs {}", x.starved, y.starved);
    }
    check!(a.out() == b.out(), "written: {} vs {} bytes, {} vs {}", a.out().len(), b.out().len(), hex(&a.out()[..a.out().len().min(400)]), hex(&b.out()[..b.out().len().min(400)]));
    check!(a.proto == b.proto, "application protocol {} vs {}", hex(&a.proto), hex(&b.proto));
    Ok(())
}

/// The result doesn't depend on how the transport cuts and interrupts reads and writes.
pub fn resume(s: &mut Src) -> R {
    let st = story(s);
    let mut k = s.array::<32>();
    k[5] = 1;
    let r = s.bytes(32);
    let (rd, wr) = limits(s);
    let rng = || Op::Rng(vec![Next::Bytes(k.to_vec()), Next::Bytes(r.clone())]);
    let a = run(vec![rng(), Op::Config(st.cfg.clone()), st.peer(), Op::Connect])?;
    // an alert is written only once, so its write isn't interrupted: the limits of writes are
    // only those of the ClientHello
    let n = out_of_hello(a.out())?;
    let mut wr2 = wr.clone();
    let mut total = 0usize;
    let mut i = 0;
    while total < n && i < 300_000 {
        let x = wr[i % wr.len()];
        // at most what is left, records aside
        total += x as usize;
        i += 1;
    }
    if i < 5000 {
        wr2 = (0..i + 40).map(|j| wr[j % wr.len()]).collect();
        wr2.extend(vec![0xffffu16; 1000]);
    } else {
        wr2.retain(|x| *x != 0);
    }
    // interrupted writes after the ClientHello would drop the alert
    if !a.todo && a.last().closes > 0 {
        wr2.retain(|x| *x != 0);
    }
    let b = run(vec![rng(), Op::Config(st.cfg.clone()), st.peer(), Op::Limits { rd: rd.clone(), wr: wr2.clone() }, Op::Connect])?;
    same(&a, &b).map_err(|e| format!("story {}: without and with interruptions (reads {rd:?}, writes {wr:?}): {e}", st.kind))?;
    Ok(true)
}

/// A connection object that was used before behaves like a new one.
pub fn reuse(s: &mut Src) -> R {
    let first = story(s);
    let st = story(s);
    let (rd, wr) = limits(s);
    let once = s.bool();
    let close = s.bool();
    let k0 = key_script(s);
    let mut k = s.array::<32>();
    k[5] = 1;
    let r = s.bytes(32);
    let rng = || Op::Rng(vec![Next::Bytes(k.to_vec()), Next::Bytes(r.clone())]);
    let mut ops = vec![k0, Op::Config(first.cfg.clone()), first.peer(), Op::Limits { rd, wr }];
    // the harness can't continue after a todo
    let mut f2 = first;
    if matches!(f2.kind, 0 | 8) || true {
        f2.cm = vec![];
    }
    ops[2] = f2.peer();
    if f2.kind == 6 || f2.kind == 7 {
        f2.kind = 0;
        ops[2] = f2.peer();
    }
    ops.push(if once { Op::ConnectOnce } else { Op::Connect });
    if close {
        ops.push(Op::Close);
    }
    let before = run(vec![])?;
    let _ = before;
    ops.push(Op::Close);
    ops.push(Op::Limits { rd: vec![], wr: vec![] });
    ops.push(rng());
    ops.push(Op::Config(st.cfg.clone()));
    ops.push(st.peer());
    ops.push(Op::Connect);
    let b = run(ops)?;
    let a = run(vec![rng(), Op::Config(st.cfg.clone()), st.peer(), Op::Connect])?;
    same(&a, &b).map_err(|e| format!("story {} after story {}: new and used connection object: {e}", st.kind, f2.kind))?;
    Ok(true)
}

/// After a failure the same connection object can be used again at once, without turtls_close.
pub fn retry(s: &mut Src) -> R {
    let c = cipher(s);
    let mut bad = Server::new(s, c);
    let mut b = bad.std_body();
    let kind = s.below(3);
    b[37] = 1;
    bad.body = Some(b);
    let st = story(s);
    let k0 = if kind == 2 { Op::Rng(vec![Next::Bytes(vec![7; 32]), Next::Fail]) } else { key_script(s) };
    let mut k = s.array::<32>();
    k[5] = 1;
    let r = s.bytes(32);
    let rng = || Op::Rng(vec![Next::Bytes(k.to_vec()), Next::Bytes(r.clone())]);
    let first = peer(move |out| {
        let Some(x) = bad.session(out) else { return vec![] };
        if kind == 0 {
            // something the client doesn't read is left over
            let mut v = plain(&x.sh);
            v.extend(tls::record(22, &[8, 0]));
            v
        } else {
            tls::record(23, &[1, 2, 3])
        }
    });
    let o = run(vec![k0, Op::Config(Cfg::std()), first, Op::Connect, rng(), Op::Config(st.cfg.clone()), st.peer(), Op::Connect])?;
    let f = &o.calls[0];
    check!(f.ret == -1 && f.err == if kind == 2 { RNG } else { TLS }, "the first connection didn't fail: {f:?}");
    let a = run(vec![rng(), Op::Config(st.cfg.clone()), st.peer(), Op::Connect])?;
    same(&a, &o).map_err(|e| format!("story {} after a failure of kind {kind}: {e}", st.kind))?;
    Ok(true)
}
