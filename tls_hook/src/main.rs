//! Concrete evaluation of the contracts of internal functions, reached through the guarded hooks.
#![allow(clippy::all)]
use std::ffi::c_void;
use turtls::verif as v;
use turtls::TurtlsIo;
use vsrc::p256::{self, U};
use vsrc::tls::{self, Keys, AES128, CHACHA, J};
use vsrc::{case, check, hex, refs, Src};

type R = Result<bool, String>;

#[derive(Default)]
struct Ctx {
    out: Vec<u8>,
    inp: Vec<u8>,
    pos: usize,
    rd: Vec<u16>,
    wr: Vec<u16>,
    nrd: usize,
    nwr: usize,
    closes: u32,
}
extern "C" fn io_read(buf: *mut c_void, amt: usize, ctx: *const c_void) -> isize {
    let c = unsafe { &mut *(ctx as *mut Ctx) };
    let avail = c.inp.len() - c.pos;
    let lim = if c.rd.is_empty() { usize::MAX } else { c.rd[c.nrd % c.rd.len()] as usize };
    c.nrd += 1;
    let n = avail.min(amt).min(lim);
    if n == 0 {
        return -((c.nrd % 2) as isize);
    }
    unsafe { std::ptr::copy_nonoverlapping(c.inp[c.pos..].as_ptr(), buf as *mut u8, n) };
    unsafe { std::ptr::write_bytes((buf as *mut u8).add(n), 0xa5, amt - n) };
    c.pos += n;
    n as isize
}
extern "C" fn io_write(buf: *const c_void, amt: usize, ctx: *const c_void) -> isize {
    let c = unsafe { &mut *(ctx as *mut Ctx) };
    let lim = if c.wr.is_empty() { usize::MAX } else { c.wr[c.nwr % c.wr.len()] as usize };
    c.nwr += 1;
    let n = amt.min(lim);
    if n == 0 {
        return -((c.nwr % 2) as isize);
    }
    c.out.extend_from_slice(unsafe { std::slice::from_raw_parts(buf as *const u8, n) });
    n as isize
}
extern "C" fn io_close(ctx: *const c_void) {
    unsafe { (*(ctx as *mut Ctx)).closes += 1 };
}
fn io(c: &mut Box<Ctx>) -> TurtlsIo {
    TurtlsIo { write_fn: io_write, read_fn: io_read, close_fn: io_close, ctx: &mut **c as *mut Ctx as *mut c_void }
}

fn cipher(s: &mut Src) -> u16 {
    s.pick(&[CHACHA, AES128])
}
fn bit(c: u16) -> u8 {
    if c == CHACHA { 1 } else { 2 }
}
fn lims(s: &mut Src) -> Vec<u16> {
    let n = s.range(1, 9);
    let mut v: Vec<u16> = (0..n)
        .map(|_| match s.below(5) {
            0 => 0,
            1 => s.range(1, 4) as u16,
            2 => s.range(1, 60) as u16,
            3 => s.range(1, 0x4200) as u16,
            _ => 0xffff,
        })
        .collect();
    if v.iter().all(|x| *x < 100) {
        v.push(s.range(100, 0x4200) as u16);
    }
    v
}
const WANT_READ: u32 = turtls::TurtlsError::WantRead as u32;
const WANT_WRITE: u32 = turtls::TurtlsError::WantWrite as u32;
const TLS: u32 = turtls::TurtlsError::Tls as u32;

// ---- T01

fn counter(s: &mut Src) -> u64 {
    match s.below(4) {
        0 => s.below(300),
        1 => (1u64 << s.below(64)).wrapping_sub(s.below(3)),
        2 => u64::MAX - 6 - s.below(300),
        _ => s.raw(),
    }
    .min(u64::MAX - 6)
}

/// record n uses the nonce iv xor n, for any n; reading and writing count independently
fn nonces(s: &mut Src) -> R {
    let c = cipher(s);
    let (ws, rs) = (s.array::<32>(), s.array::<32>());
    let mut a = v::Aead::new(&ws, &rs, bit(c)).ok_or("no keys")?;
    let mut w = Keys::from_secret(c, &ws);
    let mut r = Keys::from_secret(c, &rs);
    w.seq = counter(s);
    r.seq = counter(s);
    a.set(w.seq, r.seq);
    for i in 0..s.range(1, 5) {
        let n = s.len(16, 70);
        let pt = s.bytes(n);
        if s.bool() {
            let want = w.seal_inner(&pt);
            let mut m = pt.clone();
            let t = a.encrypt(&mut m, &want[..5]);
            m.extend(t);
            check!(m == want[5..], "record {} (operation {i}) isn't protected with the nonce of its sequence number: {} instead of {}", w.seq - 1, hex(&m), hex(&want[5..]));
        } else {
            let bad = s.below(3) == 0;
            let mut rec = r.seal_inner(&pt);
            if bad {
                let k = s.below(rec.len() as u64 - 5) as usize + 5;
                rec[k] ^= 1;
            }
            let (h, b) = rec.split_at(5);
            let (ct, tag) = b.split_at(b.len() - 16);
            let mut m = ct.to_vec();
            let ok = a.decrypt(&mut m, h, tag.try_into().unwrap());
            check!(ok != bad && (bad || m == pt), "record {} of the peer (operation {i}, changed: {bad}) is {}", r.seq - 1, if ok { "accepted" } else { "rejected" });
        }
    }
    Ok(true)
}

/// a sequence number is never used twice: the counter doesn't wrap
fn exhaustion(s: &mut Src) -> R {
    let c = cipher(s);
    let (ws, rs) = (s.array::<32>(), s.array::<32>());
    let mut a = v::Aead::new(&ws, &rs, bit(c)).ok_or("no keys")?;
    a.set(u64::MAX - 1, 3);
    let mut m = [0u8; 20];
    let mut outs = vec![];
    for _ in 0..4 {
        let mut x = m;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let t = a.encrypt(&mut x, b"");
            (x, t)
        }));
        match r {
            Ok(x) => outs.push(x),
            Err(_) => break,
        }
    }
    for i in 0..outs.len() {
        for j in 0..i {
            check!(outs[i] != outs[j], "after the last sequence number a nonce is used again");
        }
    }
    let mut w = Keys::from_secret(c, &ws);
    w.seq = 0;
    let want = {
        let mut b = v::Aead::new(&ws, &rs, bit(c)).ok_or("no keys")?;
        let t = b.encrypt(&mut m, b"");
        (m, t)
    };
    check!(!outs.contains(&want), "after the last sequence number the first nonce is used again");
    check!(!outs.is_empty(), "sequence number 2^64-2 can't be used");
    Ok(true)
}

// ---- T02

/// messages of any size, interrupted anywhere: each record is protected once and written once
fn protected_writes(s: &mut Src) -> R {
    let c = cipher(s);
    let prot = s.below(3) > 0;
    let (ws, rs) = (s.array::<32>(), s.array::<32>());
    let mut k = Keys::from_secret(c, &ws);
    let mut a = v::Aead::new(&ws, &rs, bit(c)).ok_or("no keys")?;
    let mut ctx = Box::new(Ctx { wr: lims(s), ..Ctx::default() });
    let mut rl = v::Rl::new(io(&mut ctx));
    let mut msgs = vec![];
    for _ in 0..s.range(1, 3) {
        let n = s.pick(&[0usize, 1, 2, 100, 0x3fff, 0x4000, 0x4001, 0x7fff, 0x8000, 0x8001, 0xa000]);
        let m = s.bytes(n);
        let t = s.pick(&[21u8, 22, 23]);
        let mut tries = 0;
        loop {
            let before = ctx.out.len();
            let r = if prot { rl.write(&m, t, &mut a) } else { rl.write_raw(&m, t) };
            match r {
                Ok(()) => break,
                Err(e) => {
                    check!(e == WANT_WRITE, "error {e}");
                    check!(ctx.wr.contains(&0), "a write failed without a reason");
                    tries += 1;
                    check!(tries < 200_000, "no progress");
                    let _ = before;
                }
            }
        }
        msgs.push((t, m));
    }
    // what is in the records
    let recs = tls::records(&ctx.out)?;
    let mut it = recs.into_iter();
    for (t, m) in msgs {
        let mut got = vec![];
        while got.len() < m.len() {
            let Some((rt, rv, b)) = it.next() else { return Err(format!("a message of {} bytes ends after {} bytes", m.len(), got.len())) };
            check!(rv == 0x0303, "record version {rv:04x}");
            if prot {
                check!(rt == 23, "protected record of type {rt}");
                check!(b.len() <= 0x4100, "record of {} bytes", b.len());
                let seq = k.seq;
                let Some(mut inner) = k.open(&tls::record(23, &b)) else { return Err(format!("record {seq} can't be decrypted")) };
                while inner.last() == Some(&0) {
                    inner.pop();
                }
                let it = inner.pop();
                check!(it == Some(t), "inner type {it:?} instead of {t}");
                check!(inner.len() <= 0x4000, "{} bytes of content", inner.len());
                got.extend(inner);
            } else {
                check!(rt == t, "record of type {rt} instead of {t}");
                check!(b.len() <= 0x4000, "record of {} bytes", b.len());
                got.extend(b);
            }
            check!(got.len() <= m.len() && got[..] == m[..got.len()], "the records contain something else than the message of {} bytes", m.len());
        }
    }
    check!(it.next().is_none(), "an additional record was written");
    Ok(true)
}

/// a close in the middle of a message
fn interrupted_close(s: &mut Src) -> R {
    let c = cipher(s);
    let prot = s.bool();
    let (ws, rs) = (s.array::<32>(), s.array::<32>());
    let mut k = Keys::from_secret(c, &ws);
    let mut a = v::Aead::new(&ws, &rs, bit(c)).ok_or("no keys")?;
    let mut ctx = Box::new(Ctx::default());
    let mut rl = v::Rl::new(io(&mut ctx));
    let n = s.pick(&[100usize, 0x4000, 0x4001, 0x9000]);
    let m = s.bytes(n);
    let mut w: Vec<u16> = (0..s.range(0, 5)).map(|_| s.pick(&[1, 5, 300, 0x4005, 0x4016, 0xffff])).collect();
    w.push(0);
    ctx.wr = w;
    let r = if prot { rl.write(&m, 22, &mut a) } else { rl.write_raw(&m, 22) };
    ctx.wr = vec![s.pick(&[1, 7, 0xffff])];
    let alert = s.pick(&tls::ALERTS);
    if prot {
        rl.close(alert, &mut a);
    } else {
        rl.close_raw(alert);
    }
    check!(ctx.closes == 1, "closed {} times", ctx.closes);
    let recs = tls::records(&ctx.out)?;
    let Some(((lt, _, lb), body)) = recs.split_last() else { return Err("no record".into()) };
    let mut got = vec![];
    for (t, _, b) in body {
        if prot {
            let Some(mut i) = k.open(&tls::record(*t, b)) else { return Err("a record can't be decrypted".into()) };
            check!(i.pop() == Some(22), "wrong type");
            got.extend(i);
        } else {
            check!(*t == 22, "wrong type");
            got.extend(b);
        }
    }
    check!(got.len() <= m.len() && got[..] == m[..got.len()], "the records contain something else");
    check!(r.is_err() || got.len() == m.len(), "the message is incomplete");
    if prot {
        let Some(i) = k.open(&tls::record(*lt, lb)) else { return Err("the alert can't be decrypted".into()) };
        check!(i == [2, alert, 21], "last record {}", hex(&i));
    } else {
        check!(*lt == 21 && lb[..] == [2, alert], "last record {lt} {}", hex(lb));
    }
    Ok(true)
}

// ---- T03

/// a stream of records read in pieces of any size
fn stream(s: &mut Src) -> R {
    let c = cipher(s);
    let prot = s.below(3) > 0;
    let (ws, rs) = (s.array::<32>(), s.array::<32>());
    let mut k = Keys::from_secret(c, &rs);
    let mut a = v::Aead::new(&ws, &rs, bit(c)).ok_or("no keys")?;
    let mut ctx = Box::new(Ctx { rd: lims(s), ..Ctx::default() });
    let mut recs = vec![];
    for _ in 0..s.range(1, 4) {
        let n = s.pick(&[1usize, 2, 17, 100, 0x3fff, 0x4000, 300]);
        let b = s.bytes(n);
        let t = s.pick(&[21u8, 22, 23]);
        let t = if !prot && t == 23 { 22 } else { t };
        let pad = s.pick(&[0usize, 0, 1, 16, 200]).min(0x4000 + 239 - n);
        ctx.inp.extend(if prot { k.seal(t, &b, pad) } else { tls::record(t, &b) });
        recs.push((t, b));
    }
    let mut rl = v::Rl::new(io(&mut ctx));
    for (i, (t, b)) in recs.iter().enumerate() {
        let mut got: Vec<u8> = vec![];
        let mut tries = 0;
        while got.len() < b.len() {
            let n = s.pick(&[1usize, 3, 100, 5000, 0x5000]);
            let mut buf = vec![0xcc; n];
            let r = if prot { rl.read(&mut buf, &mut a) } else { rl.read_raw(&mut buf) };
            match r {
                Ok(x) => {
                    check!(x > 0 && x <= n, "read {x} of {n} bytes");
                    check!(buf[x..].iter().all(|y| *y == 0xcc), "more than {x} bytes were changed");
                    check!(rl.msg_type() == *t, "record {i} has type {} instead of {t}", rl.msg_type());
                    got.extend(&buf[..x]);
                }
                Err((e, al)) => {
                    check!(e == WANT_READ, "record {i} is rejected: error {e} alert {al}");
                    tries += 1;
                    check!(tries < 200_000, "no progress");
                }
            }
        }
        check!(got == *b, "record {i} contains something else");
        if s.below(4) == 0 {
            rl.discard();
        }
    }
    let r = if prot { rl.read(&mut [0; 9], &mut a) } else { rl.read_raw(&mut [0; 9]) };
    check!(matches!(r, Err((WANT_READ, _))), "something is read after the last record");
    Ok(true)
}

/// every content length around the limits
fn limits(s: &mut Src) -> R {
    let c = cipher(s);
    let (ws, rs) = (s.array::<32>(), s.array::<32>());
    let mut k = Keys::from_secret(c, &rs);
    let mut a = v::Aead::new(&ws, &rs, bit(c)).ok_or("no keys")?;
    let n = 0x4000 - 2 + s.index as usize % 260;
    let pad = s.below(3) as usize;
    let mut ctx = Box::new(Ctx::default());
    let mut r = k.seal(23, &s.bytes(n), pad);
    let total = r.len() - 5;
    let ok = n <= 0x4000 && total <= 0x4100;
    if total > 0x4100 {
        r.truncate(5);
    }
    ctx.inp = r;
    let mut rl = v::Rl::new(io(&mut ctx));
    let res = rl.get(&mut a);
    if ok {
        check!(res.is_ok(), "a record with {n} bytes of content, {total} bytes in all, is rejected: {res:?}");
    } else {
        check!(res == Err((TLS, 22)), "a record with {n} bytes of content, {total} bytes in all: {res:?}");
    }
    Ok(true)
}

// ---- T04

fn transcript(s: &mut Src) -> R {
    let c = cipher(s);
    let (ws, rs) = (s.array::<32>(), s.array::<32>());
    let mut k = Keys::from_secret(c, &rs);
    let mut wk = Keys::from_secret(c, &ws);
    let mut a = v::Aead::new(&ws, &rs, bit(c)).ok_or("no keys")?;
    let mut ctx = Box::new(Ctx { rd: lims(s), wr: lims(s), ..Ctx::default() });
    let mut rl = v::Rl::new(io(&mut ctx));
    let max = s.pick(&[0x20000usize, 64, 5000]);
    let mut sh = v::Shake::new(max);
    let mut all = vec![];
    for _ in 0..s.range(1, 4) {
        let prot = s.bool();
        if s.below(3) == 0 {
            // a message to the peer
            let chunks: Vec<Vec<u8>> = (0..s.range(0, 5)).map(|_| { let n = s.pick(&[0usize, 1, 2, 30, 5000, 0x4000]); s.bytes(n) }).collect();
            let t = s.bool();
            let m = tls::msg(1 + t as u8, &chunks.concat());
            sh.put(t, &chunks);
            let start = ctx.out.len();
            let mut tries = 0;
            while let Err(e) = if prot { sh.write(&mut rl, &mut a) } else { sh.write_raw(&mut rl) } {
                check!(e == WANT_WRITE, "error {e}");
                tries += 1;
                check!(tries < 200_000, "no progress");
            }
            let mut got = vec![];
            for (rt, _, b) in tls::records(&ctx.out[start..])? {
                if prot {
                    let mut i = wk.open(&tls::record(rt, &b)).ok_or("a record can't be decrypted")?;
                    check!(i.pop() == Some(22), "wrong type");
                    got.extend(i);
                } else {
                    got.extend(b);
                }
            }
            check!(got == m, "the message of {} bytes was written as {} bytes", m.len(), got.len());
            all.extend(m);
        } else {
            let n = s.pick(&[0usize, 1, 40, 59, 60, 61, 300, 0x3ffc, 0x4001, 0x9000]);
            let body = s.bytes(n);
            let typ = s.range(0, 255) as u8;
            let m = tls::msg(typ, &body);
            let mut p = 0;
            while p < m.len() {
                let n = s.pick(&[1usize, 2, 3, 4, 5, 50, 0x4000]).max(m.len() / 40).min(0x4000).min(m.len() - p);
                if s.below(6) == 0 {
                    for _ in 0..s.range(1, 3) {
                        ctx.inp.extend(tls::record(20, &[1]));
                    }
                }
                let pad = s.pick(&[0usize, 1, 100]);
                let r = if prot { k.seal(22, &m[p..p + n], pad) } else { tls::record(22, &m[p..p + n]) };
                ctx.inp.extend(r);
                p += n;
            }
            let mut tries = 0;
            loop {
                match if prot { sh.read(&mut rl, &mut a) } else { sh.read_raw(&mut rl) } {
                    Ok(()) => break,
                    Err((WANT_READ, _)) => {
                        tries += 1;
                        check!(tries < 200_000, "no progress");
                    }
                    Err(e) => {
                        check!(m.len() > max && e == (TLS, 47), "a message of {} bytes (maximum {max}) is rejected: {e:?}", m.len());
                        return Ok(true);
                    }
                }
            }
            check!(m.len() <= max, "a message of {} bytes is accepted, the maximum is {max}", m.len());
            check!(sh.data() == (typ, body), "the message was changed");
            all.extend(m);
        }
        check!(sh.transcript() == refs::sha256(&all), "the transcript isn't the hash of the messages");
    }
    Ok(true)
}

// ---- T05

fn labels(s: &mut Src) -> R {
    let secret = s.array::<32>();
    let l = s.range(0, 12);
    let label = s.bytes(l);
    let c = s.range(0, 32);
    let ctx = s.bytes(c);
    let n = s.pick(&[0usize, 1, 12, 16, 31, 32, 33, 64, 65, 100, 255, 256, 300, 8160]);
    let mut out = vec![0x55; n];
    v::expand_label(&mut out, &secret, &label, &ctx);
    let want = refs::hkdf_expand_label(&secret, &label, &ctx, n);
    check!(out == want, "HKDF-Expand-Label({}, {}, {}, {n}) = {}", hex(&secret), hex(&label), hex(&ctx), hex(&out));
    let t = s.array::<32>();
    check!(v::derive_secret(&secret, &label, &t)[..] == refs::hkdf_expand_label(&secret, &label, &t, 32)[..], "Derive-Secret({}, {}, {})", hex(&secret), hex(&label), hex(&t));
    Ok(true)
}

// ---- T05 / T08

fn hello_keys(s: &mut Src) -> R {
    let c = cipher(s);
    let mut kb = s.bytes(32);
    kb[31] = 0;
    kb[0] |= 1;
    let ck = p256::from_be(&kb.iter().rev().copied().collect::<Vec<_>>());
    let mut ks: U = s.digits();
    ks[3] = 0;
    ks[0] |= 1;
    let g = Some((p256::GX, p256::GY));
    let pt = p256::mul(&ks, &g).unwrap();
    let exts = [tls::ext(43, &[3, 4]), tls::share_ext(&tls::point_bytes(&pt))].concat();
    let body = tls::server_hello(&s.bytes(32), c, &exts);
    let sh = tls::msg(2, &body);
    let n = s.range(0, 300);
    let ch = s.bytes(n);
    let mut ctx = Box::new(Ctx::default());
    getrandom::script(vec![getrandom::Next::Bytes(kb)]);
    let r = v::server_hello(io(&mut ctx), &ch, &sh, 3, 1, &tls::early_secret());
    let dh = p256::to_be(&p256::mul(&ck, &Some(pt)).unwrap().0);
    let sched = tls::schedule(&dh, &[&ch[..], &sh[..]].concat());
    match r {
        Err(a) => return Err(format!("a valid ServerHello is rejected with {a}")),
        Ok((sec, mut a)) => {
            check!(sec == sched.handshake, "the handshake secret is {} instead of {}", hex(&sec), hex(&sched.handshake));
            let mut w = Keys::from_secret(c, &sched.client);
            let mut r = Keys::from_secret(c, &sched.server);
            let want = w.seal_inner(b"hello");
            let mut m = *b"hello";
            let t = a.encrypt(&mut m, &want[..5]);
            check!(want[5..] == [&m[..], &t[..]].concat(), "the client's traffic key is wrong");
            let rec = r.seal_inner(b"world");
            let mut m: [u8; 5] = rec[5..10].try_into().unwrap();
            check!(a.decrypt(&mut m, &rec[..5], rec[10..].try_into().unwrap()) && &m == b"world", "the server's traffic key is wrong");
        }
    }
    Ok(true)
}

fn hello_codes(s: &mut Src) -> R {
    let i = s.index;
    let code = (i / 2) as u16;
    let exts = [tls::ext(43, &[3, 4]), tls::share_ext(&tls::point_bytes(&(p256::GX, p256::GY)))].concat();
    let mut body = tls::server_hello(&[1; 32], CHACHA, &exts);
    if i % 2 == 0 {
        body[35..37].copy_from_slice(&code.to_be_bytes());
    } else {
        // the supported group before the point: its key exchange needs no time with the key 1
        let n = body.len();
        body[n - 69..n - 67].copy_from_slice(&code.to_be_bytes());
    }
    let mut one = vec![0; 32];
    one[0] = 1;
    getrandom::script(vec![getrandom::Next::Bytes(one)]);
    let mut ctx = Box::new(Ctx::default());
    let ciphers = s.pick(&[3u8, 3, 1, 2]);
    let r = v::server_hello(io(&mut ctx), b"", &tls::msg(2, &body), ciphers, 1, &[0; 32]);
    let want = matches!(tls::judge_sh(&body, ciphers, 1), tls::ShVerdict::Ok(..));
    check!(r.is_ok() == want, "code {code:04x} as {}, offered ciphers {ciphers:#x}: accepted {}", if i % 2 == 0 { "cipher suite" } else { "group" }, r.is_ok());
    Ok(true)
}

// ---- T07

fn blob(s: &mut Src) -> Vec<u8> {
    // nested lengths that are almost right
    let n = s.range(0, 60);
    let mut b = s.bytes(n);
    for _ in 0..s.range(0, 4) {
        if b.is_empty() {
            break;
        }
        let i = s.below(b.len() as u64) as usize;
        b[i] = match s.below(3) {
            0 => 0,
            1 => (b.len() - i).wrapping_sub(s.range(0, 4)) as u8,
            _ => s.below(20) as u8,
        };
    }
    b
}

fn iterators(s: &mut Src) -> R {
    let b = blob(s);
    // extensions
    let got = v::ext_iter(&b);
    let mut want = vec![];
    let mut p = 0;
    while p + 4 <= b.len() {
        let l = u16::from_be_bytes([b[p + 2], b[p + 3]]) as usize;
        if p + 4 + l > b.len() {
            break;
        }
        want.push((u16::from_be_bytes([b[p], b[p + 1]]), b[p + 4..p + 4 + l].to_vec()));
        p += 4 + l;
    }
    check!(got == want, "ExtIter over {}: {got:x?} instead of {want:x?}", hex(&b));
    // certificates
    let got = v::cert_iter(&b);
    let mut want = vec![];
    let mut p = 0;
    while p + 3 <= b.len() {
        let l = u32::from_be_bytes([0, b[p], b[p + 1], b[p + 2]]) as usize;
        if p + 5 + l > b.len() {
            break;
        }
        let e = u16::from_be_bytes([b[p + 3 + l], b[p + 4 + l]]) as usize;
        if p + 5 + l + e > b.len() {
            break;
        }
        want.push((b[p + 3..p + 3 + l].to_vec(), b[p + 5 + l..p + 5 + l + e].to_vec()));
        p += 5 + l + e;
    }
    check!(got == want, "CertIter over {}: {got:x?} instead of {want:x?}", hex(&b));
    Ok(!b.is_empty())
}

fn der(s: &mut Src) -> R {
    let mut b = blob(s);
    if s.bool() {
        let n = s.pick(&[0usize, 5, 127, 128, 255, 256, 300, 65535, 65536]);
        let x = s.bytes(n);
        b = tls::der(s.range(0, 255) as u8, &x);
        if s.bool() {
            let n = s.below(b.len() as u64) as usize;
            b.truncate(n);
        }
        b.extend(blob(s));
    }
    let got = v::der_iter(&b);
    let mut rest = &b[..];
    let mut i = 0;
    loop {
        match tls::der_next(&mut rest) {
            J::Ok((t, d)) => {
                check!(i < got.len() && got[i].0 == t && got[i].1 == d, "DerIter over {}: element {i} is wrong", hex(&b));
                i += 1;
            }
            J::Bad => {
                check!(got.len() == i, "DerIter over {}: {} elements instead of {i}", hex(&b), got.len());
                break;
            }
            J::Gray => break,
        }
    }
    Ok(!b.is_empty())
}

fn encrypted_extensions(s: &mut Src) -> R {
    let b = if s.below(3) == 0 {
        blob(s)
    } else {
        let mut e = vec![];
        for _ in 0..s.range(0, 3) {
            let t = s.pick(&[0u16, 10, 16, 16, 43, 0xffff]);
            let n = s.pick(&[0usize, 1, 2, 255, 30]);
            let mut a = vec![n as u8];
            a.extend(s.bytes(n));
            let mut d = tls::len16(&a);
            if s.below(3) == 0 {
                let i = s.below(d.len() as u64) as usize;
                d[i] = d[i].wrapping_add(s.pick(&[1, 2, 0xff]));
            }
            if s.below(5) == 0 {
                d.pop();
            }
            e.extend(tls::ext(t, &d));
        }
        tls::len16(&e)
    };
    let mut ctx = Box::new(Ctx::default());
    let mut proto = [7; 256];
    let r = v::encrypted_extensions(io(&mut ctx), &b, &mut proto);
    match tls::judge_ee(&b) {
        tls::EeVerdict::Ok(p) => {
            check!(r.is_ok(), "EncryptedExtensions {} are rejected with {r:?}", hex(&b));
            if let Some(p) = p {
                check!(proto[..p.len()] == p[..] && proto[p.len()..].iter().all(|x| *x == 0), "protocol {}", hex(&proto));
            }
        }
        tls::EeVerdict::Bad => check!(r.is_err(), "EncryptedExtensions {} are accepted", hex(&b)),
        tls::EeVerdict::Unspecified => (),
    }
    Ok(true)
}

fn garbage(s: &mut Src) -> R {
    let b = blob(s);
    let mut ctx = Box::new(Ctx::default());
    let mut one = vec![0; 32];
    one[0] = 1;
    getrandom::script(vec![getrandom::Next::Bytes(one)]);
    let r = v::server_hello(io(&mut ctx), b"", &tls::msg(2, &b), 3, 1, &[0; 32]);
    check!(r.is_ok() == matches!(tls::judge_sh(&b, 3, 1), tls::ShVerdict::Ok(..)), "ServerHello {}: accepted {}", hex(&b), r.is_ok());
    let r = v::certificate(&b);
    match tls::judge_certs(&b) {
        J::Ok(()) => check!(r.is_ok(), "Certificate {} is rejected", hex(&b)),
        J::Bad => check!(r.is_err(), "Certificate {} is accepted", hex(&b)),
        J::Gray => (),
    }
    let r = v::validate_cert(&b);
    match tls::judge_cert(&b) {
        J::Ok(()) => check!(r.is_ok(), "certificate {} is rejected", hex(&b)),
        J::Bad => check!(r.is_err(), "certificate {} is accepted", hex(&b)),
        J::Gray => (),
    }
    Ok(true)
}

// ---- T09

fn sig_ints(s: &mut Src) -> R {
    let n = s.range(0, 40);
    let mut b = s.bytes(n);
    if s.below(3) == 0 {
        // around the order
        let mut x = vsrc::nat::Nat::from_digits(&p256::N);
        let d = vsrc::nat::Nat::from_u64(s.below(5));
        x = if s.bool() { x.add(&d) } else { x.sub(&d) };
        b = x.to_be(32);
        b.insert(0, 0);
    }
    let tag = s.pick(&[2u8, 2, 2, 2, 2, 2, 2, 3, 0x82, 0x30]);
    let r = v::sig_int(tag, &b);
    let enc = tls::der(2, &b);
    match (tag, tls::sig_int(&mut &enc[..])) {
        (2, J::Ok(x)) => check!(r == Ok(p256::to_be(&x)), "INTEGER {} is parsed as {r:?}", hex(&b)),
        (2, J::Gray) => check!(r.is_err() || r.unwrap()[..] == vsrc::nat::Nat::from_be(&b).to_be(32)[..], "INTEGER {} is parsed as {r:?}", hex(&b)),
        _ => check!(r.is_err(), "tag {tag} {}: accepted", hex(&b)),
    }
    Ok(true)
}

fn signatures(s: &mut Src) -> R {
    let mut b = vec![s.pick(&[0u8, 0, 0, 0, 0, 0, 1, 7, 0xff])];
    let int = |s: &mut Src| {
        let n = s.range(0, 36);
        let mut x = s.bytes(n);
        if s.below(3) > 0 && n > 0 && n <= 32 {
            x[0] = x[0] % 127 + 1;
        }
        tls::der(s.pick(&[2, 2, 2, 2, 2, 2, 2, 4]), &x)
    };
    let mut seq = vec![];
    for _ in 0..s.pick(&[2usize, 2, 2, 2, 1, 0, 3]) {
        seq.extend(int(s));
    }
    b.extend(tls::der(s.pick(&[0x30, 0x30, 0x30, 0x30, 0x31, 2]), &seq));
    if s.below(10) == 0 {
        let n = s.below(b.len() as u64) as usize;
        b.truncate(n);
    }
    let tag = s.pick(&[3u8, 3, 3, 3, 3, 4, 0x23]);
    let r = v::signature(tag, &b);
    let enc = tls::der(tag, &b);
    match tls::signature(&mut &enc[..]) {
        J::Ok(_) => check!(r.is_ok(), "signature {} is rejected with {r:?}", hex(&b)),
        J::Bad => check!(r.is_err(), "signature {} with tag {tag} is accepted", hex(&b)),
        J::Gray => (),
    }
    Ok(true)
}

// ---- structured messages with a few deviations whose enclosing lengths stay right

enum Node {
    Leaf(u8, Vec<u8>),
    Kids(u8, Vec<u8>, Vec<Node>),
}
fn render(n: &Node) -> Vec<u8> {
    match n {
        Node::Leaf(t, b) => tls::der(*t, b),
        Node::Kids(t, pre, k) => tls::der(*t, &[pre.clone(), k.iter().flat_map(render).collect()].concat()),
    }
}
fn count(n: &Node) -> u64 {
    match n {
        Node::Leaf(..) => 1,
        Node::Kids(_, _, k) => 1 + k.iter().map(count).sum::<u64>(),
    }
}
/// changes the node number `i` (depth first)
fn bend(s: &mut Src, n: &mut Node, i: &mut u64) {
    let hit = *i == 0;
    *i = i.wrapping_sub(1);
    if hit {
        match (s.below(6), n) {
            (0 | 1, Node::Leaf(t, _) | Node::Kids(t, ..)) => {
                *t = match s.below(3) {
                    0 => *t ^ 1 << s.below(8),
                    1 => s.pick(&[1u8, 2, 3, 4, 5, 6, 0x10, 0x17, 0x18, 0x30, 0x31, 0xa0, 0xa1, 0xa3]),
                    _ => s.u8(),
                }
            }
            (2, Node::Leaf(_, b) | Node::Kids(_, b, _)) => {
                let k = s.range(1, 4);
                b.extend(s.bytes(k));
            }
            (3, Node::Leaf(_, b)) => {
                b.pop();
            }
            (4, Node::Leaf(_, b)) if !b.is_empty() => {
                let j = s.below(b.len() as u64) as usize;
                b[j] ^= 1 << s.below(8);
            }
            (5, Node::Leaf(_, b)) => {
                let k = s.pick(&[0usize, 1, 2, 31, 32, 33, 34, 127, 128, 256]);
                *b = s.bytes(k);
            }
            (_, Node::Leaf(_, b)) => b.insert(0, 0),
            (3, Node::Kids(_, _, k)) => {
                k.pop();
            }
            (4, Node::Kids(_, _, k)) if !k.is_empty() => {
                let j = s.below(k.len() as u64) as usize;
                k.remove(j);
            }
            (5, Node::Kids(_, _, k)) if k.len() > 1 => {
                let j = s.below(k.len() as u64 - 1) as usize;
                k.swap(j, j + 1);
            }
            (_, Node::Kids(_, b, _)) => *b = vec![s.u8()],
        }
        return;
    }
    if let Node::Kids(_, _, k) = n {
        for x in k {
            bend(s, x, i);
        }
    }
}
fn certificate(s: &mut Src) -> Vec<u8> {
    use Node::*;
    let alg = || Kids(0x30, vec![], vec![Leaf(6, tls::OID.to_vec())]);
    let int = |s: &mut Src| {
        let mut b = s.bytes(32);
        match s.below(5) {
            0 => b = p256::to_be(&p256::N).to_vec(),
            1 => b = p256::to_be(&p256::subm(&[0; 4], &[1, 0, 0, 0], &p256::N)).to_vec(),
            2 => {
                let k = s.range(1, 31);
                b.truncate(k);
            }
            _ => (),
        }
        if b[0] >= 0x80 {
            b.insert(0, 0);
        }
        Leaf(2, b)
    };
    let text = |s: &mut Src, t: u8| {
        let k = s.pick(&[0usize, 3, 120, 130, 300]);
        Leaf(t, s.bytes(k))
    };
    let time = |s: &mut Src| Leaf(s.pick(&[0x17, 0x18]), b"250101000000Z".to_vec());
    let mut tbs = vec![
        Kids(0xa0, vec![], vec![Leaf(2, vec![2])]),
        Leaf(2, vec![1, 2]),
        alg(),
        text(s, 0x30),
        Kids(0x30, vec![], vec![time(s), time(s)]),
        text(s, 0x30),
        text(s, 0x30),
    ];
    tbs.push(text(s, 0xa3));
    let sig = Kids(0x30, vec![], vec![int(s), int(s)]);
    let mut c = Kids(0x30, vec![], vec![Kids(0x30, vec![], tbs), alg(), Kids(3, vec![0], vec![sig])]);
    for _ in 0..s.pick(&[0usize, 1, 1, 1, 1, 2]) {
        let mut i = s.below(count(&c));
        bend(s, &mut c, &mut i);
    }
    let mut b = render(&c);
    match s.below(16) {
        0 => {
            let k = s.below(b.len() as u64) as usize;
            b.truncate(k);
        }
        1 => {
            let k = s.below(b.len().min(400) as u64) as usize;
            b[k] ^= 1 << s.below(8);
        }
        _ => (),
    }
    b
}
fn certs(s: &mut Src) -> R {
    let b = certificate(s);
    let r = v::validate_cert(&b);
    let good = match tls::judge_cert(&b) {
        J::Ok(()) => {
            check!(r.is_ok(), "certificate {} is rejected with {r:?}", hex(&b));
            true
        }
        J::Bad => {
            check!(r.is_err(), "certificate {} is accepted", hex(&b));
            false
        }
        J::Gray => return Ok(true),
    };
    let other = if s.bool() { certificate(s) } else { b.clone() };
    let mut list = match s.below(3) {
        0 => vec![b],
        1 => vec![b, other],
        _ => vec![other, b],
    };
    if s.below(20) == 0 {
        list.clear();
    }
    let mut m = tls::certs_msg(&list, &[]);
    // one of the length fields or the end of the message
    match s.below(6) {
        0 => {
            let at = s.pick(&[0usize, 3, 6, m.len().saturating_sub(1), m.len().saturating_sub(2)]);
            if at < m.len() {
                m[at] = m[at].wrapping_add(s.pick(&[1, 2, 0xff, 0xfe]));
            }
        }
        1 => m.push(0),
        2 => {
            m.pop();
        }
        _ => (),
    }
    let r = v::certificate(&m);
    match tls::judge_certs(&m) {
        J::Ok(()) => check!(r.is_ok(), "Certificate {} is rejected with {r:?}", hex(&m)),
        J::Bad => check!(r.is_err(), "Certificate {} is accepted", hex(&m)),
        J::Gray => (),
    }
    Ok(good)
}
fn hellos(s: &mut Src) -> R {
    let c = cipher(s);
    let mut pt = tls::point_bytes(&(p256::GX, p256::GY));
    if s.below(12) == 0 {
        let (y, x) = s.pick(&p256::SMALL_Y);
        pt = tls::point_bytes(&(x, [y, 0, 0, 0]));
    }
    let mut exts = vec![(43u16, vec![3u8, 4]), (51, [&[0, 0x17, 0, 65][..], &pt].concat())];
    if s.bool() {
        exts.swap(0, 1);
    }
    let i = s.below(exts.len() as u64) as usize;
    match s.below(14) {
        // cut, with the enclosing lengths right
        0 | 1 => {
            let cap = if s.bool() { 6 } else { 99 };
            let k = s.below(exts[i].1.len().min(cap) as u64) as usize;
            exts[i].1.truncate(k);
        }
        2 => {
            let k = s.range(1, 5);
            let b = s.bytes(k);
            exts[i].1.extend(b);
        }
        3 | 4 => {
            let k = s.below(exts[i].1.len() as u64) as usize;
            exts[i].1[k] = s.u8();
        }
        // the inner length follows too
        5 => {
            if let Some(e) = exts.iter_mut().find(|e| e.0 == 51) {
                let k = s.pick(&[0usize, 1, 33, 64, 66, 65]);
                e.1.truncate(4);
                e.1[3] = k as u8;
                let b = s.bytes(k);
                e.1.extend(b);
            }
        }
        6 => {
            exts.remove(i);
        }
        7 => {
            let e = exts[i].clone();
            let at = s.below(3) as usize;
            exts.insert(at, e);
        }
        8 => {
            let k = s.below(6) as usize;
            let e = (s.pick(&[0u16, 10, 13, 16, 41, 42, 44, 0xffff, 0x2b00, 0x332b]), s.bytes(k));
            let at = s.below(3) as usize;
            exts.insert(at, e);
        }
        9 => exts[i].0 ^= 1 << s.below(16),
        _ => (),
    }
    let e: Vec<u8> = exts.iter().flat_map(|(t, d)| tls::ext(*t, d)).collect();
    let mut b = tls::server_hello(&[9; 32], c, &e);
    match s.below(20) {
        0 => {
            let k = s.below(b.len() as u64) as usize;
            b.truncate(k);
        }
        1 => b.push(0),
        2 => {
            b.pop();
        }
        3 => b[34] = s.range(0, 3) as u8,
        4 => b[37] = s.range(0, 2) as u8,
        5 => b[39] = b[39].wrapping_add(s.pick(&[1, 2, 4, 0xff, 0xfc])),
        6 => b[38] = 1,
        7 => b[36] ^= 1 << s.below(8),
        _ => (),
    }
    let mut one = vec![0; 32];
    one[0] = 1;
    getrandom::script(vec![getrandom::Next::Bytes(one)]);
    let mut ctx = Box::new(Ctx::default());
    let ciphers = s.pick(&[3u8, 3, 1, 2]);
    let r = v::server_hello(io(&mut ctx), b"", &tls::msg(2, &b), ciphers, 1, &[0; 32]);
    let want = matches!(tls::judge_sh(&b, ciphers, 1), tls::ShVerdict::Ok(..));
    check!(r.is_ok() == want, "ServerHello {}, offered ciphers {ciphers:#x}: accepted {}", hex(&b), r.is_ok());
    Ok(true)
}

// ---- T10

fn alerts(s: &mut Src) -> R {
    let b = s.index as u8;
    let want = if tls::ALERTS.contains(&b) { b } else { 80 };
    check!(v::alert_from_byte(b) == want, "alert {b} is taken for {}", v::alert_from_byte(b));
    check!(v::alert_msg(want) == [2, want], "alert {want} is sent as {:?}", v::alert_msg(want));
    Ok(true)
}

fn main() {
    vsrc::main(&[
        ("T01", vec![case!(nonces), case!(exhaustion, 20)]),
        ("T02", vec![case!(protected_writes), case!(interrupted_close)]),
        ("T03", vec![case!(stream), case!(limits, 260)]),
        ("T04", vec![case!(transcript)]),
        ("T05", vec![case!(labels), case!(hello_keys)]),
        ("T07", vec![case!(iterators), case!(der), case!(encrypted_extensions), case!(garbage), case!(hellos), case!(certs)]),
        ("T08", vec![case!(hello_codes, 131072), case!(hellos)]),
        ("T09", vec![case!(sig_ints), case!(signatures), case!(garbage), case!(certs)]),
        ("T10", vec![case!(alerts, 256)]),
        ("T11", vec![case!(protected_writes), case!(stream)]),
    ])
}
