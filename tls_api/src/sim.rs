//! Runs the library's C interface in a child process against a scripted peer and records
//! everything that is observable.
use getrandom as fr;
use std::ffi::{c_char, c_int, c_void, CString};
use turtls::*;

extern "C" {
    fn fork() -> c_int;
    fn _exit(c: c_int) -> !;
    fn waitpid(pid: c_int, st: *mut c_int, opt: c_int) -> c_int;
    fn pipe(fds: *mut c_int) -> c_int;
    fn read(fd: c_int, b: *mut c_void, n: usize) -> isize;
    fn write(fd: c_int, b: *const c_void, n: usize) -> isize;
    fn close(fd: c_int) -> c_int;
    fn alarm(s: u32) -> u32;
}

#[derive(Clone, Default)]
pub struct Cfg {
    pub server_name: Option<Vec<u8>>,
    pub protos: Option<Vec<u8>>,
    pub sig_algs: u16,
    pub groups: u16,
    pub ciphers: u8,
}
impl std::fmt::Debug for Cfg {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let len = |x: &Option<Vec<u8>>| x.as_ref().map(|x| x.len());
        write!(f, "(server name {:?} bytes, protocols {:?} bytes, sig_algs {:#x}, groups {:#x}, ciphers {:#x})", len(&self.server_name), len(&self.protos), self.sig_algs, self.groups, self.ciphers)
    }
}
impl Cfg {
    pub fn std() -> Cfg {
        Cfg { server_name: None, protos: None, sig_algs: 1, groups: 1, ciphers: 3 }
    }
}

/// What the harness does with the connection object.
pub enum Op {
    /// call turtls_connect until the result isn't WantRead/WantWrite, or the peer has nothing left
    Connect,
    /// call turtls_connect exactly once
    ConnectOnce,
    /// change the configuration
    Config(Cfg),
    /// new peer: the function is called with everything the client has written on this connection
    /// when the client first wants to read
    Peer(Box<dyn FnMut(&[u8]) -> Vec<u8>>),
    /// limits for the following IO calls (0: the call fails); used in order, repeated
    Limits { rd: Vec<u16>, wr: Vec<u16> },
    Rng(Vec<fr::Next>),
    Close,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Call {
    /// 0 = connect, 1 = close, 2 = peer changed
    pub what: u8,
    pub ret: i32,
    pub err: u32,
    pub alert: u32,
    /// bytes written, and bytes read, by the library so far on this connection
    pub out: u32,
    pub read: u32,
    pub closes: u32,
    pub starved: bool,
    /// writes and reads after the connection was closed
    pub late: u32,
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub calls: Vec<Call>,
    /// output per connection (a new one starts with every Peer op)
    pub outs: Vec<Vec<u8>>,
    /// a part of the handshake that doesn't exist yet was reached
    pub todo: bool,
    pub panic: Option<String>,
    pub proto: Vec<u8>,
    pub draws: Vec<Vec<u8>>,
    pub bad_io: Option<String>,
}

impl Outcome {
    pub fn last(&self) -> &Call {
        self.calls.iter().filter(|c| c.what != 2).last().unwrap()
    }
    pub fn out(&self) -> &[u8] {
        self.outs.last().unwrap()
    }
    /// still waiting for the peer, nothing wrong so far
    pub fn waiting(&self) -> bool {
        !self.todo && self.last().ret == -1 && self.last().err == WANT_READ && self.last().closes == 0
    }
}

pub const TLS: u32 = TurtlsError::Tls as u32;
pub const TLS_PEER: u32 = TurtlsError::TlsPeer as u32;
pub const RNG: u32 = TurtlsError::Rng as u32;
pub const WANT_READ: u32 = TurtlsError::WantRead as u32;
pub const WANT_WRITE: u32 = TurtlsError::WantWrite as u32;
pub const PRIV_KEY_IS_ZERO: u32 = TurtlsError::PrivKeyIsZero as u32;
pub const MISSING_EXTENSIONS: u32 = TurtlsError::MissingExtensions as u32;

struct Ctx {
    out: Vec<u8>,
    inp: Vec<u8>,
    pos: usize,
    peer: Option<Box<dyn FnMut(&[u8]) -> Vec<u8>>>,
    rd: Vec<u16>,
    wr: Vec<u16>,
    nrd: usize,
    nwr: usize,
    closes: u32,
    late: u32,
    starved: bool,
    res: Outcome,
    conn: *mut TurtlsConn,
    fd: c_int,
}

static mut CTX: *mut Ctx = std::ptr::null_mut();

extern "C" fn io_read(buf: *mut c_void, amt: usize, ctx: *const c_void) -> isize {
    let c = unsafe { &mut *(ctx as *mut Ctx) };
    c.late += (c.closes > 0) as u32;
    if amt == 0 {
        c.res.bad_io = Some("read of 0 bytes requested".into());
        return 0;
    }
    if c.pos == c.inp.len() {
        if let Some(mut f) = c.peer.take() {
            c.inp = f(&c.out);
            c.pos = 0;
        }
    }
    let avail = c.inp.len() - c.pos;
    if avail == 0 {
        c.starved = true;
        return -1;
    }
    let lim = if c.rd.is_empty() { usize::MAX } else { c.rd[c.nrd % c.rd.len()] as usize };
    c.nrd += 1;
    if lim == 0 {
        return -((c.nrd % 2) as isize);
    }
    let n = avail.min(amt).min(lim);
    unsafe { std::ptr::copy_nonoverlapping(c.inp[c.pos..].as_ptr(), buf as *mut u8, n) };
    // the rest of the buffer may be used as scratch space by a read function
    unsafe { std::ptr::write_bytes((buf as *mut u8).add(n), 0xa5, amt - n) };
    c.pos += n;
    n as isize
}

extern "C" fn io_write(buf: *const c_void, amt: usize, ctx: *const c_void) -> isize {
    let c = unsafe { &mut *(ctx as *mut Ctx) };
    c.late += (c.closes > 0) as u32;
    if amt == 0 {
        c.res.bad_io = Some("write of 0 bytes requested".into());
        return 0;
    }
    let lim = if c.wr.is_empty() { usize::MAX } else { c.wr[c.nwr % c.wr.len()] as usize };
    c.nwr += 1;
    if lim == 0 {
        return -((c.nwr % 2) as isize);
    }
    let n = amt.min(lim);
    c.out.extend_from_slice(unsafe { std::slice::from_raw_parts(buf as *const u8, n) });
    n as isize
}

extern "C" fn io_close(ctx: *const c_void) {
    let c = unsafe { &mut *(ctx as *mut Ctx) };
    c.closes += 1;
}

fn put(v: &mut Vec<u8>, b: &[u8]) {
    v.extend((b.len() as u32).to_le_bytes());
    v.extend_from_slice(b);
}
struct Get<'a>(&'a [u8]);
impl<'a> Get<'a> {
    fn u32(&mut self) -> u32 {
        let (a, b) = self.0.split_at(4);
        self.0 = b;
        u32::from_le_bytes(a.try_into().unwrap())
    }
    fn blob(&mut self) -> Vec<u8> {
        let n = self.u32() as usize;
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a.to_vec()
    }
}

/// sends the outcome and ends the child
fn finish() -> ! {
    unsafe {
        let c = &mut *CTX;
        c.res.outs.push(std::mem::take(&mut c.out));
        if !c.conn.is_null() {
            let p = turtls_app_proto(c.conn) as *const u8;
            c.res.proto = std::slice::from_raw_parts(p, 256).to_vec();
        }
        let r = &c.res;
        let mut v = vec![];
        put(&mut v, &(r.calls.len() as u32).to_le_bytes());
        for k in &r.calls {
            for x in [k.what as u32, k.ret as u32, k.err, k.alert, k.out, k.read, k.closes, k.starved as u32, k.late] {
                v.extend(x.to_le_bytes());
            }
        }
        v.extend((r.outs.len() as u32).to_le_bytes());
        for o in &r.outs {
            put(&mut v, o);
        }
        v.push(r.todo as u8);
        v.push(r.panic.is_some() as u8);
        put(&mut v, r.panic.as_deref().unwrap_or("").as_bytes());
        put(&mut v, &r.proto);
        let draws = fr::log();
        v.extend((draws.len() as u32).to_le_bytes());
        for d in &draws {
            put(&mut v, d);
        }
        v.push(r.bad_io.is_some() as u8);
        put(&mut v, r.bad_io.as_deref().unwrap_or("").as_bytes());
        let mut p = 0;
        while p < v.len() {
            let n = write(c.fd, v[p..].as_ptr() as *const c_void, v.len() - p);
            if n <= 0 {
                break;
            }
            p += n as usize;
        }
        _exit(0)
    }
}

fn decode(v: &[u8]) -> Outcome {
    let mut g = Get(v);
    let mut o = Outcome::default();
    let n = u32::from_le_bytes(g.blob()[..].try_into().unwrap());
    for _ in 0..n {
        o.calls.push(Call {
            what: g.u32() as u8,
            ret: g.u32() as i32,
            err: g.u32(),
            alert: g.u32(),
            out: g.u32(),
            read: g.u32(),
            closes: g.u32(),
            starved: g.u32() != 0,
            late: g.u32(),
        });
    }
    let n = g.u32();
    for _ in 0..n {
        o.outs.push(g.blob());
    }
    o.todo = g.0[0] != 0;
    let p = g.0[1] != 0;
    g.0 = &g.0[2..];
    let s = String::from_utf8_lossy(&g.blob()).into_owned();
    o.panic = p.then_some(s);
    o.proto = g.blob();
    let n = g.u32();
    for _ in 0..n {
        o.draws.push(g.blob());
    }
    let p = g.0[0] != 0;
    g.0 = &g.0[1..];
    let s = String::from_utf8_lossy(&g.blob()).into_owned();
    o.bad_io = p.then_some(s);
    o
}

fn record_call(what: u8, ret: i32) -> bool {
    unsafe {
        let c = &mut *CTX;
        let k = Call {
            what,
            ret,
            err: turtls_get_error(c.conn) as u32,
            alert: turtls_get_tls_error(c.conn) as u32,
            out: c.out.len() as u32,
            read: c.pos as u32,
            closes: c.closes,
            starved: c.starved,
            late: c.late,
        };
        let more = ret == -1 && !c.starved && (k.err == WANT_READ || k.err == WANT_WRITE);
        c.res.calls.push(k);
        more
    }
}

fn child(ops: Vec<Op>, fd: c_int) -> ! {
    unsafe {
        alarm(15);
        CTX = Box::leak(Box::new(Ctx {
            out: vec![],
            inp: vec![],
            pos: 0,
            peer: None,
            rd: vec![],
            wr: vec![],
            nrd: 0,
            nwr: 0,
            closes: 0,
            late: 0,
            starved: false,
            res: Outcome::default(),
            conn: std::ptr::null_mut(),
            fd,
        }));
        std::panic::set_hook(Box::new(|info| {
            let s = info.to_string();
            let c = &mut *CTX;
            if s.contains("not yet implemented") || s.contains("not implemented") {
                c.res.todo = true;
            } else {
                c.res.panic = Some(s);
            }
            finish()
        }));
        let io = TurtlsIo { write_fn: io_write, read_fn: io_read, close_fn: io_close, ctx: CTX as *mut c_void };
        let conn = turtls_new(io);
        let c = CTX;
        (*c).conn = conn;
        for op in ops {
            match op {
                Op::Connect => {
                    let mut n = 0;
                    loop {
                        let r = turtls_connect(conn);
                        if !record_call(0, r) {
                            break;
                        }
                        n += 1;
                        if n > 400_000 {
                            (*c).res.panic = Some("no progress".into());
                            finish();
                        }
                        // keep the log short
                        if n > 20 {
                            let l = (*c).res.calls.len();
                            (*c).res.calls.remove(l - 2);
                        }
                    }
                }
                Op::ConnectOnce => {
                    let r = turtls_connect(conn);
                    record_call(0, r);
                }
                Op::Config(cfg) => {
                    let t = &mut *turtls_get_config(conn);
                    t.extensions.server_name = match cfg.server_name {
                        Some(s) => CString::new(s).unwrap().into_raw() as *const c_char,
                        None => std::ptr::null(),
                    };
                    match cfg.protos {
                        Some(p) => {
                            let p = Box::leak(p.into_boxed_slice());
                            t.extensions.app_protos = p.as_ptr() as *const c_char;
                            t.extensions.app_protos_len = p.len();
                        }
                        None => {
                            t.extensions.app_protos = std::ptr::null();
                            t.extensions.app_protos_len = 0;
                        }
                    }
                    t.extensions.sig_algs = cfg.sig_algs;
                    t.extensions.sup_groups = cfg.groups;
                    *(&mut t.cipher_suites as *mut TurtlsCipherList as *mut u8) = cfg.ciphers;
                }
                Op::Peer(f) => {
                    let c = &mut *c;
                    if !c.res.calls.is_empty() {
                        let o = std::mem::take(&mut c.out);
                        c.res.outs.push(o);
                        c.res.calls.push(Call { what: 2, ..Call::default() });
                    }
                    c.inp.clear();
                    c.pos = 0;
                    c.closes = 0;
                    c.starved = false;
                    c.peer = Some(f);
                }
                Op::Limits { rd, wr } => {
                    let c = &mut *c;
                    c.rd = rd;
                    c.wr = wr;
                    c.nrd = 0;
                    c.nwr = 0;
                }
                Op::Rng(q) => fr::script(q),
                Op::Close => {
                    turtls_close(conn);
                    record_call(1, 0);
                }
            }
        }
        finish()
    }
}

/// Runs the operations on a new connection object.
pub fn run(ops: Vec<Op>) -> Result<Outcome, String> {
    unsafe {
        let mut fds = [0; 2];
        assert!(pipe(fds.as_mut_ptr()) == 0);
        let pid = fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            close(fds[0]);
            child(ops, fds[1]);
        }
        close(fds[1]);
        let mut v = vec![];
        let mut b = [0u8; 65536];
        loop {
            let n = read(fds[0], b.as_mut_ptr() as *mut c_void, b.len());
            if n <= 0 {
                break;
            }
            v.extend_from_slice(&b[..n as usize]);
        }
        close(fds[0]);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        if v.is_empty() || st != 0 {
            return Err(format!("the process ended abnormally (wait status {st:#x})"));
        }
        let o = decode(&v);
        if let Some(p) = &o.panic {
            return Err(format!("panicked: {p}"));
        }
        if let Some(p) = &o.bad_io {
            return Err(p.clone());
        }
        if o.calls.iter().any(|c| c.late > 0) {
            return Err("IO was performed after the connection was closed".into());
        }
        Ok(o)
    }
}
