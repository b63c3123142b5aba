//! Choice-sequence based case generation, the case runner and the reference implementations that
//! are used to evaluate the contracts of the properties concretely.
pub mod nat;
pub mod p256;
pub mod refs;
pub mod tls;

use std::collections::HashSet;
use std::panic;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// A source of choices. Everything a case depends on is drawn from here, so the recorded choices
/// replay the case.
pub struct Src {
    rng: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub log: Arc<Mutex<Vec<u64>>>,
    pub index: u64,
}

impl Src {
    pub fn fresh(seed: u64, index: u64, log: Arc<Mutex<Vec<u64>>>) -> Self {
        log.lock().unwrap().clear();
        let mut s = Src { rng: seed ^ index.wrapping_mul(0x9e3779b97f4a7c15), replay: None, pos: 0, log, index: 0 };
        for _ in 0..3 {
            s.next_rng();
        }
        s.index = s.push(index);
        s
    }
    pub fn replay(v: Vec<u64>) -> Self {
        let mut s = Src { rng: 0, replay: Some(v), pos: 0, log: Arc::new(Mutex::new(vec![])), index: 0 };
        s.index = s.push(0);
        s
    }
    fn next_rng(&mut self) -> u64 {
        self.rng = self.rng.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn push(&mut self, v: u64) -> u64 {
        let v = match &self.replay {
            Some(r) => r.get(self.pos).copied().unwrap_or(0),
            None => v,
        };
        self.pos += 1;
        self.log.lock().unwrap().push(v);
        v
    }
    pub fn raw(&mut self) -> u64 {
        let r = self.next_rng();
        self.push(r)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        let r = self.next_rng() % n;
        self.push(r) % n
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below((hi_incl - lo + 1) as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize].clone()
    }
    /// a digit, biased towards boundaries
    pub fn u64(&mut self) -> u64 {
        match self.below(8) {
            0 => 0,
            1 => u64::MAX,
            2 => self.below(4),
            3 => u64::MAX - self.below(4),
            4 => 1u64 << self.below(64),
            5 => (1u64 << self.below(64)).wrapping_sub(1),
            _ => self.raw(),
        }
    }
    pub fn u8(&mut self) -> u8 {
        match self.below(6) {
            0 => 0,
            1 => 0xff,
            2 => 0x80,
            _ => self.below(256) as u8,
        }
    }
    pub fn digits<const N: usize>(&mut self) -> [u64; N] {
        let mut d = [0; N];
        match self.below(5) {
            0 => {
                // short number
                let k = self.below(N as u64 + 1) as usize;
                for x in d.iter_mut().take(k) {
                    *x = self.u64();
                }
            }
            1 => {
                for x in d.iter_mut() {
                    *x = self.raw();
                }
            }
            _ => {
                for x in d.iter_mut() {
                    *x = self.u64();
                }
            }
        }
        d
    }
    /// `len` bytes, random, or biased
    pub fn bytes(&mut self, len: usize) -> Vec<u8> {
        let kind = self.below(6);
        match kind {
            0 => vec![0; len],
            1 => vec![0xff; len],
            _ => {
                let mut v = Vec::with_capacity(len + 8);
                while v.len() < len {
                    v.extend_from_slice(&self.raw().to_le_bytes());
                }
                v.truncate(len);
                v
            }
        }
    }
    pub fn array<const N: usize>(&mut self) -> [u8; N] {
        self.bytes(N).try_into().unwrap()
    }
    /// lengths around multiples of `block`
    pub fn len(&mut self, block: usize, max: usize) -> usize {
        let l = match self.below(4) {
            0 => self.range(0, 3 * block),
            1 => {
                let k = self.range(0, max / block);
                (k * block + 1).saturating_sub(self.range(0, 2))
            }
            2 => self.range(0, max),
            _ => self.range(0, block + 1),
        };
        l.min(max)
    }
}

pub type CaseFn = fn(&mut Src) -> Result<bool, String>;

/// A contract that can be evaluated concretely. `Ok(true)`: it held on a non-trivial input.
pub struct Case {
    pub name: &'static str,
    pub f: CaseFn,
    /// if non-zero, the case enumerates `index` in `0..exhaust` completely and then stops
    pub exhaust: u64,
}

#[macro_export]
macro_rules! case {
    ($f:ident) => {
        $crate::Case { name: stringify!($f), f: $f, exhaust: 0 }
    };
    ($f:ident, $n:expr) => {
        $crate::Case { name: stringify!($f), f: $f, exhaust: $n }
    };
}

#[macro_export]
macro_rules! check {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

pub fn hex(b: &[u8]) -> String {
    let t: String = b.iter().take(600).map(|x| format!("{x:02x}")).collect();
    if b.len() > 600 { format!("{t}… ({} bytes)", b.len()) } else { t }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn run_one(case: &Case, src: &mut Src) -> Result<bool, String> {
    match panic::catch_unwind(panic::AssertUnwindSafe(|| (case.f)(src))) {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
    }
}

fn esc(s: &str) -> String {
    s.chars()
        .flat_map(|c| match c {
            '"' => "\\\"".chars().collect::<Vec<_>>(),
            '\\' => "\\\\".chars().collect(),
            '\n' => "\\n".chars().collect(),
            c if (c as u32) < 32 => " ".chars().collect(),
            c => vec![c],
        })
        .collect()
}

fn out_result(path: &str, prop: &str, case: &str, msg: &str, choices: &[u64]) {
    let c: Vec<String> = choices.iter().map(|x| x.to_string()).collect();
    let s = format!(
        "{{\"kind\":\"input\",\"property\":\"{}\",\"case\":\"{}\",\"message\":\"{}\",\"choices\":[{}]}}\n",
        prop, case, esc(msg), c.join(",")
    );
    std::fs::write(path, s).unwrap();
}

/// `<bin> search <prop> <seed> <millis> <replay-file> [<shard> <shards>]` or `<bin> replay <replay-file>`
pub fn main(props: &[(&str, Vec<Case>)]) -> ! {
    panic::set_hook(Box::new(|info| {
        LAST_PANIC.with(|p| *p.borrow_mut() = info.to_string());
    }));
    let args: Vec<String> = std::env::args().collect();
    let code = match args[1].as_str() {
        "search" => {
            let n = |i: usize, d: u64| args.get(i).map_or(d, |x| x.parse().unwrap());
            search(props, &args[2], n(3, 1), n(4, 1000), &args[5], n(6, 0), n(7, 1))
        }
        "replay" => {
            let s = std::fs::read_to_string(&args[2]).unwrap();
            if s.starts_with("seed ") {
                // a case that ended the process: rerun it from its seed
                let w: Vec<&str> = s.split_whitespace().collect();
                let case = props.iter().find(|x| x.0 == w[1]).and_then(|x| x.1.iter().find(|c| c.name == w[2])).expect("unknown case");
                let mut src = Src::fresh(w[3].parse().unwrap(), w[4].parse().unwrap(), Arc::new(Mutex::new(vec![])));
                println!("REPLAY runs {} {}", w[1], w[2]);
                let r = run_one(case, &mut src);
                println!("REPLAY {}", match &r { Ok(_) => "holds".to_string(), Err(m) => format!("violated {} {}: {m}", w[1], w[2]) });
                std::process::exit(r.is_err() as i32);
            }
            let get = |k: &str| {
                let i = s.find(&format!("\"{k}\":\"")).unwrap() + k.len() + 4;
                s[i..].split('"').next().unwrap().to_string()
            };
            let i = s.find("\"choices\":[").unwrap() + 11;
            let body = s[i..].split(']').next().unwrap();
            let choices: Vec<u64> = body.split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect();
            let (p, c) = (get("property"), get("case"));
            let cases = &props.iter().find(|x| x.0 == p).expect("unknown property").1;
            let case = cases.iter().find(|x| x.name == c).expect("unknown case");
            match run_one(case, &mut Src::replay(choices)) {
                Ok(_) => {
                    println!("REPLAY holds");
                    0
                }
                Err(m) => {
                    println!("REPLAY violated {p} {c}: {m}");
                    1
                }
            }
        }
        "list" => {
            for (p, cs) in props {
                println!("{p} {}", cs.iter().map(|c| c.name).collect::<Vec<_>>().join(","));
            }
            0
        }
        _ => 2,
    };
    std::process::exit(code)
}

fn search(props: &[(&str, Vec<Case>)], prop: &str, seed: u64, millis: u64, replay: &str, shard: u64, shards: u64) -> i32 {
    let cases = &props.iter().find(|x| x.0 == prop).expect("unknown property").1;
    let log = Arc::new(Mutex::new(Vec::new()));
    // watchdog
    let state = Arc::new(Mutex::new((Instant::now(), "")));
    {
        let (state, log) = (state.clone(), log.clone());
        let (prop, replay) = (prop.to_string(), replay.to_string());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            let (t, name) = *state.lock().unwrap();
            if t.elapsed() > Duration::from_secs(20) {
                let choices = log.lock().unwrap().clone();
                let msg = "did not terminate within 20 s";
                out_result(&replay, &prop, name, msg, &choices);
                println!("{{\"violated\":true,\"case\":\"{name}\",\"message\":\"{msg}\"}}");
                std::process::exit(1);
            }
        });
    }
    // where the current case is noted, in case it ends the process
    let trace = std::fs::File::create(format!("{replay}.trace")).unwrap();
    let start = Instant::now();
    let budget = Duration::from_millis(millis);
    let mut evals = 0u64;
    let mut nontrivial = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut per: Vec<u64> = vec![0; cases.len()];
    let mut done: Vec<bool> = vec![false; cases.len()];
    let mut per_time: Vec<Duration> = vec![Duration::ZERO; cases.len()];
    let min_iters = 30 / shards + 3;
    loop {
        // pick the case that had the least time so far; every case gets a minimum of iterations
        let Some(k) = (0..cases.len()).filter(|&k| !done[k]).min_by_key(|&k| (per[k] >= min_iters, per_time[k])) else { break };
        if start.elapsed() > budget && per[k] >= min_iters {
            // finish the exhaustive ones that are nearly free
            match (0..cases.len()).find(|&k| !done[k] && cases[k].exhaust > 0 && cases[k].exhaust <= 70000) {
                Some(_) if start.elapsed() < budget * 2 => {}
                _ => break,
            }
        }
        let t0 = Instant::now();
        // a batch of iterations
        for _ in 0..(if per[k] < min_iters { 1 } else { 16 }) {
            let idx = per[k] * shards + shard;
            if cases[k].exhaust > 0 && idx >= cases[k].exhaust {
                done[k] = true;
                break;
            }
            *state.lock().unwrap() = (Instant::now(), cases[k].name);
            let case_seed = seed.wrapping_mul(0x2545f4914f6cdd1d) ^ (k as u64) << 48;
            {
                use std::os::unix::fs::FileExt;
                let mut line = format!("seed {prop} {} {case_seed} {idx}", cases[k].name);
                while line.len() < 160 {
                    line.push(' ');
                }
                let _ = trace.write_at(line.as_bytes(), 0);
            }
            let mut src = Src::fresh(case_seed, idx, log.clone());
            per[k] += 1;
            evals += 1;
            let res = run_one(&cases[k], &mut src);
            let choices = log.lock().unwrap().clone();
            match res {
                Ok(nt) => {
                    if nt {
                        let mut h = 0xcbf29ce484222325u64 ^ k as u64;
                        for c in &choices[1..] {
                            h = (h ^ c).wrapping_mul(0x100000001b3).rotate_left(17);
                        }
                        if choices.len() == 1 || cases[k].exhaust > 0 { h ^= choices[0].wrapping_mul(0x9e3779b97f4a7c15); }
                        nontrivial.insert(h);
                        if samples.len() < 8 && idx == 3 || samples.is_empty() {
                            let c: Vec<String> = choices.iter().take(12).map(|x| format!("{x:x}")).collect();
                            samples.push(format!("{} choices=[{}{}]", cases[k].name, c.join(","), if choices.len() > 12 { ",.." } else { "" }));
                        }
                    }
                }
                Err(m) => {
                    out_result(replay, prop, cases[k].name, &m, &choices);
                    println!("{{\"violated\":true,\"case\":\"{}\",\"message\":\"{}\",\"evaluations\":{evals},\"distinct\":{}}}", cases[k].name, esc(&m), nontrivial.len());
                    return 1;
                }
            }
        }
        per_time[k] += t0.elapsed();
    }
    let sm: Vec<String> = samples.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    let pc: Vec<String> = cases.iter().zip(&per).map(|(c, n)| format!("\"{}\":{}", c.name, n)).collect();
    let ex: Vec<String> = cases.iter().zip(&done).filter(|(c, d)| c.exhaust > 0 && **d).map(|(c, _)| format!("\"{}\"", c.name)).collect();
    println!(
        "{{\"violated\":false,\"evaluations\":{evals},\"distinct\":{},\"cases\":{{{}}},\"exhausted\":[{}],\"samples\":[{}]}}",
        nontrivial.len(), pc.join(","), ex.join(","), sm.join(",")
    );
    0
}
