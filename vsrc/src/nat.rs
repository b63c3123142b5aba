//! Arbitrary precision naturals and integers, written for obviousness (base 2^32, schoolbook).
use std::cmp::Ordering;

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Nat(pub Vec<u32>);

impl Nat {
    pub fn zero() -> Self {
        Nat(vec![])
    }
    pub fn one() -> Self {
        Nat::from_u64(1)
    }
    fn norm(mut self) -> Self {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        self
    }
    pub fn from_u64(x: u64) -> Self {
        Nat(vec![x as u32, (x >> 32) as u32]).norm()
    }
    pub fn from_digits(d: &[u64]) -> Self {
        Nat(d.iter().flat_map(|x| [*x as u32, (*x >> 32) as u32]).collect()).norm()
    }
    pub fn from_be(b: &[u8]) -> Self {
        let mut le: Vec<u8> = b.iter().rev().copied().collect();
        le.resize(le.len().div_ceil(4) * 4, 0);
        Nat(le.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect()).norm()
    }
    pub fn from_le(b: &[u8]) -> Self {
        let v: Vec<u8> = b.iter().rev().copied().collect();
        Self::from_be(&v)
    }
    pub fn to_le(&self, n: usize) -> Vec<u8> {
        let mut v: Vec<u8> = self.0.iter().flat_map(|x| x.to_le_bytes()).collect();
        assert!(v.iter().skip(n).all(|x| *x == 0));
        v.resize(n, 0);
        v
    }
    pub fn to_be(&self, n: usize) -> Vec<u8> {
        let mut v = self.to_le(n);
        v.reverse();
        v
    }
    /// the low `n` 64-bit digits
    pub fn digits(&self, n: usize) -> Vec<u64> {
        (0..n)
            .map(|i| {
                let g = |k: usize| self.0.get(k).copied().unwrap_or(0) as u64;
                g(2 * i) | g(2 * i + 1) << 32
            })
            .collect()
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn add(&self, o: &Nat) -> Nat {
        let mut r = vec![];
        let mut c = 0u64;
        for i in 0..self.0.len().max(o.0.len()) {
            c += *self.0.get(i).unwrap_or(&0) as u64 + *o.0.get(i).unwrap_or(&0) as u64;
            r.push(c as u32);
            c >>= 32;
        }
        r.push(c as u32);
        Nat(r).norm()
    }
    /// requires self >= o
    pub fn sub(&self, o: &Nat) -> Nat {
        assert!(self.cmp(o) != Ordering::Less);
        let mut r = vec![];
        let mut b = 0i64;
        for i in 0..self.0.len() {
            let mut d = self.0[i] as i64 - *o.0.get(i).unwrap_or(&0) as i64 - b;
            b = 0;
            if d < 0 {
                d += 1 << 32;
                b = 1;
            }
            r.push(d as u32);
        }
        assert!(b == 0);
        Nat(r).norm()
    }
    pub fn mul(&self, o: &Nat) -> Nat {
        let mut r = vec![0u32; self.0.len() + o.0.len() + 1];
        for (i, x) in self.0.iter().enumerate() {
            let mut c = 0u64;
            for (j, y) in o.0.iter().enumerate() {
                c += r[i + j] as u64 + *x as u64 * *y as u64;
                r[i + j] = c as u32;
                c >>= 32;
            }
            r[i + o.0.len()] = c as u32;
        }
        Nat(r).norm()
    }
    pub fn shl(&self, n: usize) -> Nat {
        let mut r = vec![0u32; n / 32];
        let s = n % 32;
        let mut c = 0u64;
        for x in &self.0 {
            c |= (*x as u64) << s;
            r.push(c as u32);
            c >>= 32;
        }
        r.push(c as u32);
        Nat(r).norm()
    }
    pub fn shr(&self, n: usize) -> Nat {
        let s = n % 32;
        let v: Vec<u32> = self.0.iter().skip(n / 32).copied().collect();
        let r = (0..v.len())
            .map(|i| {
                let hi = *v.get(i + 1).unwrap_or(&0) as u64;
                ((hi << 32 | v[i] as u64) >> s) as u32
            })
            .collect();
        Nat(r).norm()
    }
    pub fn bits(&self) -> usize {
        match self.0.last() {
            None => 0,
            Some(x) => self.0.len() * 32 - x.leading_zeros() as usize,
        }
    }
    pub fn bit(&self, i: usize) -> bool {
        self.0.get(i / 32).is_some_and(|x| x >> (i % 32) & 1 == 1)
    }
    /// low n bits
    pub fn low(&self, n: usize) -> Nat {
        let hi = self.shr(n).shl(n);
        self.sub(&hi)
    }
    pub fn divrem(&self, d: &Nat) -> (Nat, Nat) {
        assert!(!d.is_zero());
        let (mut q, mut r) = (Nat::zero(), Nat::zero());
        for i in (0..self.bits()).rev() {
            r = r.shl(1);
            if self.bit(i) {
                r = r.add(&Nat::one());
            }
            q = q.shl(1);
            if r.cmp(d) != Ordering::Less {
                r = r.sub(d);
                q = q.add(&Nat::one());
            }
        }
        (q, r)
    }
    pub fn rem(&self, d: &Nat) -> Nat {
        self.divrem(d).1
    }
    pub fn cmp(&self, o: &Nat) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
    pub fn pow2(n: usize) -> Nat {
        Nat::one().shl(n)
    }
    pub fn show(&self) -> String {
        if self.is_zero() {
            return "0x0".into();
        }
        let mut s = format!("0x{:x}", self.0.last().unwrap());
        for x in self.0.iter().rev().skip(1) {
            s += &format!("{x:08x}");
        }
        s
    }
}

/// A signed integer.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Int {
    pub neg: bool,
    pub mag: Nat,
}

impl Int {
    pub fn new(neg: bool, mag: Nat) -> Self {
        Int { neg: neg && !mag.is_zero(), mag }
    }
    pub fn add(&self, o: &Int) -> Int {
        if self.neg == o.neg {
            return Int::new(self.neg, self.mag.add(&o.mag));
        }
        match self.mag.cmp(&o.mag) {
            Ordering::Less => Int::new(o.neg, o.mag.sub(&self.mag)),
            _ => Int::new(self.neg, self.mag.sub(&o.mag)),
        }
    }
    pub fn neg(&self) -> Int {
        Int::new(!self.neg, self.mag.clone())
    }
    pub fn sub(&self, o: &Int) -> Int {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Int) -> Int {
        Int::new(self.neg ^ o.neg, self.mag.mul(&o.mag))
    }
    pub fn cmp(&self, o: &Int) -> Ordering {
        match (self.neg, o.neg) {
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
            (false, false) => self.mag.cmp(&o.mag),
            (true, true) => o.mag.cmp(&self.mag),
        }
    }
    pub fn show(&self) -> String {
        format!("{}{}", if self.neg { "-" } else { "" }, self.mag.show())
    }
}
