//! Minimal unsigned/signed big integers for reading the specification's
//! values. Independent of the crate under test.

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Big {
    pub neg: bool,
    /// Little-endian 64-bit digits without leading zeros.
    pub mag: Vec<u64>,
}

impl Big {
    pub fn parse(s: &str) -> Big {
        let (neg, s) = match s.strip_prefix('-') {
            Some(r) => (true, r),
            None => (false, s),
        };
        let mut mag: Vec<u64> = Vec::new();
        let bytes = s.as_bytes();
        let mut i = 0;
        while i < bytes.len() {
            let n = (bytes.len() - i).min(18);
            let chunk: u64 = s[i..i + n].parse().expect("decimal digits");
            let mul = 10u128.pow(n as u32);
            let mut carry = chunk as u128;
            for d in mag.iter_mut() {
                let t = (*d as u128) * mul + carry;
                *d = t as u64;
                carry = t >> 64;
            }
            if carry != 0 {
                mag.push(carry as u64);
            }
            i += n;
        }
        while mag.last() == Some(&0) {
            mag.pop();
        }
        Big { neg: neg && !mag.is_empty(), mag }
    }
    pub fn from_u64(v: u64) -> Big {
        Big { neg: false, mag: if v == 0 { vec![] } else { vec![v] } }
    }
    pub fn bit(&self, i: usize) -> bool {
        self.mag.get(i / 64).map_or(false, |d| (d >> (i % 64)) & 1 == 1)
    }
    pub fn bit_len(&self) -> usize {
        match self.mag.last() {
            None => 0,
            Some(d) => self.mag.len() * 64 - d.leading_zeros() as usize,
        }
    }
    /// The magnitude as n digits, zero padded.
    pub fn digits(&self, n: usize) -> Vec<u64> {
        let mut v = self.mag.clone();
        assert!(v.len() <= n);
        v.resize(n, 0);
        v
    }
    pub fn to_u64(&self) -> u64 {
        assert!(!self.neg && self.mag.len() <= 1, "{:?}", self);
        self.mag.first().copied().unwrap_or(0)
    }
    pub fn to_i64(&self) -> i64 {
        assert!(self.mag.len() <= 1);
        let m = self.mag.first().copied().unwrap_or(0) as i64;
        if self.neg { -m } else { m }
    }
    pub fn to_u128(&self) -> u128 {
        assert!(!self.neg && self.mag.len() <= 2);
        let d = self.digits(2);
        (d[1] as u128) << 64 | d[0] as u128
    }
    pub fn to_i128(&self) -> i128 {
        let d = self.digits(2);
        let m = ((d[1] as u128) << 64 | d[0] as u128) as i128;
        if self.neg { m.wrapping_neg() } else { m }
    }
    pub fn hex(&self) -> String {
        let mut s = String::new();
        for (i, d) in self.mag.iter().rev().enumerate() {
            if i == 0 {
                s += &format!("{:x}", d);
            } else {
                s += &format!("{:016x}", d);
            }
        }
        if s.is_empty() {
            s.push('0');
        }
        if self.neg { format!("-{}", s) } else { s }
    }
    pub fn dec(&self) -> String {
        let mut m = self.mag.clone();
        let mut parts: Vec<u64> = Vec::new();
        const B: u128 = 1_000_000_000_000_000_000;
        while !m.is_empty() {
            let mut r: u128 = 0;
            for d in m.iter_mut().rev() {
                let t = r << 64 | *d as u128;
                *d = (t / B) as u64;
                r = t % B;
            }
            parts.push(r as u64);
            while m.last() == Some(&0) {
                m.pop();
            }
        }
        let mut s = String::new();
        for (i, p) in parts.iter().rev().enumerate() {
            if i == 0 {
                s += &p.to_string();
            } else {
                s += &format!("{:018}", p);
            }
        }
        if s.is_empty() {
            s.push('0');
        }
        if self.neg { format!("-{}", s) } else { s }
    }
    pub fn from_digits(mut mag: Vec<u64>) -> Big {
        while mag.last() == Some(&0) {
            mag.pop();
        }
        Big { neg: false, mag }
    }
}
