//! Exact integers, schoolbook algorithms on sign and 32-bit magnitude words. Written for the oracle;
//! shares nothing with num-bigint.
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Int {
    pub neg: bool,
    pub mag: Vec<u32>, // little endian, no trailing zero words; zero is empty and not negative
}

fn trim(mut v: Vec<u32>) -> Vec<u32> {
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}
fn cmp_mag(a: &[u32], b: &[u32]) -> Ordering {
    if a.len() != b.len() {
        return a.len().cmp(&b.len());
    }
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    Ordering::Equal
}
fn add_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = vec![];
    let mut c = 0u64;
    for i in 0..a.len().max(b.len()) {
        let s = u64::from(*a.get(i).unwrap_or(&0)) + u64::from(*b.get(i).unwrap_or(&0)) + c;
        r.push(s as u32);
        c = s >> 32;
    }
    r.push(c as u32);
    trim(r)
}
fn sub_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = vec![];
    let mut br = 0i64;
    for i in 0..a.len() {
        let mut d = i64::from(a[i]) - i64::from(*b.get(i).unwrap_or(&0)) - br;
        br = i64::from(d < 0);
        if d < 0 {
            d += 1 << 32;
        }
        r.push(d as u32);
    }
    assert_eq!(br, 0);
    trim(r)
}

impl Int {
    pub fn new(neg: bool, mag: Vec<u32>) -> Int {
        let mag = trim(mag);
        Int { neg: neg && !mag.is_empty(), mag }
    }
    pub fn zero() -> Int {
        Int::new(false, vec![])
    }
    pub fn from_i64(v: i64) -> Int {
        let m = v.unsigned_abs();
        Int::new(v < 0, vec![m as u32, (m >> 32) as u32])
    }
    pub fn is_zero(&self) -> bool {
        self.mag.is_empty()
    }
    pub fn neg(&self) -> Int {
        Int::new(!self.neg, self.mag.clone())
    }
    pub fn add(&self, o: &Int) -> Int {
        if self.neg == o.neg {
            return Int::new(self.neg, add_mag(&self.mag, &o.mag));
        }
        match cmp_mag(&self.mag, &o.mag) {
            Ordering::Less => Int::new(o.neg, sub_mag(&o.mag, &self.mag)),
            _ => Int::new(self.neg, sub_mag(&self.mag, &o.mag)),
        }
    }
    pub fn sub(&self, o: &Int) -> Int {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Int) -> Int {
        let mut r = vec![0u32; self.mag.len() + o.mag.len() + 1];
        for (i, a) in self.mag.iter().enumerate() {
            let mut c = 0u64;
            for (j, b) in o.mag.iter().enumerate() {
                let t = u64::from(*a) * u64::from(*b) + u64::from(r[i + j]) + c;
                r[i + j] = t as u32;
                c = t >> 32;
            }
            let mut k = i + o.mag.len();
            while c > 0 {
                let t = u64::from(r[k]) + c;
                r[k] = t as u32;
                c = t >> 32;
                k += 1;
            }
        }
        Int::new(self.neg != o.neg, r)
    }
    /// bytes of the shortest two's-complement form (one for zero)
    pub fn bytes_needed(&self) -> usize {
        let m = if self.neg { self.add(&Int::from_i64(1)) } else { self.clone() };
        m.bits() / 8 + 1
    }
    pub fn bits(&self) -> usize {
        self.mag.last().map_or(0, |t| self.mag.len() * 32 - t.leading_zeros() as usize)
    }
    pub fn bit(&self, i: usize) -> bool {
        self.mag.get(i / 32).is_some_and(|w| w >> (i % 32) & 1 == 1)
    }
    /// truncated quotient and remainder with the sign of the dividend
    pub fn divrem(&self, o: &Int) -> (Int, Int) {
        assert!(!o.is_zero());
        let mut q = vec![0u32; self.mag.len()];
        let mut rem: Vec<u32> = vec![];
        for i in (0..self.bits()).rev() {
            // rem = 2 rem + bit
            let mut c = u32::from(self.bit(i));
            for w in &mut rem {
                let n = (*w << 1) | c;
                c = *w >> 31;
                *w = n;
            }
            if c > 0 {
                rem.push(c);
            }
            if cmp_mag(&rem, &o.mag) != Ordering::Less {
                rem = sub_mag(&rem, &o.mag);
                q[i / 32] |= 1 << (i % 32);
            }
        }
        (Int::new(self.neg != o.neg, q), Int::new(self.neg, rem))
    }
    pub fn pow(&self, e: u32) -> Int {
        let mut r = Int::from_i64(1);
        for _ in 0..e {
            r = r.mul(self);
        }
        r
    }
    pub fn cmp(&self, o: &Int) -> Ordering {
        match (self.neg, o.neg) {
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
            (false, false) => cmp_mag(&self.mag, &o.mag),
            (true, true) => cmp_mag(&o.mag, &self.mag),
        }
    }
    /// two's complement, exactly `n` bytes
    pub fn bytes(&self, n: usize) -> Vec<u8> {
        let mut v: Vec<u8> = (0..n).map(|i| (self.mag.get(i / 4).copied().unwrap_or(0) >> (8 * (i % 4))) as u8).collect();
        if self.neg {
            let mut c = 1u16;
            for b in &mut v {
                let t = u16::from(!*b) + c;
                *b = t as u8;
                c = t >> 8;
            }
        }
        v
    }
    pub fn from_bytes(b: &[u8]) -> Int {
        let neg = b.last().is_some_and(|x| x & 0x80 != 0);
        let mut v = b.to_vec();
        if neg {
            let mut c = 1u16;
            for x in &mut v {
                let t = u16::from(!*x) + c;
                *x = t as u8;
                c = t >> 8;
            }
            if c > 0 {
                v.push(1); // only for an all-zero pattern, which cannot be negative
            }
        }
        let mut mag = vec![0u32; v.len() / 4 + 1];
        for (i, x) in v.iter().enumerate() {
            mag[i / 4] |= u32::from(*x) << (8 * (i % 4));
        }
        Int::new(neg, mag)
    }
    pub fn bitop(&self, o: &Int, f: impl Fn(u8, u8) -> u8) -> Int {
        let n = (self.bits().max(o.bits()) / 8) + 2;
        let (a, b) = (self.bytes(n), o.bytes(n));
        Int::from_bytes(&a.iter().zip(&b).map(|(x, y)| f(*x, *y)).collect::<Vec<_>>())
    }
    pub fn shl(&self, n: usize) -> Int {
        let mut m = vec![0u32; n / 32];
        let s = n % 32;
        let mut c = 0u32;
        for w in &self.mag {
            m.push(if s == 0 { *w } else { (*w << s) | c });
            c = if s == 0 { 0 } else { w >> (32 - s) };
        }
        m.push(c);
        Int::new(self.neg, m)
    }
    /// floor division by a power of two
    pub fn shr(&self, n: usize) -> Int {
        if n >= self.bits() + 1 {
            return if self.neg { Int::from_i64(-1) } else { Int::zero() };
        }
        let (q, r) = self.divrem(&Int::from_i64(1).shl(n));
        if self.neg && !r.is_zero() { q.sub(&Int::from_i64(1)) } else { q }
    }
    pub fn text(&self) -> String {
        let mut digits = vec![];
        let mut m = self.mag.clone();
        while !m.is_empty() {
            let mut rem = 0u64;
            for w in m.iter_mut().rev() {
                let t = (rem << 32) | u64::from(*w);
                *w = (t / 10) as u32;
                rem = t % 10;
            }
            digits.push(b'0' + rem as u8);
            m = trim(m);
        }
        if digits.is_empty() {
            digits.push(b'0');
        }
        if self.neg {
            digits.push(b'-');
        }
        digits.reverse();
        String::from_utf8(digits).unwrap()
    }
}

/// decimal text of a 64-bit integer, digit by digit
pub fn i64_text(v: i64) -> String {
    Int::from_i64(v).text()
}
