//! Minimal arbitrary-precision naturals and rationals: the arithmetic of the oracle.

use std::cmp::Ordering;

/// A natural number; `B` holds little-endian limbs and only values above `u128::MAX`.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Nat {
    S(u128),
    B(Vec<u64>),
}

use Nat::*;

fn norm(mut v: Vec<u64>) -> Nat {
    while let Some(0) = v.last() {
        v.pop();
    }
    if v.len() <= 2 {
        let lo = v.first().copied().unwrap_or(0) as u128;
        let hi = v.get(1).copied().unwrap_or(0) as u128;
        S(lo | hi << 64)
    } else {
        B(v)
    }
}

impl Nat {
    pub fn zero() -> Nat {
        S(0)
    }

    pub fn one() -> Nat {
        S(1)
    }

    pub fn is_zero(&self) -> bool {
        matches!(self, S(0))
    }

    fn limbs(&self) -> Vec<u64> {
        match self {
            S(v) => vec![*v as u64, (*v >> 64) as u64],
            B(v) => v.clone(),
        }
    }

    pub fn bits(&self) -> u32 {
        match self {
            S(v) => 128 - v.leading_zeros(),
            B(v) => v.len() as u32 * 64 - v.last().unwrap().leading_zeros(),
        }
    }

    pub fn is_even(&self) -> bool {
        match self {
            S(v) => v % 2 == 0,
            B(v) => v[0] % 2 == 0,
        }
    }

    pub fn cmp(&self, o: &Nat) -> Ordering {
        match (self, o) {
            (S(a), S(b)) => a.cmp(b),
            (S(_), B(_)) => Ordering::Less,
            (B(_), S(_)) => Ordering::Greater,
            (B(a), B(b)) => a
                .len()
                .cmp(&b.len())
                .then_with(|| a.iter().rev().cmp(b.iter().rev())),
        }
    }

    pub fn add(&self, o: &Nat) -> Nat {
        if let (S(a), S(b)) = (self, o) {
            if let Some(r) = a.checked_add(*b) {
                return S(r);
            }
        }
        let (a, b) = (self.limbs(), o.limbs());
        let mut r = Vec::with_capacity(a.len().max(b.len()) + 1);
        let mut carry = 0u128;
        for i in 0..a.len().max(b.len()) {
            let s = carry
                + a.get(i).copied().unwrap_or(0) as u128
                + b.get(i).copied().unwrap_or(0) as u128;
            r.push(s as u64);
            carry = s >> 64;
        }
        r.push(carry as u64);
        norm(r)
    }

    /// `self - o`, for `self >= o`.
    pub fn sub(&self, o: &Nat) -> Nat {
        if let (S(a), S(b)) = (self, o) {
            return S(a - b);
        }
        let (a, b) = (self.limbs(), o.limbs());
        let mut r = Vec::with_capacity(a.len());
        let mut borrow = 0i128;
        for i in 0..a.len() {
            let mut s = a[i] as i128 - b.get(i).copied().unwrap_or(0) as i128 - borrow;
            borrow = 0;
            if s < 0 {
                s += 1i128 << 64;
                borrow = 1;
            }
            r.push(s as u64);
        }
        assert!(borrow == 0, "oracle: negative natural");
        norm(r)
    }

    pub fn mul(&self, o: &Nat) -> Nat {
        if let (S(a), S(b)) = (self, o) {
            if let Some(r) = a.checked_mul(*b) {
                return S(r);
            }
        }
        let (a, b) = (self.limbs(), o.limbs());
        let mut r = vec![0u64; a.len() + b.len() + 1];
        for i in 0..a.len() {
            let mut carry = 0u128;
            for j in 0..b.len() {
                let s = a[i] as u128 * b[j] as u128 + r[i + j] as u128 + carry;
                r[i + j] = s as u64;
                carry = s >> 64;
            }
            r[i + b.len()] = carry as u64;
        }
        norm(r)
    }

    pub fn shl1(&self) -> Nat {
        self.add(self)
    }

    pub fn shr1(&self) -> Nat {
        match self {
            S(v) => S(v >> 1),
            B(v) => {
                let mut r = v.clone();
                let n = r.len();
                for i in 0..n {
                    r[i] = r[i] >> 1 | if i + 1 < n { r[i + 1] << 63 } else { 0 };
                }
                norm(r)
            }
        }
    }

    pub fn gcd(&self, o: &Nat) -> Nat {
        if let (S(a), S(b)) = (self, o) {
            let (mut a, mut b) = (*a, *b);
            while b != 0 {
                let t = a % b;
                a = b;
                b = t;
            }
            return S(a);
        }
        let (mut a, mut b) = (self.clone(), o.clone());
        if a.is_zero() {
            return b;
        }
        if b.is_zero() {
            return a;
        }
        let mut k = 0;
        while a.is_even() && b.is_even() {
            a = a.shr1();
            b = b.shr1();
            k += 1;
        }
        while a.is_even() {
            a = a.shr1();
        }
        loop {
            if let (S(_), S(_)) = (&a, &b) {
                let mut g = a.gcd(&b);
                for _ in 0..k {
                    g = g.shl1();
                }
                return g;
            }
            while b.is_even() && !b.is_zero() {
                b = b.shr1();
            }
            if b.is_zero() {
                break;
            }
            if a.cmp(&b) == Ordering::Greater {
                std::mem::swap(&mut a, &mut b);
            }
            b = b.sub(&a);
        }
        for _ in 0..k {
            a = a.shl1();
        }
        a
    }

    /// Exact quotient by long division (only used to reduce fractions).
    pub fn div_exact(&self, o: &Nat) -> Nat {
        if let (S(a), S(b)) = (self, o) {
            return S(a / b);
        }
        let mut q = Nat::zero();
        let mut r = Nat::zero();
        let l = self.limbs();
        for i in (0..self.bits() as usize).rev() {
            r = r.shl1();
            if l[i / 64] >> (i % 64) & 1 == 1 {
                r = r.add(&Nat::one());
            }
            q = q.shl1();
            if r.cmp(o) != Ordering::Less {
                r = r.sub(o);
                q = q.add(&Nat::one());
            }
        }
        q
    }

    pub fn show(&self) -> String {
        match self {
            S(v) => v.to_string(),
            B(v) => {
                let mut s = String::from("0x");
                for (i, l) in v.iter().rev().enumerate() {
                    if i == 0 {
                        s += &format!("{:x}", l);
                    } else {
                        s += &format!("{:016x}", l);
                    }
                }
                s
            }
        }
    }

    pub fn to_u64(&self) -> Option<u64> {
        match self {
            S(v) => u64::try_from(*v).ok(),
            _ => None,
        }
    }
}

/// A signed integer.
#[derive(Clone, Debug)]
pub struct Int {
    pub neg: bool,
    pub mag: Nat,
}

impl Int {
    pub fn from(v: i128) -> Int {
        Int {
            neg: v < 0,
            mag: S(v.unsigned_abs()),
        }
    }

    pub fn mul(&self, o: &Int) -> Int {
        let mag = self.mag.mul(&o.mag);
        Int {
            neg: (self.neg != o.neg) && !mag.is_zero(),
            mag,
        }
    }

    pub fn add(&self, o: &Int) -> Int {
        if self.neg == o.neg {
            return Int {
                neg: self.neg,
                mag: self.mag.add(&o.mag),
            };
        }
        match self.mag.cmp(&o.mag) {
            Ordering::Equal => Int::from(0),
            Ordering::Greater => Int {
                neg: self.neg,
                mag: self.mag.sub(&o.mag),
            },
            Ordering::Less => Int {
                neg: o.neg,
                mag: o.mag.sub(&self.mag),
            },
        }
    }

    pub fn is_zero(&self) -> bool {
        self.mag.is_zero()
    }
}

/// A rational with a positive denominator; not necessarily in lowest terms.
#[derive(Clone, Debug)]
pub struct Rat {
    pub neg: bool,
    pub n: Nat,
    pub d: Nat,
}

impl Rat {
    /// `n / d`, or None when `d` is zero.
    pub fn new(n: Int, d: Int) -> Option<Rat> {
        if d.is_zero() {
            return None;
        }
        let neg = n.neg != d.neg && !n.is_zero();
        Some(Rat {
            neg,
            n: n.mag,
            d: d.mag,
        }
        .reduced())
    }

    pub fn num(&self) -> Int {
        Int {
            neg: self.neg,
            mag: self.n.clone(),
        }
    }

    pub fn den(&self) -> Int {
        Int {
            neg: false,
            mag: self.d.clone(),
        }
    }

    fn reduced(self) -> Rat {
        if self.n.bits() <= 60 && self.d.bits() <= 60 {
            return self;
        }
        self.lowest()
    }

    pub fn lowest(self) -> Rat {
        let g = self.n.gcd(&self.d);
        if g == Nat::one() {
            return self;
        }
        Rat {
            neg: self.neg,
            n: self.n.div_exact(&g),
            d: self.d.div_exact(&g),
        }
    }

    pub fn cmp(&self, o: &Rat) -> Ordering {
        if self.neg != o.neg {
            return if self.neg {
                Ordering::Less
            } else {
                Ordering::Greater
            };
        }
        let c = self.n.mul(&o.d).cmp(&o.n.mul(&self.d));
        if self.neg {
            c.reverse()
        } else {
            c
        }
    }

    pub fn show(&self) -> String {
        let r = self.clone().lowest();
        format!("{}{}/{}", if r.neg { "-" } else { "" }, r.n.show(), r.d.show())
    }

    /// Lowest terms as machine integers, when they fit.
    pub fn small(&self) -> Option<(i128, i128)> {
        let r = self.clone().lowest();
        let n = r.n.to_u64()? as i128;
        let d = r.d.to_u64()? as i128;
        Some((if r.neg { -n } else { n }, d))
    }
}
