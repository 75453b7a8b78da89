//! Generators. Every random choice comes from one seeded stream.

use crate::expr::*;
use crate::model::*;
use crate::nat::{Int, Rat};
use Expr::*;

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        for _ in 0..4 {
            r.next();
        }
        r
    }

    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }

    /// Uniform below n.
    pub fn below(&mut self, n: u64) -> u64 {
        (self.next() as u128 * n as u128 >> 64) as u64
    }

    pub fn chance(&mut self, percent: u64) -> bool {
        self.below(100) < percent
    }

    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

pub struct Gen {
    pub r: Rng,
    pub dict: Vec<i64>,
}

pub const EXTREMES: [i64; 24] = [
    i64::MIN,
    i64::MIN + 1,
    i64::MIN + 2,
    i64::MAX,
    i64::MAX - 1,
    i64::MAX - 2,
    i64::MAX / 2,
    i64::MAX / 2 + 1,
    i64::MIN / 2,
    i64::MIN / 2 - 1,
    i64::MAX / 3,
    i64::MIN / 3,
    i64::MAX / 4,
    i64::MAX / 4 + 1,
    i64::MIN / 4,
    i64::MAX / 8,
    i64::MIN / 8,
    1 << 31,
    (1 << 31) - 1,
    1 << 32,
    (1 << 32) - 1,
    -(1 << 31),
    -(1 << 32),
    (1 << 32) + 1,
];

/// Named operations on one operand.
pub const HOM_OPS: [[i64; 4]; 16] = [
    [1, 0, 0, 1],
    [-1, 0, 0, 1],
    [0, 1, 1, 0],
    [0, -1, 1, 0],
    [1, 1, 0, 1],
    [1, -1, 0, 1],
    [-1, 1, 0, 1],
    [2, 0, 0, 1],
    [1, 0, 0, 2],
    [1, -1, 1, 1],
    [1, 1, 1, -1],
    [1, 0, 1, 1],
    [1, 0, -1, 1],
    [2, -1, 0, 1],
    [3, 1, 2, 1],
    [0, 1, 1, 1],
];

pub const ADD: [i64; 8] = [0, 1, 1, 0, 0, 0, 0, 1];
pub const SUB: [i64; 8] = [0, 1, -1, 0, 0, 0, 0, 1];
pub const MUL: [i64; 8] = [1, 0, 0, 0, 0, 0, 0, 1];
pub const DIV: [i64; 8] = [0, 1, 0, 0, 0, 0, 1, 0];

/// Named operations on two operands.
pub const COMB_OPS: [[i64; 8]; 10] = [
    ADD,
    SUB,
    MUL,
    DIV,
    [0, -1, 1, 0, 0, 0, 0, 1],
    [0, 0, 1, 0, 0, 1, 0, 0],
    [0, 1, 1, 0, 0, 0, 0, 2],
    [0, 1, 1, 0, -1, 0, 0, 1],
    [1, 0, 0, 0, 0, 1, 1, 0],
    [1, 1, 1, 1, 0, 0, 0, 1],
];

/// Values at which the representation changes shape, and close ones.
const LANDMARKS: [(i64, i64); 24] = [
    (0, 1),
    (1, 1),
    (-1, 1),
    (1, 2),
    (-1, 2),
    (2, 1),
    (-2, 1),
    (1, 3),
    (2, 3),
    (-1, 3),
    (-2, 3),
    (3, 2),
    (-3, 2),
    (3, 1),
    (-3, 1),
    (1, 4),
    (3, 4),
    (-1, 4),
    (-3, 4),
    (4, 1),
    (4, 3),
    (5, 8),
    (7, 8),
    (1, 8),
];

impl Gen {
    pub fn new(seed: u64) -> Gen {
        Gen {
            r: Rng::new(seed),
            dict: vec![],
        }
    }

    /// How large the integers of this case should be, in bits.
    pub fn scale(&mut self) -> u32 {
        match self.r.below(100) {
            0..=24 => 3,
            25..=49 => 5,
            50..=69 => 9,
            70..=81 => 14,
            82..=90 => 22,
            91..=95 => 31,
            _ => 62,
        }
    }

    pub fn nat(&mut self, bits: u32) -> u64 {
        let bits = bits.clamp(1, 63);
        match self.r.below(20) {
            0..=7 => {
                let b = 1 + self.r.below(bits as u64);
                self.r.below(1 << b)
            }
            8..=12 => self.r.below(1 << bits.min(4)),
            13..=14 => 1 << self.r.below(bits as u64),
            15..=16 => {
                let p = 1u64 << self.r.below(bits as u64);
                let k = self.r.below(3);
                if self.r.chance(50) {
                    p + k
                } else {
                    p.saturating_sub(k)
                }
            }
            17 if !self.dict.is_empty() => {
                let i = self.r.below(self.dict.len() as u64) as usize;
                let v = self.dict[i].unsigned_abs();
                if 64 - v.leading_zeros() <= bits {
                    v.wrapping_add(self.r.below(3)).wrapping_sub(1) & (u64::MAX >> 1)
                } else {
                    v >> (v.leading_zeros().abs_diff(64 - bits)).min(63)
                }
            }
            _ => self.r.next() >> (64 - bits),
        }
    }

    pub fn int(&mut self, bits: u32) -> i64 {
        let v = self.nat(bits) as i64;
        if self.r.chance(45) {
            -v
        } else {
            v
        }
    }

    fn nonzero(&mut self, bits: u32) -> i64 {
        loop {
            let v = self.int(bits);
            if v != 0 {
                return v;
            }
        }
    }

    /// A random sequence of reductions, in runs.
    pub fn bits(&mut self, max: usize) -> Vec<bool> {
        let n = self.r.below(max as u64 + 1) as usize;
        let mut v = Vec::new();
        let style = self.r.below(4);
        let mut u = self.r.chance(50);
        while v.len() < n {
            let run = match style {
                0 => 1 + self.r.below(2),
                1 => 1 + self.r.below(6),
                2 => {
                    if u {
                        1 + self.r.below(2)
                    } else {
                        1 + self.r.below(9)
                    }
                }
                _ => {
                    if u {
                        1 + self.r.below(12)
                    } else {
                        1 + self.r.below(2)
                    }
                }
            };
            for _ in 0..run {
                v.push(u);
            }
            u = !u;
        }
        v.truncate(n);
        v
    }

    /// Terms of a random positive fraction, neither zero.
    pub fn terms(&mut self, bits: u32) -> (u64, u64) {
        let bits = bits.clamp(2, 63);
        match self.r.below(12) {
            0..=2 => (1 + self.r.below(12), 1 + self.r.below(12)),
            3..=5 => (self.nat(bits).max(1), self.nat(bits).max(1)),
            6..=8 => {
                // from a sequence of symbols
                loop {
                    let b = self.bits(2 * bits as usize);
                    if let Some(r) = decode(&Sym::Other(NONE, b)) {
                        if r.d.bits() <= bits {
                            let (n, d) = (r.n.to_u64().unwrap(), r.d.to_u64().unwrap());
                            return if self.r.chance(50) { (n, d) } else { (d, n) };
                        }
                    }
                }
            }
            9 => {
                // close to one, or to one half
                let d = self.nat(bits - 1).max(2);
                let k = 1 + self.r.below(3);
                if self.r.chance(50) {
                    (d.saturating_sub(k).max(1), d)
                } else {
                    (d + k, (2 * d).max(1))
                }
            }
            10 => {
                // long sequences: denominators just below a power of two
                let d = (1u64 << (1 + self.r.below(bits as u64))) - 1;
                let n = 1 + self.r.below(3);
                if self.r.chance(50) {
                    (n, d.max(1))
                } else {
                    (d.max(1), n)
                }
            }
            _ => {
                // consecutive Fibonacci-like terms
                let (mut a, mut b) = (1 + self.r.below(4), 1 + self.r.below(4));
                let n = self.r.below(bits as u64 * 3 / 2);
                for _ in 0..n {
                    if b >= 1 << (bits - 1) {
                        break;
                    }
                    (a, b) = (b, a + b);
                }
                (a, b)
            }
        }
    }

    /// The same fraction written in one of the possible ways.
    pub fn fraction(&mut self, neg: bool, n: u64, d: u64) -> Expr {
        let (mut n, mut d) = (n, d);
        if self.r.chance(35) {
            let k = 1 + self.nat(6);
            if let (Some(a), Some(b)) = (n.checked_mul(k), d.checked_mul(k)) {
                (n, d) = (a, b);
            }
        }
        if self.r.chance(25) || n > i64::MAX as u64 || d > i64::MAX as u64 {
            return RatioU(!neg, n, d);
        }
        let (n, d) = (n as i64, d as i64);
        if self.r.chance(30) {
            Ratio(if neg { n } else { -n }, -d)
        } else {
            Ratio(if neg { -n } else { n }, d)
        }
    }

    pub fn leaf(&mut self, bits: u32) -> Expr {
        match self.r.below(20) {
            0 => {
                let s = self.r.below(3) as i8 - 1;
                if self.r.chance(50) {
                    Special(s)
                } else {
                    let k = self.nonzero(bits);
                    Ratio(k * s as i64, k)
                }
            }
            1..=2 => {
                let (n, d) = *self.r.pick(&LANDMARKS);
                self.fraction(n < 0, n.unsigned_abs(), d as u64)
            }
            _ => {
                let (n, d) = self.terms(bits);
                let neg = self.r.chance(45);
                self.fraction(neg, n, d)
            }
        }
    }

    /// Exact value of a program in machine terms, when it has one.
    pub fn small_value(e: &Expr) -> Option<(i128, i128)> {
        match e {
            Ratio(n, d) => Rat::new(Int::from(*n as i128), Int::from(*d as i128))?.small(),
            Special(s) => Some((*s as i128, 1)),
            _ => eval(e).value()?.val.small(),
        }
    }

    fn target(&mut self, bits: u32) -> (i128, i128) {
        if self.r.chance(60) {
            let (p, q) = *self.r.pick(&LANDMARKS);
            (p as i128, q as i128)
        } else {
            let (p, q) = self.terms(bits);
            (
                if self.r.chance(45) {
                    -(p as i128)
                } else {
                    p as i128
                },
                q as i128,
            )
        }
    }

    /// Coefficients that send u/v to p/q exactly.
    pub fn hom_to(&mut self, (u, v): (i128, i128), (p, q): (i128, i128), bits: u32) -> Option<[i64; 4]> {
        let (dx, d) = (self.int(bits) as i128, self.int(bits) as i128);
        let k = self.int(bits) as i128;
        let c = [p * dx + k * v, p * d - k * u, q * dx, q * d];
        narrow4(c)
    }

    pub fn hom_pole(&mut self, (u, v): (i128, i128), bits: u32) -> Option<[i64; 4]> {
        let k = self.nonzero(bits.min(4)) as i128;
        let (nx, n) = match self.r.below(4) {
            0 => {
                let l = self.int(bits.min(4)) as i128;
                (l * v, -l * u)
            }
            _ => (self.int(bits) as i128, self.int(bits) as i128),
        };
        narrow4([nx, n, k * v, -k * u])
    }

    pub fn hom_coefs(&mut self, x: Option<(i128, i128)>, bits: u32, poles: bool) -> [i64; 4] {
        for _ in 0..4 {
            match self.r.below(100) {
                0..=24 => return [0; 4].map(|_| self.int(bits)),
                25..=42 => {
                    let mut c = *self.r.pick(&HOM_OPS);
                    if self.r.chance(40) {
                        let i = self.r.below(4) as usize;
                        c[i] = self.int(bits);
                    }
                    return c;
                }
                43..=62 => {
                    if let Some(x) = x {
                        let t = self.target(bits);
                        if let Some(c) = self.hom_to(x, t, bits) {
                            return c;
                        }
                    }
                }
                63..=70 => {
                    if let Some(x) = x {
                        if let Some(mut c) = self.hom_pole(x, bits) {
                            if poles && self.r.chance(50) {
                                return c;
                            }
                            let i = 2 + self.r.below(2) as usize;
                            if let Some(v) = c[i].checked_add(if self.r.chance(50) { 1 } else { -1 })
                            {
                                c[i] = v;
                                return c;
                            }
                        }
                    }
                }
                71..=78 => {
                    // singular: constant wherever it is defined
                    let (a, b) = (self.int(bits.min(30)), self.int(bits.min(30)));
                    let (p, q) = self.target(bits.min(30));
                    if let Some(c) = narrow4([
                        p * a as i128,
                        p * b as i128,
                        q * a as i128,
                        q * b as i128,
                    ]) {
                        return c;
                    }
                }
                79..=90 => {
                    let mut c = [0; 4].map(|_| self.int(bits));
                    for v in c.iter_mut() {
                        if self.r.chance(40) {
                            *v = 0;
                        }
                    }
                    return c;
                }
                _ => {
                    let k = self.r.below(bits as u64 + 1) as u32;
                    let c = [0; 4].map(|_| self.int(4));
                    if let Some(c) = narrow4(c.map(|v| (v as i128) << k)) {
                        return c;
                    }
                }
            }
        }
        [0; 4].map(|_| self.int(bits))
    }

    /// Coefficients of numerator or denominator vanishing at x = u/v, y = s/t.
    fn vanish(&mut self, (u, v): (i128, i128), (s, t): (i128, i128), bits: u32) -> [i128; 4] {
        let bits = bits.min(58);
        let k = |g: &mut Gen| match g.r.below(3) {
            0 => 0,
            _ => g.int(bits) as i128,
        };
        let (al, be, ga, de) = (k(self), k(self), k(self), k(self));
        // (v x - u)(al y + be) + (t y - s)(ga x + de)
        [
            v * al + t * ga,
            v * be - s * ga,
            t * de - u * al,
            -u * be - s * de,
        ]
    }

    pub fn comb_to(
        &mut self,
        x: (i128, i128),
        y: (i128, i128),
        (p, q): (i128, i128),
        bits: u32,
    ) -> Option<[i64; 8]> {
        let mut den = [0; 4].map(|_| self.int(bits) as i128);
        for v in den.iter_mut() {
            if self.r.chance(40) {
                *v = 0;
            }
        }
        let van = self.vanish(x, y, bits);
        let mut c = [0i128; 8];
        for i in 0..4 {
            c[i] = p.checked_mul(den[i])?.checked_add(van[i])?;
            c[4 + i] = q.checked_mul(den[i])?;
        }
        narrow8(c)
    }

    pub fn comb_pole(&mut self, x: (i128, i128), y: (i128, i128), bits: u32) -> Option<[i64; 8]> {
        let den = self.vanish(x, y, bits.min(4));
        let num = if self.r.chance(25) {
            self.vanish(x, y, bits.min(4))
        } else {
            [0; 4].map(|_| self.int(bits) as i128)
        };
        narrow8([
            num[0], num[1], num[2], num[3], den[0], den[1], den[2], den[3],
        ])
    }

    pub fn comb_coefs(
        &mut self,
        xy: Option<((i128, i128), (i128, i128))>,
        bits: u32,
        poles: bool,
    ) -> [i64; 8] {
        for _ in 0..4 {
            match self.r.below(100) {
                0..=21 => return [0; 8].map(|_| self.int(bits)),
                22..=45 => {
                    let mut c = *self.r.pick(&COMB_OPS);
                    if self.r.chance(40) {
                        let i = self.r.below(8) as usize;
                        c[i] = self.int(bits);
                    }
                    return c;
                }
                46..=65 => {
                    if let Some((x, y)) = xy {
                        let t = self.target(bits);
                        if let Some(c) = self.comb_to(x, y, t, bits) {
                            return c;
                        }
                    }
                }
                66..=72 => {
                    if let Some((x, y)) = xy {
                        if let Some(mut c) = self.comb_pole(x, y, bits) {
                            if poles && self.r.chance(50) {
                                return c;
                            }
                            let i = 4 + self.r.below(4) as usize;
                            if let Some(v) = c[i].checked_add(if self.r.chance(50) { 1 } else { -1 })
                            {
                                c[i] = v;
                                return c;
                            }
                        }
                    }
                }
                73..=77 => {
                    // constant wherever it is defined
                    let a = [0; 4].map(|_| self.int(bits.min(30)) as i128);
                    let (p, q) = self.target(bits.min(30));
                    let mut c = [0i128; 8];
                    for i in 0..4 {
                        c[i] = p * a[i];
                        c[4 + i] = q * a[i];
                    }
                    if let Some(c) = narrow8(c) {
                        return c;
                    }
                }
                78..=91 => {
                    let mut c = [0; 8].map(|_| self.int(bits));
                    for v in c.iter_mut() {
                        if self.r.chance(50) {
                            *v = 0;
                        }
                    }
                    return c;
                }
                _ => {
                    let k = self.r.below(bits as u64 + 1) as u32;
                    let c = [0; 8].map(|_| self.int(4));
                    if let Some(c) = narrow8(c.map(|v| (v as i128) << k)) {
                        return c;
                    }
                }
            }
        }
        [0; 8].map(|_| self.int(bits))
    }

    pub fn hom_over(&mut self, x: Expr, bits: u32, poles: bool) -> Expr {
        let v = Gen::small_value(&x);
        Hom(self.hom_coefs(v, bits, poles), Box::new(x))
    }

    pub fn comb_over(&mut self, x: Expr, y: Expr, bits: u32, poles: bool) -> Expr {
        let v = match (Gen::small_value(&x), Gen::small_value(&y)) {
            (Some(a), Some(b)) => Some((a, b)),
            _ => None,
        };
        Comb(self.comb_coefs(v, bits, poles), Box::new(x), Box::new(y))
    }

    pub fn wrap(&mut self, x: Expr) -> Expr {
        let k = match self.r.below(4) {
            0 => 0,
            1 => 1 + self.r.below(3),
            2 => self.r.below(12),
            _ => self.r.below(60),
        } as usize;
        Wrap(k, self.r.below(4) as u8, Box::new(x))
    }

    /// An operand: mostly a fraction, sometimes something lazily computed.
    pub fn operand(&mut self, bits: u32) -> Expr {
        match self.r.below(20) {
            0..=13 => self.leaf(bits),
            14..=15 => {
                let x = self.leaf(bits);
                self.wrap(x)
            }
            16..=17 => {
                let x = self.leaf(bits);
                self.hom_over(x, bits.min(6), false)
            }
            18 => {
                let x = self.leaf(bits);
                Rebuild(Box::new(x))
            }
            _ => {
                let (x, y) = (self.leaf(bits), self.leaf(bits));
                self.comb_over(x, y, bits.min(4), false)
            }
        }
    }

    pub fn tree(&mut self, depth: u32, bits: u32) -> Expr {
        if depth == 0 || self.r.chance(10) {
            return self.leaf(bits);
        }
        match self.r.below(10) {
            0..=3 => {
                let x = self.tree(depth - 1, bits);
                self.hom_over(x, bits, false)
            }
            4..=7 => {
                let d = self.r.below(depth as u64) as u32;
                let (x, y) = (self.tree(depth - 1, bits), self.tree(d, bits));
                if self.r.chance(50) {
                    self.comb_over(x, y, bits, false)
                } else {
                    self.comb_over(y, x, bits, false)
                }
            }
            8 => {
                let x = self.tree(depth - 1, bits);
                self.wrap(x)
            }
            _ => Rebuild(Box::new(self.tree(depth - 1, bits))),
        }
    }

    /// A long chain of operations, each on the result of the one before, with values of some bits.
    pub fn chain(&mut self, len: u64, bits: u32) -> Expr {
        let fits = |v: &(i128, i128)| v.0.unsigned_abs() | v.1.unsigned_abs() < 1 << bits;
        let mut e = self.leaf(bits.min(6));
        let mut now = match Gen::small_value(&e) {
            Some(v) => v,
            None => return e,
        };
        for _ in 0..len {
            // the steps so far are stood in for by their value
            let here = Ratio(now.0 as i64, now.1 as i64);
            let (step, then) = match self.r.below(10) {
                0..=4 => {
                    let c = *self.r.pick(&HOM_OPS);
                    (Hom(c, Box::new(here)), Hom(c, Box::new(e.clone())))
                }
                5..=7 => {
                    let (c, y) = (*self.r.pick(&COMB_OPS), Box::new(self.leaf(2)));
                    let (h, t) = (Box::new(here), Box::new(e.clone()));
                    if self.r.chance(50) {
                        (Comb(c, h, y.clone()), Comb(c, t, y))
                    } else {
                        (Comb(c, y.clone(), h), Comb(c, y, t))
                    }
                }
                8 => {
                    let (k, p) = (self.r.below(4) as usize, self.r.below(4) as u8);
                    (Wrap(k, p, Box::new(here)), Wrap(k, p, Box::new(e.clone())))
                }
                _ => (Rebuild(Box::new(here)), Rebuild(Box::new(e.clone()))),
            };
            match Gen::small_value(&step) {
                Some(v) if fits(&v) => {
                    now = v;
                    e = then;
                }
                _ => {}
            }
        }
        e
    }

    /// A program whose value is p/q, by one of several routes.
    pub fn route(&mut self, (p, q): (i128, i128), bits: u32, depth: u32) -> Expr {
        let (neg, n, d) = (p < 0, p.unsigned_abs() as u64, q.unsigned_abs() as u64);
        for _ in 0..4 {
            match self.r.below(12) {
                0..=2 => return self.fraction(neg, n, d),
                3..=5 => {
                    let x = if depth > 0 && self.r.chance(30) {
                        let t = self.target(bits);
                        self.route(t, bits, depth - 1)
                    } else {
                        self.leaf(bits)
                    };
                    if let Some(v) = Gen::small_value(&x) {
                        if let Some(c) = self.hom_to(v, (p, q), bits.min(6)) {
                            if c[2] as i128 * v.0 + c[3] as i128 * v.1 != 0 {
                                return Hom(c, Box::new(x));
                            }
                        }
                    }
                }
                6..=8 => {
                    let (x, y) = (self.leaf(bits), self.leaf(bits));
                    if let (Some(a), Some(b)) = (Gen::small_value(&x), Gen::small_value(&y)) {
                        if let Some(c) = self.comb_to(a, b, (p, q), bits.min(5)) {
                            let e = Comb(c, Box::new(x), Box::new(y));
                            if !matches!(eval(&e).out, Outcome::DivZero) {
                                return e;
                            }
                        }
                    }
                }
                9 => {
                    let x = self.fraction(neg, n, d);
                    return Rebuild(Box::new(x));
                }
                10 => {
                    if let Some(e) = self.longer(neg, n, d) {
                        return e;
                    }
                }
                _ => {
                    let c = *self.r.pick(&[
                        [1, 0, 0, 1],
                        [2, 0, 0, 2],
                        [-3, 0, 0, -3],
                        [-1, 0, 0, -1],
                    ]);
                    let x = self.fraction(neg, n, d);
                    return Hom(c, Box::new(x));
                }
            }
        }
        self.fraction(neg, n, d)
    }

    /// A longer number that, partially read and wrapped again, is the given one.
    pub fn longer(&mut self, neg: bool, n: u64, d: u64) -> Option<Expr> {
        let r = Rat::new(
            Int::from(if neg { -(n as i128) } else { n as i128 }),
            Int::from(d as i128),
        )?;
        if let Sym::Other(p, b) = encode(&r)? {
            let mut pre = self.bits(6);
            let k = pre.len();
            pre.extend(b);
            let q = self.r.below(4) as u8;
            let v = decode(&Sym::Other(q, pre))?.lowest();
            let (n, d) = (v.n.to_u64()?, v.d.to_u64()?);
            let x = self.fraction(v.neg, n, d);
            return Some(Wrap(k, p, Box::new(x)));
        }
        None
    }

    /// Two values so close that no fraction of smaller terms lies between them: they share about as
    /// many symbols as fractions of that size can, up to several hundred.
    pub fn neighbours(&mut self, bits: u32) -> ((i128, i128), (i128, i128)) {
        let bits = bits.clamp(6, 62) as u64;
        let (p, q) = if self.r.chance(50) {
            // as many symbols as possible
            let d = (1i128 << (2 + self.r.below(bits - 3))) - 1 - 2 * self.r.below(2) as i128;
            (1 + self.r.below(3) as i128, d.max(1))
        } else {
            let b = 2 + self.r.below(bits - 3) as u32;
            let (n, d) = self.terms(b);
            (n as i128, d as i128)
        };
        // a q - b p = gcd
        let (mut r0, mut r1, mut s0, mut s1) = (p, q, (1, 0), (0, 1));
        while r1 != 0 {
            let k = r0 / r1;
            (r0, r1) = (r1, r0 - k * r1);
            (s0, s1) = (s1, (s0.0 - k * s1.0, s0.1 - k * s1.1));
        }
        let (p, q) = (p / r0, q / r0);
        let side = |g: &mut Gen| {
            let up = if g.r.chance(50) { 1 } else { -1 };
            let (mut a, mut b) = (up * s0.1, -up * s0.0);
            let room = (1i128 << bits) / p.max(q);
            let top = 64 - (room.max(1) as u64).leading_zeros();
            let k = g.nat(top.min(62)) as i128 % room.max(1) + 1;
            a += k * p;
            b += k * q;
            (a, b)
        };
        let mut x = (p, q);
        let mut y = side(self);
        if self.r.chance(30) {
            x = side(self);
        }
        if self.r.chance(50) {
            x = (x.1, x.0);
            y = (y.1, y.0);
        }
        let s = if self.r.chance(45) { -1 } else { 1 };
        let ok = |v: (i128, i128)| v.0 > 0 && v.1 > 0 && v.0.max(v.1) < 1 << 63;
        if ok(x) && ok(y) {
            ((s * x.0, x.1), (s * y.0, y.1))
        } else {
            ((s, 3), (s, 4))
        }
    }

    /// Two values whose representations share a prefix.
    pub fn close_pair(&mut self, bits: u32) -> ((i128, i128), (i128, i128)) {
        if self.r.chance(15) {
            return self.neighbours(bits);
        }
        loop {
            let (p1, p2) = {
                let p = self.r.below(4) as u8;
                (
                    p,
                    if self.r.chance(90) {
                        p
                    } else {
                        self.r.below(4) as u8
                    },
                )
            };
            let pre = self.bits(bits as usize);
            let mut a = pre.clone();
            let mut b = pre;
            a.extend(self.bits(6));
            b.extend(self.bits(6));
            if let (Some(x), Some(y)) = (decode(&Sym::Other(p1, a)), decode(&Sym::Other(p2, b))) {
                if let (Some(x), Some(y)) = (x.small(), y.small()) {
                    if x.0.unsigned_abs().max(x.1 as u128) < 1 << 62
                        && y.0.unsigned_abs().max(y.1 as u128) < 1 << 62
                    {
                        return (x, y);
                    }
                }
            }
        }
    }

    // ---- mutation ----

    fn tweak(&mut self, v: i64) -> i64 {
        match self.r.below(12) {
            0..=2 => v.wrapping_add(1),
            3..=5 => v.wrapping_sub(1),
            6 => v.wrapping_neg(),
            7 => v.wrapping_mul(2),
            8 => v / 2,
            9 => {
                let b = self.scale();
                self.int(b)
            }
            10 => v ^ (1 << self.r.below(62)),
            _ => *self.r.pick(&EXTREMES),
        }
    }

    pub fn mutate_expr(&mut self, e: &Expr, pool: &[Expr]) -> Expr {
        let kids = e.children().len() as u64;
        if kids > 0 && self.r.chance(50) {
            let which = self.r.below(kids);
            return match e {
                Hom(c, x) => Hom(*c, Box::new(self.mutate_expr(x, pool))),
                Wrap(k, p, x) => Wrap(*k, *p, Box::new(self.mutate_expr(x, pool))),
                Rebuild(x) => Rebuild(Box::new(self.mutate_expr(x, pool))),
                Comb(c, x, y) => {
                    if which == 0 {
                        Comb(*c, Box::new(self.mutate_expr(x, pool)), y.clone())
                    } else {
                        Comb(*c, x.clone(), Box::new(self.mutate_expr(y, pool)))
                    }
                }
                _ => unreachable!(),
            };
        }
        if self.r.chance(12) {
            if !pool.is_empty() && self.r.chance(50) {
                let s = self.r.pick(pool).clone();
                let subs = s.subs();
                let k = self.r.below(subs.len() as u64) as usize;
                return subs[k].clone();
            }
            let b = self.scale();
            return self.leaf(b);
        }
        match e {
            Ratio(n, d) => {
                if self.r.chance(50) {
                    Ratio(self.tweak(*n), *d)
                } else {
                    Ratio(*n, self.tweak(*d))
                }
            }
            RatioU(p, n, d) => match self.r.below(5) {
                0 => RatioU(!p, *n, *d),
                1 | 2 => RatioU(*p, self.tweak(*n as i64) as u64, *d),
                _ => RatioU(*p, *n, self.tweak(*d as i64) as u64),
            },
            Special(_) => Special(self.r.below(3) as i8 - 1),
            Hom(c, x) => {
                let mut c = *c;
                if self.r.chance(15) {
                    let (i, j) = (self.r.below(4) as usize, self.r.below(4) as usize);
                    c.swap(i, j);
                } else {
                    let i = self.r.below(4) as usize;
                    c[i] = self.tweak(c[i]);
                }
                Hom(c, x.clone())
            }
            Comb(c, x, y) => {
                let mut c = *c;
                match self.r.below(8) {
                    0 => {
                        let (i, j) = (self.r.below(8) as usize, self.r.below(8) as usize);
                        c.swap(i, j);
                    }
                    1 => return Comb(c, y.clone(), x.clone()),
                    _ => {
                        let i = self.r.below(8) as usize;
                        c[i] = self.tweak(c[i]);
                    }
                }
                Comb(c, x.clone(), y.clone())
            }
            Wrap(k, p, x) => {
                if self.r.chance(50) {
                    Wrap(
                        (*k + self.r.below(4) as usize).saturating_sub(1),
                        *p,
                        x.clone(),
                    )
                } else {
                    Wrap(*k, self.r.below(4) as u8, x.clone())
                }
            }
            Rebuild(x) => (**x).clone(),
        }
    }

    pub fn mutate(&mut self, c: &Case, other: &Case) -> Case {
        let mut c = c.clone();
        for _ in 0..1 + self.r.below(3) {
            if !c.aux.is_empty() && self.r.chance(15) {
                let i = self.r.below(c.aux.len() as u64) as usize;
                c.aux[i] = self.tweak(c.aux[i]).clamp(-(1 << 40), 1 << 40);
            } else {
                let i = self.r.below(c.ex.len() as u64) as usize;
                c.ex[i] = self.mutate_expr(&c.ex[i], &other.ex);
            }
        }
        c
    }
}

pub fn narrow4(c: [i128; 4]) -> Option<[i64; 4]> {
    let mut r = [0i64; 4];
    for i in 0..4 {
        r[i] = i64::try_from(c[i]).ok()?;
    }
    Some(r)
}

pub fn narrow8(c: [i128; 8]) -> Option<[i64; 8]> {
    let mut r = [0i64; 8];
    for i in 0..8 {
        r[i] = i64::try_from(c[i]).ok()?;
    }
    Some(r)
}
