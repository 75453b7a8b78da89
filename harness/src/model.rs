//! The oracle: exact values, their canonical representation, and a reference evaluation that tells
//! how large the working coefficients of an operation get.

use crate::nat::{Int, Nat, Rat};
use std::cmp::Ordering;

pub const NONE: u8 = 0;
pub const TURN: u8 = 1;
pub const REFLECT: u8 = 2;
pub const GROUND: u8 = 3;

/// Longest representation the harness follows.
pub const MAX_SYMBOLS: usize = 20_000;
/// Largest terms the harness follows.
pub const MAX_BITS: u32 = 1_000;

/// An operation whose reference working coefficients stay within this bound must succeed. The
/// machine word allows 2^63; the margin covers sums of up to four coefficients, doubling, and
/// different but equally valid orders of evaluation.
pub const LIMIT: i128 = 1 << 59;

/// The canonical representation of a value. In a sequence, false is Amplify and true is Uncover.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Sym {
    Special(i8),
    Other(u8, Vec<bool>),
}

impl Sym {
    pub fn len(&self) -> usize {
        match self {
            Sym::Special(_) => 0,
            Sym::Other(_, b) => b.len(),
        }
    }

    pub fn show(&self) -> String {
        match self {
            Sym::Special(s) => format!("special {}", s),
            Sym::Other(p, b) => format!("{}:{}", primer_name(*p), show_bits(b)),
        }
    }
}

pub fn primer_name(p: u8) -> &'static str {
    ["None", "Turn", "Reflect", "Ground"][p as usize]
}

pub fn show_bits(b: &[bool]) -> String {
    let mut s: String = b
        .iter()
        .take(120)
        .map(|u| if *u { 'U' } else { 'A' })
        .collect();
    if b.len() > 120 {
        s += &format!("...({} symbols)", b.len());
    }
    s
}

/// Canonical representation of a value, straight from the definition of the symbols; None when it
/// is longer than the harness follows.
pub fn encode(r: &Rat) -> Option<Sym> {
    if r.n.is_zero() {
        return Some(Sym::Special(0));
    }
    let (primer, mut n, mut d) = match r.n.cmp(&r.d) {
        Ordering::Equal => return Some(Sym::Special(if r.neg { -1 } else { 1 })),
        Ordering::Less => (if r.neg { REFLECT } else { NONE }, r.n.clone(), r.d.clone()),
        Ordering::Greater => (if r.neg { GROUND } else { TURN }, r.d.clone(), r.n.clone()),
    };
    let mut bits = Vec::new();
    loop {
        if let (Nat::S(a), Nat::S(b)) = (&n, &d) {
            let (mut a, mut b) = (*a, *b);
            loop {
                let rest = b - a;
                match a.cmp(&rest) {
                    Ordering::Equal => return Some(Sym::Other(primer, bits)),
                    Ordering::Less => {
                        if b % 2 == 0 {
                            b /= 2;
                        } else {
                            a *= 2;
                        }
                        bits.push(false);
                    }
                    Ordering::Greater => {
                        b = a;
                        a = rest;
                        bits.push(true);
                    }
                }
                if bits.len() > MAX_SYMBOLS {
                    return None;
                }
            }
        }
        let rest = d.sub(&n);
        match n.cmp(&rest) {
            Ordering::Equal => return Some(Sym::Other(primer, bits)),
            Ordering::Less => {
                if d.is_even() {
                    d = d.shr1();
                } else {
                    n = n.shl1();
                }
                bits.push(false);
            }
            Ordering::Greater => {
                d = n;
                n = rest;
                bits.push(true);
            }
        }
        if bits.len() > MAX_SYMBOLS {
            return None;
        }
    }
}

/// Value of a representation; None when its terms are larger than the harness follows.
pub fn decode(s: &Sym) -> Option<Rat> {
    match s {
        Sym::Special(v) => Rat::new(Int::from(*v as i128), Int::from(1)),
        Sym::Other(p, bits) => {
            let (mut n, mut d) = (Nat::one(), Nat::one().shl1());
            for u in bits.iter().rev() {
                if *u {
                    let s = n.add(&d);
                    n = d;
                    d = s;
                } else if n.is_even() {
                    n = n.shr1();
                } else {
                    d = d.shl1();
                }
                if d.bits() > MAX_BITS {
                    return None;
                }
            }
            let neg = *p == REFLECT || *p == GROUND;
            if *p == TURN || *p == GROUND {
                std::mem::swap(&mut n, &mut d);
            }
            Some(Rat { neg, n, d })
        }
    }
}

/// Reference evaluation with wide coefficients: reads operands symbol by symbol, emits as soon as
/// the result allows, cancels common factors of two. `peak` is the largest coefficient magnitude.
pub struct Sim {
    pub peak: i128,
    /// Symbols still wanted of the result; evaluation stops when it has them.
    want: usize,
    /// Symbols taken from the operands, an end counting as one.
    read: (usize, usize),
    /// Which order of reading and emitting is followed, below ORDERS.
    order: u8,
}

/// Evaluation may take either operand first, look for a result after each symbol or after one of
/// each operand, and start over with the first operand after a result or not. Order 0 is the
/// reference.
pub const ORDERS: u8 = 6;

type Pair = (i128, i128);

fn fit(mut p: Pair) -> Pair {
    if p.1 < 0 {
        p = (-p.0, -p.1);
    }
    if p.1 == 0 {
        p.0 = p.0.signum();
    }
    if p.0 == 0 {
        p.1 = 1;
    }
    p
}

fn lt(a: Pair, b: Pair) -> bool {
    a.0 * b.1 < b.0 * a.1
}

impl Sim {
    pub fn new() -> Sim {
        Sim {
            peak: 0,
            want: usize::MAX,
            read: (0, 0),
            order: 0,
        }
    }

    pub fn in_order(order: u8) -> Sim {
        Sim {
            order,
            ..Sim::new()
        }
    }

    fn second_first(&self) -> bool {
        self.order % 2 == 1
    }

    /// 0: one symbol of each operand at a time; 1: one symbol at a time; 2: as 1, but the first
    /// operand comes next after each symbol of the result
    fn stride(&self) -> u8 {
        self.order / 2
    }

    /// How much of x the primer and the first k symbols take; None if they take too much room.
    pub fn hom_prefix(&mut self, x: &Sym, c: [i128; 4], k: usize) -> Option<usize> {
        self.want = k;
        self.read = (0, 0);
        let ok = self.hom(x, c);
        self.want = usize::MAX;
        if ok {
            Some(self.read.0)
        } else {
            None
        }
    }

    /// The same for both operands of a combination.
    pub fn comb_prefix(
        &mut self,
        x: &Sym,
        y: &Sym,
        c: [i128; 8],
        k: usize,
    ) -> Option<(usize, usize)> {
        self.want = k;
        self.read = (0, 0);
        let ok = self.comb(x, y, c);
        self.want = usize::MAX;
        if ok {
            Some(self.read)
        } else {
            None
        }
    }

    /// One symbol of the result is known; true when no more are wanted.
    fn emitted(&mut self) -> bool {
        self.want -= 1;
        self.want == 0
    }

    /// Note coefficients; false once they leave the safe bound.
    fn note(&mut self, cs: &[i128]) -> bool {
        for c in cs {
            if c.abs() > self.peak {
                self.peak = c.abs();
            }
        }
        self.peak <= LIMIT
    }

    /// True when the operation stays within the safe bound until its result is read to the end.
    pub fn hom(&mut self, x: &Sym, c: [i128; 4]) -> bool {
        let [mut nx, mut n, mut dx, mut d] = c;
        if !self.note(&c) {
            return false;
        }
        if (dx == 0 && d == 0) || (nx == 0 && dx == 0) {
            return true;
        }
        let (p, bits) = match x {
            Sym::Special(s) => {
                let s = *s as i128;
                return self.note(&[n + s * nx, d + s * dx]);
            }
            Sym::Other(p, bits) => (*p, &bits[..]),
        };
        if p == TURN || p == GROUND {
            std::mem::swap(&mut nx, &mut n);
            std::mem::swap(&mut dx, &mut d);
        }
        if p == REFLECT {
            nx = -nx;
            dx = -dx;
        }
        if p == GROUND {
            n = -n;
            d = -d;
        }
        self.hom_run(bits, nx, n, dx, d, false)
    }

    fn hom_run(
        &mut self,
        bits: &[bool],
        mut nx: i128,
        mut n: i128,
        mut dx: i128,
        mut d: i128,
        mut primed: bool,
    ) -> bool {
        let mut i = 0;
        let mut turns = 0;
        loop {
            turns += 1;
            if turns > 8 * MAX_SYMBOLS || !self.note(&[nx, n, dx, d]) {
                return false;
            }
            let tame = |mx: i128, m: i128| m == 0 || mx + m == 0 || (m < 0) == (mx + m < 0);
            if tame(nx, n) && tame(dx, d) && (n, d) != (0, 0) && (n + nx, d + dx) != (0, 0) {
                let (a, b) = (fit((n, d)), fit((n + nx, d + dx)));
                let (lo, hi) = if lt(b, a) {
                    (b, a)
                } else if lt(a, b) {
                    (a, b)
                } else {
                    (a, a)
                };
                if !primed {
                    let same = lo == hi && (lo.0 == 0 || lo.0.abs() == lo.1);
                    if !same {
                        if hi.0 <= -hi.1 {
                            let t = (nx, n);
                            (nx, n) = (-dx, -d);
                            (dx, d) = t;
                            primed = true;
                        } else if lo.0 >= lo.1 {
                            std::mem::swap(&mut nx, &mut dx);
                            std::mem::swap(&mut n, &mut d);
                            primed = true;
                        } else if lo.0 >= -lo.1 && hi.0 <= 0 {
                            nx = -nx;
                            n = -n;
                            primed = true;
                        } else if lo.0 >= 0 && hi.0 <= hi.1 {
                            primed = true;
                        }
                        if primed {
                            if self.want == 0 {
                                return true;
                            }
                            continue;
                        }
                    }
                } else {
                    if 2 * lo.0 == lo.1 && 2 * hi.0 == hi.1 {
                        return true;
                    }
                    if 2 * hi.0 <= hi.1 {
                        if dx % 2 == 0 && d % 2 == 0 {
                            dx /= 2;
                            d /= 2;
                        } else {
                            nx *= 2;
                            n *= 2;
                        }
                        if self.emitted() {
                            return true;
                        }
                        continue;
                    }
                    if 2 * lo.0 >= lo.1 {
                        let t = (nx, n);
                        nx = dx - nx;
                        n = d - n;
                        (dx, d) = t;
                        if self.emitted() {
                            return true;
                        }
                        continue;
                    }
                }
            }
            self.read.0 = i + 1;
            match bits.get(i) {
                None => return true,
                Some(false) => {
                    if nx % 2 == 0 && dx % 2 == 0 {
                        nx /= 2;
                        dx /= 2;
                    } else {
                        n *= 2;
                        d *= 2;
                    }
                }
                Some(true) => {
                    (nx, n) = (n, nx + n);
                    (dx, d) = (d, dx + d);
                }
            }
            i += 1;
        }
    }

    /// Coefficient order: xy, x, y, 1 of the numerator, then of the denominator.
    pub fn comb(&mut self, x: &Sym, y: &Sym, k: [i128; 8]) -> bool {
        if self.second_first() {
            let [a, b, c, d, e, f, g, h] = k;
            let ok = self.comb_first(y, x, [a, c, b, d, e, g, f, h]);
            self.read = (self.read.1, self.read.0);
            return ok;
        }
        self.comb_first(x, y, k)
    }

    fn comb_first(&mut self, x: &Sym, y: &Sym, k: [i128; 8]) -> bool {
        if !self.note(&k) {
            return false;
        }
        let [mut a, mut b, mut c, mut d, mut e, mut f, mut g, mut h] = k;
        if let Sym::Special(s) = x {
            let s = *s as i128;
            let ok = self.hom(y, [c + s * a, d + s * b, g + s * e, h + s * f]);
            self.read = (0, self.read.0);
            return ok;
        }
        if let Sym::Special(s) = y {
            let s = *s as i128;
            return self.hom(x, [b + s * a, d + s * c, f + s * e, h + s * g]);
        }
        let (xp, xb) = match x {
            Sym::Other(p, b) => (*p, &b[..]),
            _ => unreachable!(),
        };
        let (yp, yb) = match y {
            Sym::Other(p, b) => (*p, &b[..]),
            _ => unreachable!(),
        };
        if xp == TURN || xp == GROUND {
            (a, b, c, d) = (c, d, a, b);
            (e, f, g, h) = (g, h, e, f);
        }
        if xp == REFLECT || xp == GROUND {
            (a, b, e, f) = (-a, -b, -e, -f);
        }
        if yp == TURN || yp == GROUND {
            (a, b, c, d) = (b, a, d, c);
            (e, f, g, h) = (f, e, h, g);
        }
        if yp == REFLECT || yp == GROUND {
            (a, c, e, g) = (-a, -c, -e, -g);
        }
        let (mut i, mut j) = (0, 0);
        let mut primed = false;
        let mut turns = 0;
        let mut first = true;
        let even = |q: [i128; 4]| q.iter().all(|v| v % 2 == 0);
        loop {
            turns += 1;
            if turns > 8 * MAX_SYMBOLS || !self.note(&[a, b, c, d, e, f, g, h]) {
                return false;
            }
            let ns = [d, c + d, b + d, a + b + c + d];
            let ds = [h, g + h, f + h, e + f + g + h];
            let tame = |v: &[i128; 4]| v.iter().all(|t| *t > 0) || v.iter().all(|t| *t < 0);
            if tame(&ns) && tame(&ds) {
                let mut lo = fit((ns[0], ds[0]));
                let mut hi = lo;
                for q in 1..4 {
                    let v = fit((ns[q], ds[q]));
                    if lt(v, lo) {
                        lo = v;
                    }
                    if lt(hi, v) {
                        hi = v;
                    }
                }
                if !primed {
                    if hi.0 < -hi.1 {
                        (a, b, c, d, e, f, g, h) = (-e, -f, -g, -h, a, b, c, d);
                        primed = true;
                    } else if lo.0 > -lo.1 && hi.0 < 0 {
                        (a, b, c, d) = (-a, -b, -c, -d);
                        primed = true;
                    } else if lo.0 > 0 && hi.0 < hi.1 {
                        primed = true;
                    } else if lo.0 > lo.1 {
                        (a, b, c, d, e, f, g, h) = (e, f, g, h, a, b, c, d);
                        primed = true;
                    }
                    if primed {
                        if self.want == 0 {
                            return true;
                        }
                        continue;
                    }
                } else {
                    if 2 * hi.0 < hi.1 {
                        if even([e, f, g, h]) {
                            (e, f, g, h) = (e / 2, f / 2, g / 2, h / 2);
                        } else {
                            (a, b, c, d) = (2 * a, 2 * b, 2 * c, 2 * d);
                        }
                        if self.emitted() {
                            return true;
                        }
                        first |= self.stride() == 2;
                        continue;
                    }
                    if 2 * lo.0 > lo.1 {
                        (a, b, c, d, e, f, g, h) = (e - a, f - b, g - c, h - d, a, b, c, d);
                        if self.emitted() {
                            return true;
                        }
                        first |= self.stride() == 2;
                        continue;
                    }
                }
            }
            if first {
                self.read.0 = i + 1;
                match xb.get(i) {
                    None => {
                        let k = if even([a, b, e, f]) {
                            [c + a / 2, d + b / 2, g + e / 2, h + f / 2]
                        } else {
                            [a + 2 * c, b + 2 * d, e + 2 * g, f + 2 * h]
                        };
                        self.read = (0, 0);
                        let ok = self.hom(&Sym::Other(NONE, yb[j..].to_vec()), k);
                        self.read = (i + 1, j + self.read.0);
                        return ok;
                    }
                    Some(false) => {
                        if even([a, b, e, f]) {
                            (a, b, e, f) = (a / 2, b / 2, e / 2, f / 2);
                        } else {
                            (c, d, g, h) = (2 * c, 2 * d, 2 * g, 2 * h);
                        }
                    }
                    Some(true) => {
                        (a, b, c, d) = (c, d, a + c, b + d);
                        (e, f, g, h) = (g, h, e + g, f + h);
                    }
                }
                i += 1;
                if !self.note(&[a, b, c, d, e, f, g, h]) {
                    return false;
                }
                if self.stride() > 0 {
                    first = false;
                    continue;
                }
            }
            first = true;
            self.read.1 = j + 1;
            match yb.get(j) {
                None => {
                    let k = if even([a, c, e, g]) {
                        [b + a / 2, d + c / 2, f + e / 2, h + g / 2]
                    } else {
                        [a + 2 * b, c + 2 * d, e + 2 * f, g + 2 * h]
                    };
                    self.read = (0, 0);
                    let ok = self.hom(&Sym::Other(NONE, xb[i..].to_vec()), k);
                    self.read = (i + self.read.0, j + 1);
                    return ok;
                }
                Some(false) => {
                    if even([a, c, e, g]) {
                        (a, c, e, g) = (a / 2, c / 2, e / 2, g / 2);
                    } else {
                        (b, d, f, h) = (2 * b, 2 * d, 2 * f, 2 * h);
                    }
                }
                Some(true) => {
                    (a, b, c, d) = (b, a + b, d, c + d);
                    (e, f, g, h) = (f, e + f, h, g + h);
                }
            }
            j += 1;
        }
    }

    /// Coefficients after reading the whole of x; None when they leave the safe bound first.
    pub fn consume(&mut self, x: &Sym) -> Option<[i128; 4]> {
        let (p, bits) = match x {
            Sym::Special(s) => return Some([0, *s as i128, 0, 1]),
            Sym::Other(p, b) => (*p, b),
        };
        let (mut nx, mut n, mut dx, mut d) = match p {
            TURN => (0, 1, 1, 0),
            REFLECT => (-1, 0, 0, 1),
            GROUND => (0, -1, 1, 0),
            _ => (1, 0, 0, 1),
        };
        for u in bits {
            if *u {
                (nx, n) = (n, nx + n);
                (dx, d) = (d, dx + d);
            } else if nx % 2 == 0 && dx % 2 == 0 {
                nx /= 2;
                dx /= 2;
            } else {
                n *= 2;
                d *= 2;
            }
            if !self.note(&[nx, n, dx, d]) {
                return None;
            }
        }
        Some([nx, n, dx, d])
    }
}
