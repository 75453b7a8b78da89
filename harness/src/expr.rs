//! Programs over the public interface: text form, exact evaluation, execution, shrinking.

use crate::model::*;
use crate::nat::{Int, Rat};
use clarith::protocol::{Primer, Reduction, Special};
use clarith::Number;

/// A program that builds one Number.
#[derive(Clone, Debug, PartialEq)]
pub enum Expr {
    /// ratio(num, den)
    Ratio(i64, i64),
    /// ratio_u(positive, num, den)
    RatioU(bool, u64, u64),
    /// The bare special value
    Special(i8),
    /// homographic: nx, n, dx, d
    Hom([i64; 4], Box<Expr>),
    /// combine: nxy, nx, ny, n, dxy, dx, dy, d
    Comb([i64; 8], Box<Expr>, Box<Expr>),
    /// Read some symbols, then wrap what is left with another primer
    Wrap(usize, u8, Box<Expr>),
    /// consume, then rebuild the value with homographic
    Rebuild(Box<Expr>),
}

use Expr::*;

pub struct Value {
    pub val: Rat,
    pub sym: Sym,
}

pub enum Outcome {
    Value(Value),
    /// Some denominator is zero
    DivZero,
    /// Larger than the harness follows
    TooBig,
}

pub struct Eval {
    of: Expr,
    pub out: Outcome,
    /// Reference working coefficients stay within LIMIT everywhere
    pub safe: bool,
    pub peak: i128,
    /// Symbols exchanged by all nodes
    pub work: usize,
}

impl Eval {
    pub fn value(&self) -> Option<&Value> {
        match &self.out {
            Outcome::Value(v) => Some(v),
            _ => None,
        }
    }

    /// Must the program succeed? Only if it stays within LIMIT in every order of evaluation.
    pub fn roomy(&self) -> bool {
        self.safe && (1..ORDERS).all(|o| eval_order(&self.of, o).safe)
    }
}

fn int(v: i64) -> Int {
    Int::from(v as i128)
}

pub fn hom_value(c: &[i64; 4], x: &Rat) -> Option<Rat> {
    let (p, q) = (x.num(), x.den());
    Rat::new(
        int(c[0]).mul(&p).add(&int(c[1]).mul(&q)),
        int(c[2]).mul(&p).add(&int(c[3]).mul(&q)),
    )
}

pub fn comb_value(c: &[i64; 8], x: &Rat, y: &Rat) -> Option<Rat> {
    let (p, q, r, s) = (x.num(), x.den(), y.num(), y.den());
    let (pr, ps, qr, qs) = (p.mul(&r), p.mul(&s), q.mul(&r), q.mul(&s));
    let side = |k: &[i64]| {
        int(k[0])
            .mul(&pr)
            .add(&int(k[1]).mul(&ps))
            .add(&int(k[2]).mul(&qr))
            .add(&int(k[3]).mul(&qs))
    };
    Rat::new(side(&c[..4]), side(&c[4..]))
}

fn wide4(c: &[i64; 4]) -> [i128; 4] {
    c.map(|v| v as i128)
}

fn wide8(c: &[i64; 8]) -> [i128; 8] {
    c.map(|v| v as i128)
}

/// Exact value of a program, its canonical representation, and whether it must succeed.
pub fn eval(e: &Expr) -> Eval {
    eval_order(e, 0)
}

fn eval_order(e: &Expr, order: u8) -> Eval {
    let mut sim = Sim::in_order(order);
    let mut safe = true;
    let mut work = 0;
    let out = eval_in(e, &mut sim, &mut safe, &mut work);
    Eval {
        of: e.clone(),
        out,
        safe,
        peak: sim.peak,
        work,
    }
}

fn finish(r: Option<Rat>, work: &mut usize) -> Outcome {
    match r {
        None => Outcome::DivZero,
        Some(val) => {
            if val.n.bits() > MAX_BITS || val.d.bits() > MAX_BITS {
                return Outcome::TooBig;
            }
            match encode(&val) {
                None => Outcome::TooBig,
                Some(sym) => {
                    *work += sym.len() + 1;
                    Outcome::Value(Value { val, sym })
                }
            }
        }
    }
}

fn eval_in(e: &Expr, sim: &mut Sim, safe: &mut bool, work: &mut usize) -> Outcome {
    macro_rules! operand {
        ($x:expr) => {
            match eval_in($x, sim, safe, work) {
                Outcome::Value(v) => v,
                o => return o,
            }
        };
    }
    match e {
        Ratio(n, d) => finish(Rat::new(int(*n), int(*d)), work),
        RatioU(pos, n, d) => {
            let mut n = Int::from(*n as i128);
            n.neg = !*pos && !n.is_zero();
            finish(Rat::new(n, Int::from(*d as i128)), work)
        }
        Special(s) => finish(Rat::new(int(*s as i64), int(1)), work),
        Hom(c, x) => {
            let x = operand!(x);
            *safe &= sim.hom(&x.sym, wide4(c));
            finish(hom_value(c, &x.val), work)
        }
        Comb(c, x, y) => {
            let x = operand!(x);
            let y = operand!(y);
            *safe &= sim.comb(&x.sym, &y.sym, wide8(c));
            finish(comb_value(c, &x.val, &y.val), work)
        }
        Wrap(skip, primer, x) => {
            let x = operand!(x);
            match x.sym {
                Sym::Special(_) => Outcome::Value(x),
                Sym::Other(_, b) => {
                    let sym = Sym::Other(*primer, b[(*skip).min(b.len())..].to_vec());
                    match decode(&sym) {
                        None => Outcome::TooBig,
                        Some(val) => Outcome::Value(Value { val, sym }),
                    }
                }
            }
        }
        Rebuild(x) => {
            let x = operand!(x);
            *safe &= match sim.consume(&x.sym) {
                None => false,
                Some(c) => sim.hom(&Sym::Other(NONE, vec![]), c),
            };
            Outcome::Value(x)
        }
    }
}

/// Symbols exchanged, at all levels, until the primer and the first k symbols of a program are
/// known; None if that takes more room than there is, or a denominator is zero.
pub fn prefix_work(e: &Expr, k: usize) -> Option<usize> {
    prefix_order(e, k, 0)
}

/// The most it takes in any order of evaluation.
pub fn prefix_most(e: &Expr, k: usize) -> Option<usize> {
    (0..ORDERS)
        .map(|o| prefix_order(e, k, o))
        .try_fold(0, |m, w| Some(m.max(w?)))
}

fn prefix_order(e: &Expr, k: usize, order: u8) -> Option<usize> {
    let sym = |x: &Expr| eval(x).value().map(|v| v.sym.clone());
    match e {
        Ratio(..) | RatioU(..) | Special(_) => Some(k + 1),
        Hom(c, x) => {
            let i = Sim::in_order(order).hom_prefix(&sym(x)?, wide4(c), k)?;
            Some(k + 1 + i + prefix_order(x, i, order)?)
        }
        Comb(c, x, y) => {
            let (i, j) = Sim::in_order(order).comb_prefix(&sym(x)?, &sym(y)?, wide8(c), k)?;
            Some(k + 1 + i + j + prefix_order(x, i, order)? + prefix_order(y, j, order)?)
        }
        Wrap(skip, _, x) => prefix_order(x, skip + k, order),
        Rebuild(x) => {
            let s = sym(x)?;
            Sim::in_order(order).consume(&s)?;
            Some(k + 1 + s.len() + prefix_order(x, s.len() + 1, order)?)
        }
    }
}

pub fn special(s: i8) -> Special {
    match s {
        -1 => Special::NegOne,
        0 => Special::Zero,
        _ => Special::PosOne,
    }
}

pub fn primer(p: u8) -> Option<Primer> {
    match p {
        TURN => Some(Primer::Turn),
        REFLECT => Some(Primer::Reflect),
        GROUND => Some(Primer::Ground),
        _ => None,
    }
}

pub fn primer_code(p: &Option<Primer>) -> u8 {
    match p {
        None => NONE,
        Some(Primer::Turn) => TURN,
        Some(Primer::Reflect) => REFLECT,
        Some(Primer::Ground) => GROUND,
    }
}

pub fn special_code(s: &Special) -> i8 {
    match s {
        Special::NegOne => -1,
        Special::Zero => 0,
        Special::PosOne => 1,
    }
}

pub fn hom(x: Number, c: &[i64; 4]) -> Number {
    Number::homographic(
        x,
        c[0] as isize,
        c[1] as isize,
        c[2] as isize,
        c[3] as isize,
    )
}

pub fn comb(x: Number, y: Number, c: &[i64; 8]) -> Number {
    let c = c.map(|v| v as isize);
    Number::combine(x, y, c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7])
}

/// Run a program against the crate under test. Panics of the crate propagate.
pub fn build(e: &Expr) -> Number {
    match e {
        Ratio(n, d) => Number::ratio(*n as isize, *d as isize),
        RatioU(pos, n, d) => Number::ratio_u(*pos, *n as usize, *d as usize),
        Special(s) => Number::Special(special(*s)),
        Hom(c, x) => hom(build(x), c),
        Comb(c, x, y) => {
            let x = build(x);
            let y = build(y);
            comb(x, y, c)
        }
        Wrap(skip, p, x) => match build(x) {
            Number::Other(_, mut clog) => {
                for _ in 0..*skip {
                    if clog.egest().is_none() {
                        break;
                    }
                }
                Number::Other(primer(*p), clog)
            }
            s => s,
        },
        Rebuild(x) => {
            let (y, ny, n, dy, d) = Number::consume(build(x));
            Number::homographic(y.unwrap_or_else(|| Number::ratio(1, 2)), ny, n, dy, d)
        }
    }
}

/// Read a number completely, checking every symbol against the expected representation as it comes,
/// then check that it stays ended for `extra` more reads.
pub fn read_checked(num: Number, want: &Sym, extra: usize) -> Result<(), String> {
    match (num, want) {
        (Number::Special(s), Sym::Special(w)) => {
            let got = special_code(&s);
            if got == *w {
                Ok(())
            } else {
                Err(format!("got special {} instead of special {}", got, w))
            }
        }
        (Number::Special(s), w) => Err(format!(
            "got special {} instead of {}",
            special_code(&s),
            w.show()
        )),
        (Number::Other(p, _), Sym::Special(w)) => Err(format!(
            "got a sequence with primer {} instead of special {}",
            primer_name(primer_code(&p)),
            w
        )),
        (Number::Other(p, mut clog), Sym::Other(wp, bits)) => {
            let got = primer_code(&p);
            if got != *wp {
                return Err(format!(
                    "got primer {} instead of {}",
                    primer_name(got),
                    primer_name(*wp)
                ));
            }
            for (i, u) in bits.iter().enumerate() {
                let r = clog.egest();
                let ok = match &r {
                    Some(Reduction::Uncover) => *u,
                    Some(Reduction::Amplify) => !*u,
                    None => false,
                };
                if !ok {
                    return Err(format!(
                        "symbol {} is {:?}, expected sequence {}",
                        i,
                        r,
                        show_bits(bits)
                    ));
                }
            }
            for i in 0..=extra {
                if let Some(r) = clog.egest() {
                    return Err(format!(
                        "read {} after the end of {} returned {:?}",
                        i,
                        show_bits(bits),
                        r
                    ));
                }
            }
            Ok(())
        }
    }
}

/// Read a number completely without an expectation, up to a bound on the symbols.
pub fn read_all(num: Number, max: usize) -> Result<Sym, String> {
    match num {
        Number::Special(s) => Ok(Sym::Special(special_code(&s))),
        Number::Other(p, mut clog) => {
            let mut bits = Vec::new();
            while let Some(r) = clog.egest() {
                bits.push(r == Reduction::Uncover);
                if bits.len() > max {
                    return Err(format!(
                        "no end after {} symbols: {}",
                        max,
                        show_bits(&bits)
                    ));
                }
            }
            Ok(Sym::Other(primer_code(&p), bits))
        }
    }
}

// ---- text form ----

impl Expr {
    pub fn show(&self) -> String {
        fn ints(c: &[i64]) -> String {
            c.iter()
                .map(|v| v.to_string())
                .collect::<Vec<_>>()
                .join(" ")
        }
        match self {
            Ratio(n, d) => format!("(r {} {})", n, d),
            RatioU(p, n, d) => format!("(u {} {} {})", if *p { "+" } else { "-" }, n, d),
            Special(s) => format!("(s {})", s),
            Hom(c, x) => format!("(h {} {})", ints(c), x.show()),
            Comb(c, x, y) => format!("(c {} {} {})", ints(c), x.show(), y.show()),
            Wrap(k, p, x) => format!("(w {} {} {})", k, p, x.show()),
            Rebuild(x) => format!("(k {})", x.show()),
        }
    }

    pub fn nodes(&self) -> usize {
        match self {
            Ratio(..) | RatioU(..) | Special(_) => 1,
            Hom(_, x) | Wrap(_, _, x) | Rebuild(x) => 1 + x.nodes(),
            Comb(_, x, y) => 1 + x.nodes() + y.nodes(),
        }
    }

    pub fn children(&self) -> Vec<&Expr> {
        match self {
            Ratio(..) | RatioU(..) | Special(_) => vec![],
            Hom(_, x) | Wrap(_, _, x) | Rebuild(x) => vec![x],
            Comb(_, x, y) => vec![x, y],
        }
    }

    /// All subprograms, outermost first.
    pub fn subs(&self) -> Vec<&Expr> {
        let mut v = vec![self];
        let mut i = 0;
        while i < v.len() {
            let c = v[i].children();
            v.extend(c);
            i += 1;
        }
        v
    }
}

fn tokens(s: &str) -> Vec<String> {
    s.replace('(', " ( ")
        .replace(')', " ) ")
        .split_whitespace()
        .map(|t| t.to_string())
        .collect()
}

struct P {
    t: Vec<String>,
    i: usize,
}

impl P {
    fn next(&mut self) -> Option<String> {
        let t = self.t.get(self.i).cloned();
        self.i += 1;
        t
    }

    fn num<T: std::str::FromStr>(&mut self) -> Option<T> {
        self.next()?.parse().ok()
    }

    fn expect(&mut self, s: &str) -> Option<()> {
        if self.next()? == s {
            Some(())
        } else {
            None
        }
    }

    fn expr(&mut self) -> Option<Expr> {
        self.expect("(")?;
        let e = match self.next()?.as_str() {
            "r" => Ratio(self.num()?, self.num()?),
            "u" => RatioU(self.next()? == "+", self.num()?, self.num()?),
            "s" => Special(self.num()?),
            "h" => {
                let mut c = [0; 4];
                for v in c.iter_mut() {
                    *v = self.num()?;
                }
                Hom(c, Box::new(self.expr()?))
            }
            "c" => {
                let mut c = [0; 8];
                for v in c.iter_mut() {
                    *v = self.num()?;
                }
                Comb(c, Box::new(self.expr()?), Box::new(self.expr()?))
            }
            "w" => Wrap(self.num()?, self.num()?, Box::new(self.expr()?)),
            "k" => Rebuild(Box::new(self.expr()?)),
            _ => return None,
        };
        self.expect(")")?;
        Some(e)
    }
}

/// What one execution of a property is about: some programs and some integers.
#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub ex: Vec<Expr>,
    pub aux: Vec<i64>,
}

impl Case {
    pub fn of(e: Expr) -> Case {
        Case {
            ex: vec![e],
            aux: vec![],
        }
    }

    pub fn show(&self) -> String {
        let mut s = String::from("[");
        s += &self
            .aux
            .iter()
            .map(|v| v.to_string())
            .collect::<Vec<_>>()
            .join(" ");
        s += "]";
        for e in &self.ex {
            s += " ";
            s += &e.show();
        }
        s
    }

    pub fn parse(s: &str) -> Option<Case> {
        let s = s.trim();
        let close = s.find(']')?;
        let aux = s
            .strip_prefix('[')?
            .get(..close - 1)?
            .split_whitespace()
            .map(|t| t.parse().ok())
            .collect::<Option<Vec<i64>>>()?;
        let mut p = P {
            t: tokens(&s[close + 1..]),
            i: 0,
        };
        let mut ex = Vec::new();
        while p.i < p.t.len() {
            ex.push(p.expr()?);
        }
        Some(Case { ex, aux })
    }

    pub fn nodes(&self) -> usize {
        self.ex.iter().map(|e| e.nodes()).sum()
    }
}

// ---- shrinking: every candidate is a simpler well-formed case ----

fn ints_simpler(v: i64) -> Vec<i64> {
    let mut r = vec![];
    for c in [0, 1, 2, -1, v / 2, v - v.signum()] {
        if c.unsigned_abs() < v.unsigned_abs() || (c == 1 && v == -1) {
            if !r.contains(&c) {
                r.push(c);
            }
        }
    }
    if v < 0 && v != i64::MIN && !r.contains(&-v) {
        r.push(-v);
    }
    if v.unsigned_abs() > 16 {
        let m = v.unsigned_abs();
        let top = 1u64 << (63 - m.leading_zeros());
        for t in [top, top - 1] {
            if t < m {
                r.push(if v < 0 { (t as i64).wrapping_neg() } else { t as i64 });
            }
        }
    }
    r
}

pub fn shrink_expr(e: &Expr) -> Vec<Expr> {
    let mut out: Vec<Expr> = Vec::new();
    for c in e.children() {
        out.push(c.clone());
    }
    match e {
        Ratio(n, d) => {
            if let Some((p, q)) = Rat::new(int(*n), int(*d)).and_then(|r| r.small()) {
                if let (Ok(p), Ok(q)) = (i64::try_from(p), i64::try_from(q)) {
                    if (p, q) != (*n, *d) {
                        out.push(Ratio(p, q));
                    }
                }
            }
            for v in ints_simpler(*n) {
                out.push(Ratio(v, *d));
            }
            for v in ints_simpler(*d) {
                out.push(Ratio(*n, v));
            }
            if let (Some(a), Some(b)) = (n.checked_div(2), d.checked_div(2)) {
                if d.unsigned_abs() > 3 {
                    out.push(Ratio(a, b));
                }
            }
        }
        RatioU(p, n, d) => {
            if let (Ok(a), Ok(b)) = (i64::try_from(*n), i64::try_from(*d)) {
                out.push(Ratio(if *p { a } else { -a }, b));
            }
            for v in [*n / 2, n.saturating_sub(1), 1] {
                if v < *n {
                    out.push(RatioU(*p, v, *d));
                }
            }
            for v in [*d / 2, d.saturating_sub(1), 1] {
                if v < *d {
                    out.push(RatioU(*p, *n, v));
                }
            }
        }
        Special(_) => {}
        Hom(c, x) => {
            for (i, v) in c.iter().enumerate() {
                for w in ints_simpler(*v) {
                    let mut k = *c;
                    k[i] = w;
                    out.push(Hom(k, x.clone()));
                }
            }
            if c.iter().any(|v| v.unsigned_abs() > 3) {
                out.push(Hom(c.map(|v| v / 2), x.clone()));
            }
            for s in shrink_expr(x) {
                out.push(Hom(*c, Box::new(s)));
            }
        }
        Comb(c, x, y) => {
            for (i, v) in c.iter().enumerate() {
                for w in ints_simpler(*v) {
                    let mut k = *c;
                    k[i] = w;
                    out.push(Comb(k, x.clone(), y.clone()));
                }
            }
            if c.iter().any(|v| v.unsigned_abs() > 3) {
                out.push(Comb(c.map(|v| v / 2), x.clone(), y.clone()));
            }
            for s in shrink_expr(x) {
                out.push(Comb(*c, Box::new(s), y.clone()));
            }
            for s in shrink_expr(y) {
                out.push(Comb(*c, x.clone(), Box::new(s)));
            }
        }
        Wrap(k, p, x) => {
            for v in [0, *k / 2, k.saturating_sub(1)] {
                if v < *k {
                    out.push(Wrap(v, *p, x.clone()));
                }
            }
            if *p != NONE {
                out.push(Wrap(*k, NONE, x.clone()));
            }
            for s in shrink_expr(x) {
                out.push(Wrap(*k, *p, Box::new(s)));
            }
        }
        Rebuild(x) => {
            for s in shrink_expr(x) {
                out.push(Rebuild(Box::new(s)));
            }
        }
    }
    out
}

pub fn shrink_case(c: &Case, keep_count: bool) -> Vec<Case> {
    let mut out = Vec::new();
    if !keep_count {
        for i in 0..c.ex.len() {
            if c.ex.len() > 1 {
                let mut k = c.clone();
                k.ex.remove(i);
                out.push(k);
            }
        }
        if c.aux.len() > 1 {
            let mut k = c.clone();
            k.aux.truncate(c.aux.len() / 2);
            out.push(k);
            for i in 0..c.aux.len() {
                let mut k = c.clone();
                k.aux.remove(i);
                out.push(k);
            }
        }
    }
    for i in 0..c.ex.len() {
        for s in shrink_expr(&c.ex[i]) {
            let mut k = c.clone();
            k.ex[i] = s;
            out.push(k);
        }
    }
    if !keep_count {
        for i in 0..c.aux.len() {
            for v in ints_simpler(c.aux[i]) {
                let mut k = c.clone();
                k.aux[i] = v;
                out.push(k);
            }
        }
    }
    out
}
