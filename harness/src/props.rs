//! The properties: for each one a generator of cases and a total decision function over cases.

use crate::cov;
use crate::expr::*;
use crate::gen::*;
use crate::model::*;
use clarith::protocol::Reduction;
use clarith::{Clog, Number};
use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};
use Expr::*;

/// Blocks of the crate under test that one case may execute. Ordinary cases stay far below; see the
/// "most blocks in one case" figure of the evidence.
pub const FUEL: u64 = 30_000_000;

/// Result of one case on which the property held.
pub struct Note {
    pub nontrivial: bool,
    pub class: &'static str,
}

pub type Verdict = Result<Note, String>;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    /// Number of programs in a case is fixed by the decision function
    pub keep_count: bool,
    pub gen: fn(&mut Gen) -> Case,
    pub check: fn(&Case) -> Verdict,
    /// Generated cases, quick and thorough
    pub cases: (u64, u64),
}

impl Prop {
    /// Do its cases start threads?
    pub fn threads(&self) -> bool {
        self.id == "C19"
    }
}

fn note(nontrivial: bool, class: &'static str) -> Verdict {
    Ok(Note { nontrivial, class })
}

/// Run code of the crate under test: a panic becomes its message, and the work is limited.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    cov::arm(FUEL);
    let r = catch_unwind(AssertUnwindSafe(f));
    cov::disarm();
    r.map_err(|p| {
        if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

fn by_zero(msg: &str) -> bool {
    msg.contains("by zero")
}

/// Decide whether a panic is allowed. Allowed: refusal of a zero denominator exactly when there is
/// one, and giving up for lack of room in the coefficients when the reference evaluation also
/// needs more room than it may count on.
fn judge_panic(msg: &str, ev: &[&Eval]) -> Result<&'static str, String> {
    let dz = ev.iter().any(|e| matches!(e.out, Outcome::DivZero));
    let peak = ev.iter().map(|e| e.peak).max().unwrap_or(0);
    if msg.contains("logic error") {
        return Err(format!("internal failure reached: {}", msg));
    }
    if by_zero(msg) {
        return if dz {
            Ok("refused division by zero")
        } else {
            Err("refused as a division by zero, but no denominator is zero".to_string())
        };
    }
    if ev.iter().all(|e| e.roomy()) {
        return Err(if dz {
            format!("a zero denominator was met with another failure: {}", msg)
        } else {
            format!(
                "failed although working coefficients need only {} bits: {}",
                128 - peak.leading_zeros(),
                msg
            )
        });
    }
    Ok("gave up: coefficients too large")
}

enum Status {
    Exact(Eval),
    DivZero,
    Overflow(Eval),
    TooBig,
}

/// Build one program and read its value to the end, every symbol checked as it comes.
fn decide(e: &Expr, extra: usize) -> Result<Status, String> {
    let ev = eval(e);
    if let Outcome::TooBig = ev.out {
        return Ok(Status::TooBig);
    }
    let r = guarded(|| {
        let n = build(e);
        match &ev.out {
            Outcome::Value(v) => read_checked(n, &v.sym, extra)
                .map_err(|m| format!("value {}: {}", v.val.show(), m)),
            _ => {
                let what = match &n {
                    Number::Special(s) => format!("special {}", special_code(s)),
                    Number::Other(p, _) => format!("primer {}", primer_name(primer_code(p))),
                };
                Err(format!(
                    "a denominator is zero, but a number was returned ({})",
                    what
                ))
            }
        }
    });
    match r {
        Ok(Ok(())) => Ok(Status::Exact(ev)),
        Ok(Err(m)) => Err(m),
        Err(msg) => match judge_panic(&msg, &[&ev]) {
            Err(m) => Err(m),
            Ok(_) => Ok(match ev.out {
                Outcome::DivZero => Status::DivZero,
                _ => Status::Overflow(ev),
            }),
        },
    }
}

fn simple_note(s: Status, interesting: impl FnOnce(&Eval, &Value) -> bool) -> Verdict {
    match s {
        Status::Exact(ev) => {
            let v = ev.value().unwrap();
            let nt = interesting(&ev, v);
            match &v.sym {
                Sym::Special(_) => note(nt, "exact: special value"),
                Sym::Other(NONE, _) => note(nt, "exact: between 0 and 1"),
                Sym::Other(TURN, _) => note(nt, "exact: above 1"),
                Sym::Other(REFLECT, _) => note(nt, "exact: between -1 and 0"),
                Sym::Other(_, _) => note(nt, "exact: below -1"),
            }
        }
        Status::DivZero => note(false, "refused: division by zero"),
        Status::Overflow(_) => note(false, "gave up: coefficients too large"),
        Status::TooBig => note(false, "skipped: beyond harness bounds"),
    }
}

// ---- C01 ----

fn gen_c01(g: &mut Gen) -> Case {
    let e = match g.r.below(10) {
        0..=2 => {
            let b = *g.r.pick(&[8, 16, 31, 32, 33, 62, 63]);
            g.leaf(b)
        }
        3..=4 => {
            // anywhere in the machine range
            let n = g.r.next() >> g.r.below(60);
            let d = g.r.next() >> g.r.below(60);
            if g.r.chance(50) {
                RatioU(g.r.chance(50), n, d)
            } else {
                let (mut n, mut d) = (n as i64, d as i64);
                if g.r.chance(50) {
                    n = n.wrapping_neg();
                }
                if g.r.chance(50) {
                    d = d.wrapping_neg();
                }
                Ratio(n, d)
            }
        }
        5..=6 => {
            let pool = EXTREMES;
            let n = pool[g.r.below(24) as usize];
            let d = if g.r.chance(60) {
                pool[g.r.below(24) as usize]
            } else {
                let b = g.scale();
                g.int(b)
            };
            if g.r.chance(50) {
                Ratio(n, d)
            } else {
                Ratio(d, n)
            }
        }
        7..=8 => {
            // extreme unsigned terms
            let ex = |g: &mut Gen| match g.r.below(6) {
                0 => u64::MAX - g.r.below(4),
                1 => (1u64 << 63).wrapping_add(g.r.below(5)).wrapping_sub(2),
                2 => u64::MAX / (1 + g.r.below(8)),
                3 => g.r.next() | 1 << 63,
                4 => 1 + g.r.below(8),
                _ => 1u64 << g.r.below(64),
            };
            let (n, d) = (ex(g), ex(g));
            RatioU(g.r.chance(50), n, d)
        }
        _ => {
            // close to a landmark with large terms
            let d = g.r.next() >> (1 + g.r.below(32));
            let k = g.r.below(5);
            let n = match g.r.below(3) {
                0 => (d / 2).wrapping_add(k).wrapping_sub(2),
                1 => d.wrapping_add(k).wrapping_sub(2),
                _ => (d / 4).wrapping_add(k).wrapping_sub(2),
            };
            RatioU(g.r.chance(50), n, d)
        }
    };
    Case::of(e)
}

fn check_c01(c: &Case) -> Verdict {
    // Only fractions are the subject here.
    let e = match c.ex.first() {
        Some(e @ (Ratio(..) | RatioU(..))) => e,
        _ => return note(false, "not a fraction"),
    };
    simple_note(decide(e, 2)?, |_, v| v.sym.len() >= 3)
}

// ---- C02 ----

fn gen_c02(g: &mut Gen) -> Case {
    let b = g.scale();
    let x = g.operand(b);
    let cb = if g.r.chance(60) { b } else { g.scale() };
    Case::of(g.hom_over(x, cb, true))
}

fn det(c: &[i64; 4]) -> bool {
    c[0] as i128 * c[3] as i128 != c[1] as i128 * c[2] as i128
}

fn check_c02(c: &Case) -> Verdict {
    let e = match c.ex.first() {
        Some(e @ Hom(..)) => e,
        _ => return note(false, "not a homographic transform"),
    };
    let (k, x) = match e {
        Hom(k, x) => (*k, x),
        _ => unreachable!(),
    };
    let st = decide(e, 2)?;
    let nt = det(&k)
        && match &**x {
            Special(_) => false,
            x => eval(x).value().map_or(false, |v| v.sym.len() >= 2),
        };
    simple_note(st, |_, _| nt)
}

// ---- C03 ----

fn gen_c03(g: &mut Gen) -> Case {
    let b = g.scale();
    let x = g.operand(b);
    let yb = if g.r.chance(70) { b } else { g.scale() };
    let y = g.operand(yb);
    let cb = if g.r.chance(50) {
        b.min(20)
    } else {
        g.scale().min(9)
    };
    Case::of(g.comb_over(x, y, cb, true))
}

fn check_c03(c: &Case) -> Verdict {
    let e = match c.ex.first() {
        Some(e @ Comb(..)) => e,
        _ => return note(false, "not a combination"),
    };
    let st = decide(e, 2)?;
    let nt = match e {
        Comb(k, x, y) => {
            let rows = |i: usize, j: usize| {
                k[i] as i128 * k[4 + j] as i128 != k[j] as i128 * k[4 + i] as i128
            };
            let singular = !(0..4).any(|i| (0..i).any(|j| rows(i, j)));
            !singular
                && [x, y]
                    .iter()
                    .all(|x| eval(x).value().map_or(false, |v| v.sym.len() >= 1))
        }
        _ => false,
    };
    simple_note(st, |_, _| nt)
}

// ---- C04 ----

fn gen_c04(g: &mut Gen) -> Case {
    let b = g.scale().min(60);
    let (x, y) = match g.r.below(10) {
        0..=4 => {
            let (x, y) = g.close_pair(b.max(4));
            if g.r.chance(70) {
                (
                    g.fraction(x.0 < 0, x.0.unsigned_abs() as u64, x.1 as u64),
                    g.fraction(y.0 < 0, y.0.unsigned_abs() as u64, y.1 as u64),
                )
            } else {
                (g.route(x, b.min(9), 1), g.route(y, b.min(9), 1))
            }
        }
        5..=6 => {
            // equal values by different routes
            let (x, _) = g.close_pair(b.max(4));
            (g.route(x, b.min(9), 1), g.route(x, b.min(9), 1))
        }
        7 => {
            // neighbours of any size
            let b = g.r.below(63) as u32;
            let (x, y) = g.neighbours(b);
            let f = |g: &mut Gen, v: (i128, i128)| {
                g.fraction(v.0 < 0, v.0.unsigned_abs() as u64, v.1 as u64)
            };
            (f(g, x), f(g, y))
        }
        8 => {
            let (x, y) = (g.operand(b), g.operand(b));
            (x, y)
        }
        _ => {
            let x = if g.r.chance(50) {
                Special(g.r.below(3) as i8 - 1)
            } else {
                g.leaf(3)
            };
            (x, g.leaf(b))
        }
    };
    let ex = if g.r.chance(50) { vec![x, y] } else { vec![y, x] };
    Case { ex, aux: vec![] }
}

fn check_c04(c: &Case) -> Verdict {
    if c.ex.len() != 2 {
        return note(false, "not a pair");
    }
    let (a, b) = (eval(&c.ex[0]), eval(&c.ex[1]));
    let (va, vb) = match (&a.out, &b.out) {
        (Outcome::Value(x), Outcome::Value(y)) => (x, y),
        _ => return note(false, "an operand has no value"),
    };
    // The order is judged by what each number yields when read on its own: operands that are
    // themselves wrong are the business of other properties.
    let mut own = Vec::new();
    for (e, ev, v) in [(&c.ex[0], &a, va), (&c.ex[1], &b, vb)] {
        match guarded(|| read_all(build(e), 2 * v.sym.len() + 400)) {
            Ok(Ok(s)) => match decode(&s) {
                Some(r) => own.push(r),
                None => return note(false, "skipped: beyond harness bounds"),
            },
            Ok(Err(_)) => return note(false, "an operand does not end"),
            Err(msg) => {
                // no reading, no verdict, but it must not be for lack of room that is there
                judge_panic(&msg, &[ev])?;
                return note(false, "gave up: coefficients too large");
            }
        }
    }
    let want = own[0].cmp(&own[1]);
    for (i, j, want) in [(0, 1, want), (1, 0, want.reverse())] {
        match guarded(|| Number::compare(build(&c.ex[i]), build(&c.ex[j]))) {
            Ok(got) => {
                if got != want {
                    return Err(format!(
                        "compare({}, {}) gave {:?}, expected {:?}",
                        own[i].show(),
                        own[j].show(),
                        got,
                        want
                    ));
                }
            }
            Err(msg) => {
                judge_panic(&msg, &[&a, &b])?;
                return note(false, "gave up: coefficients too large");
            }
        }
    }
    let nt = match (&va.sym, &vb.sym) {
        (Sym::Other(p, s), Sym::Other(q, t)) => {
            p == q && (want == Ordering::Equal && s.len() > 1 || s.first() == t.first())
        }
        _ => false,
    };
    let shared = match (&va.sym, &vb.sym) {
        (Sym::Other(_, s), Sym::Other(_, t)) => {
            s.iter().zip(t).take_while(|(a, b)| a == b).count()
        }
        _ => 0,
    };
    note(
        nt,
        match (want, shared) {
            (Ordering::Equal, _) => "equal",
            (_, 0..=9) => "different, up to 9 symbols shared",
            (_, 10..=99) => "different, up to 99 symbols shared",
            (_, 100..=499) => "different, up to 499 symbols shared",
            (_, 500..=999) => "different, up to 999 symbols shared",
            _ => "different, 1000 symbols or more shared",
        },
    )
}

// ---- C05 ----

fn gen_c05(g: &mut Gen) -> Case {
    let b = g.scale().min(40);
    let v = match g.r.below(10) {
        0..=1 => {
            let (p, q) = *g.r.pick(&[(0, 1), (1, 1), (-1, 1), (1, 2), (-1, 2), (2, 1), (-2, 1)]);
            (p as i128, q as i128)
        }
        2..=5 => {
            let (n, d) = g.terms(b);
            (
                if g.r.chance(45) {
                    -(n as i128)
                } else {
                    n as i128
                },
                d as i128,
            )
        }
        _ => g.close_pair(b.max(4)).0,
    };
    let w = if g.r.chance(85) {
        v
    } else {
        g.close_pair(b.max(4)).1
    };
    let cb = b.min(9);
    Case {
        ex: vec![g.route(v, cb, 2), g.route(w, cb, 2)],
        aux: vec![],
    }
}

/// Read through the public accessors, and check that they agree with the variant.
fn read_unwrapped(e: &Expr, max: usize) -> Result<Sym, String> {
    match build(e) {
        Number::Special(s) => {
            let code = special_code(&s);
            let again = special_code(&Number::Special(s).unwrap_special());
            if again != code {
                return Err("unwrap_special changed the value".to_string());
            }
            Ok(Sym::Special(code))
        }
        Number::Other(p, c) => {
            let code = primer_code(&p);
            let (p, c) = Number::Other(p, c).unwrap_other();
            if primer_code(&p) != code {
                return Err("unwrap_other changed the primer".to_string());
            }
            read_all(Number::Other(p, c), max)
        }
    }
}

fn check_c05(c: &Case) -> Verdict {
    if c.ex.len() != 2 {
        return note(false, "not a pair");
    }
    let evs = [eval(&c.ex[0]), eval(&c.ex[1])];
    let mut got = Vec::new();
    for (e, ev) in c.ex.iter().zip(&evs) {
        let want = match &ev.out {
            Outcome::Value(v) => v,
            _ => return note(false, "an operand has no value"),
        };
        match guarded(|| read_unwrapped(e, want.sym.len() + 10)) {
            Ok(Ok(s)) => {
                if s != want.sym {
                    return Err(format!(
                        "{} is represented as {}, expected {}",
                        want.val.show(),
                        s.show(),
                        want.sym.show()
                    ));
                }
                got.push(s);
            }
            Ok(Err(m)) => return Err(format!("{}: {}", want.val.show(), m)),
            Err(msg) => {
                judge_panic(&msg, &[ev])?;
                return note(false, "gave up: coefficients too large");
            }
        }
    }
    let (x, y) = (&evs[0].value().unwrap().val, &evs[1].value().unwrap().val);
    let same = x.cmp(y) == Ordering::Equal;
    if same != (got[0] == got[1]) {
        return Err(format!(
            "{} and {} are represented as {} and {}",
            x.show(),
            y.show(),
            got[0].show(),
            got[1].show()
        ));
    }
    // The accessor of the other kind refuses.
    for e in &c.ex {
        let r = guarded(|| match build(e) {
            n @ Number::Special(_) => {
                n.unwrap_other();
            }
            n @ Number::Other(..) => {
                n.unwrap_special();
            }
        });
        if r.is_ok() {
            return Err("an accessor returned content of the wrong kind".to_string());
        }
    }
    note(
        same && c.ex[0] != c.ex[1] && (got[0].len() > 0 || matches!(got[0], Sym::Special(_))),
        match (&got[0], same) {
            (Sym::Special(_), true) => "same special value",
            (_, true) => "same value",
            _ => "different values",
        },
    )
}

// ---- C06 ----

fn gen_c06(g: &mut Gen) -> Case {
    let b = g.scale();
    let e = match g.r.below(10) {
        0..=1 => g.leaf(b),
        2 => {
            // the longest machine fractions
            let k = 20 + g.r.below(44);
            let d = (u64::MAX >> (63 - k.min(63))) - g.r.below(3);
            let n = 1 + g.r.below(3);
            let neg = g.r.chance(45);
            let x = g.fraction(neg, n, d);
            match g.r.below(4) {
                0 => Hom(*g.r.pick(&HOM_OPS), Box::new(x)),
                1 => Comb(*g.r.pick(&COMB_OPS), Box::new(x), Box::new(g.leaf(3))),
                _ => x,
            }
        }
        3..=4 => {
            let x = g.operand(b);
            g.hom_over(x, b, false)
        }
        5..=6 => {
            let (x, y) = (g.operand(b), g.operand(b));
            g.comb_over(x, y, b.min(9), false)
        }
        7 => {
            // values that are one half in the end, reached from afar
            let x = g.operand(b);
            match Gen::small_value(&x) {
                Some(v) => match g.hom_to(v, (1, 2), b) {
                    Some(c) => Hom(c, Box::new(x)),
                    None => x,
                },
                None => x,
            }
        }
        8 => {
            let (x, y) = (g.leaf(b), g.leaf(b));
            match (Gen::small_value(&x), Gen::small_value(&y)) {
                (Some(u), Some(v)) => {
                    let t = *g.r.pick(&[(1, 2), (-1, 2), (2, 1), (-2, 1), (1, 4), (2, 3)]);
                    match g.comb_to(u, v, t, b.min(9)) {
                        Some(c) => Comb(c, Box::new(x), Box::new(y)),
                        None => x,
                    }
                }
                _ => x,
            }
        }
        _ => g.tree(3, b.min(6)),
    };
    let extra = match g.r.below(4) {
        0 => 1,
        1 => 2 + g.r.below(6),
        2 => 10 + g.r.below(30),
        _ => 70 + g.r.below(130),
    } as i64;
    Case {
        ex: vec![e],
        aux: vec![extra],
    }
}

fn check_c06(c: &Case) -> Verdict {
    let e = match c.ex.first() {
        Some(e) => e,
        None => return note(false, "empty"),
    };
    let extra = c.aux.first().copied().unwrap_or(1).clamp(1, 300) as usize;
    let ev = eval(e);
    let v = match &ev.out {
        Outcome::Value(v) => v,
        Outcome::DivZero => return note(false, "refused: division by zero"),
        Outcome::TooBig => return note(false, "skipped: beyond harness bounds"),
    };
    let bits = match &v.sym {
        Sym::Other(_, b) => b,
        Sym::Special(_) => return note(false, "special value"),
    };
    let r = guarded(|| {
        let mut clog = match build(e) {
            Number::Other(_, clog) => clog,
            _ => return Ok(()),
        };
        let mut got = Vec::new();
        while let Some(s) = clog.egest() {
            got.push(s == Reduction::Uncover);
            if got.len() > 2 * MAX_SYMBOLS {
                return Err(format!("no end after {} symbols", got.len()));
            }
        }
        if got.len() < bits.len() && bits[..got.len()] == got[..] {
            return Err(format!(
                "ended after {} of {} symbols",
                got.len(),
                bits.len()
            ));
        }
        if got.len() > bits.len() && bits[..] == got[..bits.len()] {
            return Err(format!(
                "went on for {} symbols after the {} that make up the value",
                got.len() - bits.len(),
                bits.len()
            ));
        }
        for i in 0..extra {
            if let Some(s) = clog.egest() {
                return Err(format!("read {} after the end returned {:?}", i, s));
            }
        }
        Ok(())
    });
    match r {
        Ok(Ok(())) => note(
            extra > 1 && e.nodes() > 1 || bits.len() > 40,
            match bits.len() {
                0..=4 => "ended: up to 4 symbols",
                5..=40 => "ended: up to 40 symbols",
                41..=400 => "ended: up to 400 symbols",
                _ => "ended: more than 400 symbols",
            },
        ),
        Ok(Err(m)) => Err(format!("value {}: {}", v.val.show(), m)),
        Err(msg) => {
            judge_panic(&msg, &[&ev])?;
            note(false, "gave up: coefficients too large")
        }
    }
}

// ---- C07 ----

fn gen_c07(g: &mut Gen) -> Case {
    let b = g.scale();
    let e = match g.r.below(12) {
        0 => {
            let n = if g.r.chance(30) { *g.r.pick(&EXTREMES) } else { g.int(b) };
            if g.r.chance(50) {
                Ratio(n, 0)
            } else {
                RatioU(g.r.chance(50), n as u64, 0)
            }
        }
        1 => {
            let x = g.operand(b);
            let (nx, n) = (g.int(b), g.int(b));
            match g.r.below(4) {
                0 => Hom([nx, n, 0, 0], Box::new(x)),
                1 => {
                    let y = g.operand(b);
                    Comb(
                        [nx, n, g.int(b), g.int(b), 0, 0, 0, 0],
                        Box::new(x),
                        Box::new(y),
                    )
                }
                2 => Hom([0, nx, 0, n], Box::new(x)),
                _ => Hom([nx, 0, 0, n], Box::new(x)),
            }
        }
        2..=5 => {
            let x = g.operand(b);
            match Gen::small_value(&x) {
                Some(v) => match g.hom_pole(v, b) {
                    Some(mut c) => {
                        if g.r.chance(40) {
                            let i = g.r.below(4) as usize;
                            let k = if g.r.chance(50) { 1 } else { -1 };
                            c[i] = c[i].saturating_add(k);
                        }
                        Hom(c, Box::new(x))
                    }
                    None => g.hom_over(x, b, true),
                },
                None => g.hom_over(x, b, true),
            }
        }
        6..=9 => {
            let (x, y) = (g.operand(b), g.operand(b));
            match (Gen::small_value(&x), Gen::small_value(&y)) {
                (Some(u), Some(v)) => match g.comb_pole(u, v, b.min(9)) {
                    Some(mut c) => {
                        if g.r.chance(40) {
                            let i = g.r.below(8) as usize;
                            let k = if g.r.chance(50) { 1 } else { -1 };
                            c[i] = c[i].saturating_add(k);
                        }
                        Comb(c, Box::new(x), Box::new(y))
                    }
                    None => g.comb_over(x, y, b.min(9), true),
                },
                _ => g.comb_over(x, y, b.min(9), true),
            }
        }
        10 => {
            // dividing by something that turns out to be zero, or not quite
            let x = g.operand(b.min(9));
            let y = g.operand(b.min(9));
            let z = match Gen::small_value(&y) {
                Some(v) => {
                    let (p, q) = v;
                    let r = g.route((p, q), 5, 1);
                    Comb(SUB, Box::new(y), Box::new(r))
                }
                None => y,
            };
            if g.r.chance(50) {
                Comb(DIV, Box::new(x), Box::new(z))
            } else {
                Hom([g.int(4), g.int(4), 1, 0], Box::new(z))
            }
        }
        _ => {
            // a zero denominator below another operation
            let x = g.leaf(b);
            let inner = match Gen::small_value(&x) {
                Some(v) => match g.hom_pole(v, 4) {
                    Some(c) => Hom(c, Box::new(x)),
                    None => x,
                },
                None => x,
            };
            if g.r.chance(50) {
                Hom(*g.r.pick(&HOM_OPS), Box::new(inner))
            } else {
                let y = g.leaf(b);
                Comb(*g.r.pick(&COMB_OPS), Box::new(y), Box::new(inner))
            }
        }
    };
    Case::of(e)
}

fn check_c07(c: &Case) -> Verdict {
    let e = match c.ex.first() {
        Some(e) => e,
        None => return note(false, "empty"),
    };
    let ev = eval(e);
    let len = match &ev.out {
        Outcome::Value(v) => v.sym.len(),
        Outcome::DivZero => 0,
        Outcome::TooBig => return note(false, "skipped: beyond harness bounds"),
    };
    let dz = matches!(ev.out, Outcome::DivZero);
    // Only the refusal matters here: whether it comes, and whether it is the right one.
    match guarded(|| {
        let n = build(e);
        if !dz {
            let _ = read_all(n, 2 * len + 400);
        }
    }) {
        Ok(()) if dz => Err("a denominator is zero, but a number was returned".to_string()),
        Ok(()) => {
            let near = near_pole(e);
            note(
                near,
                if near {
                    "accepted: denominator close to zero"
                } else {
                    "accepted"
                },
            )
        }
        Err(msg) if by_zero(&msg) || dz => {
            judge_panic(&msg, &[&ev])?;
            if by_zero(&msg) {
                note(true, "refused: division by zero")
            } else {
                note(false, "gave up: coefficients too large")
            }
        }
        Err(_) => note(false, "gave up: another reason"),
    }
}

/// The denominator of the outermost operation changes sign within the operand's unit.
fn near_pole(e: &Expr) -> bool {
    match e {
        Hom(c, x) => match eval(x).value() {
            Some(v) => match (hom_value(&[c[2], c[3], 0, 1], &v.val), v.val.small()) {
                (Some(d), Some((_, q))) => match d.small() {
                    // |den| no more than a few units of the operand's resolution
                    Some((n, m)) => n != 0 && n.unsigned_abs() * (q as u128).min(1 << 60) <= 4 * m as u128,
                    None => false,
                },
                _ => false,
            },
            None => false,
        },
        Comb(c, x, y) => match (eval(x).value(), eval(y).value()) {
            (Some(u), Some(v)) => {
                match comb_value(&[c[4], c[5], c[6], c[7], 0, 0, 0, 1], &u.val, &v.val)
                    .and_then(|d| d.small())
                {
                    Some((n, m)) => {
                        n != 0 && n.unsigned_abs() <= 4 * m as u128 && m > 1
                    }
                    None => false,
                }
            }
            _ => false,
        },
        _ => false,
    }
}

// ---- C08 ----

fn gen_c08(g: &mut Gen) -> Case {
    let b = g.scale();
    let e = match g.r.below(10) {
        0..=2 => g.leaf(b),
        3..=4 => {
            // close to the point where the coefficients run out of room
            let bits = 54 + g.r.below(10) as u32;
            let (n, d) = g.terms(bits.min(63));
            let neg = g.r.chance(45);
            g.fraction(neg, n, d)
        }
        5 => {
            let n = g.r.next() | 1 << 63;
            let d = g.r.next() >> g.r.below(40);
            RatioU(g.r.chance(50), n, d.max(1))
        }
        6 => {
            // longer than a word: needs an early stop
            let (x, y) = (g.leaf(40), g.leaf(40));
            Comb(*g.r.pick(&[ADD, SUB, MUL]), Box::new(x), Box::new(y))
        }
        7 => {
            let x = g.leaf(b);
            g.wrap(x)
        }
        _ => g.operand(b),
    };
    Case::of(e)
}

fn check_c08(c: &Case) -> Verdict {
    let e = match c.ex.first() {
        Some(e) => e,
        None => return note(false, "empty"),
    };
    let ev = eval(e);
    let v = match &ev.out {
        Outcome::Value(v) => v,
        _ => return note(false, "no value"),
    };
    // The number as it reads on its own.
    let own = match guarded(|| read_all(build(e), 2 * v.sym.len() + 400)) {
        Ok(Ok(s)) => s,
        Ok(Err(_)) => return note(false, "the number does not end"),
        Err(msg) => {
            judge_panic(&msg, &[&ev])?;
            return note(false, "gave up: coefficients too large");
        }
    };
    let v = match decode(&own) {
        Some(val) => Value { val, sym: own },
        None => return note(false, "skipped: beyond harness bounds"),
    };
    let mut sim = Sim::new();
    let whole = sim.consume(&v.sym);
    let r = guarded(|| {
        let (y, ny, n, dy, d) = Number::consume(build(e));
        let c = [ny as i64, n as i64, dy as i64, d as i64];
        let room = c.iter().map(|v| v.unsigned_abs()).max().unwrap();
        let (rest, stopped) = match y {
            None => (Sym::Other(NONE, vec![]), false),
            Some(y) => {
                if room < 1 << 59 {
                    return Err(format!(
                        "stopped early with coefficients {:?}, far from the end of their range",
                        c
                    ));
                }
                (read_all(y, v.sym.len() + 10)?, true)
            }
        };
        Ok((c, rest, stopped))
    });
    let (k, rest, stopped) = match r {
        Ok(Ok(t)) => t,
        Ok(Err(m)) => return Err(format!("value {}: {}", v.val.show(), m)),
        Err(msg) => {
            judge_panic(&msg, &[&ev])?;
            return note(false, "gave up: coefficients too large");
        }
    };
    if stopped && whole.is_some() {
        return Err(format!(
            "value {}: stopped early although {} bits are enough for all coefficients",
            v.val.show(),
            128 - sim.peak.leading_zeros()
        ));
    }
    let y = match decode(&rest) {
        Some(y) => y,
        None => return note(false, "skipped: beyond harness bounds"),
    };
    let back = hom_value(&k, &y);
    if back.as_ref().map(|b| b.cmp(&v.val)) != Some(Ordering::Equal) {
        return Err(format!(
            "value {}: coefficients {:?} applied to {} give {}",
            v.val.show(),
            k,
            y.show(),
            back.map_or("no value".to_string(), |b| b.show())
        ));
    }
    note(
        v.sym.len() >= 3,
        if stopped {
            "stopped for lack of room"
        } else {
            "read to the end"
        },
    )
}

// ---- C09 ----

fn gen_c09(g: &mut Gen) -> Case {
    let b = match g.r.below(10) {
        0..=5 => 3,
        6..=8 => 4,
        _ => 7,
    };
    let depth = 2 + g.r.below(4) as u32;
    let e = if g.r.chance(4) {
        let (n, b) = (6 + g.r.below(30), 3 + g.r.below(18) as u32);
        g.chain(n, b)
    } else if g.r.chance(40) {
        arith_tree(g, depth, b)
    } else {
        g.tree(depth, b)
    };
    Case::of(e)
}

/// Trees of the four operations over small fractions.
fn arith_tree(g: &mut Gen, depth: u32, b: u32) -> Expr {
    if depth == 0 || g.r.chance(15) {
        return g.leaf(b);
    }
    let (x, y) = (arith_tree(g, depth - 1, b), arith_tree(g, depth / 2, b));
    let op = *g.r.pick(&[ADD, SUB, MUL, DIV]);
    Comb(op, Box::new(x), Box::new(y))
}

fn check_c09(c: &Case) -> Verdict {
    let e = match c.ex.first() {
        Some(e) => e,
        None => return note(false, "empty"),
    };
    let ops = e
        .subs()
        .iter()
        .filter(|s| matches!(s, Hom(..) | Comb(..)))
        .count();
    simple_note(decide(e, 2)?, |_, v| {
        ops >= 2 && matches!(v.sym, Sym::Other(..))
    })
}

// ---- C10 ----

fn gen_c10(g: &mut Gen) -> Case {
    let b = g.scale().min(40);
    let mut inner = match g.r.below(6) {
        0..=1 => g.leaf(b),
        2..=3 => {
            let x = g.leaf(b);
            g.hom_over(x, b.min(9), false)
        }
        _ => {
            let (x, y) = (g.leaf(b), g.leaf(b));
            g.comb_over(x, y, b.min(6), false)
        }
    };
    let len = match eval(&inner).value() {
        Some(v) => v.sym.len() as u64,
        None => 4,
    };
    let cut = g.r.below(len + 3) as usize;
    inner = Wrap(cut, g.r.below(4) as u8, Box::new(inner));
    if g.r.chance(20) {
        inner = g.wrap(inner);
    }
    let e = match g.r.below(6) {
        0 => inner,
        1..=2 => g.hom_over(inner, b.min(9), false),
        3..=4 => {
            let mut y = g.leaf(b);
            if g.r.chance(40) {
                y = g.wrap(y);
            }
            if g.r.chance(50) {
                g.comb_over(inner, y, b.min(6), false)
            } else {
                g.comb_over(y, inner, b.min(6), false)
            }
        }
        _ => Rebuild(Box::new(inner)),
    };
    Case::of(e)
}

/// The symbols read before rewrapping must themselves be right.
fn check_prefixes(e: &Expr) -> Result<Option<&'static str>, String> {
    for s in e.subs() {
        if let Wrap(k, _, x) = s {
            let ev = eval(x);
            let v = match &ev.out {
                Outcome::Value(v) => v,
                _ => continue,
            };
            if let Sym::Other(p, bits) = &v.sym {
                let r = guarded(|| {
                    let (q, mut c) = match build(x) {
                        Number::Other(q, c) => (q, c),
                        _ => return Err("got a special value".to_string()),
                    };
                    if primer_code(&q) != *p {
                        return Err("wrong primer".to_string());
                    }
                    for i in 0..*k {
                        let want = bits.get(i);
                        let got = c.egest().map(|r| r == Reduction::Uncover);
                        if got.as_ref() != want {
                            return Err(format!("symbol {} is wrong before rewrapping", i));
                        }
                        if got.is_none() {
                            break;
                        }
                    }
                    Ok(())
                });
                match r {
                    Ok(Ok(())) => {}
                    Ok(Err(m)) => return Err(format!("value {}: {}", v.val.show(), m)),
                    Err(msg) => {
                        judge_panic(&msg, &[&ev])?;
                        return Ok(Some("gave up: coefficients too large"));
                    }
                }
            }
        }
    }
    Ok(None)
}

fn check_c10(c: &Case) -> Verdict {
    let e = match c.ex.first() {
        Some(e) => e,
        None => return note(false, "empty"),
    };
    if let Some(class) = check_prefixes(e)? {
        return note(false, class);
    }
    let cut = e
        .subs()
        .iter()
        .any(|s| matches!(s, Wrap(k, _, x) if *k > 0 && !matches!(**x, Special(_))));
    if !e.subs().iter().any(|s| matches!(s, Wrap(..))) {
        return note(false, "nothing was read before");
    }
    simple_note(decide(e, 2)?, |_, v| {
        cut && e.nodes() > 2 && matches!(v.sym, Sym::Other(..))
    })
}

// ---- C11 ----

fn extreme(g: &mut Gen) -> i64 {
    match g.r.below(10) {
        0..=3 => *g.r.pick(&EXTREMES),
        4 => i64::MIN.wrapping_add(g.r.below(4) as i64),
        5 => (g.r.next() as i64) | (1 << 62),
        6 => (1i64 << (55 + g.r.below(8))).wrapping_add(g.r.below(5) as i64 - 2),
        7 => -(1i64 << (55 + g.r.below(8))).wrapping_add(g.r.below(5) as i64 - 2),
        _ => g.int(5),
    }
}

fn gen_c11(g: &mut Gen) -> Case {
    let b = match g.r.below(6) {
        0..=3 => 4,
        4 => 12,
        _ => 62,
    };
    let x = match g.r.below(8) {
        0..=4 => g.leaf(b),
        5 => {
            let x = g.leaf(b);
            g.wrap(x)
        }
        6 => {
            let n = extreme(g);
            let d = extreme(g);
            Ratio(n, if d == 0 { 1 } else { d })
        }
        _ => {
            let y = g.leaf(b);
            Hom([0; 4].map(|_| extreme(g)), Box::new(y))
        }
    };
    let e = match g.r.below(10) {
        0..=3 => Hom([0; 4].map(|_| extreme(g)), Box::new(x)),
        4..=6 => {
            let y = g.leaf(b);
            let mut c = [0; 8].map(|_| extreme(g));
            for v in c.iter_mut() {
                if g.r.chance(35) {
                    *v = g.int(3);
                }
            }
            if g.r.chance(50) {
                Comb(c, Box::new(x), Box::new(y))
            } else {
                Comb(c, Box::new(y), Box::new(x))
            }
        }
        7 => {
            // growth on the way: moderate coefficients, long operands
            let x = g.leaf(62);
            let cb = 20 + g.r.below(40) as u32;
            g.hom_over(x, cb, true)
        }
        8 => {
            let (x, y) = (g.leaf(40), g.leaf(40));
            let cb = 3 + g.r.below(40) as u32;
            g.comb_over(x, y, cb, true)
        }
        _ => {
            // extreme coefficients with an exact landmark as the result
            match Gen::small_value(&x) {
                Some(v) => {
                    let t = *g.r.pick(&[(1, 2), (1, 1), (0, 1), (-1, 1), (2, 1), (-1, 2), (1, 3)]);
                    match g.hom_to(v, t, 60) {
                        Some(c) => Hom(c, Box::new(x)),
                        None => Hom([0; 4].map(|_| extreme(g)), Box::new(x)),
                    }
                }
                None => x,
            }
        }
    };
    Case::of(e)
}

fn check_c11(c: &Case) -> Verdict {
    let e = match c.ex.first() {
        Some(e) => e,
        None => return note(false, "empty"),
    };
    match decide(e, 1)? {
        Status::Overflow(_) => note(true, "gave up: coefficients too large"),
        Status::Exact(ev) => note(!ev.safe, if ev.safe { "exact" } else { "exact at the edge of the range" }),
        Status::DivZero => note(false, "refused: division by zero"),
        Status::TooBig => note(false, "skipped: beyond harness bounds"),
    }
}

// ---- C12 ----

fn gen_c12(g: &mut Gen) -> Case {
    let e = match g.r.below(10) {
        0..=2 => {
            // fractions whose terms fit in six bits, or somewhat larger ones, four operations
            let top = *g.r.pick(&[64, 64, 64, 256, 1024]);
            let f = |g: &mut Gen| {
                let (n, d) = (g.r.below(top) as i64, 1 + g.r.below(top - 1) as i64);
                Ratio(if g.r.chance(45) { -n } else { n }, d)
            };
            let (x, y) = (f(g), f(g));
            Comb(
                *g.r.pick(&[ADD, SUB, MUL, DIV]),
                Box::new(x),
                Box::new(y),
            )
        }
        3..=5 => {
            // as large as the reference evaluation can still hold
            let b = 6 + g.r.below(56) as u32;
            let x = g.leaf(b);
            let cb = 1 + g.r.below(57) as u32;
            g.hom_over(x, cb, false)
        }
        6..=8 => {
            let b = 4 + g.r.below(27) as u32;
            let (x, y) = (g.leaf(b), g.leaf(b));
            let cb = 1 + g.r.below(56) as u32;
            g.comb_over(x, y, cb, false)
        }
        _ => g.operand(62),
    };
    Case::of(e)
}

/// A failure that the file of recorded findings lists under this signature.
fn excused(signature: &str) -> bool {
    use std::sync::OnceLock;
    static KNOWN: OnceLock<String> = OnceLock::new();
    KNOWN
        .get_or_init(|| std::env::var("VERIF_KNOWN").unwrap_or_default())
        .split(',')
        .any(|s| s == signature)
}

fn check_c12(c: &Case) -> Verdict {
    let e = match c.ex.first() {
        Some(e) => e,
        None => return note(false, "empty"),
    };
    match decide(e, 0)? {
        Status::Exact(ev) => {
            let bits = 128 - ev.peak.leading_zeros();
            note(
                ev.safe && bits > 20,
                match bits {
                    0..=20 => "succeeded: coefficients up to 20 bits",
                    21..=40 => "succeeded: coefficients up to 40 bits",
                    41..=50 => "succeeded: coefficients up to 50 bits",
                    51..=59 => "succeeded: coefficients up to 59 bits",
                    _ => "succeeded: coefficients at the edge of the word",
                },
            )
        }
        Status::Overflow(_) if excused("coefficients-outgrow-word") => {
            note(false, "known finding: coefficients outgrow the word")
        }
        Status::Overflow(_) => Err("gave up: coefficients outgrow the word".to_string()),
        Status::DivZero => note(false, "refused: division by zero"),
        Status::TooBig => note(false, "skipped: beyond harness bounds"),
    }
}

// ---- C13 ----

fn gen_c13(g: &mut Gen) -> Case {
    let n = 2 + g.r.below(4);
    let b = g.scale().min(31);
    let mut ex: Vec<Expr> = Vec::new();
    for _ in 0..n {
        let e = match g.r.below(8) {
            0..=1 => g.leaf(b),
            2..=3 => {
                let x = g.operand(b);
                g.hom_over(x, b.min(9), true)
            }
            4..=5 => {
                let (x, y) = (g.operand(b), g.operand(b));
                g.comb_over(x, y, b.min(6), true)
            }
            6 if !ex.is_empty() => g.r.pick(&ex).clone(),
            _ => g.tree(2, b.min(5)),
        };
        // Often only one detail differs from a number that is already there.
        let e = if !ex.is_empty() && g.r.chance(40) {
            let near = g.r.pick(&ex).clone();
            g.mutate_expr(&near, &ex)
        } else {
            e
        };
        ex.push(e);
    }
    let steps = 8 + g.r.below(60);
    let aux = (0..steps).map(|_| g.r.below(1 << 16) as i64).collect();
    Case { ex, aux }
}

struct Live {
    of: usize,
    clog: Clog,
    pos: usize,
}

/// Numbers found wrong among others are confirmed against themselves, alone in a new process: if
/// they are wrong there too, that is not interference.
fn wrong_alone(e: &Expr) -> bool {
    solo_fails(&Case::of(e.clone()))
}

fn solo_fails(c: &Case) -> bool {
    use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
    static ASKED: AtomicU32 = AtomicU32::new(0);
    if ASKED.fetch_add(1, Relaxed) > 300 {
        return true;
    }
    let me = match std::env::current_exe() {
        Ok(p) => p,
        Err(_) => return false,
    };
    match std::process::Command::new(me)
        .arg("solo")
        .arg(c.show())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
    {
        Ok(s) => s.code() != Some(0),
        Err(_) => false,
    }
}

fn check_c13(c: &Case) -> Verdict {
    match check_c13_in(c) {
        Err(m) => {
            if c.ex.iter().any(wrong_alone) {
                note(false, "wrong alone too")
            } else {
                Err(m)
            }
        }
        ok => ok,
    }
}

fn check_c13_in(c: &Case) -> Verdict {
    if c.ex.is_empty() {
        return note(false, "empty");
    }
    let evs: Vec<Eval> = c.ex.iter().map(eval).collect();
    if evs.iter().any(|e| matches!(e.out, Outcome::TooBig)) {
        return note(false, "skipped: beyond harness bounds");
    }
    let mut live: Vec<Live> = Vec::new();
    let mut switches = 0;
    let mut last = usize::MAX;
    // Create number `i`; whatever happens to it must be what happens to it alone.
    fn create(i: usize, c: &Case, evs: &[Eval], live: &mut Vec<Live>) -> Result<(), String> {
        let ev = &evs[i];
        match guarded(|| build(&c.ex[i])) {
            Ok(n) => match (&ev.out, n) {
                (Outcome::Value(v), n) => match (n, &v.sym) {
                    (Number::Special(s), Sym::Special(w)) if special_code(&s) == *w => Ok(()),
                    (Number::Other(p, clog), Sym::Other(w, _)) if primer_code(&p) == *w => {
                        live.push(Live {
                            of: i,
                            clog,
                            pos: 0,
                        });
                        Ok(())
                    }
                    _ => Err(format!(
                        "number {} ({}) came out with the wrong special value or primer",
                        i,
                        v.val.show()
                    )),
                },
                _ => Err(format!("number {} has a zero denominator but was built", i)),
            },
            Err(msg) => judge_panic(&msg, &[ev]).map(|_| ()),
        }
    }
    // Read one symbol of live number `j`; drops it when it gave up for lack of room.
    fn step(j: usize, evs: &[Eval], live: &mut Vec<Live>) -> Result<(), String> {
        let ev = &evs[live[j].of];
        let l = &mut live[j];
        match guarded(|| l.clog.egest().map(|r| r == Reduction::Uncover)) {
            Ok(got) => {
                let want = match &ev.value().unwrap().sym {
                    Sym::Other(_, b) => b.get(l.pos).copied(),
                    _ => None,
                };
                if got != want {
                    return Err(format!(
                        "number {} ({}): symbol {} is {:?} instead of {:?} when read among others",
                        l.of,
                        ev.value().unwrap().val.show(),
                        l.pos,
                        got,
                        want
                    ));
                }
                if got.is_some() {
                    l.pos += 1;
                }
                Ok(())
            }
            Err(msg) => {
                judge_panic(&msg, &[ev])?;
                live.swap_remove(j);
                Ok(())
            }
        }
    }
    for i in 0..c.ex.len() {
        create(i, c, &evs, &mut live)?;
    }
    for a in &c.aux {
        let a = a.unsigned_abs() as usize;
        match a % 16 {
            0 => create((a >> 4) % c.ex.len(), c, &evs, &mut live)?,
            1 if live.len() > 1 => {
                let j = (a >> 4) % live.len();
                live.swap_remove(j);
            }
            2 => {
                // compare two freshly built ones in between
                let (i, j) = ((a >> 4) % c.ex.len(), (a >> 8) % c.ex.len());
                if let (Some(u), Some(v)) = (evs[i].value(), evs[j].value()) {
                    match guarded(|| Number::compare(build(&c.ex[i]), build(&c.ex[j]))) {
                        Ok(o) if o == u.val.cmp(&v.val) => {}
                        Ok(o) => {
                            let pair = vec![c.ex[i].clone(), c.ex[j].clone()];
                            if solo_fails(&Case {
                                ex: pair,
                                aux: vec![],
                            }) {
                                continue;
                            }
                            return Err(format!(
                                "compare({}, {}) gave {:?} among others",
                                u.val.show(),
                                v.val.show(),
                                o
                            ))
                        }
                        Err(msg) => {
                            judge_panic(&msg, &[&evs[i], &evs[j]])?;
                        }
                    }
                }
            }
            _ if !live.is_empty() => {
                let j = (a >> 4) % live.len();
                if live[j].of != last {
                    switches += 1;
                    last = live[j].of;
                }
                for _ in 0..1 + (a >> 12) % 4 {
                    if j < live.len() {
                        step(j, &evs, &mut live)?;
                    }
                }
            }
            _ => {}
        }
    }
    // Whatever is left is read to the end, alternately.
    let mut guard = 0;
    while !live.is_empty() {
        let mut j = 0;
        while j < live.len() {
            let end = match &evs[live[j].of].value().unwrap().sym {
                Sym::Other(_, b) => b.len(),
                _ => 0,
            };
            let done = live[j].pos >= end;
            let before = live.len();
            step(j, &evs, &mut live)?;
            if live.len() < before {
                continue;
            }
            if done {
                live.swap_remove(j);
            } else {
                j += 1;
            }
        }
        guard += 1;
        if guard > 4 * MAX_SYMBOLS {
            break;
        }
    }
    note(c.ex.len() >= 2 && switches >= 3, "interleaved")
}

// ---- C14 ----

fn gen_c14(g: &mut Gen) -> Case {
    let b = g.scale();
    let ex = match g.r.below(10) {
        0 => vec![g.leaf(b), g.leaf(b)],
        1..=2 => {
            let x = g.operand(b);
            vec![g.hom_over(x, b, true), g.leaf(b)]
        }
        3..=4 => {
            let (x, y) = (g.operand(b), g.operand(b));
            vec![g.comb_over(x, y, b.min(9), true), g.leaf(b)]
        }
        5 => vec![gen_c11(g).ex.remove(0), g.leaf(b)],
        6 => vec![gen_c08(g).ex.remove(0), g.leaf(b)],
        7 => vec![gen_c07(g).ex.remove(0), gen_c10(g).ex.remove(0)],
        8 => gen_c04(g).ex,
        _ => vec![g.tree(3, b.min(6)), Ratio(g.int(3), g.int(3))],
    };
    Case { ex, aux: vec![] }
}

extern "C" {
    fn memfd_create(name: *const std::os::raw::c_char, flags: u32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn dup(a: i32) -> i32;
    fn lseek(fd: i32, off: i64, whence: i32) -> i64;
}

/// Standard streams redirected to a file in memory while the crate under test runs.
struct Capture {
    fd: i32,
    saved: [i32; 2],
    done: i64,
}

static mut CAPTURE: Option<Capture> = None;

#[allow(static_mut_refs)]
fn capture() -> &'static mut Capture {
    unsafe {
        CAPTURE.get_or_insert_with(|| {
            let fd = memfd_create(b"out\0".as_ptr() as *const _, 0);
            assert!(fd >= 0, "harness: no memory file");
            Capture {
                fd,
                saved: [dup(1), dup(2)],
                done: 0,
            }
        })
    }
}

fn check_c14(c: &Case) -> Verdict {
    use std::io::Write;
    if c.ex.len() != 2 {
        return note(false, "not a pair");
    }
    let evs: Vec<Eval> = c.ex.iter().map(eval).collect();
    if evs.iter().any(|e| matches!(e.out, Outcome::TooBig)) {
        return note(false, "skipped: beyond harness bounds");
    }
    let cap = capture();
    let len = evs
        .iter()
        .map(|e| e.value().map_or(0, |v| v.sym.len()))
        .max()
        .unwrap();
    let _ = std::io::stdout().flush();
    unsafe {
        dup2(cap.fd, 1);
        dup2(cap.fd, 2);
    }
    let mut failed = false;
    for e in &c.ex {
        failed |= guarded(|| read_all(build(e), len + 10)).is_err();
        failed |= guarded(|| {
            let (y, ..) = Number::consume(build(e));
            if let Some(y) = y {
                let _ = read_all(y, len + 10);
            }
        })
        .is_err();
    }
    failed |= guarded(|| Number::compare(build(&c.ex[0]), build(&c.ex[1]))).is_err();
    let _ = std::io::stdout().flush();
    let size = unsafe {
        dup2(cap.saved[0], 1);
        dup2(cap.saved[1], 2);
        lseek(cap.fd, 0, 1)
    };
    if size != cap.done {
        let n = size - cap.done;
        cap.done = size;
        return Err(format!("{} bytes were written to the standard streams", n));
    }
    note(
        c.ex[0].nodes() > 1 && len >= 2,
        if failed {
            "silent, with a refusal"
        } else {
            "silent"
        },
    )
}

// ---- C15 ----

fn b(e: Expr) -> Box<Expr> {
    Box::new(e)
}

fn add(x: &Expr, y: &Expr) -> Expr {
    Comb(ADD, b(x.clone()), b(y.clone()))
}

fn sub(x: &Expr, y: &Expr) -> Expr {
    Comb(SUB, b(x.clone()), b(y.clone()))
}

fn mul(x: &Expr, y: &Expr) -> Expr {
    Comb(MUL, b(x.clone()), b(y.clone()))
}

fn div(x: &Expr, y: &Expr) -> Expr {
    Comb(DIV, b(x.clone()), b(y.clone()))
}

fn neg(x: &Expr) -> Expr {
    Hom([-1, 0, 0, 1], b(x.clone()))
}

fn inv(x: &Expr) -> Expr {
    Hom([0, 1, 1, 0], b(x.clone()))
}

const LAWS: usize = 30;

/// Both sides of an equality that holds for all operands for which they are defined.
fn law(
    i: usize,
    k: i64,
    c: [i64; 8],
    x: &Expr,
    y: &Expr,
    z: &Expr,
) -> (&'static str, Expr, Expr) {
    let h = [c[0], c[1], c[2], c[3]];
    match i {
        0 => ("x+y = y+x", add(x, y), add(y, x)),
        1 => ("x*y = y*x", mul(x, y), mul(y, x)),
        2 => ("(x+y)+z = x+(y+z)", add(&add(x, y), z), add(x, &add(y, z))),
        3 => ("(x*y)*z = x*(y*z)", mul(&mul(x, y), z), mul(x, &mul(y, z))),
        4 => (
            "x*(y+z) = x*y+x*z",
            mul(x, &add(y, z)),
            add(&mul(x, y), &mul(x, z)),
        ),
        5 => ("x-x = 0", sub(x, x), Special(0)),
        6 => ("x/x = 1", div(x, x), Special(1)),
        7 => ("-(-x) = x", neg(&neg(x)), x.clone()),
        8 => ("1/(1/x) = x", inv(&inv(x)), x.clone()),
        9 => ("(x+y)-y = x", sub(&add(x, y), y), x.clone()),
        10 => ("(x*y)/y = x", div(&mul(x, y), y), x.clone()),
        11 => ("x-y = -(y-x)", sub(x, y), neg(&sub(y, x))),
        12 => ("x/y = 1/(y/x)", div(x, y), inv(&div(y, x))),
        13 => ("x+x = 2x", add(x, x), Hom([2, 0, 0, 1], b(x.clone()))),
        14 => (
            "x+k by either operation",
            Hom([1, k, 0, 1], b(x.clone())),
            add(x, &Ratio(k, 1)),
        ),
        15 => (
            "k*x by either operation",
            Hom([k, 0, 0, 1], b(x.clone())),
            mul(x, &Ratio(k, 1)),
        ),
        16 => ("rebuilt x = x", Rebuild(b(x.clone())), x.clone()),
        17 => ("x+0 = x", add(x, &Special(0)), x.clone()),
        18 => ("x*1 = x", mul(x, &Special(1)), x.clone()),
        19 => ("x*(-1) = -x", mul(x, &Special(-1)), neg(x)),
        20 => ("x-y = x+(-y)", sub(x, y), add(x, &neg(y))),
        21 => ("x/y = x*(1/y)", div(x, y), mul(x, &inv(y))),
        22 => (
            "scaling all coefficients changes nothing",
            Hom(h, b(x.clone())),
            Hom(h.map(|v| k * v), b(x.clone())),
        ),
        23 => (
            "scaling all eight coefficients changes nothing",
            Comb(c, b(x.clone()), b(y.clone())),
            Comb(c.map(|v| k * v), b(x.clone()), b(y.clone())),
        ),
        24 => (
            "exchanging the operands with their coefficients changes nothing",
            Comb(c, b(x.clone()), b(y.clone())),
            Comb(
                [c[0], c[2], c[1], c[3], c[4], c[6], c[5], c[7]],
                b(y.clone()),
                b(x.clone()),
            ),
        ),
        25 => (
            "a combination that ignores its second operand is a transform",
            Hom(h, b(x.clone())),
            Comb([0, c[0], 0, c[1], 0, c[2], 0, c[3]], b(x.clone()), b(y.clone())),
        ),
        26 => (
            "a combination that ignores its first operand is a transform",
            Hom(h, b(y.clone())),
            Comb([0, 0, c[0], c[1], 0, 0, c[2], c[3]], b(x.clone()), b(y.clone())),
        ),
        27 => (
            "a transform of a transform is one transform",
            Hom([c[4], c[5], c[6], c[7]], b(Hom(h, b(x.clone())))),
            Hom(
                [
                    c[4] * c[0] + c[5] * c[2],
                    c[4] * c[1] + c[5] * c[3],
                    c[6] * c[0] + c[7] * c[2],
                    c[6] * c[1] + c[7] * c[3],
                ],
                b(x.clone()),
            ),
        ),
        28 => (
            "exchanging numerator and denominator inverts",
            Hom([c[2], c[3], c[0], c[1]], b(x.clone())),
            inv(&Hom(h, b(x.clone()))),
        ),
        _ => (
            "(x+y)*(x-y) = x*x-y*y",
            mul(&add(x, y), &sub(x, y)),
            sub(&mul(x, x), &mul(y, y)),
        ),
    }
}

fn gen_c15(g: &mut Gen) -> Case {
    let bits = *g.r.pick(&[3, 3, 3, 4, 4, 5, 5, 7, 7, 10, 10, 24]);
    let ex = (0..3)
        .map(|_| {
            if g.r.chance(80) {
                g.leaf(bits)
            } else {
                g.operand(bits)
            }
        })
        .collect();
    let mut aux = vec![
        g.r.below(LAWS as u64 + 6) as i64,
        {
            let v = g.int(6);
            if v == 0 {
                1
            } else {
                v
            }
        },
    ];
    let cb = *g.r.pick(&[2, 3, 3, 5, 9, 16]);
    aux.extend((0..8).map(|_| if g.r.chance(25) { 0 } else { g.int(cb) }));
    Case { ex, aux }
}

fn check_c15(c: &Case) -> Verdict {
    if c.ex.len() != 3
        || c.aux.len() < 2
        || c.aux[1] == 0
        || c.aux[1..].iter().any(|v| v.unsigned_abs() > 1 << 20)
    {
        return note(false, "not a law");
    }
    let mut coefs = [3, 1, 2, 5, 1, 0, 0, 1];
    for (v, w) in coefs.iter_mut().zip(&c.aux[2..]) {
        *v = *w;
    }
    let (x, y, z) = (&c.ex[0], &c.ex[1], &c.ex[2]);
    let i = c.aux[0].unsigned_abs() as usize % (LAWS + 6);
    let k = c.aux[1];
    let cmp = |p: &Expr, q: &Expr| -> Result<Option<Ordering>, String> {
        let (u, v) = (eval(p), eval(q));
        if matches!(u.out, Outcome::TooBig) || matches!(v.out, Outcome::TooBig) {
            return Ok(None);
        }
        match guarded(|| Number::compare(build(p), build(q))) {
            Ok(o) => Ok(Some(o)),
            Err(msg) => {
                judge_panic(&msg, &[&u, &v])?;
                Ok(None)
            }
        }
    };
    let show = |e: &Expr| {
        eval(e)
            .value()
            .map_or("undefined".to_string(), |v| v.val.show())
    };
    if i < LAWS {
        let (name, l, r) = law(i, k, coefs, x, y, z);
        return match cmp(&l, &r)? {
            None => note(false, "undefined or gave up"),
            Some(Ordering::Equal) => note(true, name),
            Some(o) => Err(format!(
                "law {} broken for x={} y={} z={} k={}: left side is {:?}",
                name,
                show(x),
                show(y),
                show(z),
                k,
                o
            )),
        };
    }
    let bad = |name: &str| {
        Err(format!(
            "law {} broken for x={} y={} z={} k={}",
            name,
            show(x),
            show(y),
            show(z),
            k
        ))
    };
    let zero = Special(0);
    macro_rules! get {
        ($a:expr, $b:expr) => {
            match cmp($a, $b)? {
                Some(o) => o,
                None => return note(false, "undefined or gave up"),
            }
        };
    }
    match i - LAWS {
        0 => {
            if get!(x, y) != get!(y, x).reverse() || get!(x, x) != Ordering::Equal {
                return bad("order is antisymmetric");
            }
            note(true, "order is antisymmetric")
        }
        1 => {
            let (p, q, r) = (get!(x, y), get!(y, z), get!(x, z));
            if p == q && p != r || p == Ordering::Equal && q != r || q == Ordering::Equal && p != r
            {
                return bad("order is transitive");
            }
            note(true, "order is transitive")
        }
        2 => {
            if get!(x, y) != get!(&sub(x, y), &zero) {
                return bad("x<y iff x-y<0");
            }
            note(true, "x<y iff x-y<0")
        }
        3 => {
            if get!(x, y) != get!(&add(x, z), &add(y, z)) {
                return bad("x<y iff x+z<y+z");
            }
            note(true, "x<y iff x+z<y+z")
        }
        4 => {
            let s = get!(z, &zero);
            let o = get!(&mul(x, z), &mul(y, z));
            let want = match s {
                Ordering::Greater => get!(x, y),
                Ordering::Less => get!(x, y).reverse(),
                Ordering::Equal => Ordering::Equal,
            };
            if o != want {
                return bad("multiplying an inequality");
            }
            note(true, "multiplying an inequality")
        }
        _ => {
            if get!(x, y) != get!(&neg(y), &neg(x)) {
                return bad("x<y iff -y<-x");
            }
            note(true, "x<y iff -y<-x")
        }
    }
}

// ---- C16 ----

/// Blocks of the crate under test allowed per symbol exchanged, and per operation.
pub const WORK_PER_SYMBOL: u64 = 250;

fn gen_c16(g: &mut Gen) -> Case {
    let b = g.scale();
    let e = match g.r.below(8) {
        0 => {
            let b = *g.r.pick(&[16, 32, 48, 62, 63]);
            g.leaf(b)
        }
        1..=2 => {
            let x = g.operand(b.max(9));
            g.hom_over(x, b, true)
        }
        3..=4 => {
            let (x, y) = (g.operand(b), g.operand(b));
            g.comb_over(x, y, b.min(9), true)
        }
        5 => {
            // nesting multiplies nothing
            if g.r.chance(25) {
                let (n, b) = (6 + g.r.below(30), 3 + g.r.below(18) as u32);
                return Case::of(g.chain(n, b));
            }
            let d = 2 + g.r.below(8);
            let mut e = g.leaf(b.min(9));
            for _ in 0..d {
                let c = *g.r.pick(&HOM_OPS);
                e = Hom(c, Box::new(e));
            }
            e
        }
        6 => {
            let x = g.leaf(62);
            let c = *g.r.pick(&HOM_OPS);
            Hom(c, Box::new(x))
        }
        _ => g.tree(4, 3),
    };
    Case::of(e)
}

fn check_c16(c: &Case) -> Verdict {
    let e = match c.ex.first() {
        Some(e) => e,
        None => return note(false, "empty"),
    };
    let ev = eval(e);
    if matches!(ev.out, Outcome::TooBig) {
        return note(false, "skipped: beyond harness bounds");
    }
    let before = cov::used();
    let mut read = 0;
    let r = guarded(|| match build(e) {
        Number::Other(_, mut clog) => {
            while clog.egest().is_some() {
                read += 1;
                if read > 2 * MAX_SYMBOLS {
                    break;
                }
            }
        }
        Number::Special(_) => {}
    });
    let used = cov::used() - before;
    let work = ev.work.max(operand_symbols(e) + read);
    if used > WORK_PER_SYMBOL * (work + 4 * e.nodes()) as u64 {
        return Err(format!(
            "{} blocks executed for {} symbols in {} operations",
            used,
            work,
            e.nodes()
        ));
    }
    if let Err(_) = r {
        return note(false, "refused or gave up");
    }
    note(
        work >= 8 && e.nodes() > 1,
        match used / (work + 4 * e.nodes()) as u64 {
            0..=15 => "up to 15 blocks per symbol",
            16..=31 => "up to 31 blocks per symbol",
            32..=63 => "up to 63 blocks per symbol",
            64..=127 => "up to 127 blocks per symbol",
            128..=255 => "up to 255 blocks per symbol",
            256..=511 => "up to 511 blocks per symbol",
            _ => "more than 511 blocks per symbol",
        },
    )
}

/// Symbols of all operands below the outermost operation.
fn operand_symbols(e: &Expr) -> usize {
    e.children()
        .iter()
        .map(|x| eval(x).work)
        .sum()
}

// ---- C17 ----

/// Bytes a number may hold per operation it was built from (observed: below 80).
const BYTES_PER_OPERATION: usize = 300;

fn gen_c17(g: &mut Gen) -> Case {
    let e = match g.r.below(6) {
        0..=1 => gen_c16(g).ex.remove(0),
        2 => gen_c08(g).ex.remove(0),
        3 => gen_c10(g).ex.remove(0),
        4 => gen_c07(g).ex.remove(0),
        _ => {
            // long sequences through one operation
            let x = long_leaf(g);
            long_user(g, x)
        }
    };
    let last = match g.r.below(4) {
        0 => g.leaf(8),
        1 => long_leaf(g),
        2 => e.clone(),
        _ => g.operand(8),
    };
    let cut = if g.r.chance(50) {
        i64::MAX
    } else {
        g.r.below(100) as i64
    };
    Case {
        ex: vec![e, last],
        aux: vec![cut],
    }
}

/// A fraction with a sequence of several hundred symbols.
fn long_leaf(g: &mut Gen) -> Expr {
    let (p, q) = (g.r.below(12), g.r.below(12));
    let n = 1 + g.r.below(1 << p) as i64;
    let d = (i64::MAX >> g.r.below(12)) - g.r.below(1 << q) as i64;
    let (n, d) = if g.r.chance(30) { (d - n, d) } else { (n, d) };
    let (n, d) = if g.r.chance(30) { (d, n) } else { (n, d) };
    Ratio(if g.r.chance(40) { -n } else { n }, d)
}

/// A simple operation on a given number.
fn long_user(g: &mut Gen, x: Expr) -> Expr {
    if g.r.chance(50) {
        return Hom(*g.r.pick(&HOM_OPS), Box::new(x));
    }
    let y = if g.r.chance(50) {
        long_leaf(g)
    } else {
        g.leaf(6)
    };
    let c = *g.r.pick(&COMB_OPS);
    if g.r.chance(50) {
        Comb(c, Box::new(x), Box::new(y))
    } else {
        Comb(c, Box::new(y), Box::new(x))
    }
}

/// Build and read a number, use it up in each way there is, and see what memory is held meanwhile
/// and afterwards. Returns the symbols read and the highest level, or what is wrong.
fn memory_use(c: &Case) -> (usize, usize, usize, bool) {
    let cut = c.aux.first().map_or(usize::MAX, |v| v.unsigned_abs() as usize);
    let before = crate::mem::live();
    crate::mem::mark();
    let mut read = 0;
    let mut failed = guarded(|| {
        if let Number::Other(_, mut clog) = build(&c.ex[0]) {
            while read < cut && read < 2 * MAX_SYMBOLS && clog.egest().is_some() {
                read += 1;
            }
        }
    })
    .is_err();
    failed |= guarded(|| drop(Number::consume(build(&c.ex[0])))).is_err();
    failed |= guarded(|| drop(Number::compare(build(&c.ex[0]), build(&c.ex[1])))).is_err();
    let kept = crate::mem::live().wrapping_sub(before);
    (read, crate::mem::peak() - before, kept, failed)
}

fn check_c17(c: &Case) -> Verdict {
    use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
    if c.ex.len() != 2 {
        return note(false, "not a pair");
    }
    if c.ex.iter().any(|e| matches!(eval(e).out, Outcome::TooBig)) {
        return note(false, "skipped: beyond harness bounds");
    }
    let nodes = c.ex[0].nodes() + c.ex[1].nodes();
    let (read, peak, kept, failed) = memory_use(c);
    if peak > BYTES_PER_OPERATION * (nodes + 1) {
        return Err(format!(
            "{} bytes were held for {} operations",
            peak, nodes
        ));
    }
    if kept != 0 {
        // Something set up once is not a loss, so look again; but it must not add up.
        static ONCE: AtomicUsize = AtomicUsize::new(0);
        let again = memory_use(c).2.min(memory_use(c).2);
        let sum = ONCE.fetch_add(kept, Relaxed) + kept;
        if again != 0 {
            return Err(format!("{} bytes were not given back", again as isize));
        }
        if sum > 1 << 20 && sum < 1 << 40 {
            return Err("memory kept after use adds up to more than a megabyte".to_string());
        }
    }
    note(
        read >= 8 && c.ex[0].nodes() > 1,
        match (failed, read) {
            (true, _) => "with a refusal",
            (_, 0..=99) => "up to 99 symbols read",
            (_, 100..=499) => "up to 499 symbols read",
            _ => "500 symbols or more read",
        },
    )
}

// ---- C18 ----

fn gen_c18(g: &mut Gen) -> Case {
    let b = g.scale();
    let x = match g.r.below(4) {
        0..=1 => long_leaf(g),
        2 => g.leaf(62),
        _ => {
            // later symbols may be out of reach
            let (x, y) = (g.leaf(b.max(20)), g.leaf(b.max(20)));
            let c = *g.r.pick(&COMB_OPS);
            Comb(c, Box::new(x), Box::new(y))
        }
    };
    let mut e = match g.r.below(8) {
        0..=2 => long_user(g, x),
        3..=4 => g.hom_over(x, b.min(20), false),
        5 => {
            let y = g.leaf(b.min(20));
            g.comb_over(x, y, b.min(9), false)
        }
        6 => {
            let y = g.leaf(62);
            g.comb_over(y, x, b.min(9), false)
        }
        _ => {
            let e = long_user(g, x);
            long_user(g, e)
        }
    };
    if g.r.chance(15) {
        e = g.wrap(e);
    }
    let k = match g.r.below(3) {
        0 => 0,
        1 => g.r.below(10),
        _ => g.r.below(60),
    };
    let mut ex = vec![e];
    if g.r.chance(35) {
        // a second one to compare with
        let near = ex[0].clone();
        ex.push(match g.r.below(4) {
            0 => long_leaf(g),
            1 => {
                let x = long_leaf(g);
                long_user(g, x)
            }
            2 => g.mutate_expr(&near, &ex),
            _ => g.operand(b),
        });
        if g.r.chance(50) {
            ex.swap(0, 1);
        }
    }
    Case {
        ex,
        aux: vec![k as i64],
    }
}

/// A comparison needs its operands only up to where they differ.
fn check_c18_compare(x: &Expr, y: &Expr) -> Verdict {
    let (a, b) = (eval(x), eval(y));
    let (u, v) = match (&a.out, &b.out) {
        (Outcome::Value(u), Outcome::Value(v)) => (u, v),
        _ => return note(false, "no value"),
    };
    let k = match (&u.sym, &v.sym) {
        (Sym::Other(p, s), Sym::Other(q, t)) if p == q => {
            1 + s.iter().zip(t).take_while(|(a, b)| a == b).count()
        }
        _ => 0,
    };
    let work = match (prefix_work(x, k), prefix_work(y, k)) {
        (Some(i), Some(j)) => i + j,
        _ => return note(false, "needs too much room"),
    };
    let before = cov::used();
    let r = guarded(|| Number::compare(build(x), build(y)));
    let used = cov::used() - before;
    let nodes = x.nodes() + y.nodes();
    match r {
        Ok(o) if o == u.val.cmp(&v.val) => {}
        Ok(o) => {
            return Err(format!(
                "compare({}, {}) gave {:?}",
                u.val.show(),
                v.val.show(),
                o
            ))
        }
        Err(_) if prefix_most(x, k).is_none() || prefix_most(y, k).is_none() => {
            return note(false, "needs too much room in another order")
        }
        Err(msg) => {
            return Err(format!(
                "comparing {} with {} is settled by {} symbols of each, but failed: {}",
                u.val.show(),
                v.val.show(),
                k,
                msg
            ))
        }
    }
    if used > WORK_PER_SYMBOL / 2 * (work + 4 * nodes) as u64 {
        let most = match (prefix_most(x, k), prefix_most(y, k)) {
            (Some(i), Some(j)) => i + j,
            _ => return note(false, "needs too much room in another order"),
        };
        if used <= WORK_PER_SYMBOL / 2 * (most + 4 * nodes) as u64 {
            return note(false, "takes longer in another order");
        }
        return Err(format!(
            "{} blocks executed to compare numbers that differ after {} symbols",
            used, k
        ));
    }
    note(
        !a.safe || !b.safe || a.work + b.work >= 3 * work,
        match (a.safe && b.safe, k) {
            (false, _) => "comparison, the rest is out of reach",
            (_, 0) => "comparison of different kinds or primers",
            _ => "comparison of common primers",
        },
    )
}

fn check_c18(c: &Case) -> Verdict {
    if c.ex.len() == 2 {
        return check_c18_compare(&c.ex[0], &c.ex[1]);
    }
    let (e, k) = match (c.ex.first(), c.aux.first()) {
        (Some(e), Some(k)) if (0..1 << 12).contains(k) => (e, *k as usize),
        _ => return note(false, "empty"),
    };
    let ev = eval(e);
    let v = match &ev.out {
        Outcome::Value(v) => v,
        _ => return note(false, "no value"),
    };
    let work = match prefix_work(e, k) {
        Some(w) => w,
        None => return note(false, "needs too much room"),
    };
    let before = cov::used();
    let r = guarded(|| match (build(e), &v.sym) {
        (Number::Special(s), Sym::Special(w)) if special_code(&s) == *w => Ok(()),
        (Number::Other(p, mut clog), Sym::Other(w, bits)) if primer_code(&p) == *w => {
            for i in 0..k {
                let got = clog.egest().map(|r| r == Reduction::Uncover);
                if got.as_ref() != bits.get(i) {
                    return Err(format!("symbol {} is wrong", i));
                }
            }
            Ok(())
        }
        _ => Err("wrong special value or primer".to_string()),
    });
    let used = cov::used() - before;
    match r {
        Ok(Ok(())) => {}
        Ok(Err(m)) => return Err(format!("value {}: {}", v.val.show(), m)),
        Err(_) if prefix_most(e, k).is_none() => {
            return note(false, "needs too much room in another order")
        }
        Err(msg) => {
            return Err(format!(
                "value {}: the first {} symbols are known from {} symbols of the operands, but reading them failed: {}",
                v.val.show(), k, work, msg
            ))
        }
    }
    if used > WORK_PER_SYMBOL / 2 * (work + 4 * e.nodes()) as u64 {
        match prefix_most(e, k) {
            Some(most) if used > WORK_PER_SYMBOL / 2 * (most + 4 * e.nodes()) as u64 => {}
            _ => return note(false, "takes longer in another order"),
        }
        return Err(format!(
            "{} blocks executed for the first {} symbols, which take {} symbols of the operands",
            used, k, work
        ));
    }
    note(
        e.nodes() > 1 && (!ev.safe || ev.work >= 3 * work),
        match (ev.safe, used / (work + 4 * e.nodes()) as u64) {
            (false, _) => "the rest is out of reach",
            (_, 0..=31) => "up to 31 blocks per symbol",
            (_, 32..=63) => "up to 63 blocks per symbol",
            (_, 64..=127) => "up to 127 blocks per symbol",
            _ => "128 blocks per symbol or more",
        },
    )
}

// ---- C19 ----

/// How many times as often the threads repeat their work when a single case is looked at.
pub static PATIENCE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1);

fn gen_c19(g: &mut Gen) -> Case {
    let n = 2 + g.r.below(3);
    let b = g.scale().min(31);
    // close pairs make long comparisons
    let mut ex: Vec<Expr> = if g.r.chance(30) {
        gen_c04(g).ex
    } else {
        Vec::new()
    };
    while (ex.len() as u64) < n {
        if !ex.is_empty() && g.r.chance(30) {
            let near = g.r.pick(&ex).clone();
            ex.push(if g.r.chance(50) {
                near
            } else {
                g.mutate_expr(&near, &ex)
            });
            continue;
        }
        ex.push(match g.r.below(8) {
            0 => g.leaf(b),
            1..=2 => {
                let x = g.operand(b);
                g.hom_over(x, b.min(9), true)
            }
            3..=4 => {
                let (x, y) = (g.operand(b), g.operand(b));
                g.comb_over(x, y, b.min(6), true)
            }
            5 => {
                let x = long_leaf(g);
                long_user(g, x)
            }
            6 => g.chain(6, 8),
            _ => g.tree(2, b.min(5)),
        });
    }
    let aux = vec![4 + g.r.below(28) as i64];
    Case { ex, aux }
}

/// All that can be seen of a number: its symbols, what it is consumed to, how it compares.
#[derive(PartialEq)]
struct Seen {
    head: Option<(bool, i8)>,
    bits: Vec<bool>,
    end: bool,
    consumed: Option<([isize; 4], bool)>,
    order: Option<Ordering>,
}

impl Seen {
    fn show(&self) -> String {
        let bits: String = self.bits.iter().map(|u| if *u { 'u' } else { 'a' }).collect();
        let head = match self.head {
            None => "refused".to_string(),
            Some((true, v)) => format!("special {}", v),
            Some((false, p)) => primer_name(p as u8).to_string(),
        };
        format!(
            "{} {}{} consumed {:?} order {:?}",
            head,
            bits,
            if self.end { "." } else { "" },
            self.consumed,
            self.order
        )
    }
}

const SEEN_SYMBOLS: usize = 200;

fn see(e: &Expr, other: &Expr) -> Seen {
    let mut s = Seen {
        head: None,
        bits: Vec::new(),
        end: false,
        consumed: None,
        order: None,
    };
    let _ = catch_unwind(AssertUnwindSafe(|| match build(e) {
        Number::Special(v) => {
            s.head = Some((true, special_code(&v)));
            s.end = true;
        }
        Number::Other(p, mut clog) => {
            s.head = Some((false, primer_code(&p) as i8));
            while s.bits.len() < SEEN_SYMBOLS {
                match clog.egest() {
                    Some(r) => s.bits.push(r == Reduction::Uncover),
                    None => {
                        s.end = true;
                        break;
                    }
                }
            }
        }
    }));
    let _ = catch_unwind(AssertUnwindSafe(|| {
        let (rest, ny, n, dy, d) = Number::consume(build(e));
        s.consumed = Some(([ny, n, dy, d], rest.is_some()));
    }));
    let _ = catch_unwind(AssertUnwindSafe(|| {
        s.order = Some(Number::compare(build(e), build(other)));
    }));
    s
}

fn check_c19(c: &Case) -> Verdict {
    use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
    let n = c.ex.len();
    let rounds = match c.aux.first() {
        Some(r) if (2..=6).contains(&n) && (1..=64).contains(r) => *r as usize,
        _ => return note(false, "empty"),
    };
    for e in &c.ex {
        match decide(e, 1) {
            Ok(Status::TooBig) => return note(false, "skipped: beyond harness bounds"),
            Ok(_) => {}
            // reported where it belongs
            Err(_) => return note(false, "wrong alone"),
        }
    }
    let mut alone = Vec::new();
    for (i, e) in c.ex.iter().enumerate() {
        match guarded(|| see(e, &c.ex[(i + 1) % n])) {
            Ok(s) => alone.push(s),
            Err(_) => return note(false, "wrong alone"),
        }
    }
    let rounds = rounds * PATIENCE.load(Relaxed);
    let ready = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let wrong = std::sync::Mutex::new(None);
    cov::parallel(true);
    std::thread::scope(|scope| {
        for i in 0..n {
            let (c, alone, ready, stop, wrong) = (&c, &alone, &ready, &stop, &wrong);
            let work = move || {
                ready.fetch_add(1, SeqCst);
                let mut spins = 0;
                while ready.load(SeqCst) < n {
                    spins += 1;
                    if spins % 256 == 0 {
                        std::thread::yield_now();
                    }
                }
                for _ in 0..rounds {
                    if stop.load(Relaxed) {
                        break;
                    }
                    cov::refuel(FUEL);
                    let got = see(&c.ex[i], &c.ex[(i + 1) % n]);
                    if got != alone[i] {
                        stop.store(true, Relaxed);
                        *wrong.lock().unwrap() = Some((i, got));
                    }
                }
                cov::refuel(u64::MAX);
            };
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(scope, work)
                .expect("thread");
        }
    });
    cov::parallel(false);
    if let Some((i, got)) = wrong.into_inner().unwrap() {
        return Err(format!(
            "number {} is another when threads work at the same time: {} instead of {}",
            i,
            got.show(),
            alone[i].show()
        ));
    }
    note(
        c.ex
            .iter()
            .zip(&alone)
            .filter(|(e, s)| e.nodes() > 1 && s.bits.len() >= 2)
            .count()
            >= 2,
        match n {
            2 => "two threads",
            3 => "three threads",
            _ => "four threads or more",
        },
    )
}

pub const PROPS: [Prop; 19] = [
    Prop {
        id: "C01",
        rule: "the fraction is neither -1, 0 nor 1 and takes at least three symbols",
        keep_count: true,
        gen: gen_c01,
        check: check_c01,
        cases: (20_000_000, 200_000_000),
    },
    Prop {
        id: "C02",
        rule: "the operand takes at least two symbols, the coefficients do not reduce the transform to a constant, and the result was read to the end",
        keep_count: true,
        gen: gen_c02,
        check: check_c02,
        cases: (8_000_000, 80_000_000),
    },
    Prop {
        id: "C03",
        rule: "both operands take at least one symbol, the coefficients do not reduce the combination to a constant, and the result was read to the end",
        keep_count: true,
        gen: gen_c03,
        check: check_c03,
        cases: (6_000_000, 60_000_000),
    },
    Prop {
        id: "C04",
        rule: "both numbers have the same primer and either share their first symbol or are equal",
        keep_count: true,
        gen: gen_c04,
        check: check_c04,
        cases: (8_000_000, 80_000_000),
    },
    Prop {
        id: "C05",
        rule: "both programs are different texts for the same value and both were read to the end",
        keep_count: true,
        gen: gen_c05,
        check: check_c05,
        cases: (9_000_000, 90_000_000),
    },
    Prop {
        id: "C06",
        rule: "the sequence belongs to a computed number and was read more than once after its end, or it has more than 40 symbols",
        keep_count: true,
        gen: gen_c06,
        check: check_c06,
        cases: (9_000_000, 90_000_000),
    },
    Prop {
        id: "C07",
        rule: "a denominator is zero, or it is within a few units of zero and the number was accepted",
        keep_count: true,
        gen: gen_c07,
        check: check_c07,
        cases: (9_000_000, 90_000_000),
    },
    Prop {
        id: "C08",
        rule: "the consumed number takes at least three symbols",
        keep_count: true,
        gen: gen_c08,
        check: check_c08,
        cases: (7_000_000, 70_000_000),
    },
    Prop {
        id: "C09",
        rule: "at least two operations are nested and the result, not a special value, was read to the end",
        keep_count: true,
        gen: gen_c09,
        check: check_c09,
        cases: (6_000_000, 60_000_000),
    },
    Prop {
        id: "C10",
        rule: "at least one symbol is read before the number is wrapped again and used by another operation, and the result, not a special value, was read to the end",
        keep_count: true,
        gen: gen_c10,
        check: check_c10,
        cases: (5_000_000, 50_000_000),
    },
    Prop {
        id: "C11",
        rule: "the reference working coefficients leave the safe range: the crate gave up, or was exact at the edge of the range",
        keep_count: true,
        gen: gen_c11,
        check: check_c11,
        cases: (7_000_000, 70_000_000),
    },
    Prop {
        id: "C12",
        rule: "the operation had to succeed, did, and its reference working coefficients take more than 20 bits",
        keep_count: true,
        gen: gen_c12,
        check: check_c12,
        cases: (8_000_000, 80_000_000),
    },
    Prop {
        id: "C13",
        rule: "at least two numbers are alive and reading switches between them at least three times",
        keep_count: false,
        gen: gen_c13,
        check: check_c13,
        cases: (3_000_000, 30_000_000),
    },
    Prop {
        id: "C14",
        rule: "a computed number of at least two symbols was read, consumed and compared",
        keep_count: true,
        gen: gen_c14,
        check: check_c14,
        cases: (6_000_000, 60_000_000),
    },
    Prop {
        id: "C15",
        rule: "both sides of the law were defined and evaluated to the end",
        keep_count: true,
        gen: gen_c15,
        check: check_c15,
        cases: (7_000_000, 70_000_000),
    },
    Prop {
        id: "C16",
        rule: "a computed number, at least eight symbols exchanged in total, was read to the end",
        keep_count: true,
        gen: gen_c16,
        check: check_c16,
        cases: (9_000_000, 90_000_000),
    },
    Prop {
        id: "C17",
        rule: "at least eight symbols of a computed number were read",
        keep_count: true,
        gen: gen_c17,
        check: check_c17,
        cases: (8_000_000, 80_000_000),
    },
    Prop {
        id: "C18",
        rule: "a computed number whose operands have at least three times as many symbols as the part read takes, or whose rest is out of reach",
        keep_count: true,
        gen: gen_c18,
        check: check_c18,
        cases: (8_000_000, 80_000_000),
    },
    Prop {
        id: "C19",
        rule: "at least two threads evaluate a computed number of two symbols or more at the same time",
        keep_count: false,
        gen: gen_c19,
        check: check_c19,
        cases: (60_000, 600_000),
    },
];

pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}
