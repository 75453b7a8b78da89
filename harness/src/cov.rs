//! Callbacks for the sanitizer-coverage instrumentation of the crate under test.
//!
//! Everything here is a deterministic function of the executed code: block counts give a work limit
//! that does not depend on machine speed, edge counts give coverage feedback, and constants found in
//! comparisons feed the integer generator.

#![allow(static_mut_refs)]

use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

pub const MAX_GUARDS: usize = 1 << 16;
pub const EXIT_FUEL: i32 = 97;

struct Shared<T>(UnsafeCell<T>);
// While it is armed the harness runs the crate under test on one thread only.
unsafe impl<T> Sync for Shared<T> {}

struct State {
    armed: bool,
    fuel: u64,
    used: u64,
    guards: u32,
    counts: [u32; MAX_GUARDS],
    touched: [u32; MAX_GUARDS],
    ntouched: usize,
    seen: [u8; MAX_GUARDS],
    dict: [i64; 256],
    ndict: usize,
}

static ST: Shared<State> = Shared(UnsafeCell::new(State {
    armed: false,
    fuel: 0,
    used: 0,
    guards: 0,
    counts: [0; MAX_GUARDS],
    touched: [0; MAX_GUARDS],
    ntouched: 0,
    seen: [0; MAX_GUARDS],
    dict: [0; 256],
    ndict: 0,
}));

#[inline(always)]
fn st() -> &'static mut State {
    unsafe { &mut *ST.0.get() }
}

extern "C" {
    fn _exit(code: i32) -> !;
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    unsafe {
        if start == stop || *start != 0 {
            return;
        }
        let mut p = start;
        while p < stop {
            let s = st();
            s.guards = (s.guards + 1).min(MAX_GUARDS as u32 - 1);
            *p = s.guards;
            p = p.add(1);
        }
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let s = st();
    if !s.armed {
        if PARALLEL.load(Relaxed) {
            spend();
        }
        return;
    }
    let g = unsafe { *guard } as usize;
    let c = &mut s.counts[g];
    if *c == 0 {
        s.touched[s.ntouched] = g as u32;
        s.ntouched += 1;
    }
    *c = c.wrapping_add(1).max(1);
    s.used += 1;
    if s.used > s.fuel {
        unsafe { _exit(EXIT_FUEL) }
    }
}

/// Set while several threads run the crate under test; nothing but their fuel is counted then.
static PARALLEL: AtomicBool = AtomicBool::new(false);

thread_local! {
    static LEFT: Cell<u64> = const { Cell::new(u64::MAX) };
}

#[cold]
fn spend() {
    let left = LEFT.with(|l| {
        l.set(l.get() - 1);
        l.get()
    });
    if left == 0 {
        unsafe { _exit(EXIT_FUEL) }
    }
}

pub fn parallel(on: bool) {
    PARALLEL.store(on, Relaxed);
}

/// Allow this thread `fuel` blocks while several threads run.
pub fn refuel(fuel: u64) {
    LEFT.with(|l| l.set(fuel));
}

fn note(c: i64) {
    let s = st();
    if !s.armed || (-8..=8).contains(&c) || s.ndict == s.dict.len() {
        return;
    }
    if !s.dict[..s.ndict].contains(&c) {
        s.dict[s.ndict] = c;
        s.ndict += 1;
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp1(_: u8, _: u8) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp2(_: u16, _: u16) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp4(_: u32, _: u32) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp8(_: u64, _: u64) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp1(_: u8, _: u8) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp2(c: u16, _: u16) {
    note(c as i16 as i64);
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp4(c: u32, _: u32) {
    note(c as i32 as i64);
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp8(c: u64, _: u64) {
    note(c as i64);
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_switch(_: u64, cases: *const u64) {
    unsafe {
        let n = *cases as usize;
        for i in 0..n.min(16) {
            note(*cases.add(2 + i) as i64);
        }
    }
}

/// Allow `fuel` more blocks; beyond that the process exits with EXIT_FUEL.
pub fn arm(fuel: u64) {
    let s = st();
    s.fuel = s.used + fuel;
    s.armed = true;
}

pub fn disarm() {
    st().armed = false;
}

pub fn used() -> u64 {
    st().used
}

pub fn guards() -> u32 {
    st().guards
}

pub fn dict() -> &'static [i64] {
    let s = st();
    &s.dict[..s.ndict]
}

pub fn reset_case() {
    let s = st();
    for i in 0..s.ntouched {
        s.counts[s.touched[i] as usize] = 0;
    }
    s.ntouched = 0;
    s.used = 0;
}

/// Fold the counts of this case into the seen map; true if it did something new.
pub fn absorb() -> bool {
    let s = st();
    let mut new = false;
    for i in 0..s.ntouched {
        let g = s.touched[i] as usize;
        let b = match s.counts[g] {
            0 => 0,
            1 => 1,
            2..=3 => 2,
            4..=7 => 4,
            8..=15 => 8,
            16..=31 => 16,
            32..=127 => 32,
            128..=511 => 64,
            _ => 128,
        };
        if s.seen[g] & b == 0 {
            s.seen[g] |= b;
            new = true;
        }
    }
    new
}

pub fn edges_seen() -> usize {
    let s = st();
    s.seen.iter().filter(|b| **b != 0).count()
}

pub fn seen_bytes() -> Vec<u8> {
    let s = st();
    s.seen[..=(s.guards as usize)].to_vec()
}
