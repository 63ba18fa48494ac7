//! What the compiler's coverage instrumentation calls, and what was seen, per thread. This crate
//! must not be instrumented itself.

use std::cell::{Cell, UnsafeCell};

/// Guards are numbered from 1; what does not fit shares places.
pub const EDGES: usize = 1 << 16;
/// Room for comparisons: how close the operands at a place in the code came to each other.
pub const CLOSE: usize = 1 << 16;
const PAIRS: usize = 512;

struct Seen {
    map: Vec<u8>,
    touched: Vec<u32>,
    pairs: Vec<(u64, u64)>,
    turn: usize,
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static SEEN: UnsafeCell<Seen> = const { UnsafeCell::new(Seen { map: Vec::new(), touched: Vec::new(), pairs: Vec::new(), turn: 0 }) };
}

/// Starts to look at this thread.
pub fn arm() {
    SEEN.with(|s| {
        let s = unsafe { &mut *s.get() };
        s.map = vec![0; EDGES + CLOSE];
        s.touched = Vec::with_capacity(EDGES + CLOSE);
        s.pairs = Vec::with_capacity(PAIRS);
    });
    ARMED.with(|a| a.set(true));
}
pub fn disarm() {
    ARMED.with(|a| a.set(false));
    ON.with(|o| o.set(false));
}
/// Only what runs between `enter` and `leave` counts.
#[inline]
pub fn enter() {
    if ARMED.with(|a| a.get()) {
        ON.with(|o| o.set(true));
    }
}
#[inline]
pub fn leave() {
    ON.with(|o| o.set(false));
}
/// Hands over what was seen since the last call, as numbers that stand for a place in the code and
/// how often it was reached, or for a comparison and how close it came; and forgets it.
pub fn take(mut each: impl FnMut(u32)) {
    SEEN.with(|s| {
        let s = unsafe { &mut *s.get() };
        for i in s.touched.drain(..) {
            let n = std::mem::take(&mut s.map[i as usize]);
            if (i as usize) < EDGES {
                let bucket = match n {
                    0..=3 => n as u32 - 1,
                    4..=7 => 3,
                    8..=15 => 4,
                    16..=31 => 5,
                    32..=127 => 6,
                    _ => 7,
                };
                each(i * 8 + bucket);
            } else {
                each(i * 8);
            }
        }
    })
}
/// Numbers that were compared and found different.
pub fn pairs(f: impl FnOnce(&[(u64, u64)])) {
    SEEN.with(|s| {
        let s = unsafe { &mut *s.get() };
        f(&s.pairs);
        s.pairs.clear();
    })
}

#[inline]
fn hit(i: usize) {
    let _ = SEEN.try_with(|s| {
        let s = unsafe { &mut *s.get() };
        let c = &mut s.map[i];
        if *c == 0 {
            s.touched.push(i as u32);
        }
        *c = c.saturating_add(1);
    });
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut start: *mut u32, stop: *mut u32) {
    static NEXT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    if start == stop || *start != 0 {
        return;
    }
    while start < stop {
        *start = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % (EDGES as u32 - 1) + 1;
        start = start.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if ON.try_with(|o| o.get()) == Ok(true) {
        hit(*guard as usize);
    }
}

fn compared(a: u64, b: u64, at: u64) {
    let place = (at.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 54) as usize;
    // the number of equal bits
    let near = 64 - (a ^ b).count_ones() as usize;
    hit(EDGES + (place * 64 + near.min(63)) % CLOSE);
    if a != b {
        let _ = SEEN.try_with(|s| {
            let s = unsafe { &mut *s.get() };
            if s.pairs.len() < PAIRS {
                s.pairs.push((a, b));
            } else {
                s.turn = (s.turn + 1) % PAIRS;
                let t = s.turn;
                s.pairs[t] = (a, b);
            }
        });
    }
}
#[no_mangle]
extern "C" fn cov_cmp1(a: u8, b: u8, at: u64) {
    if ON.try_with(|o| o.get()) == Ok(true) {
        compared(a as u64, b as u64, at)
    }
}
#[no_mangle]
extern "C" fn cov_cmp2(a: u16, b: u16, at: u64) {
    if ON.try_with(|o| o.get()) == Ok(true) {
        compared(a as u64, b as u64, at)
    }
}
#[no_mangle]
extern "C" fn cov_cmp4(a: u32, b: u32, at: u64) {
    if ON.try_with(|o| o.get()) == Ok(true) {
        compared(a as u64, b as u64, at)
    }
}
#[no_mangle]
extern "C" fn cov_cmp8(a: u64, b: u64, at: u64) {
    if ON.try_with(|o| o.get()) == Ok(true) {
        compared(a, b, at)
    }
}
macro_rules! with_place {
    ($($name:ident $to:ident)*) => {$(
        /// Adds the place in the code that calls.
        #[no_mangle]
        #[unsafe(naked)]
        pub extern "C" fn $name() {
            std::arch::naked_asm!("mov rdx, [rsp]", concat!("jmp ", stringify!($to)))
        }
    )*};
}
with_place! {
    __sanitizer_cov_trace_cmp1 cov_cmp1
    __sanitizer_cov_trace_cmp2 cov_cmp2
    __sanitizer_cov_trace_cmp4 cov_cmp4
    __sanitizer_cov_trace_cmp8 cov_cmp8
    __sanitizer_cov_trace_const_cmp1 cov_cmp1
    __sanitizer_cov_trace_const_cmp2 cov_cmp2
    __sanitizer_cov_trace_const_cmp4 cov_cmp4
    __sanitizer_cov_trace_const_cmp8 cov_cmp8
}
/// `cases` holds their number, the width, and the values.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(v: u64, cases: *const u64) {
    if ON.try_with(|o| o.get()) == Ok(true) {
        let n = *cases as usize;
        // dense switches, on opcodes for example, are covered by their edges
        if n <= 16 {
            for i in 0..n {
                compared(*cases.add(2 + i), v, cases as u64 + i as u64);
            }
        }
    }
}
