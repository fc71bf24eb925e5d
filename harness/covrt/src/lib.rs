//! What the instrumented build reports: edge counters and the operands of comparisons.
//!
//! The instrumented build passes LLVM's sanitizer coverage to rustc for the library under
//! test and for the checker. These are the callbacks it needs. They are in a crate of their
//! own because that must not be instrumented itself. In the plain build nobody calls them.
use std::sync::atomic::{AtomicPtr, AtomicU64, AtomicUsize, Ordering::Relaxed};

static START: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static STOP: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    if START.load(Relaxed).is_null() {
        START.store(start, Relaxed);
        STOP.store(stop, Relaxed);
    }
}

/// True in the instrumented build.
pub fn instrumented() -> bool {
    !START.load(Relaxed).is_null()
}

/// The counters of all the edges.
#[allow(clippy::mut_from_ref)]
pub fn counters() -> &'static mut [u8] {
    let (a, b) = (START.load(Relaxed), STOP.load(Relaxed));
    if a.is_null() {
        return &mut [];
    }
    // The counters are changed by the instrumented code while this slice exists. The reads
    // and writes are of single bytes or words and any value is fine.
    unsafe { std::slice::from_raw_parts_mut(a, b as usize - a as usize) }
}

pub const RING: usize = 256;
pub const BITS: usize = 1 << 18;
static PAIRS: [[AtomicU64; 2]; RING] = [const { [const { AtomicU64::new(0) }; 2] }; RING];
static NEXT: AtomicUsize = AtomicUsize::new(0);
/// Features of comparisons (site and how many leading bits agree) not seen before.
static SEEN: [AtomicU64; BITS / 64] = [const { AtomicU64::new(0) }; BITS / 64];
static FRESH: AtomicUsize = AtomicUsize::new(0);

fn note(a: u64, b: u64, pc: u64) {
    if a == b || pc == 0 {
        // Equal operands tell nothing to try, but they are the best distance.
    } else {
        let i = NEXT.load(Relaxed);
        NEXT.store(i.wrapping_add(1), Relaxed);
        let p = &PAIRS[i % RING];
        p[0].store(a, Relaxed);
        p[1].store(b, Relaxed);
    }
    let h = (pc.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40) as usize + (a ^ b).leading_zeros() as usize;
    let h = h % BITS;
    let m = 1u64 << (h % 64);
    let w = &SEEN[h / 64];
    let v = w.load(Relaxed);
    if v & m == 0 {
        w.store(v | m, Relaxed);
        FRESH.store(FRESH.load(Relaxed) + 1, Relaxed);
    }
}

extern "C" fn cmp1(a: u8, b: u8, pc: u64) {
    note(a as u64, b as u64, pc)
}
extern "C" fn cmp2(a: u16, b: u16, pc: u64) {
    note(a as u64, b as u64, pc)
}
extern "C" fn cmp4(a: u32, b: u32, pc: u64) {
    note(a as u64, b as u64, pc)
}
extern "C" fn cmp8(a: u64, b: u64, pc: u64) {
    note(a, b, pc)
}
extern "C" fn switch(v: u64, cases: *const u64, pc: u64) {
    // cases[0] is the number of cases and cases[1] the size of the value.
    let n = unsafe { *cases } as usize;
    for i in 0..n.min(64) {
        note(v, unsafe { *cases.add(2 + i) }, pc.wrapping_add(i as u64 + 1))
    }
}

macro_rules! hook {
    ($name:ident, $f:ident) => {
        /// Passes its return address as the third argument.
        #[unsafe(naked)]
        #[no_mangle]
        pub extern "C" fn $name() {
            core::arch::naked_asm!("mov rdx, [rsp]", "jmp {f}", f = sym $f)
        }
    };
}
hook!(__sanitizer_cov_trace_cmp1, cmp1);
hook!(__sanitizer_cov_trace_cmp2, cmp2);
hook!(__sanitizer_cov_trace_cmp4, cmp4);
hook!(__sanitizer_cov_trace_cmp8, cmp8);
hook!(__sanitizer_cov_trace_const_cmp1, cmp1);
hook!(__sanitizer_cov_trace_const_cmp2, cmp2);
hook!(__sanitizer_cov_trace_const_cmp4, cmp4);
hook!(__sanitizer_cov_trace_const_cmp8, cmp8);
hook!(__sanitizer_cov_trace_switch, switch);

/// The number of features of comparisons first seen since the last call.
pub fn take_fresh() -> usize {
    let n = FRESH.load(Relaxed);
    FRESH.store(0, Relaxed);
    n
}

/// One of the last pairs of different operands compared.
pub fn pair(r: u64) -> (u64, u64) {
    let n = NEXT.load(Relaxed).clamp(1, RING);
    let p = &PAIRS[r as usize % n];
    (p[0].load(Relaxed), p[1].load(Relaxed))
}
